// C17: objects configured from a property tree have the values of the tree and refuse trees that lack one.
#include <Eigen/Dense>
#include <fstream>
#include <iostream>
#include "common.hpp"
#include "camera_common.hpp"
#include <unistd.h>
#include <opencv2/highgui/highgui.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
using namespace vf; using namespace aslam::cameras;
typedef std::map<std::string, std::string> Cfg;   // key -> value as text; integers are written as integers
static std::string dtext(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static sm::BoostPropertyTree tree(const Cfg& c, const std::string& base, const std::string& without = "") { sm::BoostPropertyTree t; for (auto& k : c) if (k.first != without) t.setString("/" + base + k.first, k.second); return t; }
template <class P> struct Keys; template <class D> struct Keys<PinholeProjection<D>> { static std::vector<std::string> k() { return {}; } }; template <class D> struct Keys<OmniProjection<D>> { static std::vector<std::string> k() { return {"xi"}; } }; template <class D> struct Keys<ExtendedUnifiedProjection<D>> { static std::vector<std::string> k() { return {"alpha", "beta"}; } }; template <class D> struct Keys<DoubleSphereProjection<D>> { static std::vector<std::string> k() { return {"xi", "alpha"}; } };
template <class D> static std::vector<std::string> dk() { return {"k1", "k2", "k3", "k4"}; } template <> std::vector<std::string> dk<RadialTangentialDistortion>() { return {"k1", "k2", "p1", "p2"}; } template <> std::vector<std::string> dk<FovDistortion>() { return {"w"}; } template <> std::vector<std::string> dk<NoDistortion>() { return {}; }
static bool maskOk(const NoMask&, const cv::Mat&) { return true; } static bool maskOk(const ImageMask& m, const cv::Mat& i) { cv::Mat x = m.getMask(); if (x.size() != i.size() || x.type() != i.type()) return false; for (int r = 0; r < i.rows; ++r) for (int c = 0; c < i.cols; ++c) if (x.at<uchar>(r, c) != i.at<uchar>(r, c)) return false; return true; }
static double delay(const GlobalShutter&) { return 0; } static double delay(const RollingShutter& s) { return s.lineDelay(); }
template <class C> static void one(Rng& g, const std::string& type) {
  typedef typename C::projection_t P; typedef cam::Model<P> M; typedef typename P::distortion_t D; M m = M::gen(g); Cfg c; c["type"] = type; std::vector<std::string> pk = Keys<P>::k(), d = dk<D>(); for (const char* k : {"fu", "fv", "cu", "cv"}) pk.push_back(k);
  for (size_t k = 0; k < pk.size(); ++k) c["projection/" + pk[k]] = dtext(m.t[k]); for (size_t k = 0; k < d.size(); ++k) c["projection/distortion/" + d[k]] = dtext(m.d[k]); c["projection/ru"] = std::to_string(m.w); c["projection/rv"] = std::to_string(m.h);
  bool rs = std::is_same<typename C::shutter_t, RollingShutter>::value, mk = std::is_same<typename C::mask_t, ImageMask>::value; double ld = g.u(-1e-3, 1e-3); cv::Mat img(g.i(1, 20), g.i(1, 20), CV_8UC1); for (int r = 0; r < img.rows; ++r) for (int q = 0; q < img.cols; ++q) img.at<uchar>(r, q) = uchar(g.i(0, 255)); std::string f = scratch() + "/mask.png";
  if (rs) c["shutter/line-delay"] = dtext(ld); if (mk) { cv::imwrite(f, img); c["mask/mask-file"] = f; }
  std::string base = g.pick(std::vector<std::string>{"", "cam0/", "a/b/"}), key = "C17.config." + type;
  std::string why; try { sm::BoostPropertyTree t = tree(c, base); sm::PropertyTree sub(t, base); boost::shared_ptr<CameraGeometryBase> b = CameraGeometryBase::create(sub); C* x = dynamic_cast<C*>(b.get()); if (!x) why = "has another type"; else {
      P want = m.make(); if (!x->projection().isBinaryEqual(want)) why += " another projection"; Eigen::MatrixXd p; x->projection().getParameters(p); for (int k = 0; k < m.t.size(); ++k) if (p.rows() != m.t.size() || p(k, 0) != m.t[k]) { why += " parameter " + std::to_string(k); break; } if (m.d.size()) { x->projection().distortion().getParameters(p); for (int k = 0; k < m.d.size(); ++k) if (p.rows() != m.d.size() || p(k, 0) != m.d[k]) why += " distortion parameter " + std::to_string(k); } if (int(x->width()) != m.w || int(x->height()) != m.h) why += " size"; if (rs && delay(x->shutter()) != ld) why += " line delay"; if (!maskOk(x->mask(), img)) why += " mask";
      for (int k = 0; k < 5; ++k) { Eigen::Vector3d pt = m.point(g); Eigen::VectorXd u; Eigen::Vector2d w2(0, 0); bool v1 = b->vsEuclideanToKeypoint(pt, u), v2 = want.euclideanToKeypoint(pt, w2); if (v2 && (!mk) && (v1 != v2 || (u - w2).norm() > 0)) why += " projects differently"; } } }
  catch (const std::exception& e) { why = std::string("threw ") + e.what(); }
  mon().check(key, why.empty(), "configured camera " + m.str() + ":" + why);
  Cfg::iterator it = c.begin(); std::advance(it, g.i(0, int(c.size()) - 1)); std::string w = it->first; expectThrow(key + ".missing", [&] { sm::BoostPropertyTree t = tree(c, base, w); CameraGeometryBase::create(sm::PropertyTree(t, base)); }, "a configuration without " + w);
  Cfg bad = c; bad[w] = w == "type" ? g.pick(std::vector<std::string>{"", "pinhole", type + "X", " " + type, "Unknown"}) : "notANumber"; if (w != "mask/mask-file") expectThrow(key + ".illTyped", [&] { sm::BoostPropertyTree t = tree(bad, base); CameraGeometryBase::create(sm::PropertyTree(t, base)); }, "a configuration with " + w + "=" + bad[w]);
  if (mk) unlink(f.c_str()); mon().evaluation(hmix(m.hash(), fnv(type))); mon().tag(type);
}
typedef void (*Fn)(Rng&, const std::string&);
template <class P> static void kinds(std::vector<std::pair<std::string, Fn>>& v, const std::string& n) { v.push_back({n, &one<CameraGeometry<P, GlobalShutter, NoMask>>}); v.push_back({n + "Rs", &one<CameraGeometry<P, RollingShutter, NoMask>>}); v.push_back({"Masked" + n, &one<CameraGeometry<P, GlobalShutter, ImageMask>>}); v.push_back({"Masked" + n + "Rs", &one<CameraGeometry<P, RollingShutter, ImageMask>>}); }
VF_GROUP(cameras, 168, 8000) {
  static std::vector<std::pair<std::string, Fn>> v; if (v.empty()) { kinds<PinholeProjection<NoDistortion>>(v, "Pinhole"); kinds<PinholeProjection<RadialTangentialDistortion>>(v, "DistortedPinhole"); kinds<PinholeProjection<EquidistantDistortion>>(v, "EquidistantDistortedPinhole"); kinds<OmniProjection<NoDistortion>>(v, "Omni"); kinds<OmniProjection<RadialTangentialDistortion>>(v, "DistortedOmni"); kinds<OmniProjection<EquidistantDistortion>>(v, "EquidistantDistortedOmni"); v.push_back({"FovDistortedPinhole", &one<CameraGeometry<PinholeProjection<FovDistortion>, GlobalShutter, NoMask>>}); v.push_back({"ExtendedUnified", &one<CameraGeometry<ExtendedUnifiedProjection<NoDistortion>, GlobalShutter, NoMask>>}); v.push_back({"DoubleSphere", &one<CameraGeometry<DoubleSphereProjection<NoDistortion>, GlobalShutter, NoMask>>}); }
  auto& k = v[caseno % v.size()]; k.second(rng, k.first);
}
VF_GROUP(optimizers, 60, 2000) {
  using namespace aslam::backend; sm::BoostPropertyTree t; Optimizer2Options d, w; auto h = [&] { return rng.b(0.6); };
  if (h()) { w.convergenceDeltaJ = rng.u(); t.setDouble("o/convergenceDeltaJ", w.convergenceDeltaJ); } if (h()) { w.convergenceDeltaX = rng.u(); t.setDouble("o/convergenceDeltaX", w.convergenceDeltaX); } if (h()) { w.maxIterations = rng.i(1, 99); t.setInt("o/maxIterations", w.maxIterations); } if (h()) { w.doSchurComplement = rng.b(0.5); t.setBool("o/doSchurComplement", w.doSchurComplement); } if (h()) { w.verbose = rng.b(0.5); t.setBool("o/verbose", w.verbose); } if (h()) { w.linearSolverMaximumFails = rng.i(0, 9); t.setInt("o/linearSolverMaximumFails", w.linearSolverMaximumFails); } if (h()) { w.nThreads = rng.i(1, 8); t.setInt("o/nThreads", w.nThreads); }
  SparseQRLinearSolverOptions q; if (h()) { q.colNorm = rng.b(0.5); t.setBool("q/colNorm", q.colNorm); } if (h()) { q.qrTol = rng.u(); t.setDouble("q/qrTol", q.qrTol); } if (h()) { q.normTol = rng.u(); t.setDouble("q/normTol", q.normTol); } if (h()) { q.verbose = rng.b(0.5); t.setBool("q/verbose", q.verbose); }
  boost::shared_ptr<SparseQrLinearSystemSolver> s(new SparseQrLinearSystemSolver(sm::PropertyTree(t, "q"))); boost::shared_ptr<TrustRegionPolicy> p(new DogLegTrustRegionPolicy()); Optimizer2 o(sm::PropertyTree(t, "o"), s, p); const Optimizer2Options& x = o.options();
  mon().check("C17.config.optimizer", x.convergenceDeltaJ == w.convergenceDeltaJ && x.convergenceDeltaX == w.convergenceDeltaX && x.maxIterations == w.maxIterations && x.doSchurComplement == w.doSchurComplement && x.verbose == w.verbose && x.linearSolverMaximumFails == w.linearSolverMaximumFails && x.nThreads == w.nThreads && x.linearSystemSolver == s && x.trustRegionPolicy == p, "optimizer options from a property tree");
  const SparseQRLinearSolverOptions& y = s->getOptions(); mon().check("C17.config.sparseQr", y.colNorm == q.colNorm && y.qrTol == q.qrTol && y.normTol == q.normTol && y.verbose == q.verbose, "SPQR options from a property tree");
  mon().evaluation(fnv(dtext(w.convergenceDeltaJ + w.convergenceDeltaX + q.qrTol) + std::to_string(w.maxIterations * 100 + w.nThreads)));
}
