// C19: target geometry, observations, grid detector, pose and intrinsics from observed corners.
#include <Eigen/Dense>
#include "camera_common.hpp"
#include <aslam_cameras/targets.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <aslam_cv_backend/GridCalibrationTargetDesignVariableContainer.hpp>
#include <opencv2/imgproc/imgproc.hpp>
VF_MAIN
using namespace vf; using namespace aslam::cameras; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
static std::pair<GridCalibrationTargetBase::Ptr, std::vector<V3>> target(Rng& r, int kind, int rows, int cols, std::string& how) {
  std::vector<V3> p; double s = std::exp(r.u(-4, 1)), s2 = std::exp(r.u(-4, 1)); GridCalibrationTargetBase::Ptr t;
  if (kind == 0) { t.reset(new GridCalibrationTargetCheckerboard(rows, cols, s, s2)); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) p.push_back(V3(i * s, j * s2, 0)); }
  if (kind == 1) { t.reset(new GridCalibrationTargetCirclegrid(rows, cols, s)); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) p.push_back(V3(i * s, j * s, 0)); }
  if (kind == 2) { GridCalibrationTargetCirclegrid::CirclegridOptions o; o.useAsymmetricCirclegrid = true; t.reset(new GridCalibrationTargetCirclegrid(rows, cols, s, o)); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) p.push_back(V3((2 * j + i % 2) * s, i * s, 0)); }
  if (kind == 3) { rows = (rows + 1) / 2; cols = (cols + 1) / 2; double sp = r.u(0.05, 1.5); t.reset(new GridCalibrationTargetAprilgrid(rows, cols, s, sp)); for (int i = 0; i < 2 * rows; ++i) for (int j = 0; j < 2 * cols; ++j) p.push_back(V3((j / 2) * (s + sp * s) + (j % 2) * s, (i / 2) * (s + sp * s) + (i % 2) * s, 0)); rows *= 2; cols *= 2; }
  how = "target kind " + std::to_string(kind) + " " + std::to_string(rows) + "x" + std::to_string(cols); mon().check("C19.geometry/size", t->rows() == (size_t)rows && t->cols() == (size_t)cols && t->size() == p.size(), how); return {t, p};
}
VF_GROUP(geometry, 250, 6000) {
  auto& m = mon(); std::string how; auto tp = target(rng, rng.i(0, 3), rng.i(1, 9), rng.i(1, 9), how); auto t = tp.first; auto& p = tp.second; double big = 0; for (auto& x : p) big = std::max(big, x.norm());
  Eigen::MatrixXd all = t->points(); m.check("C19.geometry/points-shape", all.rows() == (int)p.size() && all.cols() == 3, how); if (all.rows() != (int)p.size() || all.cols() != 3) return; std::set<std::pair<size_t, size_t>> seen; uint64_t h = 0;
  for (size_t i = 0; i < p.size(); ++i) { auto rc = t->pointToGridCoordinates(i); m.check("C19.geometry/grid", rc.first < t->rows() && rc.second < t->cols() && rc.first == i / t->cols() && seen.insert(rc).second && t->gridCoordinatesToPoint(rc.first, rc.second) == i, how); m.near("C19.geometry/point", t->point(i), p[i], 1e-12 * (1 + big), how); m.check("C19.geometry/row", V3(all.row(i)) == t->point(i) && t->gridPoint(rc.first, rc.second) == t->point(i), how); const double* d = t->getPointDataPointer(i); m.check("C19.geometry/data", V3(d[0], d[1], d[2]) == t->point(i), how); h = hmix(h, hashm(p[i])); }
  expectThrow("C19.geometry/data-range", [&] { t->getPointDataPointer(t->size() + rng.i(0, 3)); }, how);
  { bool act = rng.b(); aslam::GridCalibrationTargetDesignVariableContainer c(t, act); m.check("C19.container/target", c.getTarget() == t, how); aslam::backend::DesignVariable::set_t s; c.getDesignVariables(s); m.check("C19.container/count", s.size() == p.size(), how); std::vector<bool> a(p.size(), act); for (int k = 0; k < 10; ++k) { size_t i = rng.i(0, p.size() - 1); a[i] = rng.b(); c.setPointActive(i, a[i]); } size_t na = 0; for (auto* d : s) na += d->isActive(); m.check("C19.container/active", na == (size_t)std::count(a.begin(), a.end(), true), how);
    for (size_t i = 0; i < p.size(); ++i) { m.check("C19.container/active-one", c.isPointActive(i) == a[i], how); m.check("C19.container/point", c.getPoint(i).toEuclidean() == t->point(i), how); }
    size_t i = rng.i(0, p.size() - 1); aslam::backend::DesignVariable::set_t one; c.getPoint(i).getDesignVariables(one); m.check("C19.container/variable", one.size() == 1 && s.count(*one.begin()), how); if (one.size() == 1) { V3 d = rng.gvec(3), before = t->point(i); (*one.begin())->update(d.data(), 3); m.near("C19.container/update", t->point(i), V3(before + d), 1e-12 * (1 + big + d.norm()), how); m.check("C19.container/update-expression", c.getPoint(i).toEuclidean() == t->point(i), how); for (size_t j = 0; j < p.size(); ++j) if (j != i) m.check("C19.container/others", t->point(j) == V3(all.row(j)), how); (*one.begin())->revertUpdate(); m.near("C19.container/revert", t->point(i), before, 1e-12 * (1 + big), how); }
    expectThrow("C19.container/range", [&] { c.setPointActive(p.size(), true); }, how); expectThrow("C19.container/range", [&] { c.isPointActive(p.size() + 2); }, how); expectThrow("C19.container/range", [&] { c.getPoint(p.size()); }, how); }
  for (double bad : {0.0, -1.0}) { expectThrow("C19.geometry/spacing", [&] { GridCalibrationTargetCheckerboard x(3, 3, bad, 1); }, how); expectThrow("C19.geometry/spacing", [&] { GridCalibrationTargetCheckerboard x(3, 3, 1, bad); }, how); expectThrow("C19.geometry/spacing", [&] { GridCalibrationTargetCirclegrid x(3, 3, bad); }, how); expectThrow("C19.geometry/spacing", [&] { GridCalibrationTargetAprilgrid x(2, 2, bad, 1); }, how); expectThrow("C19.geometry/spacing", [&] { GridCalibrationTargetAprilgrid x(2, 2, 1, bad); }, how); }
  m.evaluation(h);
}
// observations against a reference map
VF_GROUP(observation, 300, 8000) {
  auto& m = mon(); std::string how; auto tp = target(rng, rng.i(0, 3), rng.i(1, 6), rng.i(1, 6), how); auto t = tp.first; size_t n = t->size(); std::unique_ptr<GridCalibrationTargetObservation> o; cv::Mat img(rng.i(1, 20), rng.i(1, 20), CV_8UC1, cv::Scalar(rng.i(0, 255))); unsigned ir = 0, ic = 0; bool hasImg = false; if (rng.b()) { o.reset(new GridCalibrationTargetObservation(t, img)); ir = img.rows; ic = img.cols; hasImg = true; } else o.reset(new GridCalibrationTargetObservation(t));
  std::map<size_t, V2> ref; aslam::Time stamp(0, 0); bool timed = false, posed = false; Eigen::Matrix4d T; uint64_t h = n; int steps = rng.i(1, 60);
  for (int s = 0; s < steps; ++s) { switch (rng.i(0, 11)) {
      case 0: case 1: case 2: case 3: { size_t i = rng.i(0, n - 1); V2 v = rng.gvec(2) * 100; o->updateImagePoint(i, v); ref[i] = v; h = hmix(h, hashm(v)); break; }
      case 4: case 5: { size_t i = rng.i(0, n - 1); o->removeImagePoint(i); ref.erase(i); break; }
      case 6: if (rng.b(0.2)) { std::string h2; tp = target(rng, rng.i(0, 3), rng.i(1, 6), rng.i(1, 6), h2); t = tp.first; n = t->size(); o->setTarget(t); ref.clear(); } break;
      case 7: { cv::Mat im(rng.i(1, 30), rng.i(1, 30), CV_8UC1, cv::Scalar(0)); o->setImage(im); ir = im.rows; ic = im.cols; hasImg = true; break; }
      case 8: o->clearImage(); hasImg = false; break;
      case 9: stamp = aslam::Time(rng.i(0, 100000), rng.i(0, 999999999)); timed = true; o->setTime(stamp); break;
      case 10: { V3 w = rng.gvec(3); T.setIdentity(); T.topLeftCorner<3, 3>() = Eigen::AngleAxisd(w.norm(), w.normalized()).toRotationMatrix(); T.topRightCorner<3, 1>() = rng.gvec(3); posed = true; o->set_T_t_c(sm::kinematics::Transformation(T)); break; }
      case 11: { size_t bad = n + rng.i(0, 3); V2 v; expectThrow("C19.observation/range", [&] { o->updateImagePoint(bad, v); }, how); expectThrow("C19.observation/range", [&] { o->removeImagePoint(bad); }, how); expectThrow("C19.observation/range", [&] { o->imagePoint(bad, v); }, how); expectThrow("C19.observation/null", [&] { o->setTarget(GridCalibrationTargetBase::Ptr()); }, how); break; } }
    if (s % 5 && s + 1 != steps) continue;
    m.check("C19.observation/target", o->target() == t, how); m.check("C19.observation/any", o->hasSuccessfulObservation() == !ref.empty(), how); m.check("C19.observation/image", o->image().empty() == !hasImg && o->imRows() == ir && o->imCols() == ic, how); if (timed) m.check("C19.observation/time", o->time() == stamp, how); if (posed) m.near("C19.observation/pose", o->T_t_c().T(), T, 1e-12 * (1 + T.norm()), how);
    std::vector<cv::Point2f> a; std::vector<cv::Point3f> b; std::vector<unsigned> c; unsigned na = o->getCornersImageFrame(a), nb = o->getCornersTargetFrame(b), nc = o->getCornersIdx(c); m.check("C19.observation/counts", na == ref.size() && nb == na && nc == na && a.size() == na && b.size() == na && c.size() == na, how); if (a.size() != ref.size() || b.size() != ref.size() || c.size() != ref.size()) return; size_t k = 0;
    for (auto& x : ref) { m.check("C19.observation/order", c[k] == x.first, how); m.check("C19.observation/corner", a[k].x == (float)x.second[0] && a[k].y == (float)x.second[1], how); V3 q = t->point(x.first); m.check("C19.observation/target-corner", b[k].x == (float)q[0] && b[k].y == (float)q[1] && b[k].z == 0, how); ++k; }
    for (size_t i = 0; i < n; ++i) { V2 v, w; bool g = o->imagePoint(i, v), g2 = o->imageGridPoint(i / t->cols(), i % t->cols(), w); m.check("C19.observation/observed", g == (ref.count(i) > 0) && g2 == g, how); if (g) m.check("C19.observation/value", v == ref[i] && w == v, how); } }
  m.evaluation(h);
}
// a target whose detector is driven by the harness: the image's first pixel names the view
struct Fake : GridCalibrationTargetBase {
  std::vector<std::map<size_t, V2>> views; std::vector<bool> ok; double s; bool sweep = false;
  Fake(size_t r, size_t c, double sx, double sy) : GridCalibrationTargetBase(r, c), s(sx) { _points.resize(r * c, 3); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) _points.row(i * c + j) << j * sx, i * sy, 0; }
  bool computeObservation(const cv::Mat& im, Eigen::MatrixXd& out, std::vector<bool>& seen) const override { int k = im.at<unsigned char>(0, 0); if (!ok[k]) return false; out = Eigen::MatrixXd::Constant(size(), 2, -1e3); seen.assign(size(), false); for (auto& x : views[k]) { out.row(x.first) = x.second; seen[x.first] = true; } return true; }
};
static cv::Mat view(int k, int w, int h) { cv::Mat im(h, w, CV_8UC1, cv::Scalar(0)); im.at<unsigned char>(0, 0) = k; return im; }
static Eigen::Matrix4d lookAt(Rng& r, const V3& centre, double dist, double tilt, double off) {   // T_t_c of a camera looking at the centre of the board
  V3 z = V3(r.gvec(3)); z[2] = 0; if (z.norm() < 1e-3) z = V3(1, 0, 0); z = (std::sin(tilt) * z.normalized() + std::cos(tilt) * V3(0, 0, r.b() ? 1 : -1)).normalized(); V3 x = V3(r.dir()); x = (x - z * z.dot(x)).normalized(); M3 R; R.col(0) = x; R.col(1) = z.cross(x); R.col(2) = z; V3 p = centre - dist * z + off * (x * r.u(-1, 1) + z.cross(x) * r.u(-1, 1)); Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = p; return T;
}
template <class P> void pose(Rng& r, const std::string& name) {
  typedef cam::Model<P> Mo; auto& m = mon(); Mo mo = Mo::gen(r); mo.w = std::max(mo.w, 300); mo.h = std::max(mo.h, 240); mo.t[Mo::Off] = mo.w * r.u(0.3, 0.8); mo.t[Mo::Off + 1] = mo.t[Mo::Off] * r.u(0.8, 1.25); mo.t[Mo::Off + 2] = mo.w * r.u(0.4, 0.6); mo.t[Mo::Off + 3] = mo.h * r.u(0.4, 0.6);
  auto geo = boost::shared_ptr<CameraGeometry<P, GlobalShutter, NoMask>>(new CameraGeometry<P, GlobalShutter, NoMask>(mo.make())); int rows = r.i(2, 8), cols = r.i(2, 8); double sx = r.u(0.02, 0.2), sy = r.b() ? sx : r.u(0.02, 0.2); boost::shared_ptr<Fake> t(new Fake(rows, cols, sx, sy)); V3 c((cols - 1) * sx / 2, (rows - 1) * sy / 2, 0); double size = 2 * c.norm(), dist = size * r.u(0.7, 2.5);
  Eigen::Matrix4d T = lookAt(r, c, dist, r.u(0.15, 0.9), 0.3 * dist); Eigen::Matrix4d Tc = T.inverse(); std::map<size_t, V2> obs, usable; double w = r.b(0.3) ? 0.7 : 1; V2 lo(1e9, 1e9), hi(-1e9, -1e9);
  for (size_t i = 0; i < t->size(); ++i) { V3 p = (Tc * t->point(i).homogeneous()).template head<3>(); double mg, mi; if (!mo.visible(p, mg) || mg < 1e-2 || mo.normalized(p).norm() > 0.85 * std::min(mo.rmax, 5.0)) continue; auto k = mo.project(p); if (!mo.inImage(k, mi) || mi < 0.5 || !r.b(w)) continue; obs[i] = k.template cast<double>(); double a = std::acos(p.normalized()[2]) * 180 / M_PI; if (std::abs(a - 80) < 0.1) { m.tag("borderline corner"); return; } if (a < 80) { usable[i] = obs[i]; V2 n(p[0] / p[2], p[1] / p[2]); lo = lo.cwiseMin(n); hi = hi.cwiseMax(n); } }
  t->views.push_back(obs); t->ok.push_back(true); cv::Mat im = view(0, mo.w, mo.h); bool enough = usable.size() >= 4; size_t rmin = 99, rmax = 0, cmin = 99, cmax = 0; for (auto& x : usable) { rmin = std::min(rmin, x.first / cols); rmax = std::max(rmax, x.first / cols); cmin = std::min(cmin, x.first % cols); cmax = std::max(cmax, x.first % cols); } std::set<size_t> rs, cs; for (auto& x : usable) rs.insert(x.first / cols), cs.insert(x.first % cols);
  bool good = usable.size() >= 6 && rs.size() >= 2 && cs.size() >= 2 && (hi - lo).minCoeff() > 0.15 && usable.size() > rs.size() + cs.size(); if (enough && !good) { m.tag("degenerate view"); return; }
  GridDetector det(geo, t); std::string how = mo.str() + " board " + std::to_string(rows) + "x" + std::to_string(cols) + " with " + std::to_string(usable.size()) + " corners"; GridCalibrationTargetObservation o(t); aslam::Time st(r.i(0, 1000), r.i(0, 999999999)); bool found = det.findTarget(im, st, o); m.check("C19.pose/found", found == enough, how); m.check("C19.pose/time", o.time() == st && o.target() == t && (int)o.imRows() == mo.h && (int)o.imCols() == mo.w, how);
  for (size_t i = 0; i < t->size(); ++i) { V2 y; bool g = o.imagePoint(i, y); m.check("C19.pose/corners", g == (obs.count(i) > 0) && (!g || y == obs[i]), how); } if (!found || !enough) { m.tag("no pose"); return; }
  // the reprojection of the estimated pose must reproduce the corners, and so the pose must be right
  Eigen::Matrix4d G = o.T_t_c().T(); double worst = 0; for (auto& x : usable) { V3 p = (G.inverse() * t->point(x.first).homogeneous()).template head<3>(); worst = std::max(worst, (mo.project(p).template cast<double>() - x.second).norm()); } double px = 1e-6 * (mo.w + mo.h) + 0.02; m.check("C19.pose/reprojection", worst < px, "corners are reproduced with an error of " + std::to_string(worst) + " px, " + how);
  m.near("C19.pose/pose", G, T, 5e-3 * (1 + dist) , how);
  std::vector<cv::Point2f> rp; unsigned nr = o.getCornerReprojection(geo, rp); m.check("C19.pose/reprojected-count", nr == obs.size() && rp.size() == nr, how); size_t k = 0; if (rp.size() == obs.size()) for (auto& x : obs) { V3 p = (G.inverse() * t->point(x.first).homogeneous()).template head<3>(); V2 q = mo.project(p).template cast<double>(); if (!usable.count(x.first)) { ++k; continue; } m.near("C19.pose/reprojected", V2(rp[k].x, rp[k].y), q, 1e-4 * (1 + q.norm()), how); ++k; }
  // outlier filter
  if (usable.size() == obs.size() && obs.size() >= 12) { auto bad = obs; int nb = r.i(0, 2); for (int b = 0; b < nb; ++b) { auto it = bad.begin(); std::advance(it, r.i(0, bad.size() - 1)); it->second += V2(r.gvec(2).normalized()) * r.u(1, 10); } for (auto& x : bad) x.second += V2(r.gvec(2)) * 0.1; t->views[0] = bad; GridDetector::GridDetectorOptions op; op.filterCornerOutliers = true; op.filterCornerSigmaThreshold = r.u(0.8, 3); op.filterCornerMinReprojError = r.pick(std::vector<double>{0, 0.05, 0.2, 1}); GridDetector d2(geo, t, op); GridCalibrationTargetObservation o2(t), o3(t);
    if (d2.findTarget(im, o2) && GridDetector(geo, t).findTarget(im, o3)) { m.check("C19.filter/pose", o2.T_t_c().T() == o3.T_t_c().T(), how); Eigen::Matrix4d C = o2.T_t_c().T().inverse(); std::vector<double> e; double mean = 0, sd = 0; for (auto& x : bad) { V3 p = (C * t->point(x.first).homogeneous()).template head<3>(); e.push_back((mo.project(p).template cast<double>() - x.second).norm()); mean += e.back() / bad.size(); } for (double v : e) sd += (v - mean) * (v - mean) / bad.size(); sd = std::sqrt(sd); size_t k = 0, gone = 0;
      for (auto& x : bad) { double v = e[k++], lim = mean + op.filterCornerSigmaThreshold * sd; V2 y; bool g = o2.imagePoint(x.first, y); if (std::abs(v - lim) < 2e-3 * (1 + lim) || std::abs(v - op.filterCornerMinReprojError) < 2e-3) continue; bool out = v > lim && v > op.filterCornerMinReprojError; gone += out; m.check("C19.filter/corner", g == !out, "error " + std::to_string(v) + " limit " + std::to_string(lim) + " minimum " + std::to_string(op.filterCornerMinReprojError) + " " + how); V2 z; m.check("C19.filter/unfiltered", o3.imagePoint(x.first, z) && z == x.second && (!g || y == x.second), how); } if (gone) m.tag("corners filtered"); } }
  t->ok[0] = false; GridCalibrationTargetObservation o4(t); m.check("C19.pose/undetected", !det.findTarget(im, o4) && !o4.hasSuccessfulObservation() && !det.findTargetNoTransformation(im, o4), how); m.tag(name); m.evaluation(hmix(mo.hash(), hashm(T)));
}
#define POSE(name, P) VF_GROUP(name, 130, 3000) { pose<P>(rng, #name); }
POSE(pinhole, PinholeProjection<NoDistortion>) POSE(radtan, PinholeProjection<RadialTangentialDistortion>) POSE(equi, PinholeProjection<EquidistantDistortion>) POSE(fov, PinholeProjection<FovDistortion>)
POSE(omni, OmniProjection<NoDistortion>) POSE(omni_radtan, OmniProjection<RadialTangentialDistortion>) POSE(eucm, ExtendedUnifiedProjection<NoDistortion>) POSE(ds, DoubleSphereProjection<NoDistortion>)
// intrinsics from views of a board
template <class P> void intrinsics(Rng& r, int kind, const std::string& name) {   // kind 0: stereographic (omni xi=1 equivalents), 1: pinhole equidistant
  auto& m = mon(); int w = r.i(400, 1400), h = r.i(300, 1000); double f = w * r.u(0.3, 0.6), cu = (w - 1) / 2.0, cv = (h - 1) / 2.0; int rows = r.i(3, 9), cols = r.i(5, 10); double s = 0.1; boost::shared_ptr<Fake> t(new Fake(rows, cols, s, s)); V3 c((cols - 1) * s / 2, (rows - 1) * s / 2, 0); int nv = r.i(2, 5), full = 0; std::vector<cv::Mat> ims;
  for (int k = 0; k < nv; ++k) { double dist = 2 * c.norm() * r.u(0.5, 1.0); Eigen::Matrix4d Tc = lookAt(r, c, dist, r.u(0.1, 0.8), 0.4 * dist).inverse(); std::map<size_t, V2> o; bool part = r.b(0.15); for (size_t i = 0; i < t->size(); ++i) { V3 p = (Tc * t->point(i).homogeneous()).template head<3>(); double th = std::acos(p.normalized()[2]), rr = kind == 0 ? 2 * std::tan(th / 2) / 2 : th; if (th > 1.35) continue; V2 y = V2(cu, cv) + f * rr * (th > 1e-12 ? V2(p.template head<2>().normalized()) : V2(0, 0)); if (y[0] < 0 || y[1] < 0 || y[0] >= w || y[1] >= h || (part && r.b(0.3))) continue; o[i] = y; } bool ok = !r.b(0.1); t->views.push_back(o); t->ok.push_back(ok); ims.push_back(view(k, w, h)); full += ok && o.size() == t->size(); }
  auto proj = P(); boost::shared_ptr<CameraGeometry<P, GlobalShutter, NoMask>> g(new CameraGeometry<P, GlobalShutter, NoMask>(proj)); GridDetector det(g, t); boost::shared_ptr<std::vector<cv::Mat>> ip(new std::vector<cv::Mat>(ims)); bool ok = nv == 1 ? det.initCameraGeometryFromObservation(ims[0]) : det.initCameraGeometryFromObservations(ip); bool any = std::count(t->ok.begin(), t->ok.end(), true) > 0; if (!any) { m.check("C19.intrinsics/no-view", !ok, name); return; }
  std::string how = name + " f " + std::to_string(f) + " " + std::to_string(w) + "x" + std::to_string(h) + " board " + std::to_string(rows) + "x" + std::to_string(cols) + ", " + std::to_string(full) + " full views"; if (full >= 3 && kind == 0) m.check("C19.intrinsics/success", ok, how); if (!ok) { m.tag("not initialised"); return; } const P& p = g->projection();
  m.check("C19.intrinsics/image", p.ru() == w && p.rv() == h && std::abs(p.cu() - cu) < 1e-9 && std::abs(p.cv() - cv) < 1e-9, how); Eigen::MatrixXd d, d0; p.distortion().getParameters(d); decltype(p.distortion()) z = p.distortion(); typename std::decay<decltype(z)>::type clean; clean.clear(); clean.getParameters(d0); m.check("C19.intrinsics/distortion", d.size() == d0.size() && d == d0, how); if (!full) return;
  double want = f / 2, got = p.fu(); if (name == "omni") got /= 2; if (kind == 0) m.near("C19.intrinsics/focal", got, want, 1e-3 * want, how); else m.check("C19.intrinsics/focal-equidistant", got > 0.5 * f && got < 2 * f, how + " gives " + std::to_string(got)); m.check("C19.intrinsics/square", p.fu() == p.fv(), how); m.tag("initialised " + name); m.evaluation(hmix(fnv(how), hashm(t->views[0].empty() ? V2(0, 0) : t->views[0].begin()->second)));
}
VF_GROUP(init, 160, 4000) { switch (rng.i(0, 3)) { case 0: intrinsics<OmniProjection<NoDistortion>>(rng, 0, "omni"); break; case 1: intrinsics<ExtendedUnifiedProjection<NoDistortion>>(rng, 0, "eucm"); break; case 2: intrinsics<DoubleSphereProjection<NoDistortion>>(rng, 0, "ds"); break; default: intrinsics<PinholeProjection<EquidistantDistortion>>(rng, 1, "equi"); } }
VF_GROUP(circles, 200, 5000) {
  auto& m = mon(); V2 c = rng.gvec(2) * 300, c2; double R = std::exp(rng.u(0, 7)); std::vector<cv::Point2d> p; int n = rng.i(3, 20); double a0 = rng.u(0, 7), span = rng.u(1, 6); for (int i = 0; i < n; ++i) { double a = a0 + span * i / (n - 1.0); p.push_back(cv::Point2d(c[0] + R * std::cos(a), c[1] + R * std::sin(a))); } double r2; PinholeHelpers::fitCircle(p, c2[0], c2[1], r2); m.near("C19.circles/fit", c2, c, 1e-5 * (R + c.norm()), "centre"); m.near("C19.circles/radius", r2, R, 1e-5 * (R + c.norm()), "radius");
  V2 q = c + V2(rng.gvec(2).normalized()) * rng.u(0, 3) * R; double R2 = R * rng.u(0.2, 2), d = (q - c).norm(); auto x = PinholeHelpers::intersectCircles(c[0], c[1], R, q[0], q[1], R2); bool cross = d < R + R2 && d > std::abs(R - R2); if (std::min(std::abs(d - R - R2), std::abs(d - std::abs(R - R2))) > 1e-6 * R) { m.check("C19.circles/count", x.size() == (cross ? 2u : 0u), "intersections"); for (auto& y : x) { m.near("C19.circles/on-first", (V2(y.x, y.y) - c).norm(), R, 1e-5 * (R + c.norm()), ""); m.near("C19.circles/on-second", (V2(y.x, y.y) - q).norm(), R2, 1e-5 * (R + c.norm()), ""); } if (x.size() == 2) m.check("C19.circles/distinct", cv::norm(x[0] - x[1]) > 0, ""); } m.evaluation(hmix(hashm(c), hashm(q)));
}
