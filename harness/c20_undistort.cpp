// C20: every output pixel of an undistorted image holds what the original camera sees along the ray of the ideal camera.
#include <Eigen/Dense>
#include "camera_common.hpp"
#include <aslam_imgproc/UndistorterBase.hpp>
#include <aslam_imgproc/PinholeUndistorter.hpp>
#include <aslam_imgproc/OmniUndistorter.hpp>
#include <aslam_imgproc/NullUndistorter.hpp>
#include <aslam_imgproc/calculateOverlappingFov.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <opencv2/imgcodecs.hpp>
#include <typeinfo>
VF_MAIN
using namespace vf; using namespace aslam; using namespace aslam::cameras; using cam::L; using cam::V2L; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3;
static cv::Mat field(int w, int h, int cx = 0) { cv::Mat m(h, w, CV_32FC2); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<cv::Vec2f>(y, x) = cv::Vec2f(x + 1000.f + cx, y + 1000.f); return m; }
static V2 at(const cv::Mat& m, int x, int y) { cv::Vec2f v = m.at<cv::Vec2f>(y, x); return V2(v[0] - 1000, v[1] - 1000); }
static bool blank(const cv::Mat& m, int x, int y) { cv::Vec2f v = m.at<cv::Vec2f>(y, x); return v[0] == 0 && v[1] == 0; }
static bool sameImage(const cv::Mat& a, const cv::Mat& b) { return a.size() == b.size() && a.type() == b.type() && cv::norm(a, b, cv::NORM_INF) == 0; }
// a small camera whose image lies inside the range in which its distortion can be inverted
template <class P> static bool genCamera(Rng& r, cam::Model<P>& m, double strength) {
  typedef cam::Model<P> M; m = M::gen(r); m.w = r.i(30, 150); m.h = r.i(30, 150); for (int k = 0; k < m.d.size(); ++k) if (m.d.size() > 1) m.d[k] *= strength; m.rmax = cam::injectiveRadius<typename M::D>(m.d); double f = m.w * r.u(0.35, 1.3); m.t[M::Off] = f; m.t[M::Off + 1] = f * r.u(0.75, 1.35); m.t[M::Off + 2] = m.w * r.u(0.35, 0.65); m.t[M::Off + 3] = m.h * r.u(0.35, 0.65); return true;
}
// normalised coordinates whose distortion gives y
template <class D> static bool invert(const Eigen::VectorXd& d, V2L y, double rmax, V2L& n) {
  cam::VL dl = cam::toL(d); n = y; for (int k = 0; k < 60; ++k) { V2L e = cam::DT<D>::f(dl, n) - y; if (std::sqrt(e.squaredNorm()) < 1e-15L) break; L h = 1e-8L; Eigen::Matrix<L, 2, 2> J; for (int c = 0; c < 2; ++c) { V2L a = n, b = n; a[c] += h; b[c] -= h; J.col(c) = (cam::DT<D>::f(dl, a) - cam::DT<D>::f(dl, b)) / (2 * h); } L det = J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0); if (!(std::abs(det) > 1e-12L)) return false; V2L s((J(1, 1) * e[0] - J(0, 1) * e[1]) / det, (J(0, 0) * e[1] - J(1, 0) * e[0]) / det); L l = std::sqrt(s.squaredNorm()); if (l > 0.3L) s *= 0.3L / l; n -= s; }
  V2L e = cam::DT<D>::f(dl, n) - y; return std::sqrt(e.squaredNorm()) < 1e-10L && std::sqrt(n.squaredNorm()) < 0.85L * rmax && std::sqrt(n.squaredNorm()) < 2.2L; }
struct Box { double i[4], o[4]; };   // x0 x1 y0 y1
template <class P> static bool boxes(const cam::Model<P>& m, double w, double h, Box& b) {
  typedef cam::Model<P> M; b.i[0] = b.i[2] = -1e9; b.i[1] = b.i[3] = 1e9; b.o[0] = b.o[2] = 1e9; b.o[1] = b.o[3] = -1e9;
  for (int s = 0; s < 4; ++s) for (int k = 0; k <= 64; ++k) { double u = s == 0 ? 0 : s == 1 ? w : w * k / 64., v = s == 2 ? 0 : s == 3 ? h : h * k / 64.; V2L n; if (!invert<typename M::D>(m.d, V2L((u - m.t[M::Off + 2]) / m.t[M::Off], (v - m.t[M::Off + 3]) / m.t[M::Off + 1]), m.rmax, n)) return false; double x = n[0], y = n[1]; b.o[0] = std::min(b.o[0], x); b.o[1] = std::max(b.o[1], x); b.o[2] = std::min(b.o[2], y); b.o[3] = std::max(b.o[3], y); if (s == 0) b.i[0] = std::max(b.i[0], x); if (s == 1) b.i[1] = std::min(b.i[1], x); if (s == 2) b.i[2] = std::max(b.i[2], y); if (s == 3) b.i[3] = std::min(b.i[3], y); }
  return b.i[1] - b.i[0] > 0.3 * (b.o[1] - b.o[0]) && b.i[3] - b.i[2] > 0.3 * (b.o[3] - b.o[2]); }
// the intrinsics map [lo,hi] of the chosen rectangle to the new image
template <class P, class G> static void intrinsics(const std::string& key, const cam::Model<P>& m, G& ideal, double alpha, int W, int H, double slack) {
  Box a, b; if (!boxes(m, m.w, m.h, a) || !boxes(m, m.w - 1, m.h - 1, b)) return; mon().tag(key + "/intrinsics-judged"); Eigen::Matrix3d K = ideal.projection().getCameraMatrix();
  for (int d = 0; d < 2; ++d) { double N = (d ? H : W) - 1; double f[2], c[2]; for (int v = 0; v < 2; ++v) { Box& x = v ? b : a; double fi = N / (x.i[2 * d + 1] - x.i[2 * d]), fo = N / (x.o[2 * d + 1] - x.o[2 * d]); f[v] = (1 - alpha) * fi + alpha * fo; c[v] = -(1 - alpha) * fi * x.i[2 * d] - alpha * fo * x.o[2 * d]; }
    double tf = std::abs(f[0] - f[1]) + slack * std::abs(f[0]), tc = std::abs(c[0] - c[1]) + slack * N + 0.5; mon().near(key + "/focal", K(d, d), 0.5 * (f[0] + f[1]), tf, "focal length for alpha " + std::to_string(alpha) + " " + m.str()); mon().near(key + "/centre", K(d, 2), 0.5 * (c[0] + c[1]), tc, "principal point for alpha " + std::to_string(alpha) + " " + m.str()); } }
template <class P, class G> static void judge(const std::string& key, const cam::Model<P>& m, const G& ideal, const cv::Mat& out, int interp, double tol, int margin = 4) {
  auto& mo = mon(); int seen = 0, dark = 0; double worst = 0; std::string where; bool lit = false;
  for (int y = 0; y < out.rows; ++y) for (int x = 0; x < out.cols; ++x) { V3 ray; V2 k(x, y); if (!ideal.keypointToEuclidean(k, ray) || !ray.allFinite()) continue; double mg; if (!m.visible(ray, mg) || mg < 1e-6) continue; V2L s = m.project(ray); double u = s[0], v = s[1]; if (!std::isfinite(u) || std::abs(u) > 3e4 || std::abs(v) > 3e4) continue;
      if (u > margin && v > margin && u < m.w - 1 - margin && v < m.h - 1 - margin) { V2 g = at(out, x, y); double e = (g - V2(u, v)).cwiseAbs().maxCoeff(); seen++; if (!(e <= worst)) worst = e, where = "pixel " + std::to_string(x) + "," + std::to_string(y) + " shows " + mstr(g.transpose()) + " instead of " + std::to_string(u) + "," + std::to_string(v); }
      else if (u < -margin || v < -margin || u > m.w + margin || v > m.h + margin) { dark++; lit |= !blank(out, x, y); } }
  if (seen) mo.check(key + "/pixels", worst <= tol, where + " off by " + std::to_string(worst) + " interpolation " + std::to_string(interp) + " " + m.str()); if (dark) mo.check(key + "/outside", !lit, "pixels seeing outside the original image are black " + m.str()); mo.tag(key + (seen ? "/seen" : "/unseen")); }
static double tolOf(int interp) { return interp == cv::INTER_NEAREST ? 1.06 : interp == cv::INTER_LANCZOS4 ? 0.2 : 0.08; }
template <class U, class P> static void common(const std::string& key, Rng& rng, const U& u, const cam::Model<P>& m, double scale, const cv::Mat& in, const cv::Mat& out) {
  auto& mo = mon(); int W = int(m.w * scale), H = int(m.h * scale); auto g = u.idealGeometry(); mo.check(key + "/resolution", g->projection().ru() == W && g->projection().rv() == H && out.cols == W && out.rows == H && out.type() == in.type(), "resolution " + std::to_string(out.cols) + "x" + std::to_string(out.rows) + " geometry " + std::to_string(g->projection().ru()) + "x" + std::to_string(g->projection().rv()) + " expected " + std::to_string(W) + "x" + std::to_string(H));
  mo.check(key + "/original", u.distortedGeometry()->projection().isBinaryEqual(m.make()), "the original geometry is the one given"); mo.check(key + "/base", u.idealGeometryBase() == g && u.distortedGeometryBase() == u.distortedGeometry(), ""); }
template <class D> static void pinhole(Rng& rng, const std::string& name) {
  typedef PinholeProjection<D> P; typedef PinholeUndistorter<D, NoMask> U; typedef typename U::distorted_geometry_t G; cam::Model<P> m; if (!genCamera<P>(rng, m, rng.pick(std::vector<double>{0, 0.2, 0.6, 1}))) return; int interp = rng.pick(std::vector<int>{cv::INTER_LINEAR, cv::INTER_LINEAR, cv::INTER_NEAREST, cv::INTER_CUBIC, cv::INTER_LANCZOS4, cv::INTER_AREA}); double alpha = rng.pick(std::vector<double>{0, 1, rng.u()}), scale = rng.pick(std::vector<double>{1, 0.5, rng.u(0.4, 1.8), 2}); std::string key = "C20." + name;
  boost::shared_ptr<G> geo(new G(m.make())); boost::shared_ptr<U> u; if (rng.b()) u.reset(new U(geo, interp, alpha, scale)); else { sm::BoostPropertyTree c; c.setInt("interpolationType", interp); c.setDouble("alpha", alpha); c.setDouble("scale", scale); u.reset(new U(geo, c)); } if (rng.b(0.2)) { cam::Model<P> o; genCamera<P>(rng, o, 0.5); u->init(boost::shared_ptr<G>(new G(o.make())), interp, 0.5, 0.7); u->init(geo, interp, alpha, scale); }
  cv::Mat in = field(m.w, m.h), keep = in.clone(), out; u->undistortImage(in, out); mon().check(key + "/input", sameImage(in, keep), "the original image is not changed"); common(key, rng, *u, m, scale, in, out); int W = int(m.w * scale), H = int(m.h * scale); if (out.cols != W || out.rows != H) return; judge(key, m, *u->idealGeometry(), out, interp, tolOf(interp)); intrinsics(key, m, *u->idealGeometry(), alpha, W, H, 0.03);
  boost::shared_ptr<FrameBase> f = u->buildFrame(in); mon().check(key + "/frame", f->geometryBase() == u->idealGeometryBase() && sameImage(f->image(), out), "the frame carries the undistorted image and the ideal geometry"); cv::Mat one(m.h, m.w, CV_8UC1), o1, o2; cv::randu(one, 0, 256); u->undistortImage(one, o1); u->undistortImage(one, o2); mon().check(key + "/repeat", sameImage(o1, o2) && o1.type() == CV_8UC1, ""); mon().evaluation(m.hash()); }
VF_GROUP(pinhole, 240, 6000) { switch (rng.i(0, 2)) { case 0: pinhole<RadialTangentialDistortion>(rng, "pinhole-radtan"); break; case 1: pinhole<EquidistantDistortion>(rng, "pinhole-equidistant"); break; default: pinhole<FovDistortion>(rng, "pinhole-fov"); } }
VF_GROUP(omni, 160, 4000) {
  typedef OmniProjection<RadialTangentialDistortion> P; typedef OmniUndistorter<NoMask> U; typedef U::distorted_geometry_t G; cam::Model<P> m; double strength = rng.pick(std::vector<double>{0, 0.1, 0.3, 1}); genCamera<P>(rng, m, strength); if (rng.b(0.6)) { m.t[1] *= 1.5 + m.t[0]; m.t[2] *= 1.5 + m.t[0]; } int interp = rng.pick(std::vector<int>{cv::INTER_LINEAR, cv::INTER_LINEAR, cv::INTER_NEAREST, cv::INTER_CUBIC, cv::INTER_AREA}); double alpha = rng.pick(std::vector<double>{0, 1, rng.u()}), scale = rng.pick(std::vector<double>{1, 0.5, rng.u(0.4, 1.8), 2}); std::string key = "C20.omni"; boost::shared_ptr<G> geo(new G(m.make())); U u(geo, interp, alpha, scale); cv::Mat in = field(m.w, m.h), keep = in.clone(), out; u.undistortImage(in, out); mon().check(key + "/input", sameImage(in, keep), ""); common(key, rng, u, m, scale, in, out); int W = int(m.w * scale), H = int(m.h * scale); if (out.cols != W || out.rows != H) return; mon().check(key + "/xi", u.idealGeometry()->projection().xi() == m.t[0], "mirror parameter"); judge(key, m, *u.idealGeometry(), out, interp, tolOf(interp)); if (strength <= 0.3) intrinsics(key, m, *u.idealGeometry(), alpha, W, H, 0.04);
  boost::shared_ptr<FrameBase> f = u.buildFrame(in); mon().check(key + "/frame", f->geometryBase() == u.idealGeometryBase() && sameImage(f->image(), out), "");
  // the pinhole image: valid where the corners of the ideal omnidirectional image lie in front of the camera
  V3 a, b; bool ok = u.idealGeometry()->keypointToEuclidean(V2(0, 0), a) && u.idealGeometry()->keypointToEuclidean(V2(W, H), b); ok = a[2] / a.norm() > 0.25 && b[2] / b.norm() > 0.25 && a.allFinite() && b.allFinite(); if (!ok) { mon().tag("C20.omni-pinhole/wide"); return; } cv::Mat ph; u.undistortImageToPinhole(in, ph); auto pg = u.idealPinholeGeometry(); mon().check("C20.omni-pinhole/resolution", ph.cols == W && ph.rows == H && pg->projection().ru() == W && pg->projection().rv() == H, ""); Eigen::Matrix3d K = pg->projection().getCameraMatrix(); mon().near("C20.omni-pinhole/focal", K(0, 0), W / (b[0] / b[2] - a[0] / a[2]), 1e-6 * W * (1 + std::abs(K(0, 0))), "focal length"); mon().near("C20.omni-pinhole/focal-v", K(1, 1), H / (b[1] / b[2] - a[1] / a[2]), 1e-6 * H * (1 + std::abs(K(1, 1))), ""); mon().near("C20.omni-pinhole/centre", V2(K(0, 2), K(1, 2)), V2((W - 1) / 2., (H - 1) / 2.), 1e-9, "");
  if (interp == cv::INTER_CUBIC) return; int seen = 0; double worst = 0; std::string where; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { V3 ray; if (!pg->keypointToEuclidean(V2(x, y), ray)) continue; double mg; V2 q; if (!m.visible(ray, mg) || mg < 1e-6 || !u.idealGeometry()->euclideanToKeypoint(ray, q)) continue; V2L s = m.project(ray); if (!(q[0] > 2 && q[1] > 2 && q[0] < W - 3 && q[1] < H - 3 && s[0] > 4 && s[1] > 4 && s[0] < m.w - 5 && s[1] < m.h - 5)) continue; // neighbours of the ideal pixel must be inside too
      bool in4 = true; for (int k = 0; k < 4; ++k) { V2 qn(std::floor(q[0]) + (k & 1), std::floor(q[1]) + (k >> 1)); V3 rn; if (!u.idealGeometry()->keypointToEuclidean(qn, rn)) { in4 = false; break; } V2L sn = m.project(rn); if (!(sn[0] > 1 && sn[1] > 1 && sn[0] < m.w - 2 && sn[1] < m.h - 2)) in4 = false; } if (!in4) continue; double e = (at(ph, x, y) - V2(s[0], s[1])).cwiseAbs().maxCoeff(); double gain = std::max({K(0, 0), K(1, 1), 1.0}); (void)gain; seen++; if (!(e <= worst)) worst = e, where = "pixel " + std::to_string(x) + "," + std::to_string(y) + " shows " + mstr(at(ph, x, y).transpose()) + " instead of " + std::to_string((double)s[0]) + "," + std::to_string((double)s[1]); }
  // one ideal pixel covers step original pixels
  double step = std::max(1.0, std::max(m.t[1] / u.idealGeometry()->projection().fu(), m.t[2] / u.idealGeometry()->projection().fv())) * (1 + 3 * strength); if (seen) mon().check("C20.omni-pinhole/pixels", worst <= (interp == cv::INTER_NEAREST ? 1.1 + 1.1 * step : 0.06 + 0.15 * step), where + " off by " + std::to_string(worst) + " interpolation " + std::to_string(interp) + " step " + std::to_string(step) + " " + m.str()); mon().tag(seen ? "C20.omni-pinhole/seen" : "C20.omni-pinhole/unseen"); mon().evaluation(m.hash());
}
template <class P> static void null(Rng& rng) {
  typedef CameraGeometry<P, GlobalShutter, NoMask> G; typedef NullUndistorter<G> U; cam::Model<P> m; genCamera<P>(rng, m, 1); int interp = rng.pick(std::vector<int>{cv::INTER_LINEAR, cv::INTER_NEAREST, cv::INTER_AREA}); double s = rng.pick(std::vector<double>{1, 1, 0.5, rng.u(0.3, 2.2), 2, 0.25}); bool copy = rng.b(); boost::shared_ptr<G> geo(new G(m.make())); boost::shared_ptr<U> u; if (rng.b()) u.reset(new U(geo, interp, s, copy)); else { sm::BoostPropertyTree c; c.setInt("interpolationType", interp); c.setBool("makeCopy", copy); c.setDouble("scale", s); u.reset(new U(geo, c)); } std::string key = "C20.null"; cv::Mat in = field(m.w, m.h), keep = in.clone(), out; u->undistortImage(in, out); mon().check(key + "/input", sameImage(in, keep) && geo->projection().isBinaryEqual(m.make()), "the original is not changed"); common(key, rng, *u, m, s, in, out);
  if (s == 1) { mon().check(key + "/same", sameImage(in, out), "same image"); mon().check(key + "/copy", copy == (out.data != in.data), copy ? "a copy" : "no copy"); mon().check(key + "/same-geometry", u->idealGeometry()->projection().isBinaryEqual(m.make()), ""); } else { if (out.cols == 0 || out.rows == 0) return; double worst = 0; for (int y = 0; y < out.rows; ++y) for (int x = 0; x < out.cols; ++x) worst = std::max(worst, (at(out, x, y) - V2(x, y) / s).cwiseAbs().maxCoeff()); mon().check(key + "/scaled", worst <= 1.5 / s + 1, "off by " + std::to_string(worst) + " at scale " + std::to_string(s)); Eigen::Matrix3d K = u->idealGeometry()->projection().getCameraMatrix(); typedef cam::Model<P> M; mon().near(key + "/intrinsics", Eigen::Vector4d(K(0, 0), K(1, 1), K(0, 2), K(1, 2)), s * m.t.segment(M::Off, 4), 1e-12 * m.w * 10, "intrinsics");
    for (int k = 0; k < 5; ++k) { V3 p = m.point(rng); V2 a, b; bool va = geo->euclideanToKeypoint(p, a), vb = u->idealGeometry()->euclideanToKeypoint(p, b); if (va && a.allFinite() && vb) mon().near(key + "/ray", b, V2(a * s), 1e-9 * (1 + a.norm()), "projection of the scaled camera"); } }
  boost::shared_ptr<FrameBase> f = u->buildFrame(in); mon().check(key + "/frame", f->geometryBase() == u->idealGeometryBase() && sameImage(f->image(), out), ""); mon().evaluation(m.hash()); }
VF_GROUP(null, 200, 5000) { switch (rng.i(0, 2)) { case 0: null<PinholeProjection<RadialTangentialDistortion>>(rng); break; case 1: null<OmniProjection<EquidistantDistortion>>(rng); break; default: null<PinholeProjection<NoDistortion>>(rng); } }
// ---- the factory
template <class P, class S> static CameraGeometryBase* geo3(bool masked, const sm::PropertyTree& c) { if (masked) return new CameraGeometry<P, S, ImageMask>(c); return new CameraGeometry<P, S, NoMask>(c); }
template <class P> static CameraGeometryBase* geo2(bool rs, bool masked, const sm::PropertyTree& c) { return rs ? geo3<P, RollingShutter>(masked, c) : geo3<P, GlobalShutter>(masked, c); }
static boost::shared_ptr<CameraGeometryBase> geometry(bool omni, int d, bool rs, bool masked, const sm::PropertyTree& c) { return boost::shared_ptr<CameraGeometryBase>(omni ? d == 0 ? geo2<OmniProjection<NoDistortion>>(rs, masked, c) : d == 1 ? geo2<OmniProjection<RadialTangentialDistortion>>(rs, masked, c) : geo2<OmniProjection<EquidistantDistortion>>(rs, masked, c) : d == 0 ? geo2<PinholeProjection<NoDistortion>>(rs, masked, c) : d == 1 ? geo2<PinholeProjection<RadialTangentialDistortion>>(rs, masked, c) : geo2<PinholeProjection<EquidistantDistortion>>(rs, masked, c)); }
static std::string dtext(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
VF_GROUP(factory, 120, 2500) {
  auto& mo = mon(); bool omni = rng.b(), masked = rng.b(), rs = rng.b(), isNull = rng.b(0.7); int d = rng.i(0, 2); std::string geoType = std::string(masked ? "Masked" : "") + (d == 0 ? "" : d == 1 ? "Distorted" : "EquidistantDistorted") + (omni ? "Omni" : "Pinhole") + (rs ? "Rs" : "") + "CameraGeometry", type = "Null" + geoType; if (!isNull) { rs = false; if (omni) d = 1; else d = rng.i(1, 2); geoType = std::string(masked ? "Masked" : "") + (d == 1 ? "Distorted" : "EquidistantDistorted") + (omni ? "Omni" : "Pinhole") + "CameraGeometry"; type = std::string(masked ? "Masked" : "") + (d == 2 ? "Equidistant" : "") + (omni ? "Omni" : "Pinhole") + "Undistorter"; }
  cam::Model<PinholeProjection<RadialTangentialDistortion>> m; genCamera(rng, m, 0.1); sm::BoostPropertyTree c, u; c.setString("type", geoType); double xi = rng.u(0.5, 1.2); const char* P[4] = {"fu", "fv", "cu", "cv"}; for (int k = 0; k < 4; ++k) c.setString(std::string("projection/") + P[k], dtext(m.t[k])); if (omni) c.setString("projection/xi", dtext(xi)); c.setInt("projection/ru", m.w); c.setInt("projection/rv", m.h); const char* A[4] = {"k1", "k2", "p1", "p2"}; const char* B[4] = {"k1", "k2", "k3", "k4"}; for (int k = 0; k < 4; ++k) c.setString(std::string("projection/distortion/") + (d == 1 ? A[k] : B[k]), dtext(m.d[k])); double ld = rng.u(1e-5, 1e-4); c.setString("shutter/line-delay", dtext(ld)); std::string f = scratch() + "/mask.png"; cv::Mat msk(m.h, m.w, CV_8UC1); cv::randu(msk, 0, 2); if (masked) { cv::imwrite(f, msk); c.setString("mask/mask-file", f); }
  double s = rng.pick(std::vector<double>{1, 0.5, 1.5}), alpha = rng.u(); int interp = rng.pick(std::vector<int>{cv::INTER_NEAREST, cv::INTER_LINEAR}); u.setString("type", type); u.setDouble("scale", s); u.setDouble("alpha", alpha); u.setBool("makeCopy", true); u.setInt("interpolationType", interp); boost::shared_ptr<UndistorterBase> x; try { x = UndistorterBase::createUndistorter(u, c); } catch (const std::exception& e) { mo.check("C20.factory/created", false, type + ": " + e.what()); return; } boost::shared_ptr<CameraGeometryBase> g = geometry(omni, d, rs, masked, c), o = x->distortedGeometryBase(); mo.check("C20.factory/type", typeid(*g) == typeid(*o), type + " makes " + typeid(*o).name()); Eigen::MatrixXd p, q; g->getParameters(p, true, true, true); o->getParameters(q, true, true, true); mo.check("C20.factory/parameters", p.rows() == q.rows() && p.cols() == q.cols() && p == q, type); mo.check("C20.factory/size", (int)x->idealGeometryBase()->width() == int(m.w * s) && (int)x->idealGeometryBase()->height() == int(m.h * s), type + " " + std::to_string(x->idealGeometryBase()->width()));
  cv::Mat in = field(m.w, m.h), out, want; x->undistortImage(in, out); if (isNull) { if (s == 1) want = in; else cv::resize(in, want, cv::Size(int(m.w * s), int(m.h * s)), 0, 0, interp); mo.check("C20.factory/image", sameImage(out, want), type); } else { if (omni) { typedef CameraGeometry<OmniProjection<RadialTangentialDistortion>, GlobalShutter, NoMask> G; OmniUndistorter<NoMask> y(boost::shared_ptr<G>(new G(G::projection_t(xi, m.t[0], m.t[1], m.t[2], m.t[3], m.w, m.h, RadialTangentialDistortion(m.d[0], m.d[1], m.d[2], m.d[3])))), interp, alpha, s); y.undistortImage(in, want); } else if (d == 1) { typedef CameraGeometry<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask> G; PinholeUndistorter<RadialTangentialDistortion, NoMask> y(boost::shared_ptr<G>(new G(m.make())), interp, alpha, s); y.undistortImage(in, want); } else { typedef CameraGeometry<PinholeProjection<EquidistantDistortion>, GlobalShutter, NoMask> G; PinholeUndistorter<EquidistantDistortion, NoMask> y(boost::shared_ptr<G>(new G(G::projection_t(m.t[0], m.t[1], m.t[2], m.t[3], m.w, m.h, EquidistantDistortion(m.d[0], m.d[1], m.d[2], m.d[3])))), interp, alpha, s); y.undistortImage(in, want); } mo.check("C20.factory/image", sameImage(out, want), type); }
  cv::Mat inc = in.clone(); boost::shared_ptr<FrameBase> fr = x->buildFrame(inc); mo.check("C20.factory/frame", fr && sameImage(fr->image(), out) && fr->geometryBase() == x->idealGeometryBase(), type); sm::BoostPropertyTree bad; bad.setString("type", type + "x"); bad.setDouble("scale", s); bad.setDouble("alpha", alpha); bad.setBool("makeCopy", true); expectThrow("C20.factory/unknown", [&] { UndistorterBase::createUndistorter(bad, c); }, "unknown type"); sm::BoostPropertyTree miss; miss.setString("type", type); miss.setDouble("alpha", alpha); miss.setBool("makeCopy", true); expectThrow("C20.factory/missing", [&] { UndistorterBase::createUndistorter(miss, c); }, "scale missing"); mo.tag("C20.factory/" + type); mo.evaluation(fnv(type) ^ m.hash());
}
// ---- overlap of two fields of view
VF_GROUP(overlap, 60, 1500) {
  auto& mo = mon(); typedef PinholeProjection<RadialTangentialDistortion> P1; typedef OmniProjection<NoDistortion> P2; typedef CameraGeometry<P1, GlobalShutter, NoMask> G1; typedef CameraGeometry<P2, GlobalShutter, NoMask> G2; cam::Model<P1> m; cam::Model<P2> n; genCamera(rng, m, 0.1); genCamera(rng, n, 1); m.w = std::min(m.w, 60); m.h = std::min(m.h, 60); G1 a(m.make()); G2 b(n.make()); sm::kinematics::Transformation T(Eigen::Vector4d(rng.u(-0.4, 0.4), rng.u(-0.4, 0.4), rng.u(-0.4, 0.4), 1).normalized(), rng.vec(3, 2)); Eigen::VectorXi dist(rng.i(0, 3)); for (int k = 0; k < dist.size(); ++k) dist[k] = rng.i(1, 60); double s = rng.pick(std::vector<double>{1, 0.5, rng.u(0.3, 1.4)}); ImageMask ma, mb; double ra = -1, rb = -1; int form = rng.i(0, 2); if (form < 2) calculateOverlappingFOV(a, b, T, ma, mb, ra, rb, dist, s); else calculateOverlappingFOV<G1, G1>(boost::shared_ptr<G1>(new G1(a)), boost::shared_ptr<G1>(new G1(a)), T, ma, mb, ra, rb, dist, s);
  auto side = [&](const std::string& key, auto& own, auto& other, const CameraGeometryBase& cam, const Eigen::Matrix4d& TT, const ImageMask& mask, double ratio) { int W = int(own.w * s), H = int(own.h * s); cv::Mat im = mask.getMask(); mo.check(key + "/mask", im.cols == W && im.rows == H && im.type() == CV_8UC1 && mask.getScale() == s, "mask " + std::to_string(im.cols) + "x" + std::to_string(im.rows) + " expected " + std::to_string(W) + "x" + std::to_string(H)); if (im.cols != W || im.rows != H || W * H == 0) return; int on = 0; bool ok = true; std::string where; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { int v = im.at<uchar>(y, x); on += v != 0; if (v != 0 && v != 255) ok = false; Eigen::VectorXd kp(2); V3 ray; kp << x / s, y / s; double mg; V2L kk(kp[0], kp[1]); bool inside = own.inImage(kk, mg); if (mg < 1e-6) continue; if (!inside) continue; if (!cam.vsKeypointToEuclidean(kp, ray)) continue; V3 r = ray; r /= r.norm(); bool yes = false, maybe = false; for (int k = 0; k < dist.size(); ++k) { bool all = true, any = false; for (int q = 0; q <= 21; ++q) { double dd = dist[k] + (q == 21 ? ray.norm() : q / 20. * std::max(1.0, ray.norm())); V3 p = (TT * (r * dd).homogeneous()).head<3>(); double g1, g2; bool vis = other.visible(p, g1); V2L z = vis ? other.project(p) : V2L(-1, -1); bool in = vis && other.inImage(z, g2); if (vis && g1 < 1e-3) any = true, all = false; else if (vis && g2 < 0.2) any = true, all = false; else { any |= in; all &= in; } if (!vis && g1 > -1e-3) any = true; } yes |= all; maybe |= any; } if ((yes && v == 0) || (!maybe && v)) ok = false, where = "pixel " + std::to_string(x) + "," + std::to_string(y) + (yes ? " seen by the other camera but not marked" : " marked but not seen"); } mo.check(key + "/pixels", ok, where); mo.near(key + "/ratio", ratio, on / double(W * H), 1e-12, "share of marked pixels"); mo.tag(key + (on ? "/some" : "/none")); };
  if (form < 2) { side("C20.overlap/first", m, n, a, T.inverse().T(), ma, ra); side("C20.overlap/second", n, m, b, T.T(), mb, rb); } else { side("C20.overlap/first-template", m, m, a, T.inverse().T(), ma, ra); side("C20.overlap/second-template", m, m, a, T.T(), mb, rb); } mo.evaluation(m.hash() ^ n.hash());
}
