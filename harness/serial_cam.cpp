// C16: projections, distortions, shutters, masks and whole cameras, by value and through the base class.
#include "serial_common.hpp"
#include "camera_common.hpp"
#include <aslam_cv_serialization/cameras/CameraBaseSerialization.hpp>
#include <boost/serialization/shared_ptr.hpp>
using namespace ser; using namespace aslam::cameras;
namespace ser {
/// Everything a camera shows: sizes, parameters, projections, back projections, validity, time offsets.
std::string dumpCamera(const CameraGeometryBase& c) {
  Dump d; d.u(c.id().getId()).i(c.width()).i(c.height()).i(c.hasMask()).i(c.minimalDimensionsProjection()).i(c.minimalDimensionsDistortion()).i(c.minimalDimensionsShutter());
  Eigen::MatrixXd P; if (c.minimalDimensionsDistortion() > 0) { c.getParameters(P, false, true, false); d.m(P); } c.getParameters(P, true, false, false); d.m(P); if (c.minimalDimensionsShutter() > 0) { c.getParameters(P, false, false, true); d.m(P); }
  for (int k = 0; k < 8; ++k) { Eigen::Vector3d p(0.3 * k - 1, 0.21 * k * k - 2, 1.5 + k); Eigen::VectorXd y; bool v = c.vsEuclideanToKeypoint(p, y); d.i(v).m(y).i(c.vsIsEuclideanVisible(p)); }
  for (int r = 0; r < 7; ++r) for (int q = 0; q < 7; ++q) { Eigen::VectorXd y(2); y << c.width() * (q + 0.37) / 7, c.height() * (r + 0.61) / 7; d.i(c.vsIsValid(y)); if (q == r) { aslam::Duration o = c.vsTemporalOffset(y); d.i(o.sec).i(o.nsec); Eigen::Vector3d b(0, 0, 0); bool v = c.vsKeypointToEuclidean(y, b); d.i(v); if (v) d.m(b); } }
  return d.s;
}
template <class D> void distortion(Rng& g) {
  Eigen::VectorXd a = cam::DT<D>::gen(g); for (int k = 0; k < a.size(); ++k) if (g.b(0.3) && cam::DT<D>::N > 1) a[k] = val(g);
  D x = cam::DT<D>::make(a), u = cam::DT<D>::make(cam::DT<D>::gen(g)); std::string n = std::string("distortion.") + cam::DT<D>::name();
  auto dump = [](const D& y) { Dump d; Eigen::MatrixXd P; y.getParameters(P); d.m(P); for (int k = 0; k < 5; ++k) { Eigen::Vector2d p(0.1 * k, 0.3 - 0.07 * k); y.distort(p); d.m(p); } return d.s; };
  roundTrip(g, n, x, dump, &u); if (g.b(0.2)) fileTrip(g, n, x, dump);
  D c(x); binEq(n, x, c, true); if (a.size()) { Eigen::VectorXd b = a; int k = g.i(0, int(a.size()) - 1); if (a.size() > 1) b[k] = b[k] == 3 ? 4 : 3; else b[k] = b[k] < 1 ? 1.2 : 0.7; D e = cam::DT<D>::make(b); binEq(n, x, e, false); }
}
template <class P> void projection(Rng& g) {
  typedef cam::Model<P> M; M m = M::gen(g); P x = m.make(), u = M::gen(g).make(); std::string n = "projection." + cam::PT<P>::name();
  auto dump = [](const P& y) { Dump d; Eigen::MatrixXd Q; y.getParameters(Q); d.m(Q); y.distortion().getParameters(Q); d.m(Q).i(y.width()).i(y.height()).d(y.fu()).d(y.fv()).d(y.cu()).d(y.cv()); for (int k = 0; k < 8; ++k) { Eigen::Vector3d p(0.3 * k - 1, 0.21 * k * k - 2, 1.5 + k); Eigen::Vector2d z(0, 0); d.i(y.euclideanToKeypoint(p, z)).m(z); d.i(y.isEuclideanVisible(p)); } for (int k = 0; k < 6; ++k) { Eigen::Vector2d z(y.width() * (0.1 + 0.15 * k), y.height() * 0.4); Eigen::Vector3d e; bool v = y.keypointToEuclidean(z, e); d.i(v); if (v) d.m(e); } return d.s; };
  roundTrip(g, n, x, dump, &u); if (g.b(0.2)) fileTrip(g, n, x, dump);
  P c(x); binEq(n, x, c, true); Eigen::VectorXd t = m.t; int k = g.i(0, int(t.size()) - 1); t[k] += k < int(M::Off) ? 0.01 : 1; binEq(n, x, m.make(t, m.d), false);
  { M o = m; (g.b(0.5) ? o.w : o.h) += 1; binEq(n, x, o.make(), false); } if (m.d.size()) { Eigen::VectorXd d = m.d; d[g.i(0, int(d.size()) - 1)] += 0.01; if (d.size() > 1 || m.d[0] > 0.1) binEq(n, x, m.make(m.t, d), false); }
}
template <class C> struct Shut; template <> struct Shut<GlobalShutter> { static GlobalShutter gen(Rng&) { return GlobalShutter(); } }; template <> struct Shut<RollingShutter> { static RollingShutter gen(Rng& g) { return RollingShutter(g.u(-1e-4, 1e-4)); } };
template <class C> struct Mask; template <> struct Mask<NoMask> { static NoMask gen(Rng&, int, int) { return NoMask(); } };
template <> struct Mask<ImageMask> { static ImageMask gen(Rng& g, int w, int h) { double s = g.pick(std::vector<double>{1.0, 0.5, 0.25}); cv::Mat m(int(h * s) + 1, int(w * s) + 1, CV_8UC1); for (int r = 0; r < m.rows; ++r) for (int c = 0; c < m.cols; ++c) m.at<uchar>(r, c) = uchar(((r / 9 + c / 11) * 7 + g.i(0, 1)) % 3); return ImageMask(m, s); } };
template <class C> C makeCamera(Rng& g) {
  typedef typename C::projection_t P; cam::Model<P> m = cam::Model<P>::gen(g); if (std::is_same<typename C::mask_t, ImageMask>::value) { m.w = g.i(40, 90); m.h = g.i(40, 90); double s = 60.0 / m.t[cam::Model<P>::Off]; for (int k = 0; k < 4; ++k) m.t[cam::Model<P>::Off + k] *= s; }
  C c(m.make(), Shut<typename C::shutter_t>::gen(g), Mask<typename C::mask_t>::gen(g, m.w, m.h)); c.setId(CameraId(g.next() >> g.i(0, 60))); return c;
}
template <class C> void camera(Rng& g, const char* name) {
  C x = makeCamera<C>(g), u = makeCamera<C>(g); std::string n = std::string("camera.") + name; auto dump = [](const C& c) { return dumpCamera(c); };
  Opt o; o.cuts = 4; 
  // the masks make archives large: one used object out of three
  roundTrip(g, n, x, dump, g.b(0.3) ? &u : nullptr, o); if (g.b(0.15)) fileTrip(g, n, x, dump);
  { std::string data = saveTo(x, BIN); C l; loadFrom(l, data, BIN); binEq(n, x, l, true); C e(x); e.setId(CameraId(x.id().getId() + 1)); binEq(n, x, e, false); C q(x); Eigen::MatrixXd P; q.getParameters(P, true, false, false); int k = g.i(0, int(P.rows()) - 1); P(k, 0) += 0.25 * std::abs(P(k, 0)) + 0.1; q.setParameters(P, true, false, false); binEq(n, x, q, false); if (x.minimalDimensionsShutter() > 0) { C s(x); s.getParameters(P, false, false, true); P(0, 0) += 1; s.setParameters(P, false, false, true); binEq(n, x, s, false); } }
  // through the base class
  boost::shared_ptr<CameraGeometryBase> b(new C(x)); std::string want = dumpCamera(*b);
  for (int f = TEXT; f <= PORT; ++f) { std::string got, why; try { std::string data = saveTo(b, f); boost::shared_ptr<CameraGeometryBase> l; loadFrom(l, data, f); got = l ? dumpCamera(*l) : "null"; if (l) mon().check("C16." + n + ".type", dynamic_cast<C*>(l.get()) != nullptr, "the loaded camera has another type"); } catch (const std::exception& e) { why = e.what(); }
    mon().check("C16." + n + ".base", got == want, std::string(fmtName(f)) + " through the base class " + (why.empty() ? "gives " + got.substr(0, 900) : "throws " + why) + " instead of " + want.substr(0, 900)); }
}
template void camera<DistortedPinholeCameraGeometry>(Rng&, const char*);
// what masks looked like before the scale was stored, and what a later version could look like
struct OldMask { cv::Mat _mask; template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_mask); } };
struct FutureMask { cv::Mat _mask; double _scale; template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_mask); ar & BOOST_SERIALIZATION_NVP(_scale); } };
}
BOOST_CLASS_VERSION(ser::OldMask, 0)
BOOST_CLASS_VERSION(ser::FutureMask, 7)
VF_GROUP(distortions, 48, 800) { distortion<NoDistortion>(rng); distortion<RadialTangentialDistortion>(rng); distortion<EquidistantDistortion>(rng); distortion<FovDistortion>(rng); }
VF_GROUP(projections, 40, 600) {
  switch (caseno % 5) { case 0: projection<PinholeProjection<RadialTangentialDistortion>>(rng); break; case 1: projection<PinholeProjection<FovDistortion>>(rng); break; case 2: projection<OmniProjection<EquidistantDistortion>>(rng); break; case 3: projection<ExtendedUnifiedProjection<NoDistortion>>(rng); break; default: projection<DoubleSphereProjection<NoDistortion>>(rng); }
}
VF_GROUP(cameras, 45, 1000) {
  switch (caseno % 5) { case 0: camera<DistortedPinholeCameraGeometry>(rng, "DistortedPinhole"); break; case 1: camera<MaskedEquidistantDistortedPinholeRsCameraGeometry>(rng, "MaskedEquidistantDistortedPinholeRs"); break; case 2: camera<ExtendedUnifiedCameraGeometry>(rng, "ExtendedUnified"); break; case 3: camera<MaskedDistortedOmniCameraGeometry>(rng, "MaskedDistortedOmni"); break; default: camera<DoubleSphereCameraGeometry>(rng, "DoubleSphere"); }
}
VF_GROUP(masks, 64, 1200) {
  ImageMask x = Mask<ImageMask>::gen(rng, rng.i(3, 40), rng.i(3, 40)), u = Mask<ImageMask>::gen(rng, 9, 9); double sc = rng.u(0.1, 2); cv::Mat m = x.getMask(); x = ImageMask(m, sc);
  auto dump = [](const ImageMask& y) { Dump d; d.cv(y.getMask()); for (int r = 0; r < 12; ++r) for (int c = 0; c < 12; ++c) d.i(y.isValid(Eigen::Vector2d(c * 2.3, r * 2.3))); return d.s; };
  roundTrip(rng, "ImageMask", x, dump, &u); if (rng.b(0.3)) fileTrip(rng, "ImageMask", x, dump);
  binEq("ImageMask", x, ImageMask(m.clone(), sc), true); binEq("ImageMask", x, ImageMask(m, sc * 1.5), false); cv::Mat q = m.clone(); q.at<uchar>(q.rows - 1, q.cols - 1) ^= 4; binEq("ImageMask", x, ImageMask(q, sc), false);
  roundTrip(rng, "NoMask", NoMask(), [](const NoMask& y) { return Dump().i(y.isValid(Eigen::Vector2d(1, 1))).s; }); RollingShutter rs(val(rng)), ru(1); auto ds = [](const RollingShutter& y) { return Dump().d(y.lineDelay()).s; }; roundTrip(rng, "RollingShutter", rs, ds, &ru); binEq("RollingShutter", rs, RollingShutter(rs.lineDelay()), true); binEq("RollingShutter", rs, RollingShutter(rs.lineDelay() == 3 ? 4 : 3), false);
  roundTrip(rng, "GlobalShutter", GlobalShutter(), [](const GlobalShutter& y) { return Dump().i(y.minimalDimensions()).s; });
  int f = rng.pick(std::vector<int>{TEXT, XML, BIN, PORT}); OldMask om{m}; ImageMask l = u; std::string why, data = saveTo(om, f), one = dump(ImageMask(m, 1.0)); try { loadFrom(l, data, f); } catch (const std::exception& e) { why = e.what(); }
  mon().check("C16.ImageMask.oldVersion", why.empty() && dump(l) == one, std::string(fmtName(f)) + " mask without a scale " + (why.empty() ? "gives another mask" : "throws " + why));
  FutureMask fm{m, sc}; data = saveTo(fm, f); expectThrow("C16.ImageMask.futureVersion", [&] { ImageMask y; loadFrom(y, data, f); }, std::string(fmtName(f)) + " mask of a later version");
}
