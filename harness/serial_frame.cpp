// C16: keypoints, landmarks, image pyramids, frames, calibration targets, observations and detectors.
#include "serial_common.hpp"
#include "camera_common.hpp"
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/Landmark.hpp>
#include <aslam_cameras/Image.hpp>
#include <aslam_cameras/KeypointIdentifier.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCirclegrid.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cv_serialization/cameras/CameraBaseSerialization.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/vector.hpp>
using namespace ser; using namespace aslam; using namespace aslam::cameras;
namespace ser {
std::string dumpCamera(const CameraGeometryBase& c);
template <class C> C frameCamera(Rng& g) { typedef typename C::projection_t P; cam::Model<P> m = cam::Model<P>::gen(g); C c(m.make()); c.setId(CameraId(g.next() >> 8)); return c; }
typedef Keypoint<2> K2;
/// A descriptor of the user.
struct TestDescriptor : DescriptorBase {
  double a = 0; std::vector<int> b;
  float distance(const DescriptorBase& o) const override { return float(a - o.as<TestDescriptor>().a); }
  void initFromArray(const unsigned char* d) override { a = d[0]; }
  DescriptorBase* clone() const override { return new TestDescriptor(*this); }
  bool isBinaryEqual(const DescriptorBase& r) const override { const TestDescriptor* t = dynamic_cast<const TestDescriptor*>(&r); return t && t->a == a && t->b == b; }
  void setRandom() override { a = 0.5; }
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(DescriptorBase); ar & BOOST_SERIALIZATION_NVP(a) & BOOST_SERIALIZATION_NVP(b); }
};
void dumpUhp(Dump& d, const sm::kinematics::UncertainHomogeneousPoint& p) { d.m(p.toHomogeneous()).m(p.U4()); }
void dumpDesc(Dump& d, const DescriptorBase* x) { const TestDescriptor* t = dynamic_cast<const TestDescriptor*>(x); if (!x) d.t("none"); else if (!t) d.t("other"); else { d.d(t->a); for (int v : t->b) d.i(v); } }
std::string dumpKey(const K2& k_) { K2& k = const_cast<K2&>(k_); Dump d; d.m(k.y()).m(k.invR()).i(k.octave()).u(k.getTraceId()).u(k.landmarkId().getId()).i(k.isLandmarkInitialized()).i(k.isBackProjectionSet()); if (k.isLandmarkInitialized()) dumpUhp(d, k.landmark()); if (k.backProjection()) d.m(k.backProjection()->mean()).m(k.backProjection()->covariance()); dumpDesc(d, k.descriptor()); return d.s; }
K2 makeKey(Rng& g) {
  K2 k; k.setMeasurement(Eigen::Vector2d(vals(g, 2, 1))); k.setInverseMeasurementCovariance(Eigen::Matrix2d(vals(g, 2, 2))); k.setOctave(g.i(-3, 20)); k.setTraceId(g.next() >> g.i(0, 60)); if (g.b(0.7)) k.setLandmarkId(LandmarkId(g.next() >> g.i(0, 60)));
  if (g.b(0.5)) k.setLandmark(uhp(g)); if (g.b(0.5)) k.setBackProjection(uv3(g));
  if (g.b(0.4)) { boost::shared_ptr<TestDescriptor> t(new TestDescriptor); t->a = val(g); for (int n = g.i(0, 4); n > 0; --n) t->b.push_back(g.i(-9, 9)); k.setDescriptorPtr(t); }
  return k;
}
size_t octaves(const Image& im) { size_t n = 0; for (;; ++n) try { im.getOctave(int(n)); } catch (const std::exception&) { return n; } }   // Image::numOctaves is declared, but defined nowhere
std::string dumpImage(const Image& im) { Dump d; size_t n = octaves(im); d.u(n); for (size_t k = 0; k < n; ++k) d.cv(im.getOctave(int(k))); return d.s; }
template <class C> std::string dumpFrame(const Frame<C>& f) { Dump d; d.u(f.id().getId()); dumpTime(d, f.time()); d.s += dumpImage(*f.getOctaves()); d.u(f.size()); for (size_t k = 0; k < f.size(); ++k) d.s += dumpKey(f.keypoint(k)); if (f.geometryPtr()) d.s += dumpCamera(*f.geometryPtr()); else d.t("no geometry"); return d.s; }
template <class C> void fillFrame(Rng& g, Frame<C>& f) {
  f.setId(FrameId(g.next() >> g.i(0, 60))); f.setTime(stamp(g)); if (g.b(0.8)) { if (g.b(0.4)) f.getOctavesMutable()->setNumOctaves(size_t(g.i(1, 3))); for (size_t k = 0, n = octaves(*f.getOctaves()); k < n; ++k) if (g.b(0.85)) f.setImage(image(g, g.pick(std::vector<int>{CV_8UC1, CV_8UC3, CV_16UC1}), g.i(1, 9), g.i(1, 9)), int(k)); }
  if (g.b(0.85)) f.setGeometry(boost::shared_ptr<C>(new C(frameCamera<C>(g)))); for (int n = g.i(0, 5); n > 0; --n) f.addKeypoint(makeKey(g));
}
template <class C> void frame(Rng& g, const char* name) {
  Frame<C> f, u; fillFrame(g, f); fillFrame(g, u); auto dump = [](const Frame<C>& x) { return dumpFrame(x); }; std::string n = std::string("frame.") + name; Opt o; o.cuts = 5;
  auto once = [&](const Frame<C>& src) {   // frames share their images when copied: use fresh ones
    std::string want = dump(src); int f1 = g.i(0, PORT); std::string data = saveTo(src, f1), got; try { Frame<C> w; fillFrame(g, w); loadFrom(w, data, f1); got = dump(w); binEq(n, w, src, f1 >= 0); } catch (const std::exception& e) { got = e.what(); }
    mon().check("C16." + n + ".used", got == want, std::string(fmtName(f1)) + " into a used frame gives " + got.substr(0, 800) + " instead of " + want.substr(0, 800)); };
  roundTrip(g, n, f, dump, (const Frame<C>*)nullptr, o); if (g.b(0.2)) fileTrip(g, n, f, dump); once(f);
  Frame<C> c(f); binEq(n, f, c, true); c.setTime(f.time() + Duration(1, 0)); binEq(n, f, c, false); Frame<C> e(f); e.setId(FrameId(f.id().getId() + 1)); binEq(n, f, e, false); Frame<C> h(f); h.addKeypoint(makeKey(g)); binEq(n, f, h, false);
  if (f.size()) { Frame<C> q(f); size_t k = size_t(g.i(0, int(f.size()) - 1)); q.keypoint(k).setOctave(99); binEq(n, f, q, false); Frame<C> r(f); r.keypoint(k).setMeasurement(r.keypoint(k).y() + Eigen::Vector2d(1 + r.keypoint(k).y().norm(), 0)); if (f.keypoint(k).y().norm() < 1e300) binEq(n, f, r, false); }
}
boost::shared_ptr<GridCalibrationTargetBase> target(Rng& g, bool& checker) {
  size_t r = size_t(g.i(2, 6)), c = size_t(g.i(2, 6)); checker = g.b(0.5); boost::shared_ptr<GridCalibrationTargetBase> p;
  if (checker) { GridCalibrationTargetCheckerboard::CheckerboardOptions o; o.useAdaptiveThreshold = g.b(0.5); o.normalizeImage = g.b(0.5); o.performFastCheck = g.b(0.5); o.filterQuads = g.b(0.5); o.doSubpixelRefinement = g.b(0.5); o.windowWidth = unsigned(g.i(1, 40)); p.reset(new GridCalibrationTargetCheckerboard(r, c, g.u(0.01, 2), g.u(0.01, 2), o)); }
  else { GridCalibrationTargetCirclegrid::CirclegridOptions o; o.useAsymmetricCirclegrid = g.b(0.5); p.reset(new GridCalibrationTargetCirclegrid(r, c, g.u(0.01, 2), o)); }
  if (g.b(0.3)) { double* d = p->getPointDataPointer(size_t(g.i(0, int(r * c) - 1))); d[g.i(0, 2)] += 0.01; }
  return p;
}
std::string dumpTarget(const GridCalibrationTargetBase* t) { if (!t) return "null "; Dump d; d.t(typeid(*t).name()).u(t->rows()).u(t->cols()).m(t->points()); for (size_t k = 0; k < t->size(); k += 2) d.m(t->point(k)); return d.s; }
typedef boost::shared_ptr<GridCalibrationTargetBase> TP;
std::string dumpObs(GridCalibrationTargetObservation o) {
  Dump d; d.s += dumpTarget(o.target().get()); d.u(o.imRows()).u(o.imCols()).cv(o.image()); dumpTime(d, o.time()); dumpPose(d, o.T_t_c()); d.m(o.points()).i(o.hasSuccessfulObservation());
  if (o.target()) { for (size_t k = 0; k < o.target()->size(); ++k) { Eigen::Vector2d p(0, 0); bool v = o.imagePoint(k, p); d.i(v); if (v) d.m(p); } std::vector<unsigned> ix; o.getCornersIdx(ix); for (unsigned v : ix) d.u(v); std::vector<cv::Point2f> ci; o.getCornersImageFrame(ci); for (auto& v : ci) d.f(v.x).f(v.y); }
  return d.s;
}
struct FutureObs { template <class A> void serialize(A& ar, unsigned) { int x = 0; ar & BOOST_SERIALIZATION_NVP(x); } };
}
BOOST_CLASS_VERSION(ser::FutureObs, 9)
BOOST_CLASS_EXPORT(ser::TestDescriptor)
VF_GROUP(featurePoints, 100, 1600) {
  K2 k = makeKey(rng), u = makeKey(rng); auto dump = [](const K2& x) { return dumpKey(x); }; roundTrip(rng, "Keypoint", k, dump, &u); if (rng.b(0.2)) fileTrip(rng, "Keypoint", k, dump);
  K2 c(k); binEq("Keypoint", k, c, true); mon().check("C16.Keypoint.copy", dumpKey(c) == dumpKey(k), "a copied keypoint differs"); K2 a; a = k; mon().check("C16.Keypoint.copy", dumpKey(a) == dumpKey(k), "an assigned keypoint differs"); u = k; mon().check("C16.Keypoint.copy", dumpKey(u) == dumpKey(k), "a keypoint assigned over another one differs");
  int w = rng.i(0, 6); if (w == 0) c.setOctave(k.octave() + 1); else if (w == 1) c.setLandmarkId(LandmarkId(k.landmarkId().getId() + 1)); else if (w == 2) c.setLandmark(uhp(rng)); else if (w == 3) c.setBackProjection(uv3(rng)); else if (w == 4) { Eigen::Matrix2d R = k.invR(); R(rng.i(0, 3)) = 7.25; c.setInverseMeasurementCovariance(R); } else if (w == 5) { Eigen::Vector2d y = k.y(); y[rng.i(0, 1)] = 7.25; c.setMeasurement(y); } else { boost::shared_ptr<TestDescriptor> t(new TestDescriptor); t->a = 1234.5; c.setDescriptorPtr(t); }
  if (dumpKey(c) != dumpKey(k)) binEq("Keypoint", k, c, false);
  KeypointIdentifier i(MultiFrameId(rng.next() >> rng.i(0, 60)), rng.next() >> rng.i(0, 60), rng.next() >> rng.i(0, 60)), iu(MultiFrameId(1), 2, 3); roundTrip(rng, "KeypointIdentifier", i, [](const KeypointIdentifier& x) { return Dump().u(x.frameId.getId()).u(x.cameraIndex).u(x.keypointIndex).s; }, &iu);
  Landmark l, lu; l.setPoint(uhp(rng)); l.setLandmarkId(LandmarkId(rng.next() >> 3)); l.setFrameId(rng.next() >> rng.i(0, 60)); if (rng.b(0.5)) { boost::shared_ptr<TestDescriptor> t(new TestDescriptor); t->a = val(rng); l.setDescriptorPtr(t); } lu.setPoint(uhp(rng));
  roundTrip(rng, "Landmark", l, [](const Landmark& x) { Dump d; dumpUhp(d, x.point()); d.u(x.landmarkId().getId()).u(x.frameId()); dumpDesc(d, x.descriptor()); return d.s; }, &lu);
  Landmark m(l); binEq("Landmark", l, m, true); if (rng.b(0.5)) m.setFrameId(l.frameId() + 1); else m.setLandmarkId(LandmarkId(l.landmarkId().getId() + 1)); binEq("Landmark", l, m, false);
  int oct = rng.i(1, 4); Image im(oct); for (int q = 0; q < oct; ++q) if (rng.b(0.9)) im.getOctaveMutable(q) = image(rng, rng.pick(std::vector<int>{CV_8UC1, CV_8UC3}), rng.i(1, 6), rng.i(1, 6)); Image iu2(rng.i(1, 4)); iu2.getOctaveMutable(0) = image(rng, CV_8UC1, 3, 3);
  roundTrip(rng, "Image", im, [](const Image& x) { return dumpImage(x); }, &iu2);
}
VF_GROUP(frames, 30, 640) { if (caseno % 2) frame<DistortedPinholeCameraGeometry>(rng, "DistortedPinhole"); else frame<ExtendedUnifiedCameraGeometry>(rng, "ExtendedUnified"); }
VF_GROUP(targets, 64, 1200) {
  bool chk, chk2; TP t = target(rng, chk); auto dump = [](const TP& x) { return dumpTarget(x.get()) + (x ? saveTo(x, TEXT) : ""); }; Opt o; o.portable = false; o.cuts = 6; TP u = target(rng, chk2);
  roundTrip(rng, "target", t, dump, (const TP*)nullptr, o);
  GridCalibrationTargetCheckerboard::CheckerboardOptions co, cu; co.useAdaptiveThreshold = rng.b(0.5); co.normalizeImage = rng.b(0.5); co.performFastCheck = rng.b(0.5); co.filterQuads = rng.b(0.5); co.doSubpixelRefinement = rng.b(0.5); co.showExtractionVideo = rng.b(0.5); co.windowWidth = unsigned(rng.i(0, 1000000));
  auto dc = [](const GridCalibrationTargetCheckerboard::CheckerboardOptions& x) { return Dump().i(x.useAdaptiveThreshold).i(x.normalizeImage).i(x.performFastCheck).i(x.filterQuads).i(x.doSubpixelRefinement).i(x.showExtractionVideo).u(x.windowWidth).s; }; roundTrip(rng, "CheckerboardOptions", co, dc, &cu, o);
  GridCalibrationTargetCirclegrid::CirclegridOptions ro; ro.useAsymmetricCirclegrid = rng.b(0.5); ro.showExtractionVideo = rng.b(0.5); roundTrip(rng, "CirclegridOptions", ro, [](const GridCalibrationTargetCirclegrid::CirclegridOptions& x) { return Dump().i(x.useAsymmetricCirclegrid).i(x.showExtractionVideo).s; }, (const GridCalibrationTargetCirclegrid::CirclegridOptions*)nullptr, o);
  GridDetector::GridDetectorOptions go; go.plotCornerReprojection = rng.b(0.5); go.imageStepping = rng.b(0.5); go.filterCornerOutliers = rng.b(0.5); go.filterCornerSigmaThreshold = float(rng.u(0, 9)); go.filterCornerMinReprojError = float(rng.u(0, 9)); roundTrip(rng, "GridDetectorOptions", go, [](const GridDetector::GridDetectorOptions& x) { return Dump().i(x.plotCornerReprojection).i(x.imageStepping).i(x.filterCornerOutliers).f(x.filterCornerSigmaThreshold).f(x.filterCornerMinReprojError).s; }, (const GridDetector::GridDetectorOptions*)nullptr, o);
  // the options travel with the target: a different option is a different archive, and it survives two trips
  if (chk) { GridCalibrationTargetCheckerboard a(3, 4, 0.1, 0.2, (co.showExtractionVideo = false, co)); int w = rng.i(0, 5); auto c2 = co; if (w == 0) c2.useAdaptiveThreshold ^= 1; else if (w == 1) c2.normalizeImage ^= 1; else if (w == 2) c2.performFastCheck ^= 1; else if (w == 3) c2.filterQuads ^= 1; else if (w == 4) c2.doSubpixelRefinement ^= 1; else c2.windowWidth += 1; GridCalibrationTargetCheckerboard b(3, 4, 0.1, 0.2, c2), l; std::string sa = saveTo(a, TEXT), sb = saveTo(b, TEXT); loadFrom(l, sb, TEXT); mon().check("C16.target.options", sa != sb && saveTo(l, TEXT) == sb, "the detection options of a checkerboard are not stored"); }
  // a whole observation
  GridCalibrationTargetObservation ob(t); if (rng.b(0.6)) ob.setImage(image(rng, CV_8UC1, rng.i(1, 9), rng.i(1, 9))); ob.setTime(stamp(rng)); if (rng.b(0.7)) ob.set_T_t_c(pose(rng)); for (size_t k = 0; k < t->size(); ++k) if (rng.b(0.6)) ob.updateImagePoint(k, Eigen::Vector2d(rng.vec(2, 500))); if (rng.b(0.3)) ob.removeImagePoint(size_t(rng.i(0, int(t->size()) - 1)));
  auto dob = [](const GridCalibrationTargetObservation& x) { return dumpObs(x); }; GridCalibrationTargetObservation ou(u, image(rng, CV_8UC1, 2, 2)); roundTrip(rng, "Observation", ob, dob, &ou, o); if (rng.b(0.2)) fileTrip(rng, "Observation", ob, dob);
  FutureObs fo; std::string data = saveTo(fo, BIN); expectThrow("C16.Observation.futureVersion", [&] { GridCalibrationTargetObservation l; loadFrom(l, data, BIN); }, "an observation of a later version");
  // several observations of one target share it after loading, too
  std::vector<GridCalibrationTargetObservation> v{ob, ob}; roundTrip(rng, "Observations", v, [](const std::vector<GridCalibrationTargetObservation>& x) { Dump d; d.u(x.size()); for (auto& e : x) d.s += dumpObs(e); d.i(x.size() < 2 || x[0].target() == x[1].target()); return d.s; }, (const std::vector<GridCalibrationTargetObservation>*)nullptr, o);
  // a detector: camera, target and options
  boost::shared_ptr<CameraGeometryBase> geo(new DistortedPinholeCameraGeometry(frameCamera<DistortedPinholeCameraGeometry>(rng))); go.plotCornerReprojection = false; GridDetector det(geo, t, go), du(geo, u);
  roundTrip(rng, "GridDetector", det, [](const GridDetector& x) { return (x.geometry() ? dumpCamera(*x.geometry()) : "none") + dumpTarget(x.target().get()) + saveTo(x, TEXT); }, &du, o);
  auto g2 = go; int w = rng.i(0, 3); if (w == 0) g2.imageStepping ^= 1; else if (w == 1) g2.filterCornerOutliers ^= 1; else if (w == 2) g2.filterCornerSigmaThreshold += 1; else g2.filterCornerMinReprojError += 1; mon().check("C16.GridDetector.options", saveTo(GridDetector(geo, t, g2), TEXT) != saveTo(det, TEXT), "the options of a detector are not stored");
}
