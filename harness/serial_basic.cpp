// C16: matrices, images, times, ids, points and poses; integers of the portable archives; damaged shapes.
#include "serial_common.hpp"
#include <aslam_cameras/frontend_ids.hpp>
#include <boost/serialization/vector.hpp>
using namespace ser;
namespace {
template <class M> M gen(Rng& g, int r, int c, bool finite) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = typename M::Scalar(finite ? val(g) : anyVal(g)); return m; }
template <class M> void mat(Rng& g, const char* n, int r, int c) {
  bool fin = g.b(0.8), isF = std::is_same<typename M::Scalar, float>::value; M a(r, c), b(M::RowsAtCompileTime == Eigen::Dynamic ? g.i(0, 4) : r, M::ColsAtCompileTime == Eigen::Dynamic ? g.i(0, 4) : c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (std::is_integral<typename M::Scalar>::value) a(i, j) = typename M::Scalar(int32_t(g.next())); else if (isF) a(i, j) = typename M::Scalar(std::ldexp(float(g.u(-1, 1)), g.i(-120, 120))); else a(i, j) = typename M::Scalar(fin ? val(g) : anyVal(g)); }
  b.setZero(); Opt o; o.finite = fin || isF || std::is_integral<typename M::Scalar>::value; o.cuts = 5;
  auto dump = [](const M& m) { return Dump().m(m).s; };
  roundTrip(g, std::string("matrix.") + n, a, dump, &b, o); if (o.finite && g.b(0.15)) fileTrip(g, std::string("matrix.") + n, a, dump);
}
// structures with the layout of an archived object, to write what the object itself never would
struct RawMat { long rows, cols; std::vector<double> d; template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(rows); ar & BOOST_SERIALIZATION_NVP(cols); if (!d.empty()) ar & boost::serialization::make_nvp("data", boost::serialization::make_array(&d[0], d.size())); } };
struct RawImage { int rows, cols, type; std::vector<uchar> d; template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(rows); ar & BOOST_SERIALIZATION_NVP(cols); ar & BOOST_SERIALIZATION_NVP(type); auto b = boost::serialization::make_binary_object(d.empty() ? nullptr : &d[0], d.size()); ar & boost::serialization::make_nvp("data", b); } };
struct Ints { int8_t a; uint8_t b; int16_t c; uint16_t d; int32_t e; uint32_t f; int64_t h; uint64_t i; bool j; char k; float x; double y; std::string s; std::wstring w;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(a) & BOOST_SERIALIZATION_NVP(b) & BOOST_SERIALIZATION_NVP(c) & BOOST_SERIALIZATION_NVP(d) & BOOST_SERIALIZATION_NVP(e) & BOOST_SERIALIZATION_NVP(f) & BOOST_SERIALIZATION_NVP(h) & BOOST_SERIALIZATION_NVP(i) & BOOST_SERIALIZATION_NVP(j) & BOOST_SERIALIZATION_NVP(k) & BOOST_SERIALIZATION_NVP(x) & BOOST_SERIALIZATION_NVP(y) & BOOST_SERIALIZATION_NVP(s) & BOOST_SERIALIZATION_NVP(w); } };
template <class M> void wrongShape(Rng& g, const char* n) {
  RawMat r; int mode = g.i(0, 4); long big = long(1) << g.i(28, 62);
  long R = M::RowsAtCompileTime, C = M::ColsAtCompileTime; bool dynR = R == Eigen::Dynamic, dynC = C == Eigen::Dynamic;
  r.rows = dynR ? g.i(0, 5) : R; r.cols = dynC ? g.i(0, 5) : C; size_t have = 0; bool mustFail = true;
  if (mode == 0) { if (g.b(0.5)) r.rows = -g.i(1, 100); else r.cols = -g.i(1, 100); }
  else if (mode == 1) { if (dynR && (!dynC || g.b(0.5))) { r.rows = big; if (dynC) r.cols = g.i(1, 5); } else if (dynC) { r.cols = big; if (dynR) r.rows = g.i(1, 5); } else r.rows = big; }
  else if (mode == 2) { if (!dynR) r.rows += g.pick(std::vector<int>{-1, 1, 2}); else if (!dynC) r.cols += g.pick(std::vector<int>{-1, 1, 2}); else { r.rows = big; r.cols = big; } }
  else { have = size_t(r.rows * r.cols); mustFail = false; if (have > 0 && mode == 3) { have -= size_t(g.i(1, int(have))); mustFail = true; } }
  r.d.assign(have, 1.25);
  int f = g.pick(std::vector<int>{TEXT, BIN, PORT}); std::string data = saveTo(r, f); mon().evaluation(fnv(std::string(n) + data));
  M m; bool threw = false; std::string why; try { loadFrom(m, data, f); } catch (const std::exception& e) { threw = true; why = e.what(); }
  // a text archive without the element count would be read on; everything else has a definite answer
  bool decided = !(f == TEXT && mode == 3);
  if (decided) mon().check(std::string("C16.wrongShape.") + n, threw == mustFail, std::string(fmtName(f)) + " mode " + std::to_string(mode) + " " + std::to_string(r.rows) + "x" + std::to_string(r.cols) + " with " + std::to_string(have) + " elements: " + (threw ? "threw " + why : "accepted"));
  mon().tag(threw ? "shape: refused" : "shape: accepted");
}
}  // namespace
VF_GROUP(matrices, 240, 3600) {
  int a = rng.i(0, 6), b = rng.i(0, 6);
  switch (caseno % 12) {
    case 0: mat<Eigen::MatrixXd>(rng, "MatrixXd", a, b); break;
    case 1: mat<Eigen::VectorXd>(rng, "VectorXd", a, 1); break;
    case 2: mat<Eigen::RowVectorXd>(rng, "RowVectorXd", 1, a); break;
    case 3: mat<Eigen::Matrix4d>(rng, "Matrix4d", 4, 4); break;
    case 4: mat<Eigen::Matrix<double, 2, 5>>(rng, "Matrix25", 2, 5); break;
    case 5: mat<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(rng, "RowMajor", a, b); break;
    case 6: mat<Eigen::Matrix<float, 3, Eigen::Dynamic>>(rng, "Matrix3Xf", 3, a); break;
    case 7: mat<Eigen::Matrix<double, Eigen::Dynamic, 3>>(rng, "MatrixX3", a, 3); break;
    case 8: mat<Eigen::MatrixXi>(rng, "MatrixXi", a, b); break;
    case 9: mat<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, 0, 6, 6>>(rng, "MatrixMax6", a, b); break;
    case 10: mat<Eigen::Matrix<double, 3, 4, Eigen::RowMajor>>(rng, "Matrix34Row", 3, 4); break;
    default: { typedef Eigen::Transform<double, 3, Eigen::Affine> T; T t; t.matrix() = vals(rng, 4, 4); roundTrip(rng, "transform", t, [](const T& x) { return Dump().m(x.matrix()).s; }, (const T*)nullptr); }
  }
}
VF_GROUP(shapes, 480, 12000) {
  switch (caseno % 5) { case 0: wrongShape<Eigen::MatrixXd>(rng, "MatrixXd"); break; case 1: wrongShape<Eigen::VectorXd>(rng, "VectorXd"); break; case 2: wrongShape<Eigen::RowVectorXd>(rng, "RowVectorXd"); break; case 3: wrongShape<Eigen::Matrix3d>(rng, "Matrix3d"); break; default: wrongShape<Eigen::Matrix<double, Eigen::Dynamic, 3>>(rng, "MatrixX3"); }
}
VF_GROUP(images, 160, 2800) {
  static const std::vector<int> types{CV_8UC1, CV_8UC3, CV_16SC1, CV_16UC2, CV_32FC1, CV_64FC1, CV_64FC3, CV_8SC4, CV_32SC1};
  int ty = rng.pick(types); cv::Mat full = image(rng, ty, rng.i(1, 9), rng.i(1, 9)), im = full;
  if (rng.b(0.4)) { int x = rng.i(0, full.cols - 1), y = rng.i(0, full.rows - 1); im = full(cv::Rect(x, y, rng.i(1, full.cols - x), rng.i(1, full.rows - y))); mon().tag(im.isContinuous() ? "continuous part" : "non-continuous part"); }
  if (rng.b(0.08)) im = cv::Mat();
  auto dump = [](const cv::Mat& m) { return Dump().cv(m).s; };
  Opt o; o.cuts = im.empty() ? 0 : 5; cv::Mat used = image(rng, ty, 2, 3);
  roundTrip(rng, "cvMat", im, dump, &used, o);
  if (rng.b(0.2) && !im.empty()) fileTrip(rng, "cvMat", im, dump);
  // loading into a matrix that shares its buffer leaves the other owners alone
  if (!im.empty()) {
    cv::Mat owner = image(rng, ty, im.rows + 2, im.cols + 3), part = rng.b(0.5) ? owner : owner(cv::Rect(1, 1, im.cols, im.rows)), same = im.clone(), shared = same; std::string before = dump(owner), b2 = dump(same);
    int f = rng.i(0, PORT); std::string data = saveTo(im, f); for (int k = 0; k < im.rows; ++k) shared.ptr(k)[0] ^= 0x5a; b2 = dump(same);
    loadFrom(part, data, f); loadFrom(shared, data, f);
    mon().check("C16.cvMat.shared", dump(owner) == before && dump(same) == b2 && dump(part) == dump(im) && dump(shared) == dump(im), "loading an image changed another image that shared its buffer");
    mon().check("C16.cvMat.isBinaryEqual", sm::opencv::isBinaryEqual(part, im) && !sm::opencv::isBinaryEqual(same, im), "binary comparison of images");
  }
  // damaged sizes
  RawImage r; r.rows = im.rows; r.cols = im.cols; r.type = ty; size_t bytes = size_t(im.rows) * im.cols * full.elemSize(); int mode = rng.i(0, 3);
  if (mode == 0) r.rows = -rng.i(1, 1000); else if (mode == 1) r.cols = -rng.i(1, 1000); else if (mode == 2) { r.rows = 1 << 30; r.cols = 1 << rng.i(3, 30); } else { r.rows += rng.i(1, 40); r.cols = std::max(1, r.cols); }
  r.d.assign(bytes, 7); int f = rng.pick(std::vector<int>{BIN, PORT}); std::string data = saveTo(r, f); cv::Mat l;
  expectThrow("C16.cvMat.damaged", [&] { loadFrom(l, data, f); }, std::string(fmtName(f)) + " image of " + std::to_string(r.rows) + "x" + std::to_string(r.cols) + " with " + std::to_string(bytes) + " bytes");
}
VF_GROUP(keypoints, 120, 2000) {
  cv::KeyPoint k(float(rng.u(-1e3, 1e3)), float(rng.u(0, 5)), float(rng.u(0, 50)), float(rng.u(-1, 360)), float(rng.n()), rng.i(-3, 9), rng.i(-1, 1000)), used(1, 2, 3, 4, 5, 6, 7);
  auto dump = [](const cv::KeyPoint& x) { return Dump().f(x.pt.x).f(x.pt.y).f(x.size).f(x.angle).f(x.response).i(x.octave).i(x.class_id).s; };
  roundTrip(rng, "cvKeyPoint", k, dump, &used); if (rng.b(0.2)) fileTrip(rng, "cvKeyPoint", k, dump);
}
VF_GROUP(times, 160, 3200) {
  aslam::Time t = rng.b(0.1) ? aslam::TIME_MAX : rng.b(0.1) ? aslam::Time(0, rng.i(0, 999999999)) : aslam::Time(uint32_t(rng.next()), uint32_t(rng.i(0, 999999999))), tu(3, 4);
  auto dt = [](const aslam::Time& x) { return Dump().u(x.sec).u(x.nsec).s; };
  roundTrip(rng, "Time", t, dt, &tu); if (rng.b(0.2)) fileTrip(rng, "Time", t, dt);
  aslam::Duration d = rng.b(0.1) ? aslam::DURATION_MIN : rng.b(0.1) ? aslam::DURATION_MAX : aslam::Duration(int32_t(rng.next()), int32_t(rng.i(0, 999999999))), du(-7, 8);
  auto dd = [](const aslam::Duration& x) { return Dump().i(x.sec).i(x.nsec).s; };
  roundTrip(rng, "Duration", d, dd, &du);
  uint64_t v = rng.b(0.2) ? uint64_t(-1) : rng.b(0.1) ? 0 : rng.next() >> rng.i(0, 60);
  aslam::FrameId fi(v), fu(5); auto di = [](const aslam::FrameId& x) { return Dump().u(x.getId()).s; }; roundTrip(rng, "FrameId", fi, di, &fu);
  aslam::LandmarkId li(v); roundTrip(rng, "LandmarkId", li, [](const aslam::LandmarkId& x) { return Dump().u(x.getId()).s; });
  aslam::MultiFrameId mi(v); roundTrip(rng, "MultiFrameId", mi, [](const aslam::MultiFrameId& x) { return Dump().u(x.getId()).s; });
}
VF_GROUP(kinematics, 120, 2000) {
  using namespace sm::kinematics;
  bool fin = rng.b(0.85); Opt o; o.finite = fin; auto v = [&](int n) { Eigen::VectorXd x(n); for (int k = 0; k < n; ++k) x[k] = fin ? val(rng) : anyVal(rng); if (n == 4 && !(x.norm() > 0)) x[3] = 1; return x; }; auto M = [&](int n) { Eigen::MatrixXd x(n, n); for (int k = 0; k < n * n; ++k) x(k) = fin ? val(rng) : anyVal(rng); return x; };
  switch (caseno % 6) {
    case 0: { HomogeneousPoint p, u(Eigen::Vector3d(1, 2, 3)); p.set(Eigen::Vector4d(v(4))); auto d = [](const HomogeneousPoint& x) { return Dump().m(x.toHomogeneous()).s; }; roundTrip(rng, "HomogeneousPoint", p, d, &u, o); HomogeneousPoint q(p); if (fin) { binEq("HomogeneousPoint", p, q, true); Eigen::Vector4d w = p.toHomogeneous(); int k = rng.i(0, 3); w[k] = w[k] == 7 ? 8 : 7; q.set(w); binEq("HomogeneousPoint", p, q, false); } break; }
    case 1: { UncertainHomogeneousPoint p(Eigen::Vector4d(v(4)), Eigen::Matrix4d(M(4))), u; auto d = [](const UncertainHomogeneousPoint& x) { return Dump().m(x.toHomogeneous()).m(x.U4()).s; }; roundTrip(rng, "UncertainHomogeneousPoint", p, d, &u, o); if (fin) { UncertainHomogeneousPoint q(p); binEq("UncertainHomogeneousPoint", p, q, true); Eigen::Matrix4d U = p.U4(); int k = rng.i(0, 15); U(k) = U(k) == 7 ? 8 : 7; q.setU(U); binEq("UncertainHomogeneousPoint", p, q, false); Eigen::Vector4d w = p.toHomogeneous(); k = rng.i(0, 3); w[k] = w[k] == 7 ? 8 : 7; binEq("UncertainHomogeneousPoint", p, UncertainHomogeneousPoint(w, p.U4()), false); } break; }
    case 2: { Transformation p = pose(rng), u = pose(rng); auto d = [](const Transformation& x) { Dump a; dumpPose(a, x); return a.m(x.T()).m(x.C()).s; }; roundTrip(rng, "Transformation", p, d, &u); if (rng.b(0.4)) fileTrip(rng, "Transformation", p, d); Transformation q(p); binEq("Transformation", p, q, true); q = Transformation(p.q(), Eigen::Vector3d(p.t() + Eigen::Vector3d::Unit(rng.i(0, 2)) * (1 + p.t().norm()))); binEq("Transformation", p, q, false); binEq("Transformation", p, Transformation(Eigen::Vector4d(-p.q()), p.t()), false); break; }
    case 3: { UncertainTransformation p(pose(rng), M(6)), u; auto d = [](const UncertainTransformation& x) { Dump a; dumpPose(a, x); return a.m(x.U()).s; }; roundTrip(rng, "UncertainTransformation", p, d, &u, o); if (fin) { UncertainTransformation q(p); binEq("UncertainTransformation", p, q, true); UncertainTransformation::covariance_t U = p.U(); int k = rng.i(0, 35); U(k) = U(k) == 7 ? 8 : 7; binEq("UncertainTransformation", p, UncertainTransformation(p, U), false); binEq("UncertainTransformation", p, UncertainTransformation(pose(rng), p.U()), false); } break; }
    case 4: { UncertainVector3 p(v(3), M(3)), u(Eigen::Vector3d(1, 2, 3), Eigen::Matrix3d::Ones()); auto d = [](const UncertainVector3& x) { return Dump().m(x.mean()).m(x.covariance()).s; }; roundTrip(rng, "UncertainVector3", p, d, &u, o); if (fin) { binEq("UncertainVector3", p, UncertainVector3(p), true); Eigen::Matrix3d U = p.E(); int k = rng.i(0, 8); U(k) = U(k) == 7 ? 8 : 7; binEq("UncertainVector3", p, UncertainVector3(p.v(), U), false); Eigen::Vector3d w = p.v(); k = rng.i(0, 2); w[k] = w[k] == 7 ? 8 : 7; binEq("UncertainVector3", p, UncertainVector3(w, p.E()), false); } break; }
    default: { UncertainVector<1> p(v(1)[0], v(1)[0]), u(1, 2); auto d = [](const UncertainVector<1>& x) { return Dump().d(x.mean()).d(x.covariance()).s; }; roundTrip(rng, "UncertainScalar", p, d, &u, o); break; }
  }
}
namespace ser { static std::string dumpInts(const Ints& x) { Dump d; d.i(x.a).i(x.b).i(x.c).i(x.d).i(x.e).i(x.f).i(x.h).u(x.i).i(x.j).i(x.k).f(x.x).d(x.y).t(x.s.c_str()); d.s += std::to_string(x.s.size()); for (wchar_t c : x.w) d.i(c); return d.s; } }
VF_GROUP(integers, 240, 6000) {
  auto pickI = [&](int bits, bool sgn) -> uint64_t {   // around every power of 256, the limits and 0
    switch (rng.i(0, 4)) { case 0: return 0; case 1: return sgn ? uint64_t(1) << (bits - 1) : ~uint64_t(0); case 2: return (sgn ? (uint64_t(1) << (bits - 1)) : 0) - 1; case 3: { uint64_t p = uint64_t(1) << (8 * rng.i(0, bits / 8 - 1)); uint64_t v = p + uint64_t(rng.i(-1, 1)); return sgn && rng.b(0.5) ? ~v + 1 : v; } default: return rng.next() >> rng.i(0, 63); } };
  Ints x{int8_t(pickI(8, true)), uint8_t(pickI(8, false)), int16_t(pickI(16, true)), uint16_t(pickI(16, false)), int32_t(pickI(32, true)), uint32_t(pickI(32, false)), int64_t(pickI(64, true)), pickI(64, false), rng.b(0.5), char(rng.i(32, 126)), float(rng.u(-9, 9)), val(rng), std::string(size_t(rng.i(0, 20)), char(rng.i(97, 122))), std::wstring(size_t(rng.i(0, 5)), wchar_t(rng.i(97, 122)))};
  std::string want = dumpInts(x); mon().evaluation(fnv(want));
  for (int f : {int(TEXT), int(BIN), int(PORT), int(PORTBIG), int(PORTLITTLE)}) {
    std::string data = saveTo(x, f), got, why; try { Ints y{}; loadFrom(y, data, f); got = dumpInts(y); } catch (const std::exception& e) { why = e.what(); }
    mon().check("C16.integers.roundtrip", got == want, std::string(fmtName(f)) + (why.empty() ? " loads " + got : " threw " + why) + " instead of " + want);
    if (f < PORT) continue;
    size_t cut = rng.next() % data.size(); bool threw = false; std::string g2; try { Ints y{}; loadFrom(y, data.substr(0, cut), f); g2 = dumpInts(y); } catch (const std::exception&) { threw = true; }
    mon().check("C16.integers.truncated", threw, "portable archive cut at " + std::to_string(cut) + " of " + std::to_string(data.size()) + " accepted");
  }
  // the size byte in front of an integer: a wrong one is an error
  std::string one; { std::ostringstream os; { boost::archive::portable_binary_oarchive a(os, boost::archive::no_header); int32_t v = 0x01020304; a << v; } one = os.str(); }
  int bad = rng.i(-128, 127); std::string dmg = one; dmg[dmg.size() - 5] = char(bad); dmg += std::string(300, '\1'); bool threw = false; int32_t v = 0;
  try { std::istringstream is(dmg); boost::archive::portable_binary_iarchive a(is, boost::archive::no_header); a >> v; } catch (const std::exception&) { threw = true; }
  if (one.size() >= 5 && uint8_t(one[one.size() - 5]) == 4) {
    mon().check("C16.integers.size", std::abs(bad) <= 4 ? !threw : threw, "an integer of " + std::to_string(bad) + " bytes in a 4-byte variable " + (threw ? "is refused" : "is accepted"));
    mon().tag("integer size byte");
  } else mon().check("C16.integers.layout", false, "unexpected layout of a portable integer");
}
// shared pointers stay shared, vectors keep their order
VF_GROUP(containers, 40, 800) {
  std::vector<boost::shared_ptr<sm::kinematics::Transformation>> v; int n = rng.i(0, 5); std::vector<boost::shared_ptr<sm::kinematics::Transformation>> pool; for (int k = 0; k < 3; ++k) pool.push_back(boost::shared_ptr<sm::kinematics::Transformation>(new sm::kinematics::Transformation(pose(rng))));
  for (int k = 0; k < n; ++k) v.push_back(rng.b(0.15) ? boost::shared_ptr<sm::kinematics::Transformation>() : rng.pick(pool));
  auto dump = [](const std::vector<boost::shared_ptr<sm::kinematics::Transformation>>& x) { Dump d; d.u(x.size()); for (size_t i = 0; i < x.size(); ++i) { if (!x[i]) { d.t("null"); continue; } dumpPose(d, *x[i]); for (size_t j = 0; j < i; ++j) d.i(x[i] == x[j]); } return d.s; };
  roundTrip(rng, "sharedPoses", v, dump);
}
VF_MAIN
