// Round trips, faults and bit-exact dumps shared by the serialization workloads.
#pragma once
#include <Eigen/Dense>
#include "common.hpp"
#include <fstream>
#include <sstream>
#include <opencv2/core/core.hpp>
#include <sm_eigen/serialization.hpp>
#include <sm_opencv/serialization.hpp>
#include <sm_boost/serialization.hpp>
#include <sm_boost/portable_binary_iarchive.hpp>
#include <sm_boost/portable_binary_oarchive.hpp>
#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/HomogeneousPoint.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
namespace ser {
using namespace vf;
/// Bit-exact description of everything observable.
struct Dump {
  std::string s;
  template <class T> Dump& raw(const T& v) { const unsigned char* p = reinterpret_cast<const unsigned char*>(&v); static const char* H = "0123456789abcdef"; for (size_t i = 0; i < sizeof(T); ++i) { s += H[p[i] >> 4]; s += H[p[i] & 15]; } s += ' '; return *this; }
  Dump& d(double v) { return raw(v); }
  Dump& f(float v) { return raw(v); }
  Dump& i(long long v) { s += std::to_string(v) + ' '; return *this; }
  Dump& u(unsigned long long v) { s += std::to_string(v) + ' '; return *this; }
  template <class M> Dump& m(const M& a) { s += '['; i(a.rows()); i(a.cols()); for (int c = 0; c < a.cols(); ++c) for (int r = 0; r < a.rows(); ++r) raw(typename M::Scalar(a(r, c))); s += "] "; return *this; }
  Dump& cv(const ::cv::Mat& a) { s += "cv"; i(a.rows); i(a.cols); i(a.type()); for (int r = 0; r < a.rows; ++r) for (size_t k = 0; k < a.cols * a.elemSize(); ++k) { s += "0123456789abcdef"[a.ptr(r)[k] >> 4]; s += "0123456789abcdef"[a.ptr(r)[k] & 15]; } return *this; }
  Dump& t(const char* x) { s += x; s += ' '; return *this; }
};
enum Fmt { TEXT, XML, BIN, PORT, PORTBIG, PORTLITTLE, NFMT };
inline const char* fmtName(int f) { static const char* n[] = {"text", "xml", "binary", "portable", "portable-big", "portable-little"}; return n[f]; }
template <class T> std::string saveTo(const T& o, int f) {
  std::ostringstream os(std::ios::binary);
  { switch (f) {
    case TEXT: { boost::archive::text_oarchive a(os); a << o; break; }
    case XML: { boost::archive::xml_oarchive a(os); a << boost::serialization::make_nvp("object", o); break; }
    case BIN: { boost::archive::binary_oarchive a(os); a << o; break; }
    case PORT: { boost::archive::portable_binary_oarchive a(os); a << o; break; }
    case PORTBIG: { boost::archive::portable_binary_oarchive a(os, boost::archive::endian_big); a << o; break; }
    default: { boost::archive::portable_binary_oarchive a(os, boost::archive::endian_little); a << o; break; }
  } }
  return os.str();
}
template <class T> void loadFrom(T& o, const std::string& s, int f) {
  std::istringstream is(s, std::ios::binary);
  switch (f) {
    case TEXT: { boost::archive::text_iarchive a(is); a >> o; break; }
    case XML: { boost::archive::xml_iarchive a(is); a >> boost::serialization::make_nvp("object", o); break; }
    case BIN: { boost::archive::binary_iarchive a(is); a >> o; break; }
    default: { boost::archive::portable_binary_iarchive a(is); a >> o; break; }
  }
}
/// Options: is every floating point value finite; does the type work with portable archives.
struct Opt { bool finite = true, portable = true; int cuts = 12; };
template <class T, class D> void roundTrip(Rng& g, const std::string& name, const T& obj, D dump, const T* used = nullptr, Opt o = Opt()) {
  const std::string want = dump(obj);
  mon().evaluation(fnv(name + want));
  int last = -1; std::string lastData;
  for (int f = 0; f < NFMT; ++f) {
    if (f >= PORT && !o.portable) continue;
    if (f > PORT && g.b(0.6)) continue;
    bool exact = o.finite || (f != TEXT && f != XML), threw = false; std::string got, why, data;
    try { data = saveTo(obj, f); }
    catch (const std::exception& e) { mon().check("C16." + name + ".save", !exact, std::string(fmtName(f)) + " saving threw " + e.what()); continue; }
    for (int into = 0; into < (used ? 2 : 1); ++into) {
      try { if (into) { T l(*used); loadFrom(l, data, f); got = dump(l); } else { T l; loadFrom(l, data, f); got = dump(l); } }
      catch (const std::exception& e) { threw = true; why = e.what(); }
      mon().check("C16." + name + ".roundtrip", threw ? !exact : got == want, std::string(fmtName(f)) + (into ? " (into a used object)" : "") + (threw ? " threw " + why : " loads " + got.substr(0, 1500) + " instead of " + want.substr(0, 1500)));
      if (threw) break;
    }
    if (exact && (last < 0 || g.b(0.4))) { last = f; lastData = data; }
    mon().tag(std::string("format ") + fmtName(f));
  }
  if (last < 0) return;
  // truncation: an error, or everything that matters was already there
  size_t n = lastData.size(), tok = n;
  if (last == TEXT) { tok = lastData.find_last_not_of(" \n"); tok = tok == std::string::npos ? 0 : lastData.find_last_of(" \n", tok) + 1; }
  // Boost's XML archive aborts the process in its destructor when only its own closing tag is missing: cut before that
  size_t full = n; if (last == XML) n = lastData.rfind("</object");
  for (int k = 0; k < o.cuts && n; ++k) {
    size_t cut = k == 0 ? n - 1 : k == 1 ? g.next() % std::min<size_t>(n, 40) : k == 2 ? n - 1 - g.next() % std::min<size_t>(n, 12) : g.next() % n;
    bool threw = false; std::string got;
    try { T l; loadFrom(l, lastData.substr(0, cut), last); got = dump(l); } catch (const std::exception&) { threw = true; }
    mon().check("C16." + name + ".truncated", threw || got == want || (last == TEXT && cut >= tok), std::string(fmtName(last)) + " archive cut at " + std::to_string(cut) + " of " + std::to_string(full) + " was accepted and gives " + got.substr(0, 1500) + " instead of " + want.substr(0, 1500));
    mon().tag(threw ? "truncated: refused" : "truncated: complete");
  }
}
/// The file functions.
template <class T, class D> void fileTrip(Rng& g, const std::string& name, const T& obj_, D dump) {
  T obj(obj_); const std::string want = dump(obj); std::string fn = scratch() + "/file-" + std::to_string(g.i(0, 3)); std::string got[3]; 
  try {
    { sm::boost_serialization::save(obj, fn); T l; sm::boost_serialization::load(l, fn); got[0] = dump(l); }
    { sm::boost_serialization::save_txt(obj, fn); T l; sm::boost_serialization::load_txt(l, fn); got[1] = dump(l); }
    { std::string tag = g.b(0.3) ? "" : "thing"; sm::boost_serialization::save_xml(obj, tag, fn); T l; sm::boost_serialization::load_xml(l, tag, fn); got[2] = dump(l); }
  } catch (const std::exception& e) { mon().check("C16." + name + ".file", false, std::string("file round trip threw ") + e.what()); return; }
  for (int k = 0; k < 3; ++k) mon().check("C16." + name + ".file", got[k] == want, "file format " + std::to_string(k) + " loads " + got[k].substr(0, 1200) + " instead of " + want.substr(0, 1200));
  T l; expectThrow("C16." + name + ".missingFile", [&] { sm::boost_serialization::load(l, scratch() + "/does/not/exist"); }, "loading a missing file");
  expectThrow("C16." + name + ".missingFile", [&] { sm::boost_serialization::save(obj, scratch() + "/does/not/exist"); }, "saving into a missing directory");
  tag_: mon().tag("file functions");
}
template <class T> void binEq(const std::string& name, const T& a, const T& b, bool same) { mon().check("C16." + name + ".isBinaryEqual", a.isBinaryEqual(b) == same && b.isBinaryEqual(a) == same, std::string("isBinaryEqual of ") + (same ? "equal" : "different") + " objects is wrong"); }
inline double val(Rng& g) {   // finite, of every magnitude
  switch (g.i(0, 7)) { case 0: return 0; case 1: return -0.0; case 2: return g.u(-1, 1) * std::pow(10, g.u(-300, 300)); case 3: return g.i(-5, 5); case 4: return 1.0 / 3 * g.i(1, 9); case 5: return std::numeric_limits<double>::max(); case 6: return g.b(0.5) ? std::numeric_limits<double>::min() : 5e-324; default: return g.n(); }
}
inline double anyVal(Rng& g) { int c = g.i(0, 9); return c == 0 ? std::nan("") : c == 1 ? std::numeric_limits<double>::infinity() : c == 2 ? -std::numeric_limits<double>::infinity() : val(g); }
inline Eigen::MatrixXd vals(Rng& g, int r, int c) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = val(g); return m; }
inline cv::Mat image(Rng& g, int type, int r, int c) { cv::Mat m(r, c, type); for (int i = 0; i < r; ++i) for (size_t k = 0; k < c * m.elemSize(); ++k) m.ptr(i)[k] = uchar(g.i(0, 255)); return m; }
inline aslam::Time stamp(Rng& g) { return aslam::Time(uint32_t(g.next() & 0x7fffffff), uint32_t(g.i(0, 999999999))); }
inline sm::kinematics::UncertainHomogeneousPoint uhp(Rng& g) { return sm::kinematics::UncertainHomogeneousPoint(Eigen::Vector4d(g.gvec(4).normalized()), Eigen::Matrix3d(g.spd(3))); }
inline sm::kinematics::UncertainVector3 uv3(Rng& g) { return sm::kinematics::UncertainVector3(g.v3(), g.spd(3)); }
inline sm::kinematics::Transformation pose(Rng& g) { Eigen::Vector4d q = g.vec(4).normalized(); return sm::kinematics::Transformation(q, Eigen::Vector3d(vals(g, 3, 1))); }
inline void dumpTime(Dump& d, const aslam::Time& t) { d.u(t.sec).u(t.nsec); }
inline void dumpPose(Dump& d, const sm::kinematics::Transformation& t) { d.m(t.q()).m(t.t()); }
}  // namespace ser
