// Independent camera models (long double) and generators shared by the camera checks.
#pragma once
#include <Eigen/Dense>
#include "common.hpp"
#include <aslam_cameras/cameras.hpp>
#include <opencv2/core/core.hpp>
namespace cam {
using namespace vf;
using namespace aslam::cameras;
typedef long double L;
typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VL;
typedef Eigen::Matrix<L, 2, 1> V2L;
inline VL toL(const Eigen::VectorXd& v) { return v.cast<L>(); }

// ---------------------------------------------------------------- distortions
template <class D> struct DT;
template <> struct DT<NoDistortion> {
  static const char* name() { return "none"; }
  enum { N = 0 };
  static NoDistortion make(const Eigen::VectorXd&) { return NoDistortion(); }
  static Eigen::VectorXd gen(Rng&) { return Eigen::VectorXd(0); }
  static V2L f(const VL&, const V2L& y) { return y; }
  static double cap() { return 8; }
};
template <> struct DT<RadialTangentialDistortion> {
  static const char* name() { return "radtan"; }
  enum { N = 4 };
  static RadialTangentialDistortion make(const Eigen::VectorXd& d) { return RadialTangentialDistortion(d[0], d[1], d[2], d[3]); }
  static Eigen::VectorXd gen(Rng& r) {
    Eigen::VectorXd d(4); double s = r.pick(std::vector<double>{1, 1, 0.1, 1e-3});
    d << s * r.u(-0.45, 0.35), s * r.u(-0.2, 0.25), s * r.u(-0.02, 0.02), s * r.u(-0.02, 0.02);
    for (int k = 0; k < 4; ++k) if (r.b(0.15)) d[k] = 0;
    return d;
  }
  static V2L f(const VL& d, const V2L& y) {
    L r2 = y[0] * y[0] + y[1] * y[1], rad = 1 + d[0] * r2 + d[1] * r2 * r2;
    return V2L(y[0] * rad + 2 * d[2] * y[0] * y[1] + d[3] * (r2 + 2 * y[0] * y[0]), y[1] * rad + 2 * d[3] * y[0] * y[1] + d[2] * (r2 + 2 * y[1] * y[1]));
  }
  static double cap() { return 1.6; }
};
template <> struct DT<EquidistantDistortion> {
  static const char* name() { return "equidistant"; }
  enum { N = 4 };
  static EquidistantDistortion make(const Eigen::VectorXd& d) { return EquidistantDistortion(d[0], d[1], d[2], d[3]); }
  static Eigen::VectorXd gen(Rng& r) {
    Eigen::VectorXd d(4); double s = r.pick(std::vector<double>{1, 1, 0.1, 1e-3});
    d << s * r.u(-0.2, 0.2), s * r.u(-0.1, 0.15), s * r.u(-0.05, 0.05), s * r.u(-0.02, 0.02);
    for (int k = 0; k < 4; ++k) if (r.b(0.15)) d[k] = 0;
    return d;
  }
  static V2L f(const VL& d, const V2L& y) {
    L r = std::sqrt(y[0] * y[0] + y[1] * y[1]);
    if (r < 1e-15L) return y;
    L t = std::atan(r), t2 = t * t;
    return y * (t * (1 + t2 * (d[0] + t2 * (d[1] + t2 * (d[2] + t2 * d[3])))) / r);
  }
  static double cap() { return 8; }
};
template <> struct DT<FovDistortion> {
  static const char* name() { return "fov"; }
  enum { N = 1 };
  static FovDistortion make(const Eigen::VectorXd& d) { return FovDistortion(d[0]); }
  static Eigen::VectorXd gen(Rng& r) { Eigen::VectorXd d(1); d << (r.b(0.06) ? 0.0 : r.pick(std::vector<double>{r.u(0.51, 1.49), r.u(0.51, 1.49), 1.0, 0.52})); return d; }
  static V2L f(const VL& d, const V2L& y) {
    L r = std::sqrt(y[0] * y[0] + y[1] * y[1]);
    if (std::abs(d[0]) < 1e-12L) return y;
    L s = 2 * std::tan(d[0] / 2);
    if (r < 1e-15L) return y * (s / d[0]);
    return y * (std::atan(s * r) / (r * d[0]));
  }
  static double cap() { return 6; }
};

/// The undistorted radius up to which the distortion stays invertible (no folding) and well conditioned.
template <class D> double injectiveRadius(const Eigen::VectorXd& d_) {
  VL d = toL(d_); double cap = DT<D>::cap();
  if (std::is_same<D, EquidistantDistortion>::value) {   // the image radius as a function of the angle, with the first guess of the inversion inside, too
    double fold = 1.75, th = 0;
    for (double t = 0; t < 1.75; t += 0.005) { double t2 = t * t; if (1 + t2 * (3 * d_[0] + t2 * (5 * d_[1] + t2 * (7 * d_[2] + 9 * t2 * d_[3]))) < 0.4) { fold = t; break; } }
    for (double t = 0; t < std::min(fold, std::atan(cap)); t += 0.005) { double t2 = t * t; if (std::min(M_PI / 2, t * (1 + t2 * (d_[0] + t2 * (d_[1] + t2 * (d_[2] + t2 * d_[3]))))) > 0.92 * fold) break; th = t; }
    return std::tan(th * 0.98);
  }
  bool far = std::is_same<D, RadialTangentialDistortion>::value;
  for (int k = 1; k <= (far ? 110 : 60); ++k) {
    double r = cap * k / 60;
    for (int a = 0; a < 12; ++a) {
      L c = std::cos(L(a) * M_PI / 6), s = std::sin(L(a) * M_PI / 6), h = 1e-5L;
      V2L y(r * c, r * s);
      V2L er = (DT<D>::f(d, V2L(y + h * V2L(c, s))) - DT<D>::f(d, V2L(y - h * V2L(c, s)))) / (2 * h);
      V2L et = (DT<D>::f(d, V2L(y + h * V2L(-s, c))) - DT<D>::f(d, V2L(y - h * V2L(-s, c)))) / (2 * h);
      // folding is measured relative to the shrinking a plain perspective-to-angle mapping has
      L radial = (er[0] * c + er[1] * s) * (std::is_same<D, RadialTangentialDistortion>::value || std::is_same<D, NoDistortion>::value ? L(1) : L(1 + r * r));
      L det = er[0] * et[1] - er[1] * et[0];
      if (radial < 0.4L || det <= 0) {
        double lim = cap * (k - 1) / 60, lo = lim;
        // the distorted point is the first guess when undoing the distortion: keep it inside, too
        if (std::is_same<D, RadialTangentialDistortion>::value) for (int q = 0; q < 60; ++q) { double worst = 0; for (int b = 0; b < 12; ++b) worst = std::max(worst, double(DT<D>::f(d, V2L(lo * std::cos(L(b) * M_PI / 6), lo * std::sin(L(b) * M_PI / 6))).norm())); if (worst < 0.9 * lim) break; lo *= 0.95; }
        return std::min(cap, lo);
      }
    }
  }
  return cap;
}

// ---------------------------------------------------------------- projections (before distortion)
template <class P> struct PT;
template <class D> struct PT<PinholeProjection<D>> {
  typedef D dist_t; enum { N = 4, Off = 0 };
  static std::string name() { return std::string("pinhole-") + DT<D>::name(); }
  static Eigen::VectorXd genExtra(Rng&) { return Eigen::VectorXd(0); }
  static PinholeProjection<D> make(const Eigen::VectorXd& t, int w, int h, const D& d) { return PinholeProjection<D>(t[0], t[1], t[2], t[3], w, h, d); }
  static bool visible(const VL&, const Eigen::Matrix<L, 3, 1>& p, L& margin) { margin = p[2] / (1e-300L + p.norm()); return p[2] > 0; }
  static V2L norm(const VL&, const Eigen::Matrix<L, 3, 1>& p) { return V2L(p[0] / p[2], p[1] / p[2]); }
  static bool liftable(const VL&, L, L& m) { m = 1; return true; }
};
template <class D> struct PT<OmniProjection<D>> {
  typedef D dist_t; enum { N = 5, Off = 1 };
  static std::string name() { return std::string("omni-") + DT<D>::name(); }
  static Eigen::VectorXd genExtra(Rng& r) { Eigen::VectorXd e(1); e << r.pick(std::vector<double>{r.u(0.2, 1), r.u(1, 2.2), 1.0, 0.0, r.u(0.6, 1)}); return e; }
  static OmniProjection<D> make(const Eigen::VectorXd& t, int w, int h, const D& d) { return OmniProjection<D>(t[0], t[1], t[2], t[3], t[4], w, h, d); }
  static bool visible(const VL& t, const Eigen::Matrix<L, 3, 1>& p, L& m) {
    L d = p.norm(), fov = t[0] <= 1 ? t[0] : 1 / t[0]; m = (p[2] + fov * d) / (1e-300L + d); return p[2] > -fov * d; }
  static V2L norm(const VL& t, const Eigen::Matrix<L, 3, 1>& p) { L r = p[2] + t[0] * p.norm(); return V2L(p[0] / r, p[1] / r); }
  static bool liftable(const VL& t, L r2, L& m) { if (t[0] <= 1) { m = 1; return true; } m = 1 / (t[0] * t[0] - 1) - r2; return m >= 0; }
};
template <class D> struct PT<ExtendedUnifiedProjection<D>> {
  typedef D dist_t; enum { N = 6, Off = 2 };
  static std::string name() { return "eucm"; }
  static Eigen::VectorXd genExtra(Rng& r) { Eigen::VectorXd e(2); e << r.pick(std::vector<double>{r.u(0.05, 0.95), r.u(0.5, 0.95), 0.5, 0.0}), r.u(0.5, 2); return e; }
  static ExtendedUnifiedProjection<D> make(const Eigen::VectorXd& t, int w, int h, const D& d) { return ExtendedUnifiedProjection<D>(t[0], t[1], t[2], t[3], t[4], t[5], w, h, d); }
  static L dd(const VL& t, const Eigen::Matrix<L, 3, 1>& p) { return std::sqrt(t[1] * (p[0] * p[0] + p[1] * p[1]) + p[2] * p[2]); }
  static bool visible(const VL& t, const Eigen::Matrix<L, 3, 1>& p, L& m) {
    L w = t[0] <= 0.5L ? t[0] / (1 - t[0]) : (1 - t[0]) / t[0], d = dd(t, p); m = (p[2] + w * d) / (1e-300L + d); return p[2] > -w * d; }
  static V2L norm(const VL& t, const Eigen::Matrix<L, 3, 1>& p) { L r = t[0] * dd(t, p) + (1 - t[0]) * p[2]; return V2L(p[0] / r, p[1] / r); }
  static bool liftable(const VL& t, L r2, L& m) { if (t[0] <= 0.5L) { m = 1; return true; } m = 1 / (t[1] * (2 * t[0] - 1)) - r2; return m >= 0; }
};
template <class D> struct PT<DoubleSphereProjection<D>> {
  typedef D dist_t; enum { N = 6, Off = 2 };
  static std::string name() { return "ds"; }
  static Eigen::VectorXd genExtra(Rng& r) { Eigen::VectorXd e(2); e << r.pick(std::vector<double>{r.u(-0.4, 0.4), r.u(-0.3, 0), 0.0}), r.pick(std::vector<double>{r.u(0.1, 0.9), r.u(0.5, 0.9), 0.5}); return e; }
  static DoubleSphereProjection<D> make(const Eigen::VectorXd& t, int w, int h, const D& d) { return DoubleSphereProjection<D>(t[0], t[1], t[2], t[3], t[4], t[5], w, h, d); }
  static bool visible(const VL& t, const Eigen::Matrix<L, 3, 1>& p, L& m) {
    L w1 = t[1] <= 0.5L ? t[1] / (1 - t[1]) : (1 - t[1]) / t[1], w2 = (w1 + t[0]) / std::sqrt(2 * w1 * t[0] + t[0] * t[0] + 1), d = p.norm();
    m = (p[2] + w2 * d) / (1e-300L + d); return p[2] > -w2 * d; }
  static V2L norm(const VL& t, const Eigen::Matrix<L, 3, 1>& p) {
    L d1 = p.norm(), k = t[0] * d1 + p[2], d2 = std::sqrt(p[0] * p[0] + p[1] * p[1] + k * k), r = t[1] * d2 + (1 - t[1]) * k; return V2L(p[0] / r, p[1] / r); }
  static bool liftable(const VL& t, L r2, L& m) { if (t[1] <= 0.5L) { m = 1; return true; } m = 1 / (2 * t[1] - 1) - r2; return m >= 0; }
};

template <class P> struct Model {
  typedef typename PT<P>::dist_t D;
  enum { Off = PT<P>::Off, NP = PT<P>::N, ND = DT<D>::N };
  Eigen::VectorXd t, d; int w, h; double rmax;
  static Model gen(Rng& r) {
    Model m; m.d = DT<D>::gen(r); m.rmax = injectiveRadius<D>(m.d);
    m.w = r.pick(std::vector<int>{640, 752, 1280, 320, 97, r.i(40, 2000)}); m.h = r.pick(std::vector<int>{480, 480, 1024, 240, 61, r.i(40, 2000)});
    double f = m.w * r.pick(std::vector<double>{r.u(0.15, 0.4), r.u(0.3, 1.2), r.u(0.5, 3)});
    Eigen::VectorXd e = PT<P>::genExtra(r); m.t.resize(NP);
    m.t << e, f, f * (r.b(0.2) ? 1.0 : r.u(0.7, 1.4)), m.w * r.u(0.25, 0.75), m.h * r.u(0.25, 0.75);
    if (r.b(0.1)) m.t[Off + 2] = m.w / 2; 
    return m;
  }
  P make() const { return PT<P>::make(t, w, h, DT<D>::make(d)); }
  P make(const Eigen::VectorXd& tt, const Eigen::VectorXd& dd) const { return PT<P>::make(tt, w, h, DT<D>::make(dd)); }
  static V2L project(const VL& t, const VL& d, const Eigen::Matrix<L, 3, 1>& p) {
    V2L y = DT<D>::f(d, PT<P>::norm(t, p)); return V2L(t[Off] * y[0] + t[Off + 2], t[Off + 1] * y[1] + t[Off + 3]); }
  V2L project(const Eigen::Vector3d& p) const { return project(toL(t), toL(d), p.cast<L>()); }
  V2L normalized(const Eigen::Vector3d& p) const { return PT<P>::norm(toL(t), p.cast<L>()); }
  bool visible(const Eigen::Vector3d& p, double& margin) const { L m; bool v = PT<P>::visible(toL(t), p.cast<L>(), m); margin = double(m); return v; }
  bool inImage(const V2L& k, double& margin) const {
    margin = double(std::min(std::min(std::abs(k[0]), std::abs(w - k[0])), std::min(std::abs(k[1]), std::abs(h - k[1]))));
    return k[0] >= 0 && k[0] < w && k[1] >= 0 && k[1] < h; }
  uint64_t hash() const { return hmix(hashm(t), hmix(hashm(d), w * 7919ull + h)); }
  std::string str() const { return PT<P>::name() + " t=" + mstr(t.transpose()) + " d=" + mstr(d.transpose()) + " " + std::to_string(w) + "x" + std::to_string(h); }
  // numerical derivatives of the independent model
  Eigen::MatrixXd dPoint(const Eigen::Vector3d& p) const {
    Eigen::MatrixXd J(2, 3); L h = 1e-6L * std::max<L>(1e-3L, p.norm());
    for (int k = 0; k < 3; ++k) { Eigen::Matrix<L, 3, 1> a = p.cast<L>(), b = a; a[k] += h; b[k] -= h; J.col(k) = ((project(toL(t), toL(d), a) - project(toL(t), toL(d), b)) / (2 * h)).template cast<double>(); }
    return J; }
  Eigen::MatrixXd dProj(const Eigen::Vector3d& p) const {
    Eigen::MatrixXd J(2, NP);
    for (int k = 0; k < NP; ++k) { L h = 1e-6L * std::max<L>(1, std::abs(t[k])); VL a = toL(t), b = a; a[k] += h; b[k] -= h; J.col(k) = ((project(a, toL(d), p.cast<L>()) - project(b, toL(d), p.cast<L>())) / (2 * h)).template cast<double>(); }
    return J; }
  Eigen::MatrixXd dDist(const Eigen::Vector3d& p) const {
    Eigen::MatrixXd J(2, int(ND));
    for (int k = 0; k < ND; ++k) { L h = 1e-6L; VL a = toL(d), b = a; a[k] += h; b[k] -= h; J.col(k) = ((project(toL(t), a, p.cast<L>()) - project(toL(t), b, p.cast<L>())) / (2 * h)).template cast<double>(); }
    return J; }
  /// A point whose normalized coordinates have a chosen radius (bisection over the viewing angle), or a random direction.
  Eigen::Vector3d point(Rng& r) const {
    double s = std::exp(r.u(-3, 4)); int c = r.i(0, 11);
    if (c == 0) return Eigen::Vector3d(0, 0, s);
    if (c == 1) return s * Eigen::Vector3d(r.n() * 1e-6, r.n() * 1e-6, 1);
    if (c == 2) return s * Eigen::Vector3d(r.n() * 3e-3, r.n() * 1e-3, 1);
    if (c == 3) return s * r.dir();
    if (c == 4) return s * Eigen::Vector3d(r.n(), 0, r.u(0.2, 2));
    if (c == 5) return s * Eigen::Vector3d(0, r.n(), r.u(0.2, 2));
    if (c == 6) { Eigen::Vector3d p = r.dir(); p[2] = -std::abs(p[2]); return s * p; }
    if (c == 7) { double a = r.u(0, 2 * M_PI), th = r.u(0, M_PI); return s * Eigen::Vector3d(std::sin(th) * std::cos(a), std::sin(th) * std::sin(a), std::cos(th)); }
    double a = r.u(0, 2 * M_PI), rr = r.u(0, 1) * std::min(rmax, 3.0), lo = 0, hi = M_PI * 0.98;   // radius inside the injective range
    for (int i = 0; i < 60; ++i) { double th = (lo + hi) / 2; Eigen::Vector3d p(std::sin(th), 0, std::cos(th)); double mg; bool v = visible(p, mg); if (!v || double(normalized(p)[0]) > rr) hi = th; else lo = th; }
    double th = lo * (1 - 1e-6);
    return s * Eigen::Vector3d(std::sin(th) * std::cos(a), std::sin(th) * std::sin(a), std::cos(th));
  }
};
}  // namespace cam
