// Reference piecewise polynomials (Cox-de Boor recursion in long double) for the B-spline checks.
#pragma once
#include "common.hpp"
#include <aslam_bsplines/BSpline.hpp>
namespace vf {
using aslam_bsplines::BSpline;
typedef long double LD;
struct RefSpline {
  int k = 0;
  std::vector<double> kn;
  Eigen::MatrixXd C;
  int segs() const { return (int)kn.size() - 2 * k + 1; }
  double tmin() const { return kn[k - 1]; }
  double tmax() const { return kn[kn.size() - k]; }
  // n-th derivative of N_{i,q} at t on the knot interval s, by definition
  LD N(int i, int q, int s, LD t, int n) const {
    if (i < 0 || i + q >= (int)kn.size() + 0) { if (i < 0 || i + q > (int)kn.size() - 1) return 0; }
    if (q == 1) return n == 0 && i == s ? 1.0L : 0.0L;
    LD a = (LD)kn[i + q - 1] - kn[i], b = (LD)kn[i + q] - kn[i + 1], r = 0;
    if (n == 0) {
      if (a > 0) r += (t - kn[i]) / a * N(i, q - 1, s, t, 0);
      if (b > 0) r += ((LD)kn[i + q] - t) / b * N(i + 1, q - 1, s, t, 0);
    } else {
      if (a > 0) r += (q - 1) / a * N(i, q - 1, s, t, n - 1);
      if (b > 0) r -= (q - 1) / b * N(i + 1, q - 1, s, t, n - 1);
    }
    return r;
  }
  // knot index s with kn[s] <= t < kn[s+1]; the last non-empty segment at t_max
  int seg(double t) const {
    int last = k - 1;
    for (int s = k - 1; s < (int)kn.size() - k; ++s) if (kn[s] < kn[s + 1] && kn[s] <= t) last = s;
    return last;
  }
  Eigen::VectorXd basis(int s, LD t, int n) const {
    Eigen::VectorXd r(k);
    for (int j = 0; j < k; ++j) r[j] = (double)N(s - k + 1 + j, k, s, t, n);
    return r;
  }
  Eigen::VectorXd evalSeg(int s, LD t, int n) const {
    Eigen::VectorXd v(C.rows());
    std::vector<LD> b(k);
    for (int j = 0; j < k; ++j) b[j] = N(s - k + 1 + j, k, s, t, n);
    for (int d = 0; d < C.rows(); ++d) { LD x = 0; for (int j = 0; j < k; ++j) x += b[j] * (LD)C(d, s - k + 1 + j); v[d] = (double)x; }
    return v;
  }
  Eigen::VectorXd eval(double t, int n) const { return evalSeg(seg(t), t, n); }
  static const std::vector<std::pair<LD, LD>>& gauss() {   // 16-point Gauss-Legendre on [-1,1] by Newton iteration
    static std::vector<std::pair<LD, LD>> g = [] {
      std::vector<std::pair<LD, LD>> r; const int n = 16;
      for (int i = 1; i <= n; ++i) {
        LD x = std::cos(3.14159265358979323846L * (i - 0.25L) / (n + 0.5L)), dp = 0;
        for (int it = 0; it < 100; ++it) { LD p0 = 1, p1 = x; for (int m = 2; m <= n; ++m) { LD p2 = ((2 * m - 1) * x * p1 - (m - 1) * p0) / m; p0 = p1; p1 = p2; } dp = n * (x * p1 - p0) / (x * x - 1); LD dx = p1 / dp; x -= dx; if (std::fabs((double)dx) < 1e-19) break; }
        r.push_back({x, 2 / ((1 - x * x) * dp * dp)});
      }
      return r;
    }();
    return g;
  }
  template <class F> void integrate(double a, double b, F f) const {   // f(segment, t, weight) over [a,b]
    for (int s = k - 1; s < (int)kn.size() - k; ++s) {
      LD lo = std::max((LD)a, (LD)kn[s]), hi = std::min((LD)b, (LD)kn[s + 1]);
      if (hi <= lo) continue;
      for (auto& g : gauss()) f(s, (lo + hi) / 2 + (hi - lo) / 2 * g.first, g.second * (hi - lo) / 2);
    }
  }
  Eigen::VectorXd integral(double a, double b) const {
    if (a > b) return -integral(b, a);
    std::vector<LD> r(C.rows(), 0);
    integrate(a, b, [&](int s, LD t, LD w) { for (int j = 0; j < k; ++j) { LD n = N(s - k + 1 + j, k, s, t, 0); for (int d = 0; d < C.rows(); ++d) r[d] += w * n * (LD)C(d, s - k + 1 + j); } });
    Eigen::VectorXd o(C.rows());
    for (int d = 0; d < C.rows(); ++d) o[d] = (double)r[d];
    return o;
  }
  // integral over [kn[lo],kn[hi]) of N_i^(n) N_j^(n), all coefficients
  Eigen::MatrixXd gram(int n, double a, double b) const {
    Eigen::MatrixXd G = Eigen::MatrixXd::Zero(C.cols(), C.cols());
    integrate(a, b, [&](int s, LD t, LD w) {
      std::vector<LD> v(k);
      for (int j = 0; j < k; ++j) v[j] = N(s - k + 1 + j, k, s, t, n);
      for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) G(s - k + 1 + i, s - k + 1 + j) += (double)(w * v[i] * v[j]);
    });
    return G;
  }
  double minSpan() const { double m = INFINITY; for (size_t i = 1; i < kn.size(); ++i) if (kn[i] > kn[i - 1]) m = std::min(m, kn[i] - kn[i - 1]); return m; }
  double timeScale() const { return std::max(std::fabs(kn.front()), std::fabs(kn.back())); }
  // rounding of a value of the n-th derivative: coefficients, conditioning of the power basis, rounding of the times
  double tol(int n) const {
    double c = std::max(1e-300, C.cwiseAbs().maxCoeff());
    double dn = std::pow(2.0 * k / minSpan(), n);
    return c * dn * (1e-14 * std::pow(4.0, k) + 8 * 2.3e-16 * timeScale() / minSpan() * k);
  }
  std::string desc() const { std::ostringstream o; o.precision(17); o << "order " << k << " knots"; for (double x : kn) o << ' ' << x; o << " dim " << C.rows(); return o.str(); }
  uint64_t hash() const { Eigen::VectorXd v = Eigen::Map<const Eigen::VectorXd>(kn.data(), kn.size()); return hmix(hashm(C), hashm(v)) + k; }
};
// style: 0 uniform, 1 random spacing, 2 strongly uneven, 3 clamped, 4 repeated interior knots
inline RefSpline genSpline(Rng& r, int kmin = 2, int kmax = 7, int dim = -1, int style = -1) {
  RefSpline s;
  s.k = r.i(kmin, kmax);
  int segs = r.pick(std::vector<int>{1, 2, 3, 5, 8, 13});
  int K = segs + 2 * s.k - 1;
  if (style < 0) style = r.i(0, 4);
  double t0 = r.b(0.25) ? 0.0 : r.b(0.7) ? r.u(-10, 10) : r.pick(std::vector<double>{1e3, -1e4, 1e5}), dt = r.pick(std::vector<double>{0.01, 0.1, 1.0, 7.5});
  if (std::fabs(t0) > 100 && dt < 0.1) dt = 0.1;
  s.kn.resize(K);
  double t = t0;
  for (int i = 0; i < K; ++i) {
    s.kn[i] = style == 0 ? t0 + dt * i : t;
    double f = style == 2 ? std::pow(10.0, r.u(-1.2, 0.3)) : r.u(0.3, 1.7);
    t += dt * f;
  }
  if (style == 3) { for (int i = 0; i < s.k - 1; ++i) { s.kn[i] = s.kn[s.k - 1]; s.kn[K - 1 - i] = s.kn[K - s.k]; } }
  if (style == 4 && segs > 2) {
    for (int q = 0; q < 2; ++q) { int i = r.i(s.k, K - s.k - 2); int m = r.i(1, s.k - 1); for (int j = 1; j <= m && i + j < K - s.k; ++j) s.kn[i + j] = s.kn[i]; }
  }
  if (dim < 0) dim = r.i(1, 4);
  s.C = r.mat(dim, segs + s.k - 1) * r.pick(std::vector<double>{0.1, 1.0, 100.0});
  mon().tag("knots:" + std::to_string(style)); mon().tag("order:" + std::to_string(s.k));
  return s;
}
inline BSpline make(const RefSpline& s) { BSpline b(s.k); b.setKnotsAndCoefficients(s.kn, s.C); return b; }
inline RefSpline refOf(const BSpline& b) { RefSpline s; s.k = b.splineOrder(); s.kn = b.knots(); s.C = b.coefficients(); return s; }
// times: interior, knots, just before and after knots, both ends
inline std::vector<double> genTimes(Rng& r, const RefSpline& s, int n) {
  std::vector<double> t = {s.tmin(), s.tmax(), std::nextafter(s.tmin(), INFINITY)};
  for (int i = 0; i < n; ++i) {
    double x;
    if (r.b(0.6)) x = r.u(s.tmin(), s.tmax());
    else { x = s.kn[r.i(s.k - 1, (int)s.kn.size() - s.k)]; if (r.b(0.3)) x = std::nextafter(x, r.b() ? INFINITY : -INFINITY); }
    t.push_back(std::min(std::max(x, s.tmin()), s.tmax()));
  }
  return t;
}
}  // namespace vf
