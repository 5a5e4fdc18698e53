// C21: grids, histograms, distributions, estimators, matrix helpers and transformations against their definitions.
#include <Eigen/Dense>
#include "common.hpp"
#include <numeric>
#include <sys/time.h>
#include <aslam_incremental_calibration/statistics/Histogram.h>
#include <aslam_incremental_calibration/statistics/UniformDistribution.h>
#include <aslam_incremental_calibration/statistics/NormalDistribution.h>
#include <aslam_incremental_calibration/statistics/GammaDistribution.h>
#include <aslam_incremental_calibration/statistics/ChiSquareDistribution.h>
#include <aslam_incremental_calibration/statistics/EstimatorML.h>
#include <aslam_incremental_calibration/statistics/Randomizer.h>
#include <aslam_incremental_calibration/functions/LogGammaFunction.h>
#include <aslam_incremental_calibration/functions/LogFactorialFunction.h>
#include <aslam_incremental_calibration/functions/DigammaFunction.h>
#include <aslam_incremental_calibration/functions/IncompleteGammaPFunction.h>
#include <aslam_incremental_calibration/functions/IncompleteGammaQFunction.h>
#include <aslam_incremental_calibration/algorithms/matrixOperations.h>
#include <aslam_incremental_calibration/geometry/Transformation.h>
#include <aslam_incremental_calibration/utils/OuterProduct.h>
#include <aslam_incremental_calibration/base/Timestamp.h>
VF_MAIN
using namespace vf; using namespace aslam::calibration; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
// Simpson's rule, long double
template <class F> static double integral(F f, double a, double b, int n = 4000) { long double s = 0, h = ((long double)b - a) / n; for (int k = 0; k <= n; ++k) s += (k == 0 || k == n ? 1 : k % 2 ? 4 : 2) * (long double)f((double)(a + k * h)); return s * h / 3; }
// ---- grids
template <int M> static void realGrid(Rng& rng) {
  auto& m = mon(); typedef Grid<double, int, M> G; typedef typename G::Coordinate C; typedef typename G::Index I; C lo, hi, res; lo.resize(M); hi.resize(M); res.resize(M); std::vector<int> n(M);
  for (int k = 0; k < M; ++k) { n[k] = rng.i(1, M == 1 ? 40 : 6); res[k] = rng.b(0.4) ? std::ldexp(1.0, rng.i(-3, 3)) : std::exp(rng.u(-3, 3)); lo[k] = rng.u(-1, 1) * std::pow(10.0, rng.i(-1, 3)); hi[k] = lo[k] + res[k] * (rng.b() ? n[k] : n[k] + rng.u(0.05, 0.95)); }
  if ((res.array() > (hi - lo).array()).any()) return; G g(lo, hi, res); size_t tot = 1; for (int k = 0; k < M; ++k) { double q = (hi[k] - lo[k]) / res[k]; int c = (int)std::ceil(q); m.check("C21.grid/cells", g.getNumCells()(k) == c || std::abs(q - std::round(q)) < 1e-6, "cells"); n[k] = g.getNumCells()(k); tot *= n[k]; } m.check("C21.grid/total", g.getNumCellsTot() == tot && g.getCells().size() == tot, ""); m.check("C21.grid/range", g.getMinimum() == lo && g.getMaximum() == hi && g.getResolution() == res, "");
  if (tot > 20000) return; int c = 0; I i = I::Zero(M); std::vector<int> order; for (; i != g.getNumCells(); g.incrementIndex(i)) { g.getCell(i) = ++c; if (c > (int)tot) break; } m.check("C21.grid/visit", c == (int)tot, "cells visited " + std::to_string(c)); std::set<int> seen; for (auto it = g.getCellBegin(); it != g.getCellEnd(); ++it) seen.insert(*it); m.check("C21.grid/separate", seen.size() == tot && !seen.count(0), "every index names another cell");
  for (int k = 0; k < 20; ++k) { I x(M); C p(M); bool edge = rng.b(0.4); for (int d = 0; d < M; ++d) { double f = rng.u(); p[d] = lo[d] + f * (hi[d] - lo[d]); if (edge) switch (rng.i(0, 4)) { case 0: p[d] = hi[d]; break; case 1: p[d] = lo[d]; break; case 2: p[d] = std::nextafter(hi[d], lo[d]); break; case 3: p[d] = std::nextafter(lo[d], hi[d]); break; default: p[d] = std::min(hi[d], lo[d] + rng.i(0, n[d]) * res[d]); } p[d] = std::min(std::max(p[d], lo[d]), hi[d]); }
    m.check("C21.grid/in-range", g.isInRange(p), ""); bool ok = true; try { x = g.getIndex(p); g(p) += 0; } catch (const std::exception& e) { ok = false; } m.check("C21.grid/index-accepted", ok, "a point in range has a cell"); if (!ok) continue; m.check("C21.grid/valid", g.isValidIndex(x), ""); C q = g.getCoordinates(x); for (int d = 0; d < M; ++d) m.check("C21.grid/cell-of-point", std::abs(q[d] - p[d]) <= res[d] * 0.5 + 1e-9 * (std::abs(lo[d]) + std::abs(hi[d])), "point " + std::to_string(p[d]) + " in cell around " + std::to_string(q[d])); bool inside = (q.array() <= hi.array()).all(); if (inside) m.check("C21.grid/centre", g.getIndex(q) == x, "index of the centre of a cell"); m.check("C21.grid/access", &g[x] == &g(p) && &g.getCell(x) == &g[x], ""); }
  { C p = lo + (hi - lo) * rng.u(); int d = rng.i(0, M - 1); C q = p; q[d] = rng.b() ? hi[d] + 1e-6 + rng.u() : lo[d] - 1e-6 - rng.u(); m.check("C21.grid/out-of-range", !g.isInRange(q) && throws([&] { g.getIndex(q); }), ""); q[d] = NAN; m.check("C21.grid/nan", throws([&] { g.getIndex(q); }), ""); I x = g.getIndex(p); x[d] = rng.b() ? n[d] + rng.i(0, 3) : -rng.i(1, 4); m.check("C21.grid/bad-index", !g.isValidIndex(x) && throws([&] { g.getCell(x); }) && throws([&] { g.getCoordinates(x); }), "index " + std::to_string(x[d]) + " of " + std::to_string(n[d])); }
  G h(g); m.check("C21.grid/copy", h.getCells() == g.getCells(), ""); h.reset(); m.check("C21.grid/reset", std::count(h.getCellBegin(), h.getCellEnd(), 0) == (int)tot && g.getCells() != h.getCells(), ""); h = g; m.check("C21.grid/assign", h.getCells() == g.getCells(), "");
  C bad = res; bad[rng.i(0, M - 1)] = rng.pick(std::vector<double>{0, -1}); m.check("C21.grid/refuse-resolution", throws([&] { G x(lo, hi, bad); }), ""); bad = lo; m.check("C21.grid/refuse-empty", throws([&] { G x(lo, bad, res); }), ""); bad = res; bad[rng.i(0, M - 1)] = 2 * (hi - lo).maxCoeff(); m.check("C21.grid/refuse-coarse", throws([&] { G x(lo, hi, bad); }), ""); m.evaluation(hashm(lo));
}
VF_GROUP(grid, 300, 10000) { switch (rng.i(0, 2)) { case 0: realGrid<1>(rng); break; case 1: realGrid<2>(rng); break; default: realGrid<3>(rng); } }
VF_GROUP(grid_int, 300, 10000) {
  auto& m = mon(); typedef Grid<int, int, 2> G; Eigen::Vector2i lo, hi, res; for (int k = 0; k < 2; ++k) { lo[k] = rng.i(-60, 40); hi[k] = lo[k] + rng.i(1, 50); res[k] = rng.i(1, std::min(9, hi[k] - lo[k])); } G g(lo, hi, res); for (int k = 0; k < 2; ++k) m.check("C21.grid-int/cells", g.getNumCells()[k] == (hi[k] - lo[k]) / res[k] + 1, "");
  for (int k = 0; k < 20; ++k) { Eigen::Vector2i p(rng.i(lo[0], hi[0]), rng.i(lo[1], hi[1])), x; if (rng.b(0.2)) p[rng.i(0, 1)] = hi[0]; if (!g.isInRange(p)) continue; x = g.getIndex(p); m.check("C21.grid-int/index", x[0] == (p[0] - lo[0]) / res[0] && x[1] == (p[1] - lo[1]) / res[1], "point " + std::to_string(p[0]) + " in cell " + std::to_string(x[0])); Eigen::Vector2i c = g.getCoordinates(x); for (int d = 0; d < 2; ++d) m.check("C21.grid-int/centre", c[d] - lo[d] >= x[d] * res[d] && c[d] - lo[d] < (x[d] + 1) * res[d], "cell " + std::to_string(x[d]) + " from " + std::to_string(lo[d]) + " step " + std::to_string(res[d]) + " has coordinate " + std::to_string(c[d])); }
  m.evaluation(hmix(lo[0] * 977 + lo[1], hi[0] * 977 + hi[1] + 77 * res[0] + res[1]));
}
// ---- histograms
VF_GROUP(histogram, 300, 8000) {
  auto& m = mon(); double lo = rng.u(-20, 20), w = std::exp(rng.u(-2, 1)); int n = rng.i(1, 30); double hi = lo + n * w * (rng.b() && n > 1 ? 1 : 1.01); Histogram<double, 1> h(lo, hi, w); int N = h.getNumCells()(0), S = rng.i(2, 300); std::vector<double> ct(N, 0), smp; double in = 0; for (int k = 0; k < S; ++k) { double x = rng.b(0.1) ? rng.u(lo - 5 * w, hi + 5 * w) : rng.b(0.05) ? (rng.b() ? hi : std::nextafter(hi, lo)) : lo + (hi - lo) * (0.5 + 0.2 * std::max(-2.4, std::min(2.4, rng.n()))); smp.push_back(x); if (x < lo || x > hi) continue; int c = std::min(N - 1, (int)((x - lo) / w)); ct[c]++; in++; }
  bool thrown = false; try { if (rng.b()) h.addSamples(smp); else for (double x : smp) h.addSample(x); } catch (const std::exception&) { thrown = true; } m.check("C21.histogram/accepts", !thrown, "samples within the range"); if (thrown) return; typedef Eigen::Matrix<int, 1, 1> I1; bool same = true; double mean = 0, var = 0, best = 0, cum = 0, med = lo; bool have = false; for (int k = 0; k < N; ++k) { I1 i; i << k; same &= h.getCell(i) == ct[k]; double c = lo + (k + 0.5) * w; mean += c * ct[k]; best = std::max(best, ct[k]); } m.check("C21.histogram/counts", same && h.getSum() == in, "counts"); if (in < 2) return; 
  auto q = h.getNormalized(); m.near("C21.histogram/normalized", q.getSum(), 1.0, 1e-12, "sum"); bool prop = true; for (int k = 0; k < N; ++k) { I1 i; i << k; prop &= std::abs(q.getCell(i) * in - ct[k]) < 1e-9 * in; } m.check("C21.histogram/proportional", prop && h.getSum() == in, ""); Histogram<double, 1> r(q); r = h; m.check("C21.histogram/assign", r.getCells() == h.getCells(), "");
  // two dimensions
  typedef Histogram<double, 2> H2; Eigen::Vector2d a(lo, rng.u(-3, 3)), wd(w, std::exp(rng.u(-1, 0.5))), b = a + Eigen::Vector2d(rng.i(1, 8) * wd[0], rng.i(1, 8) * wd[1]) * 1.001; H2 g(a, b, wd); std::map<std::pair<int, int>, double> ref; double tot = 0; Eigen::Vector2d mu(0, 0); std::vector<Eigen::Vector2d> pts; for (int k = 0; k < S; ++k) { Eigen::Vector2d p(rng.u(a[0] - 0.2, b[0]), rng.u(a[1], b[1] + 0.2)); pts.push_back(p); if (p[0] < a[0] || p[0] > b[0] || p[1] < a[1] || p[1] > b[1]) continue; ref[{(int)((p[0] - a[0]) / wd[0]), (int)((p[1] - a[1]) / wd[1])}]++; tot++; } for (auto& p : pts) g.addSample(p); auto ctr = [&](const std::pair<int, int>& i) { return Eigen::Vector2d(a + Eigen::Vector2d((i.first + 0.5) * wd[0], (i.second + 0.5) * wd[1])); }; bool eq = g.getSum() == tot; double mx = 0; for (auto& x : ref) { eq &= g.getCell(Eigen::Vector2i(x.first.first, x.first.second)) == x.second; mu += ctr(x.first) * x.second; mx = std::max(mx, x.second); } m.check("C21.histogram2/counts", eq, ""); if (tot > 1) { m.check("C21.histogram2/access", mx > 0, ""); m.near("C21.histogram2/normalized", g.getNormalized().getSum(), 1.0, 1e-12, ""); }
  m.evaluation(hmix(S, rng.next()));
}
// ---- distributions
VF_GROUP(uniform, 200, 6000) {
  auto& m = mon(); double a = rng.u(-10, 10), b = a + std::exp(rng.u(-3, 3)); UniformDistribution<double> u(a, b); m.near("C21.uniform/area", u.getSupportArea(), b - a, 1e-12 * (1 + std::abs(a) + std::abs(b)), ""); auto f = [&](double x) { return u.pdf(x); }; m.near("C21.uniform/normalised", integral(f, a, b, 200), 1.0, 1e-9, "pdf"); m.check("C21.uniform/outside", u.pdf(a - 1e-6) == 0 && u.pdf(b + 1e-6) == 0, ""); m.near("C21.uniform/mean", u.getMean(), (a + b) / 2, 1e-9, "mean"); m.near("C21.uniform/median", u.getMedian(), (a + b) / 2, 1e-9, "median"); m.near("C21.uniform/variance", u.getVariance(), (b - a) * (b - a) / 12, 1e-9 * (b - a) * (b - a), "variance"); m.check("C21.uniform/mode", throws([&] { u.getMode(); }), "");
  std::vector<double> s; u.getSamples(s, 400); double mean = 0; bool in = s.size() == 400; for (double x : s) { in &= x >= a && x <= b; mean += x / 400; } m.check("C21.uniform/sample", in, ""); m.check("C21.uniform/sample-mean", std::abs(mean - (a + b) / 2) < 7 * (b - a) / std::sqrt(12 * 400.0), ""); double c = b + rng.u(0.1, 3); u.setMaxSupport(c); u.setMinSupport(b); m.check("C21.uniform/support", u.getMinSupport() == b && u.getMaxSupport() == c && std::abs(u.pdf((b + c) / 2) * (c - b) - 1) < 1e-12, ""); m.check("C21.uniform/refused", throws([&] { u.setMinSupport(c + 1); }) && throws([&] { u.setSupport(c, c); }) && u.getMinSupport() == b && u.getMaxSupport() == c && std::abs(u.getSupportArea() - (c - b)) < 1e-9, "");
  int i0 = rng.i(-20, 20), i1 = i0 + rng.i(1, 30); UniformDistribution<int> d(i0, i1); double p = 0, mu = 0, v = 0; for (int k = i0 - 2; k <= i1 + 2; ++k) { p += d.pmf(k); mu += k * d.pmf(k); v += (k - 0.5 * (i0 + i1)) * (k - 0.5 * (i0 + i1)) * d.pmf(k); } m.near("C21.uniform-int/normalised", p, 1.0, 1e-12, ""); m.near("C21.uniform-int/mean", d.getMean(), mu, 1e-9, "mean"); m.near("C21.uniform-int/median", d.getMedian(), mu, 1e-9, "median"); m.near("C21.uniform-int/variance", d.getVariance(), v, 1e-9 * (1 + v), "variance"); bool ok = true; for (int k = 0; k < 100; ++k) { int x = d.getSample(); ok &= x >= i0 && x <= i1; } m.check("C21.uniform-int/sample", ok, "");
  Eigen::Vector3d l, h; for (int k = 0; k < 3; ++k) l[k] = rng.u(-5, 5), h[k] = l[k] + std::exp(rng.u(-1, 1)); UniformDistribution<double, 3> t(l, h); double vol = (h - l).prod(); m.near("C21.uniform-vector/area", t.getSupportArea(), vol, 1e-9 * vol, ""); Eigen::Vector3d x = l + (h - l) * rng.u(); m.near("C21.uniform-vector/pdf", t.pdf(x), 1 / vol, 1e-9 / vol, ""); x[rng.i(0, 2)] = 100; m.check("C21.uniform-vector/outside", t.pdf(x) == 0, ""); m.near("C21.uniform-vector/mean", t.getMean(), (l + h) / 2, 1e-9, "mean"); m.near("C21.uniform-vector/median", t.getMedian(), (l + h) / 2, 1e-9, "median"); Eigen::Matrix3d cov = ((h - l).array().square() / 12).matrix().asDiagonal(); m.near("C21.uniform-vector/covariance", t.getCovariance(), cov, 1e-9 * (1 + cov.norm()), "covariance"); ok = true; for (int k = 0; k < 50; ++k) { Eigen::Vector3d s = t.getSample(); ok &= (s.array() >= l.array()).all() && (s.array() <= h.array()).all(); } m.check("C21.uniform-vector/sample", ok, ""); Eigen::Vector3d bad = h; bad[rng.i(0, 2)] = -50; m.check("C21.uniform-vector/refused", throws([&] { t.setMaxSupport(bad); }) && t.getMaxSupport() == h, "");
  Eigen::Vector2i li(rng.i(-5, 5), rng.i(-5, 5)), hi(li[0] + rng.i(1, 6), li[1] + rng.i(1, 6)); UniformDistribution<int, 2> ti(li, hi); double ps = 0; Eigen::Vector2d mi(0, 0); Eigen::Matrix2d ci = Eigen::Matrix2d::Zero(); Eigen::Vector2d cc = 0.5 * (li + hi).cast<double>(); for (int y = li[0] - 1; y <= hi[0] + 1; ++y) for (int z = li[1] - 1; z <= hi[1] + 1; ++z) { Eigen::Vector2i q(y, z); double w = ti.pmf(q); ps += w; mi += w * q.cast<double>(); ci += w * (q.cast<double>() - cc) * (q.cast<double>() - cc).transpose(); } m.near("C21.uniform-grid/normalised", ps, 1.0, 1e-9, ""); m.near("C21.uniform-grid/mean", ti.getMean(), mi, 1e-9, "mean"); m.near("C21.uniform-grid/covariance", ti.getCovariance(), ci, 1e-9 * (1 + ci.norm()), "covariance"); m.evaluation(hashm(l));
}
VF_GROUP(normal, 200, 6000) {
  auto& m = mon(); double mu = rng.u(-10, 10), v = std::exp(rng.u(-4, 4)), s = std::sqrt(v); NormalDistribution<1> n(mu, v); auto f = [&](double x) { return n.pdf(x); }; m.near("C21.normal/normalised", integral(f, mu - 9 * s, mu + 9 * s), 1.0, 1e-9, ""); m.near("C21.normal/mean", integral([&](double x) { return x * f(x); }, mu - 9 * s, mu + 9 * s), n.getMean(), 1e-8 * (1 + std::abs(mu) + s), ""); m.near("C21.normal/variance", integral([&](double x) { return (x - mu) * (x - mu) * f(x); }, mu - 10 * s, mu + 10 * s), n.getVariance(), 1e-8 * v, ""); double x = mu + s * rng.u(-5, 5); m.near("C21.normal/cdf", n.cdf(x), integral(f, mu - 12 * s, x), 1e-8, "cdf"); m.near("C21.normal/logpdf", n.logpdf(x), std::log(n.pdf(x)), 1e-9 * (1 + std::abs(n.logpdf(x))), ""); m.near("C21.normal/mahalanobis", n.mahalanobisDistance(x), (x - mu) * (x - mu) / v, 1e-9 * (1 + (x - mu) * (x - mu) / v), ""); m.check("C21.normal/centre", n.getMode() == mu && n.getMedian() == mu && n.getMean() == mu, ""); m.near("C21.normal/precision", n.getPrecision() * v, 1.0, 1e-12, ""); m.near("C21.normal/std", n.getStandardDeviation(), s, 1e-12 * s, "");
  NormalDistribution<1> o(mu + s * rng.u(-1, 1), v * std::exp(rng.u(-0.7, 0.7))); m.near("C21.normal/kl", n.KLDivergence(o), integral([&](double y) { return f(y) * (n.logpdf(y) - o.logpdf(y)); }, mu - 12 * s, mu + 12 * s), 1e-7, "divergence"); m.check("C21.normal/refused", throws([&] { n.setVariance(0); }) && throws([&] { n.setVariance(-1); }) && n.getVariance() == v && n.pdf(x) == f(x), ""); double sm = 0; bool fin = true; for (int k = 0; k < 400; ++k) { double y = n.getSample(); fin &= std::isfinite(y); sm += y / 400; } m.check("C21.normal/sample-mean", fin && std::abs(sm - mu) < 7 * s / 20, "");
  Eigen::Vector3d M = rng.gvec(3); Eigen::Matrix3d A = rng.mat(3, 3), S = A * A.transpose() + 0.2 * Eigen::Matrix3d::Identity(); S = 0.5 * (S + S.transpose().eval()); NormalDistribution<3> g(M, S); Eigen::Vector3d y = M + rng.gvec(3); Eigen::Matrix3d P = S.inverse(); double d2 = (y - M).dot(P * (y - M)), lp = -0.5 * d2 - 1.5 * std::log(2 * M_PI) - 0.5 * std::log(S.determinant()); m.near("C21.normal-vector/logpdf", g.logpdf(y), lp, 1e-8 * (1 + std::abs(lp)), ""); m.near("C21.normal-vector/pdf", g.pdf(y), std::exp(lp), 1e-8 * (1 + std::exp(lp)), ""); m.near("C21.normal-vector/mahalanobis", g.mahalanobisDistance(y), d2, 1e-8 * (1 + d2), ""); m.near("C21.normal-vector/precision", g.getPrecision() * S, Eigen::Matrix3d::Identity(), 1e-9 * (1 + P.norm() * S.norm()), ""); m.near("C21.normal-vector/determinant", g.getDeterminant(), S.determinant(), 1e-9 * (1 + S.determinant()), "");
  Eigen::Matrix3d B = rng.mat(3, 3), Q = B * B.transpose() + 0.3 * Eigen::Matrix3d::Identity(); Q = 0.5 * (Q + Q.transpose().eval()); Eigen::Vector3d N = rng.gvec(3); NormalDistribution<3> h(N, Q); double kl = 0.5 * ((Q.inverse() * S).trace() + (N - M).dot(Q.inverse() * (N - M)) - 3 + std::log(Q.determinant() / S.determinant())); m.near("C21.normal-vector/kl", g.KLDivergence(h), kl, 1e-8 * (1 + std::abs(kl)), ""); Eigen::Matrix3d L = g.getTransformation().matrixL(); m.near("C21.normal-vector/factor", L * L.transpose(), S, 1e-9 * (1 + S.norm()), "");
  Eigen::Matrix3d bad = S; switch (rng.i(0, 2)) { case 0: bad(0, 1) += 0.5; break; case 1: bad = -S; break; default: bad = S - (Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(S).eigenvalues()[0] + 0.1) * Eigen::Matrix3d::Identity(); } bool th = throws([&] { g.setCovariance(bad); }); m.check("C21.normal-vector/refused", th, "covariance that is not symmetric positive definite"); if (th) { Eigen::Matrix3d L2 = g.getTransformation().matrixL(); m.check("C21.normal-vector/unchanged", g.getCovariance() == S && L2 == L && g.logpdf(y) == g.logpdf(y), "distribution after a refused covariance"); } { Eigen::Matrix3d sing = Eigen::Vector3d(1, 2, 0).asDiagonal(); m.check("C21.normal-vector/singular", throws([&] { h.setCovariance(sing); }) && h.getCovariance() == Q, "singular covariance"); }
  m.evaluation(hashm(M));
}
VF_GROUP(gamma, 200, 6000) {
  auto& m = mon(); double a = rng.b(0.2) ? 1 : std::exp(rng.u(0, 2.5)), b = std::exp(rng.u(-2, 2)); GammaDistribution<> g(a, b); auto f = [&](double x) { return g.pdf(x); }; double hi = (a + 14 * std::sqrt(a) + 40) / b; if (a >= 3 || a == 1) { m.near("C21.gamma/normalised", integral(f, 0, hi, 8000), 1.0, 1e-6, ""); m.near("C21.gamma/mean", g.getMean(), integral([&](double x) { return x * f(x); }, 0, hi, 8000), 1e-6 * (1 + a / b), "mean"); m.near("C21.gamma/variance", g.getVariance(), integral([&](double x) { return (x - a / b) * (x - a / b) * f(x); }, 0, hi, 8000), 1e-5 * (1 + a / b / b), "variance"); } double x = rng.u(0.05, 0.95) * (a + 3 * std::sqrt(a)) / b; double d = 1e-5 * x; m.near("C21.gamma/cdf", (g.cdf(x + d) - g.cdf(x - d)) / (2 * d), f(x), 1e-4 * (1e-3 + f(x)), "derivative of the cdf"); m.check("C21.gamma/cdf-ends", g.cdf(0) == 0 && g.cdf(-1) == 0 && std::abs(g.cdf(hi) - 1) < 1e-6 && g.pdf(-0.1) == 0, ""); double p = rng.u(0.001, 0.999); m.near("C21.gamma/quantile", g.cdf(g.invcdf(p)), p, 1e-8, "quantile"); m.check("C21.gamma/refused", throws([&] { g.invcdf(1.5); }) && throws([&] { g.invcdf(-0.1); }) && throws([&] { g.setShape(0); }) && throws([&] { g.setInvScale(-1); }) && g.getShape() == a && g.getInvScale() == b, ""); double mo = g.getMode(); m.check("C21.gamma/mode", f(mo) >= f(mo * (1 + 1e-3)) - 1e-12 && (mo == 0 || f(mo) >= f(mo * (1 - 1e-3)) - 1e-12), "mode"); GammaDistribution<> fl(rng.u(0.1, 0.9), b); m.check("C21.gamma/no-mode", throws([&] { fl.getMode(); }), "");
  if (a >= 3) { GammaDistribution<> o(a * std::exp(rng.u(-0.3, 0.3)), b * std::exp(rng.u(-0.3, 0.3))); m.near("C21.gamma/kl", g.KLDivergence(o), integral([&](double y) { return y <= 0 ? 0 : f(y) * (g.logpdf(y) - o.logpdf(y)); }, 0, hi, 8000), 1e-5, "divergence"); } double sm = 0; bool pos = true; for (int k = 0; k < 300; ++k) { double y = g.getSample(); pos &= y >= 0 && std::isfinite(y); sm += y / 300; } m.check("C21.gamma/sample", pos && std::abs(sm - a / b) < 8 * std::sqrt(a) / b / std::sqrt(300.0), "sample mean " + std::to_string(sm) + " of shape " + std::to_string(a) + " inverse scale " + std::to_string(b));
  double k = rng.b() ? rng.i(1, 30) : rng.u(0.5, 30); ChiSquareDistribution c(k); m.near("C21.chi2/degrees", c.getDegrees(), k, 1e-12 * k, ""); m.near("C21.chi2/mean", c.getMean(), k, 1e-9 * k, "mean"); m.near("C21.chi2/variance", c.getVariance(), 2 * k, 1e-9 * k, ""); if (k >= 1) m.check("C21.chi2/median", std::abs(c.cdf(c.getMedian()) - 0.5) < 0.02, "median"); double y = rng.u(0.1, 2) * k; m.near("C21.chi2/logpdf", c.logpdf(y), (k / 2 - 1) * std::log(y) - y / 2 - k / 2 * std::log(2.0) - std::lgamma(k / 2), 1e-9 * (1 + std::abs(c.logpdf(y))), ""); if (std::abs(k - std::round(k)) < 1e-12 && (int)std::round(k) % 2 == 0) { double s = 0, t = 1; for (int i = 0; i < (int)std::round(k) / 2; ++i) { s += t; t *= (y / 2) / (i + 1); } m.near("C21.chi2/cdf", c.cdf(y), 1 - std::exp(-y / 2) * s, 1e-9, "cdf of an even number of degrees"); } double k2 = rng.u(1, 9); c.setDegrees(k2); m.near("C21.chi2/set", c.getMean(), k2, 1e-9, ""); m.check("C21.chi2/refused", throws([&] { c.setDegrees(0); }) && throws([&] { ChiSquareDistribution z(-2); }), ""); m.evaluation(hmix((uint64_t)(a * 1e9), (uint64_t)(b * 1e9)));
}
VF_GROUP(functions, 200, 6000) {
  auto& m = mon(); double x = std::exp(rng.u(-2, 4)); LogGammaFunction<double> lg; DigammaFunction<double> dg; m.near("C21.functions/recurrence", lg(x + 1), lg(x) + std::log(x), 1e-10 * (1 + std::abs(lg(x + 1))), "log gamma"); double d = 1e-5 * x; m.near("C21.functions/digamma", dg(x), (lg(x + d) - lg(x - d)) / (2 * d), 1e-5 * (1 + std::abs(dg(x)) + std::abs(lg(x)) / x), "digamma"); int p = rng.i(1, 5); LogGammaFunction<double> mv(p); double y = x + p; double want = p * (p - 1) / 4.0 * std::log(M_PI); for (int j = 1; j <= p; ++j) want += std::lgamma(y + (1 - j) / 2.0); m.near("C21.functions/multivariate", mv(y), want, 1e-9 * (1 + std::abs(want)), "multivariate log gamma"); mv.setDim(1); m.near("C21.functions/dimension", mv(y), std::lgamma(y), 1e-9 * (1 + std::abs(want)), "");
  size_t n = rng.i(0, 200); LogFactorialFunction lf; double s = 0; for (size_t k = 2; k <= n; ++k) s += std::log((double)k); m.near("C21.functions/factorial", lf(n), s, 1e-9 * (1 + s), "log factorial"); LogGammaFunction<size_t> lgi; m.near("C21.functions/integer-gamma", lgi(n + 1), s, 1e-9 * (1 + s), "log gamma of an integer"); m.check("C21.functions/refused", throws([&] { lgi(0); }), "");
  double a = std::exp(rng.u(-1, 3)), z = a * rng.u(0.05, 3); IncompleteGammaPFunction P(a); IncompleteGammaQFunction Q(a); m.near("C21.functions/complement", P(z) + Q(z), 1.0, 1e-10, "P + Q"); double e = 1e-5 * z; m.near("C21.functions/incomplete", (P(z + e) - P(z - e)) / (2 * e) * z, std::exp(a * std::log(z) - z - std::lgamma(a)), 1e-4 * (1e-2 + std::exp(a * std::log(z) - z - std::lgamma(a))), "derivative of P"); m.check("C21.functions/start", P(0) == 0 && Q(0) == 1 && P.getAlpha() == a, ""); P.setAlpha(a + 1); Q.setAlpha(a + 1); m.near("C21.functions/alpha", P(z) + Q(z), 1.0, 1e-10, ""); m.near("C21.functions/alpha-recurrence", IncompleteGammaPFunction(a)(z) - P(z), std::exp(a * std::log(z) - z - std::lgamma(a + 1)), 1e-9, ""); m.evaluation(hmix((uint64_t)(x * 1e9), n));
}
VF_GROUP(sampling, 60, 1500) {
  auto& m = mon(); Randomizer<double, 4> r; int N = 600; double lam = rng.u(0.3, 12), rate = rng.u(0.1, 5), pr = rng.u(0.1, 1); double sp = 0, se = 0, sg = 0; bool ok = true; for (int k = 0; k < N; ++k) { sp += r.samplePoisson(lam); double e = r.sampleExponential(rate); ok &= e >= 0; se += e; sg += r.sampleGeometric(pr); } m.check("C21.sampling/poisson", std::abs(sp / N - lam) < 7 * std::sqrt(lam / N), "mean " + std::to_string(sp / N)); m.check("C21.sampling/exponential", ok && std::abs(se / N - 1 / rate) < 8 / rate / std::sqrt(N), "mean"); m.check("C21.sampling/geometric", std::abs(sg / N - (1 - pr) / pr) < 0.02 + 8 * std::sqrt(1 - pr) / pr / std::sqrt(N), "mean " + std::to_string(sg / N) + " probability " + std::to_string(pr));
  Eigen::Vector4d c = rng.vec(4).cwiseAbs(); if (rng.b(0.3)) c[rng.i(0, 3)] = 0; c /= c.sum(); std::vector<int> ct(4, 0); for (int k = 0; k < N; ++k) { size_t x = r.sampleCategorical(c); if (x < 4) ct[x]++; else ok = false; } for (int k = 0; k < 4; ++k) m.check("C21.sampling/categorical", ok && std::abs(ct[k] / (double)N - c[k]) < 0.01 + 7 * std::sqrt(c[k] * (1 - c[k]) / N), "category " + std::to_string(k)); double mu = rng.u(-5, 5), v = rng.u(0.1, 9), s1 = 0, s2 = 0; for (int k = 0; k < N; ++k) { double x = r.sampleNormal(mu, v); s1 += x; s2 += (x - mu) * (x - mu); } m.check("C21.sampling/normal", std::abs(s1 / N - mu) < 7 * std::sqrt(v / N) && std::abs(s2 / N - v) < 8 * v * std::sqrt(2.0 / N), ""); double sh = rng.u(0.2, 6), sum = 0; for (int k = 0; k < N; ++k) sum += r.sampleGamma(sh, rate); m.check("C21.sampling/gamma", std::abs(sum / N - sh / rate) < 8 * std::sqrt(sh) / rate / std::sqrt(N), "");
  c[0] += 0.1; m.check("C21.sampling/refused", throws([&] { r.sampleCategorical(c); }) && throws([&] { r.samplePoisson(0); }) && throws([&] { r.sampleExponential(-1); }) && throws([&] { r.sampleGeometric(0); }) && throws([&] { r.sampleGeometric(1.1); }) && throws([&] { r.sampleGamma(0, 1); }) && throws([&] { r.sampleGamma(1, 0); }) && throws([&] { r.sampleNormal(0, 0); }) && throws([&] { r.sampleUniform(1, 1); }), ""); m.evaluation(hashm(c));
}
VF_GROUP(estimator, 200, 6000) {
  auto& m = mon(); int n = rng.i(6, 60); std::vector<double> x(n); double off = rng.u(-5, 5), mu = 0, v = 0; for (auto& y : x) y = off + rng.n() * 2, mu += y / n; for (double y : x) v += (y - mu) * (y - mu) / n; EstimatorML<NormalDistribution<1>> e; m.check("C21.estimator/empty", !e.getValid() && e.getNumPoints() == 0, ""); e.addPoints(x); m.check("C21.estimator/count", e.getNumPoints() == (size_t)n && e.getValid(), ""); m.near("C21.estimator/mean", e.getDistribution().getMean(), mu, 1e-9 * (1 + std::abs(mu)), "mean"); m.near("C21.estimator/variance", e.getDistribution().getVariance(), v, 1e-8 * (1 + v + mu * mu), "variance"); e.reset(); m.check("C21.estimator/reset", !e.getValid() && e.getNumPoints() == 0, ""); std::vector<double> half(x.begin(), x.begin() + n / 2); e.addPoints(half); m.near("C21.estimator/after-reset", e.getDistribution().getMean(), std::accumulate(half.begin(), half.end(), 0.0) / half.size(), 1e-9 * (1 + std::abs(off)), ""); VX w(n); for (int k = 0; k < n; ++k) w[k] = rng.u(0, 2); double wm = 0, wv = 0; for (int k = 0; k < n; ++k) wm += w[k] * x[k]; wm /= w.sum(); for (int k = 0; k < n; ++k) wv += w[k] * (x[k] - wm) * (x[k] - wm); wv /= w.sum(); e.addPoints(x.begin(), x.end(), w); m.near("C21.estimator/weighted-mean", e.getDistribution().getMean(), wm, 1e-9 * (1 + std::abs(wm)), ""); m.near("C21.estimator/weighted-variance", e.getDistribution().getVariance(), wv, 1e-9 * (1 + wv), ""); EstimatorML<NormalDistribution<1>> cst; for (int k = 0; k < 3; ++k) cst.addPoint(2.0); m.check("C21.estimator/degenerate", !cst.getValid(), "equal points have no normal distribution");
  std::vector<Eigen::Vector3d> pts(n); Eigen::Matrix3d A = rng.mat(3, 3) + Eigen::Matrix3d::Identity() * 2; Eigen::Vector3d M(0, 0, 0); for (auto& p : pts) p = A * rng.gvec(3) + Eigen::Vector3d::Constant(off), M += p / n; Eigen::Matrix3d S = Eigen::Matrix3d::Zero(), T = S; for (auto& p : pts) S += (p - M) * (p - M).transpose() / n; EstimatorML<NormalDistribution<3>> g; VX one = VX::Ones(n); g.addPoints(pts.begin(), pts.end(), one);  if (g.getValid()) { m.near("C21.estimator-vector/mean", g.getDistribution().getMean(), M, 1e-9 * (1 + M.norm()), "mean"); m.near("C21.estimator-vector/covariance", g.getDistribution().getCovariance(), S, 1e-8 * (1 + S.norm() + M.squaredNorm()), "covariance"); } m.check("C21.estimator-vector/valid", g.getValid(), ""); Eigen::Vector3d wM(0, 0, 0); for (int k = 0; k < n; ++k) wM += w[k] * pts[k]; wM /= w.sum(); for (int k = 0; k < n; ++k) T += w[k] * (pts[k] - wM) * (pts[k] - wM).transpose(); T /= w.sum(); g.reset(); g.addPoints(pts.begin(), pts.end(), w); m.near("C21.estimator-vector/weighted-mean", g.getDistribution().getMean(), wM, 1e-9 * (1 + wM.norm()), ""); m.near("C21.estimator-vector/weighted-covariance", g.getDistribution().getCovariance(), T, 1e-9 * (1 + T.norm()), ""); m.evaluation(hmix(n, rng.next()));
}
VF_GROUP(matrix, 300, 10000) {
  auto& m = mon(); int n = rng.i(2, 12); MX R = MX::Zero(n, n); for (int i = 0; i < n; ++i) { for (int j = i + 1; j < n; ++j) R(i, j) = rng.n(); R(i, i) = (rng.b() ? 1 : -1) * rng.u(0.5, 3); } int a = rng.i(0, n - 2), b = rng.i(a + 1, n - 1); MX C = (R.transpose() * R).inverse(); MX g = computeCovariance(R, a, b); m.check("C21.matrix/covariance-shape", g.rows() == b - a + 1 && g.cols() == b - a + 1, ""); if (g.rows() == b - a + 1) m.near("C21.matrix/covariance", g, C.block(a, a, b - a + 1, b - a + 1), 1e-7 * (1 + C.norm()), "covariance of columns " + std::to_string(a) + " to " + std::to_string(b)); double s = 0; for (int k = a; k <= b; ++k) s += std::log2(std::abs(R(k, k))); m.near("C21.matrix/log-diagonal", computeSumLogDiagR(R, a, b), s, 1e-9 * (1 + std::abs(s)), ""); m.check("C21.matrix/refused", throws([&] { computeCovariance(R, b, a); }) && throws([&] { computeCovariance(R, a, n); }) && throws([&] { computeSumLogDiagR(R, a, a); }) && throws([&] { computeSumLogDiagR(R, a, n + 2); }), ""); Eigen::Vector3d p = rng.gvec(3), q = rng.gvec(3); m.near("C21.matrix/outer", OuterProduct::compute<double, 3>(p), p * p.transpose(), 1e-12 * (1 + p.squaredNorm()), ""); Eigen::Matrix3d pq = OuterProduct::compute<double, 3, 3>(p, q); m.near("C21.matrix/outer-pair", pq, p * q.transpose(), 1e-12 * (1 + p.norm() * q.norm()), ""); m.evaluation(hashm(R));
}
VF_GROUP(transformation, 300, 10000) {
  auto& m = mon(); double x = rng.n(), y = rng.n(), z = rng.n(), r = rng.u(-3, 3), p = rng.u(-3, 3), w = rng.u(-3, 3); Transformation<double, 3> T(x, y, z, r, p, w); Eigen::Matrix4d W = Eigen::Matrix4d::Identity(); W.topLeftCorner<3, 3>() = (Eigen::AngleAxisd(w, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())).toRotationMatrix(); W.topRightCorner<3, 1>() << x, y, z; m.near("C21.transformation/matrix", T.getTransformationMatrix(), W, 1e-12 * (1 + W.norm()), ""); Eigen::Vector3d v = rng.gvec(3), o; T.transform(v, o); Eigen::Vector3d want = W.topLeftCorner<3, 3>() * v + W.topRightCorner<3, 1>(); m.near("C21.transformation/point", o, want, 1e-12 * (1 + want.norm()), ""); m.near("C21.transformation/call", T(v), want, 1e-12 * (1 + want.norm()), ""); auto I = T.getInverse(); m.near("C21.transformation/inverse", I.getTransformationMatrix(), W.inverse(), 1e-9 * (1 + W.norm()), "inverse"); m.near("C21.transformation/kept", T.getTransformationMatrix(), W, 1e-12 * (1 + W.norm()), ""); auto II = I.getInverse(); m.near("C21.transformation/twice", II.getTransformationMatrix(), W, 1e-9 * (1 + W.norm()), "inverse of the inverse"); Transformation<double, 3> F(W); m.near("C21.transformation/from-matrix", F.getInverse().getTransformationMatrix(), W.inverse(), 1e-9 * (1 + W.norm()), "inverse of a transformation made from a matrix"); Transformation<double, 3> G(0.1, 0.2, 0.3, 0, 0, 1); G.setTransformationMatrix(W); G.inverse(); m.near("C21.transformation/set-matrix", G.getTransformationMatrix(), W.inverse(), 1e-9 * (1 + W.norm()), "inverse after setting the matrix");
  Transformation<double, 2> t(x, y, w); Eigen::Matrix3d U; U << std::cos(w), -std::sin(w), x, std::sin(w), std::cos(w), y, 0, 0, 1; m.near("C21.transformation2/matrix", t.getTransformationMatrix(), U, 1e-12 * (1 + U.norm()), ""); Eigen::Vector2d q = rng.gvec(2), qo; t.transform(q, qo); Eigen::Vector2d qw = U.topLeftCorner<2, 2>() * q + U.topRightCorner<2, 1>(); m.near("C21.transformation2/point", qo, qw, 1e-12 * (1 + qw.norm()), ""); m.near("C21.transformation2/call", t(q), qw, 1e-12 * (1 + qw.norm()), ""); m.near("C21.transformation2/inverse", t.getInverse().getTransformationMatrix(), U.inverse(), 1e-9 * (1 + U.norm()), ""); m.near("C21.transformation2/twice", t.getInverse().getInverse().getTransformationMatrix(), U, 1e-9 * (1 + U.norm()), ""); Transformation<double, 2> f(U); m.near("C21.transformation2/from-matrix", f.getInverse().getTransformationMatrix(), U.inverse(), 1e-9 * (1 + U.norm()), ""); m.evaluation(hashm(W));
}
VF_GROUP(timestamp, 200, 4000) {
  auto& m = mon(); double s = rng.u(0, 2e9), d = rng.u(-1e5, 1e5); Timestamp t(s), u(s + d); m.check("C21.timestamp/value", t.getSeconds() == s && (double)t == s, ""); timespec ts = t; m.near("C21.timestamp/timespec", (double)ts.tv_sec - std::floor(s) + ts.tv_nsec * 1e-9, s - std::floor(s), 1e-6, ""); m.check("C21.timestamp/order", (t < u) == (s < s + d) && (t > u) == (s > s + d) && (t <= u) == (s <= s + d) && (t >= u) == (s >= s + d) && (t == u) == (s == s + d) && (t != u) == (s != s + d), ""); m.check("C21.timestamp/arithmetic", t + d == s + d && u - t == (s + d) - s && t - d == s - d, ""); Timestamp c(t); c += d; m.check("C21.timestamp/add", c == u, ""); c -= d; m.check("C21.timestamp/subtract", std::abs(c.getSeconds() - s) < 1e-5, ""); double now = Timestamp::now(); timeval tv; gettimeofday(&tv, 0); m.check("C21.timestamp/now", std::abs(tv.tv_sec + tv.tv_usec * 1e-6 - now) < 5, ""); m.evaluation((uint64_t)(s * 1e3));
}
