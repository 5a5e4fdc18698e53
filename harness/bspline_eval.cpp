// C12: B-spline evaluation, derivatives, Jacobians, integrals against the defining recursion.
#include "bspline_common.hpp"
namespace vf {
namespace {
// within 1e-10 of t_max the spline snaps to t_max
double snapTol(const RefSpline& s, double t, int n) {
  return std::fabs(t - s.tmax()) < 1e-10 ? 1e-10 * s.C.cwiseAbs().maxCoeff() * std::pow(2.0 * s.k / s.minSpan(), n + 1) : 0.0;
}
VF_GROUP(evaluate, 500, 8000) {
  RefSpline s = genSpline(rng);
  mon().evaluation(s.hash());
  BSpline b = make(s);
  std::string d = s.desc();
  int D = s.C.rows(), k = s.k;
  mon().check("C12.counts", b.splineOrder() == k && b.polynomialDegree() == k - 1 && b.numValidTimeSegments() == s.segs() && b.numVvCoefficients() == s.C.cols() && b.numCoefficients() == s.C.size() && b.coefficientVectorLength() == s.C.size() && b.minimumKnotsRequired() == 2 * k && b.numKnotsRequired(s.segs()) == (int)s.kn.size() && b.numCoefficientsRequired(s.segs()) == s.C.cols() && b.numValidTimeSegments((int)s.kn.size()) == s.segs(), d);
  mon().check("C12.domain", b.t_min() == s.tmin() && b.t_max() == s.tmax() && b.timeInterval() == std::make_pair(s.tmin(), s.tmax()), d);
  for (int i = 0; i < s.segs(); ++i) mon().check("C12.interval", b.timeInterval(i) == std::make_pair(s.kn[k - 1 + i], s.kn[k + i]), d);
  mon().check("C12.knots", b.knots() == s.kn && b.knotVector() == Eigen::Map<const Eigen::VectorXd>(s.kn.data(), s.kn.size()) && b.coefficients() == s.C, d);
  Eigen::VectorXd cv = b.coefficientVector();
  mon().check("C12.coefficientVector", cv == Eigen::Map<const Eigen::VectorXd>(s.C.data(), s.C.size()), d);
  for (double t : genTimes(rng, s, 12)) {
    bool snapped = std::fabs(t - s.tmax()) < 1e-10;
    int sg = s.seg(snapped ? s.tmax() : t);
    std::string dt = " t=" + str(t) + " in " + d;
    for (int n = 0; n <= k + 1; ++n) {
      Eigen::VectorXd want = s.evalSeg(sg, t, n), v = b.evalD(t, n);
      double tol = s.tol(n) + snapTol(s, t, n);
      if (!mon().near("C12.value." + std::to_string(std::min(n, 3)), v, want, tol, "order of derivative " + std::to_string(n) + dt)) return;
      if (n == 0) mon().near("C12.eval", b.eval(t), want, tol, dt);
      Eigen::MatrixXd J; Eigen::VectorXi idx;
      Eigen::VectorXd v2 = b.evalDAndJacobian(t, n, &J, &idx);
      Eigen::VectorXd bas = s.basis(sg, t, n);
      Eigen::MatrixXd Jw = Eigen::MatrixXd::Zero(D, k * D);
      for (int j = 0; j < k; ++j) Jw.block(0, j * D, D, D) = bas[j] * Eigen::MatrixXd::Identity(D, D);
      double jt = tol / s.C.cwiseAbs().maxCoeff();
      mon().near("C12.valueWithJacobian", v2, want, tol, dt);
      mon().near("C12.jacobian", J, Jw, jt, dt);
      mon().near("C12.phi", b.Phi(t, n), Jw, jt, dt);
      mon().near("C12.localBasisMatrix", b.localBasisMatrix(t, n), Jw, jt, dt);
      auto pr = b.evalDAndJacobian(t, n);
      mon().near("C12.jacobianPair", pr.second, Jw, jt, dt);
      mon().near("C12.valuePair", pr.first, want, tol, dt);
      // Jacobian and indices name the right coefficients: perturb each coefficient of the whole spline
      Eigen::VectorXi wi(k * D);
      for (int q = 0; q < k * D; ++q) wi[q] = (sg - k + 1) * D + q;
      mon().check("C12.indices", idx == wi && b.localCoefficientVectorIndices(t) == wi && b.segmentCoefficientVectorIndices(sg - k + 1) == wi, [&] { return dt + " got " + mstr(idx.cast<double>()); });
      if (n == 0 || n == 2) {
        Eigen::VectorXd full = Eigen::VectorXd::Zero(D);
        for (int q = 0; q < wi.size(); ++q) full += J.col(q) * cv[wi[q]];
        mon().near("C12.linear", full, v, 4 * tol, dt);
      }
      if (n > k - 1) mon().check("C12.zeroDerivative", v.isZero(0), dt);
    }
    Eigen::VectorXi vi = b.localVvCoefficientVectorIndices(t), vw(k);
    for (int q = 0; q < k; ++q) vw[q] = sg - k + 1 + q;
    mon().check("C12.vvIndices", vi == vw && b.segmentVvCoefficientVectorIndices(sg - k + 1) == vw && b.segmentIndex(t) == sg - k + 1, dt);
    Eigen::MatrixXd loc = s.C.middleCols(sg - k + 1, k);
    mon().check("C12.localCoefficients", b.localCoefficientMatrix(t) == loc && b.localCoefficientVector(t) == Eigen::Map<Eigen::VectorXd>(loc.data(), loc.size()) && b.segmentCoefficientVector(sg - k + 1) == Eigen::Map<Eigen::VectorXd>(loc.data(), loc.size()), dt);
    for (int j = 0; j < k; ++j) mon().check("C12.vvCoefficient", Eigen::VectorXd(b.vvCoefficientVector(sg - k + 1 + j)) == Eigen::VectorXd(loc.col(j)) && &b.vvCoefficientVector(sg - k + 1 + j)[0] == &b.coefficients()(0, sg - k + 1 + j), dt);
    // basis functions: values, partition of unity, cumulative sums
    Eigen::VectorXd bi = b.getLocalBiVector(t), want = s.basis(sg, t, 0);
    double bt = (s.tol(0) + snapTol(s, t, 0)) / s.C.cwiseAbs().maxCoeff();
    mon().near("C12.localBi", bi, want, bt, dt);
    mon().near("C12.unity", bi.sum(), 1.0, 8 * bt, dt);
    Eigen::VectorXd cu = b.getLocalCumulativeBiVector(t), cw(k);
    for (int j = 0; j < k; ++j) cw[j] = want.tail(k - j).sum();
    mon().near("C12.localCumulativeBi", cu, cw, 8 * bt, dt);
    Eigen::VectorXd gb = b.getBiVector(t), gc = b.getCumulativeBiVector(t);
    Eigen::VectorXd gbw(s.segs()), gcw(s.segs());
    for (int i = 0; i < s.segs(); ++i) { int j = i - (sg - k + 1); gbw[i] = j >= 0 && j < k ? want[j] : 0; gcw[i] = j < 0 ? 1 : j < k ? cw[j] : 0; }
    mon().near("C12.biVector", gb, gbw, bt, dt);
    mon().near("C12.cumulativeBiVector", gc, gcw, 8 * bt, dt);
    // the factors the value is made of
    int si = sg - k + 1;
    for (int n = 0; n < 3; ++n) {
      Eigen::VectorXd u = b.u(t, n);
      mon().near("C12.factors.u", Eigen::VectorXd(loc * b.basisMatrix(si).transpose() * u), s.evalSeg(sg, t, n), s.tol(n) + snapTol(s, t, n), dt);
      mon().near("C12.factors.MU", Eigen::VectorXd(b.U(t, n).transpose() * b.Mi(si) * b.localCoefficientVector(t)), s.evalSeg(sg, t, n), s.tol(n) + snapTol(s, t, n), dt);
      Eigen::MatrixXd Dp = Eigen::MatrixXd::Identity(k, k);
      for (int q = 0; q < n; ++q) Dp = Dp * b.Dii(si);
      // derivative operator: u^(n) = (D^n)^T u(0)
      mon().near("C12.factors.D", Eigen::VectorXd(Dp.transpose() * b.u(t, 0)), u, 1e-9 * std::pow(2.0 * k / s.minSpan(), n), dt);
    }
    Eigen::MatrixXd Di = b.Di(si), Diw = Eigen::MatrixXd::Zero(k * D, k * D);
    for (int q = 0; q < D; ++q) Diw.block(q * k, q * k, k, k) = b.Dii(si);
    mon().check("C12.factors.Di", Di == Diw, dt);
  }
  // continuity across the knots (multiplicity m keeps k-1-m derivatives continuous)
  for (int i = k; i < (int)s.kn.size() - k; ++i) {
    if (s.kn[i] == s.kn[i - 1]) continue;
    int m = 1;
    while (i + m < (int)s.kn.size() && s.kn[i + m] == s.kn[i]) ++m;
    double eps = 1e-7 * s.minSpan(), tl = s.kn[i] - eps, tr = s.kn[i];
    if (!(tl < tr)) continue;
    for (int n = 0; n <= k - 1 - m; ++n) mon().near("C12.continuity", b.evalD(tl, n), b.evalD(tr, n), 4 * s.tol(n) + 4 * (s.kn[i] - tl) * s.C.cwiseAbs().maxCoeff() * std::pow(2.0 * k / s.minSpan(), n + 1), "knot " + std::to_string(i) + " derivative " + std::to_string(n) + " " + d);
  }
}
VF_GROUP(refuse, 200, 2000) {
  RefSpline s = genSpline(rng);
  mon().evaluation(s.hash());
  BSpline b = make(s);
  std::string d = s.desc();
  double ulpMin = std::nextafter(s.tmin(), -INFINITY), beyond = s.tmax() + 1e-9 + 4 * (std::nextafter(std::fabs(s.tmax()), INFINITY) - std::fabs(s.tmax()));
  std::vector<double> bad = {ulpMin, s.tmin() - 1e-9 * std::max(1.0, std::fabs(s.tmin())), s.kn.front() - 1, beyond, s.tmax() + 1, s.kn.back() + 1, INFINITY, -INFINITY, NAN, 1e300};
  if (s.kn.front() < s.tmin()) bad.push_back(s.kn.front());
  if (s.kn.back() > beyond) bad.push_back(s.kn.back());
  double ok = rng.u(s.tmin(), s.tmax());
  Eigen::MatrixXd J; Eigen::VectorXi idx;
  for (double t : bad) {
    std::string dt = "time " + str(t) + " outside [" + str(s.tmin()) + "," + str(s.tmax()) + "] " + d;
    expectThrow("C12.refuse.eval", [&] { b.eval(t); }, dt);
    expectThrow("C12.refuse.evalD", [&] { b.evalD(t, 1); }, dt);
    expectThrow("C12.refuse.jacobian", [&] { b.evalDAndJacobian(t, 0, &J, &idx); }, dt);
    expectThrow("C12.refuse.phi", [&] { b.Phi(t, 0); }, dt);
    expectThrow("C12.refuse.local", [&] { b.localCoefficientVector(t); }, dt);
    expectThrow("C12.refuse.localMatrix", [&] { b.localCoefficientMatrix(t); }, dt);
    expectThrow("C12.refuse.indices", [&] { b.localCoefficientVectorIndices(t); }, dt);
    expectThrow("C12.refuse.vvIndices", [&] { b.localVvCoefficientVectorIndices(t); }, dt);
    expectThrow("C12.refuse.segment", [&] { b.segmentIndex(t); }, dt);
    expectThrow("C12.refuse.bi", [&] { b.getLocalBiVector(t); }, dt);
    expectThrow("C12.refuse.u", [&] { b.u(t, 0); }, dt);
    if (!std::isnan(t)) {
      expectThrow("C12.refuse.integral1", [&] { b.evalIntegral(t, ok); }, dt);
      expectThrow("C12.refuse.integral2", [&] { b.evalIntegral(ok, t); }, dt);
    }
  }
  expectThrow("C12.refuse.negativeDerivative", [&] { b.evalD(ok, -1); }, d);
  expectThrow("C12.refuse.negativeDerivativePhi", [&] { b.Phi(ok, -1); }, d);
  for (int i : {-1, s.segs(), s.segs() + 3}) {
    std::string di = "segment " + std::to_string(i) + " of " + std::to_string(s.segs());
    expectThrow("C12.refuse.interval", [&] { b.timeInterval(i); }, di);
    expectThrow("C12.refuse.basisMatrix", [&] { b.basisMatrix(i); }, di);
    expectThrow("C12.refuse.segCoeff", [&] { b.segmentCoefficientVector(i); }, di);
    expectThrow("C12.refuse.segIdx", [&] { b.segmentCoefficientVectorIndices(i); }, di);
    expectThrow("C12.refuse.segVv", [&] { b.segmentVvCoefficientVectorIndices(i); }, di);
    expectThrow("C12.refuse.Vi", [&] { b.Vi(i); }, di);
    expectThrow("C12.refuse.Mi", [&] { b.Mi(i); }, di);
    expectThrow("C12.refuse.Dii", [&] { b.Dii(i); }, di);
    expectThrow("C12.refuse.segQuad", [&] { b.segmentQuadraticIntegral(Eigen::MatrixXd::Identity(s.C.rows(), s.C.rows()), i, 1); }, di);
    expectThrow("C12.refuse.segQuadDiag", [&] { b.segmentQuadraticIntegralDiag(Eigen::VectorXd::Ones(s.C.rows()), i, 1); }, di);
  }
  for (int i : {-1, (int)s.C.cols()}) expectThrow("C12.refuse.vv", [&] { b.vvCoefficientVector(i); }, std::to_string(i));
  int D = s.C.rows();
  expectThrow("C12.refuse.W", [&] { b.segmentQuadraticIntegral(Eigen::MatrixXd::Identity(D + 1, D + 1), 0, 1); }, "W too large");
  expectThrow("C12.refuse.Wdiag", [&] { b.segmentQuadraticIntegralDiag(Eigen::VectorXd::Ones(D + 1), 0, 1); }, "W too large");
}
VF_GROUP(integrals, 300, 5000) {
  RefSpline s = genSpline(rng, 2, 6, rng.i(1, 3));
  mon().evaluation(s.hash());
  BSpline b = make(s);
  std::string d = s.desc();
  int k = s.k, D = s.C.rows(), N = s.C.cols();
  double len = s.tmax() - s.tmin(), cm = s.C.cwiseAbs().maxCoeff();
  for (int q = 0; q < 10; ++q) {
    std::vector<double> tt = genTimes(rng, s, 2);
    double a = rng.pick(tt), c = rng.pick(tt);
    double tol = s.tol(0) * len * 4 + 4e-10 * cm + 64 * 2.3e-16 * s.timeScale() * cm;
    mon().near("C12.integral", b.evalIntegral(a, c), s.integral(a, c), tol, "from " + str(a) + " to " + str(c) + " " + d);
    mon().near("C12.integralI", b.evalI(a, c), s.integral(a, c), tol, "from " + str(a) + " to " + str(c) + " " + d);
  }
  // quadratic integrals
  for (int n = 0; n <= std::min(k, 4); ++n) {
    Eigen::MatrixXd W = rng.spd(D);
    if (rng.b(0.2)) W = Eigen::MatrixXd::Identity(D, D) * 2.5;
    Eigen::VectorXd wd(D);
    for (int i = 0; i < D; ++i) wd[i] = rng.b(0.1) ? 0.0 : rng.u(0.1, 3);
    double wm = std::max(W.cwiseAbs().maxCoeff(), 1.0) * D;
    double tol = std::pow(s.tol(n) / cm, 1) * std::pow(2.0 * k / s.minSpan(), n) * len * wm * 8 * 3;
    auto kron = [&](const Eigen::MatrixXd& G, const Eigen::MatrixXd& w) { Eigen::MatrixXd r(G.rows() * D, G.cols() * D); for (int i = 0; i < G.rows(); ++i) for (int j = 0; j < G.cols(); ++j) r.block(i * D, j * D, D, D) = G(i, j) * w; return r; };
    Eigen::MatrixXd G = s.gram(n, s.tmin(), s.tmax()), Wd = wd.asDiagonal();
    std::string dn = "derivative " + std::to_string(n) + " " + d;
    mon().near("C12.quad.curve", b.curveQuadraticIntegral(W, n), kron(G, W), tol, dn);
    mon().near("C12.quad.curveDiag", b.curveQuadraticIntegralDiag(wd, n), kron(G, Wd), tol, dn);
    mon().near("C12.quad.sparse", b.curveQuadraticIntegralSparse(W, n).toDense(), kron(G, W), tol, dn);
    mon().near("C12.quad.sparseDiag", b.curveQuadraticIntegralDiagSparse(wd, n).toDense(), kron(G, Wd), tol, dn);
    for (int q = 0; q < 3; ++q) {
      int si = rng.i(0, s.segs() - 1);
      Eigen::MatrixXd g = s.gram(n, s.kn[k - 1 + si], s.kn[k + si]).block(si, si, k, k);
      mon().near("C12.quad.segment", b.segmentQuadraticIntegral(W, si, n), kron(g, W), tol, dn + " segment " + std::to_string(si));
      mon().near("C12.quad.segmentDiag", b.segmentQuadraticIntegralDiag(wd, si, n), kron(g, Wd), tol, dn + " segment " + std::to_string(si));
      Eigen::MatrixXd R = b.segmentIntegral(si, W, n);
      mon().near("C12.quad.factor", Eigen::MatrixXd(R.transpose() * R), kron(g, W), tol, dn + " segment " + std::to_string(si));
      // power basis integral
      Eigen::MatrixXd V = b.Vi(si), Vw(k, k);
      double h = s.kn[k + si] - s.kn[k - 1 + si];
      for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) Vw(i, j) = h / (i + j + 1);
      mon().near("C12.Vi", V, Vw, 1e-12 * (h + 1e-300), dn);
    }
  }
}
}  // namespace
}  // namespace vf
VF_MAIN
