// C13: construction of splines from samples, growth, shrinking, coefficient access.
#include <Eigen/Dense>
#include "bspline_common.hpp"
namespace vf {
namespace {
// the object evaluates to the piecewise polynomial its knots and coefficients define
void selfConsistent(Rng& rng, const BSpline& b, const std::string& what) {
  RefSpline s = refOf(b);
  if (!mon().check("C13.shape", s.segs() >= 1 && s.C.cols() == s.segs() + s.k - 1 && b.numValidTimeSegments() == s.segs(), what)) return;
  for (double t : genTimes(rng, s, 4)) {
    int sg = s.seg(std::fabs(t - s.tmax()) < 1e-10 ? s.tmax() : t);
    for (int n = 0; n < 2; ++n) mon().near("C13.consistent", b.evalD(t, n), s.evalSeg(sg, t, n), s.tol(n) + (std::fabs(t - s.tmax()) < 1e-10 ? 1e-10 * s.C.cwiseAbs().maxCoeff() * std::pow(2.0 * s.k / s.minSpan(), n + 1) : 0), what + " t=" + str(t) + " derivative " + std::to_string(n) + " " + s.desc());
  }
  for (int i = 0; i < s.segs(); ++i) mon().check("C13.intervals", b.timeInterval(i) == std::make_pair(s.kn[s.k - 1 + i], s.kn[s.k + i]), what);
}
// least-squares optimality of the coefficients of every dimension: gradient of |Phi c - p|^2 + R(c) vanishes
void optimal(const std::string& key, const RefSpline& s, const Eigen::VectorXd& times, const Eigen::MatrixXd& pts, const Eigen::MatrixXd& R, const std::string& what) {
  int N = s.C.cols();
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(times.size(), N);
  for (int i = 0; i < times.size(); ++i) { int sg = s.seg(times[i]); A.row(i).segment(sg - s.k + 1, s.k) = s.basis(sg, times[i], 0).transpose(); }
  Eigen::MatrixXd H = A.transpose() * A + R;
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(H);
  double hmax = svd.singularValues()[0], hmin = svd.singularValues()[N - 1];
  if (hmin < 1e-9 * hmax) { mon().tag("singular"); return; }
  Eigen::MatrixXd g = H * s.C.transpose() - A.transpose() * pts.transpose();
  double sc = hmax * s.C.cwiseAbs().maxCoeff() + pts.cwiseAbs().maxCoeff();
  mon().near(key, g, Eigen::MatrixXd::Zero(N, s.C.rows()), 1e-9 * N * sc, what + " " + s.desc());
  // residual sum cannot be improved: compare the cost with the true minimum
  Eigen::MatrixXd best = H.ldlt().solve(A.transpose() * pts.transpose()).transpose();
  mon().near(key + ".coefficients", s.C, best, 1e-9 * (hmax / hmin) * std::max(s.C.cwiseAbs().maxCoeff(), best.cwiseAbs().maxCoeff()), what + " " + s.desc());
  if (R.isZero(0) && times.size() == N) mon().tag("interpolating");
}
VF_GROUP(initialise, 400, 6000) {
  int k = rng.i(2, 6), D = rng.i(1, 3);
  double t0 = rng.b(0.3) ? 0 : rng.u(-20, 20), len = rng.pick(std::vector<double>{0.5, 1.0, 10.0, 60.0});
  std::string d = "order " + std::to_string(k);
  mon().tag("order:" + std::to_string(k));
  BSpline b(k);
  if (rng.b(0.4)) { RefSpline o = genSpline(rng, k, k); b.setKnotsAndCoefficients(o.kn, o.C); mon().tag("overwrites"); }   // initialising replaces whatever was there
  switch (rng.i(0, 5)) {
    case 0: {
      Eigen::VectorXd p0 = rng.gvec(D), p1 = rng.gvec(D);
      mon().evaluation(hashm(p0, hashm(p1)));
      b.initSpline(t0, t0 + len, p0, p1);
      mon().tag("initSpline");
      mon().check("C13.initSpline.domain", b.numValidTimeSegments() == 1 && b.t_min() == t0 && std::fabs(b.t_max() - t0 - len) < 1e-12 * (1 + std::fabs(t0) + len), d);
      double t1 = b.t_max(), sc = 1 + std::max(p0.norm(), p1.norm());
      double tol = (k % 2 ? 1e-6 : 1e-9) * sc;
      mon().near("C13.initSpline.start", b.eval(t0), p0, tol, d);
      mon().near("C13.initSpline.end", b.eval(t1), p1, tol, d);
      if (k > 2) { mon().near("C13.initSpline.velocity0", b.evalD(t0, 1), (p1 - p0) / len, 10 * tol / len, d); mon().near("C13.initSpline.velocity1", b.evalD(t1, 1), (p1 - p0) / len, 10 * tol / len, d); }
      for (int q = 0; q < 4; ++q) { double u = rng.u(0, 1); mon().near("C13.initSpline.line", b.eval(t0 + u * (t1 - t0)), p0 + u * (p1 - p0), 2 * tol, d); }
      selfConsistent(rng, b, "initSpline");
      expectThrow("C13.refuse.initSplineTime", [&] { b.initSpline(t0, t0, p0, p1); }, d);
      expectThrow("C13.refuse.initSplineTime2", [&] { b.initSpline(t0 + 1, t0, p0, p1); }, d);
      expectThrow("C13.refuse.initSplineSize", [&] { b.initSpline(t0, t0 + 1, p0, Eigen::VectorXd::Zero(D + 1)); }, d);
      return;
    }
    case 1: {
      int S = rng.i(1, 9);
      Eigen::VectorXd c = rng.gvec(D);
      mon().evaluation(hashm(c, S * 7 + k));
      b.initConstantSpline(t0, t0 + len, S, c);
      mon().tag("initConstant");
      mon().check("C13.constant.domain", b.numValidTimeSegments() == S && std::fabs(b.t_min() - t0) <= 1e-12 * (1 + std::fabs(t0) + k * len) && std::fabs(b.t_max() - t0 - len) <= 1e-12 * (1 + std::fabs(t0) + k * len), d);
      for (int q = 0; q < 5; ++q) {
        double t = rng.u(b.t_min(), b.t_max());
        mon().near("C13.constant.value", b.eval(t), c, 1e-10 * (1 + c.norm()), d);
        mon().near("C13.constant.rate", b.evalD(t, 1), Eigen::VectorXd::Zero(D), 1e-8 * (1 + c.norm()) * S / len, d);
      }
      selfConsistent(rng, b, "initConstantSpline");
      expectThrow("C13.refuse.constantTime", [&] { b.initConstantSpline(1, 1, S, c); }, d);
      expectThrow("C13.refuse.constantSegments", [&] { b.initConstantSpline(0, 1, 0, c); }, d);
      expectThrow("C13.refuse.constantSize", [&] { b.initConstantSpline(0, 1, 1, Eigen::VectorXd()); }, d);
      return;
    }
    default: {
      int which = rng.i(2, 5), S = rng.i(1, 7), C = S + k - 1;
      bool exact = rng.b(0.3);
      int n = exact ? C : rng.i(2, 3 * C);
      Eigen::VectorXd times(n);
      bool even = exact || rng.b(0.4);
      for (int i = 0; i < n; ++i) times[i] = even ? t0 + len * i / (n - 1.0) : t0 + len * rng.u(0, 1);
      std::sort(times.data(), times.data() + n);
      times[0] = t0; times[n - 1] = t0 + len;
      Eigen::MatrixXd P = rng.mat(D, n);
      if (rng.b(0.3)) for (int i = 0; i < n; ++i) P.col(i) = Eigen::VectorXd::Constant(D, std::sin(times[i])) ;   // smooth samples
      double lambda = exact ? 0 : rng.pick(std::vector<double>{1e-4, 1e-2, 1.0, 10.0});
      mon().evaluation(hashm(P, hashm(times)));
      std::string w = "constructor " + std::to_string(which) + " " + std::to_string(n) + " samples " + std::to_string(S) + " segments lambda " + str(lambda);
      mon().tag("constructor:" + std::to_string(which) + (exact ? ":exact" : ""));
      Eigen::VectorXd kn;
      if (which == 2) b.initSpline2(times, P, S, lambda);
      else if (which == 3) b.initSpline3(times, P, S, lambda);
      else if (which == 4) b.initSplineSparse(times, P, S, lambda);
      else {
        kn.resize(S + 2 * k - 1);
        double dt = len / S;
        for (int i = 0; i < kn.size(); ++i) kn[i] = t0 + dt * (i - k + 1) + (i == k - 1 || i == kn.size() - k ? 0 : 0.35 * dt * rng.u(-1, 1));
        kn[kn.size() - k] = t0 + len;
        b.initSplineSparseKnots(times, P, kn, lambda);
        mon().check("C13.smooth.knots", b.knotVector() == kn, w);
      }
      RefSpline s = refOf(b);
      mon().check("C13.smooth.domain", s.segs() == S && s.C.rows() == D && std::fabs(s.tmin() - t0) < 1e-12 * (1 + std::fabs(t0)) && std::fabs(s.tmax() - t0 - len) < 1e-11 * (1 + std::fabs(t0) + len), w);
      if (which < 5) for (size_t i = 1; i < s.kn.size(); ++i) mon().near("C13.smooth.uniform", s.kn[i] - s.kn[i - 1], len / S, 1e-12 * (1 + std::fabs(t0) + k * len), w);
      selfConsistent(rng, b, w);
      int N = s.C.cols();
      Eigen::MatrixXd R = Eigen::MatrixXd::Zero(N, N);
      if (which == 2) {   // regularises the second derivative at the knots
        for (int i = k - 1; i < (int)s.kn.size() - k + 1; ++i) { int sg = s.seg(s.kn[i]); Eigen::VectorXd v = s.basis(sg, s.kn[i], 2); R.block(sg - k + 1, sg - k + 1, k, k) += lambda * lambda * v * v.transpose(); }
      } else R = lambda * s.gram(k == 2 ? 1 : 2, s.tmin(), s.tmax());
      optimal("C13.smooth.optimal." + std::to_string(which), s, times, P, R, w);
      if (exact) {
        Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, N);
        for (int i = 0; i < n; ++i) { int sg = s.seg(times[i]); A.row(i).segment(sg - k + 1, k) = s.basis(sg, times[i], 0).transpose(); }
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(A);
        double cond = svd.singularValues()[0] / std::max(1e-300, svd.singularValues()[N - 1]);
        if (cond < 1e4) for (int i = 0; i < n; ++i) mon().near("C13.interpolates", b.eval(std::min(times[i], b.t_max())), P.col(i), 1e-12 * cond * cond * (1 + P.cwiseAbs().maxCoeff()) * N, w + " sample " + std::to_string(i));
      }
      // refusals leave an exception, never a silently wrong spline
      Eigen::VectorXd shuffled = times;
      if (n > 2 && times[0] < times[n - 1]) {
        std::swap(shuffled[0], shuffled[n - 1]);
        BSpline f(k);
        expectThrow("C13.refuse.sampleOrder", [&] { if (which == 2) f.initSpline2(shuffled, P, S, lambda); else if (which == 3) f.initSpline3(shuffled, P, S, lambda); else if (which == 4) f.initSplineSparse(shuffled, P, S, lambda); else f.initSplineSparseKnots(shuffled, P, kn, lambda); }, w);
      }
      BSpline f(k);
      Eigen::MatrixXd P1 = rng.mat(D, n + 1);
      expectThrow("C13.refuse.sampleCount", [&] { if (which == 2) f.initSpline2(times, P1, S, lambda); else if (which == 3) f.initSpline3(times, P1, S, lambda); else if (which == 4) f.initSplineSparse(times, P1, S, lambda); else f.initSplineSparseKnots(times, P1, kn, lambda); }, w);
      if (which != 5) expectThrow("C13.refuse.noSegments", [&] { if (which == 2) f.initSpline2(times, P, 0, lambda); else if (which == 3) f.initSpline3(times, P, 0, lambda); else f.initSplineSparse(times, P, 0, lambda); }, w);
      expectThrow("C13.refuse.oneSample", [&] { Eigen::VectorXd t1 = times.head(1); Eigen::MatrixXd p1 = P.leftCols(1); if (which == 2) f.initSpline2(t1, p1, S, lambda); else if (which == 3) f.initSpline3(t1, p1, S, lambda); else if (which == 4) f.initSplineSparse(t1, p1, S, lambda); else f.initSplineSparseKnots(t1, p1, kn, lambda); }, w);
    }
  }
}
VF_GROUP(histories, 400, 6000) {
  RefSpline s0 = genSpline(rng, 2, 5, rng.i(1, 3), rng.b(0.5) ? 0 : rng.i(1, 2));
  mon().evaluation(s0.hash());
  BSpline b = make(s0);
  int D = s0.C.rows(), k = s0.k;
  int len = rng.i(1, 8);
  std::string hist;
  for (int step = 0; step < len; ++step) {
    RefSpline p = refOf(b);
    std::string d = hist + " on " + p.desc();
    double cm = 1 + p.C.cwiseAbs().maxCoeff();
    switch (rng.i(0, 6)) {
      case 0: case 1: {   // grow
        bool two = rng.b(0.35);
        int last = (int)p.kn.size() - k;   // index of t_max
        double dt = rng.b(0.6) ? p.kn[last + 1] - p.kn[last] : (p.tmax() - p.tmin()) / p.segs() * rng.u(0.5, 2);
        if (dt < 1e-6) break;
        double t = p.tmax() + dt, lam = rng.pick(std::vector<double>{0.0, 1e-6});
        bool atKnot = t == p.kn[last + 1];
        bool uniform = atKnot || std::fabs(t - p.kn[last + 1]) < 1e-9 * dt;
        for (int i = last + 1; i < (int)p.kn.size(); ++i) if (std::fabs(p.kn[i] - p.kn[i - 1] - dt) > 1e-9 * dt) uniform = false;
        Eigen::VectorXd q = rng.gvec(D);
        hist += two ? " add2" : " add";
        mon().tag(std::string(two ? "add2" : "add") + (uniform ? ":uniform" : ":other"));
        Eigen::VectorXd end = b.eval(p.tmax());
        if (two) b.addCurveSegment2(t, q, lam); else b.addCurveSegment(t, q);
        RefSpline n = refOf(b);
        mon().check("C13.add.domain", n.segs() == p.segs() + 1 && b.t_min() == p.tmin() && std::fabs(b.t_max() - t) <= 1e-14 * (1 + std::fabs(t)), [&] { return d; });
        mon().check("C13.add.pastKnots", std::equal(n.kn.begin(), n.kn.begin() + last + 1, p.kn.begin()), d);
        mon().check("C13.add.pastCoefficients", n.C.leftCols(p.C.cols() - 1) == p.C.leftCols(p.C.cols() - 1), d);
        // rounding of the two solved coefficients scales with the inverse of their basis values
        Eigen::VectorXd be = n.basis(last, n.kn[last], 0), bn = n.basis(last, n.kn[last + 1], 0);
        double amp = std::max(1.0, 1 / std::max(1e-12, be[k - 2])) * std::max(1.0, 1 / std::max(1e-12, bn[k - 1]));
        double tol = 1e-11 * amp * amp * std::max(cm, 1 + q.norm());
        if (amp > 1e4) { mon().tag("ill-conditioned growth"); hist += "!"; selfConsistent(rng, b, d); break; }
        if (!two || lam == 0) {
          mon().near("C13.add.joint", b.eval(p.tmax()), end, tol, d);
          mon().near("C13.add.sample", b.eval(b.t_max()), q, tol, d);
          if (uniform) for (double tt : genTimes(rng, p, 6)) mon().near("C13.add.past", b.eval(tt), p.eval(tt, 0), 100 * tol + p.tol(0) + 1e-9 * cm, d + " t=" + str(tt));
        } else if (k > 2) {
          // weighted least squares of the two interpolation conditions and the accelerations at both ends
          Eigen::MatrixXd A(4, 2), B(4, D);
          int r = 0;
          Eigen::VectorXd rows[4] = {be, bn, lam * n.basis(last, n.kn[last], 2), lam * n.basis(last, n.kn[last + 1], 2)};
          for (auto& v : rows) { A.row(r) = v.tail(2).transpose(); B.row(r) = -(v.head(k - 2).transpose() * n.C.block(0, n.C.cols() - k, D, k - 2).transpose()); ++r; }
          B.row(0) += end.transpose(); B.row(1) += q.transpose();
          Eigen::MatrixXd x = n.C.rightCols(2).transpose(), g = A.transpose() * (A * x - B);
          mon().near("C13.add2.optimal", g, Eigen::MatrixXd::Zero(2, D), 1e-10 * (A.norm() * (A.norm() * x.norm() + B.norm()) + 1), d);
        }
        break;
      }
      case 2: {   // shrink
        if (p.segs() < 2) {
          break;
        }
        hist += " remove"; mon().tag("remove");
        b.removeCurveSegment();
        RefSpline n = refOf(b);
        mon().check("C13.remove.domain", n.segs() == p.segs() - 1 && b.t_min() == p.kn[k] && b.t_max() == p.tmax(), d);
        mon().check("C13.remove.rest", n.C == p.C.rightCols(p.C.cols() - 1) && std::equal(n.kn.begin(), n.kn.end(), p.kn.begin() + 1), d);
        for (double t : genTimes(rng, n, 6)) mon().near("C13.remove.curve", b.eval(t), p.eval(t, 0), p.tol(0) + 1e-10 * cm * 2 * k / p.minSpan(), d + " t=" + str(t));
        break;
      }
      case 3: {   // local coefficients
        double t = rng.u(p.tmin(), p.tmax());
        int bi = p.seg(t) - k + 1;
        Eigen::VectorXd c = rng.gvec(D * k);
        hist += " setLocal"; mon().tag("setLocal");
        b.setLocalCoefficientVector(t, c);
        Eigen::MatrixXd w = p.C;
        for (int i = 0; i < k; ++i) w.col(bi + i) = c.segment(i * D, D);
        mon().check("C13.setLocal", b.coefficients() == w && b.knots() == p.kn, d);
        expectThrow("C13.refuse.setLocalSize", [&] { b.setLocalCoefficientVector(t, rng.gvec(D * k + 1)); }, d);
        expectThrow("C13.refuse.setLocalTime", [&] { b.setLocalCoefficientVector(p.tmax() + 1, c); }, d);
        mon().check("C13.setLocal.refusalKeeps", b.coefficients() == w, d);
        break;
      }
      case 4: {
        Eigen::MatrixXd w = rng.mat(D, p.C.cols());
        hist += " setAll"; mon().tag("setAll");
        if (rng.b()) b.setCoefficientMatrix(w); else b.setCoefficientVector(Eigen::Map<Eigen::VectorXd>(w.data(), w.size()));
        mon().check("C13.setAll", b.coefficients() == w && b.knots() == p.kn, d);
        expectThrow("C13.refuse.setMatrix", [&] { b.setCoefficientMatrix(rng.mat(D, p.C.cols() + 1)); }, d);
        expectThrow("C13.refuse.setMatrixRows", [&] { b.setCoefficientMatrix(rng.mat(D + 1, p.C.cols())); }, d);
        expectThrow("C13.refuse.setVector", [&] { b.setCoefficientVector(rng.gvec(w.size() + 1)); }, d);
        mon().check("C13.setAll.refusalKeeps", b.coefficients() == w, d);
        break;
      }
      case 5: {
        int i = rng.i(0, p.C.cols() - 1);
        Eigen::VectorXd c = rng.gvec(D);
        hist += " setOne"; mon().tag("setOne");
        if (rng.b()) b.vvCoefficientVector(i) = c;
        else if (D == 1) b.fixedSizeVvCoefficientVector<1>(i) = c;
        else if (D == 2) b.fixedSizeVvCoefficientVector<2>(i) = c;
        else b.fixedSizeVvCoefficientVector<3>(i) = c;
        Eigen::MatrixXd w = p.C; w.col(i) = c;
        mon().check("C13.setOne", b.coefficients() == w && b.knots() == p.kn, d);
        // the curve changes only on the support of this coefficient
        for (double t : genTimes(rng, p, 5)) {
          int sg = p.seg(std::fabs(t - p.tmax()) < 1e-10 ? p.tmax() : t) - k + 1;
          if (i < sg || i > sg + k - 1) mon().near("C13.support", b.eval(t), p.eval(t, 0), 2 * p.tol(0), d);
        }
        break;
      }
      default: {   // refused knots, coefficients and times leave the spline usable and unchanged
        hist += " refuse"; mon().tag("refuse");
        std::vector<double> bad = p.kn;
        int i = rng.i(1, bad.size() - 1);
        bad[i] = bad[i - 1] - rng.pick(std::vector<double>{1e-6, 0.5, 100.0}) * std::max(1.0, std::fabs(bad[i - 1]));
        bool longer = rng.b(0.3), shorter = rng.b(0.3);
        if (longer) { while (bad.size() < p.kn.size() + 3) bad.push_back(bad.back() + 1); }
        Eigen::MatrixXd cc = Eigen::MatrixXd::Zero(D, std::max(1, (int)bad.size() - k));
        expectThrow("C13.refuse.knotOrder", [&] { b.setKnotsAndCoefficients(bad, cc); }, d + " position " + std::to_string(i));
        BSpline fresh(k);
        expectThrow("C13.refuse.knotOrderFresh", [&] { fresh.setKnotsAndCoefficients(bad, cc); }, d + " position " + std::to_string(i));
        expectThrow("C13.refuse.knotVectorFresh", [&] { fresh.setKnotVectorAndCoefficients(Eigen::Map<Eigen::VectorXd>(bad.data(), bad.size()), cc); }, d);
        std::vector<double> few(p.kn.begin(), p.kn.begin() + 2 * k - 1);
        expectThrow("C13.refuse.fewKnots", [&] { b.setKnotsAndCoefficients(few, Eigen::MatrixXd::Zero(D, k - 1)); }, d);
        expectThrow("C13.refuse.coefficientCount", [&] { b.setKnotsAndCoefficients(p.kn, Eigen::MatrixXd::Zero(D, p.C.cols() + rng.pick(std::vector<int>{-1, 1}))); }, d);
        expectThrow("C13.refuse.addPast", [&] { b.addCurveSegment(p.tmax(), rng.gvec(D)); }, d);
        expectThrow("C13.refuse.addBefore", [&] { b.addCurveSegment(p.tmin(), rng.gvec(D)); }, d);
        expectThrow("C13.refuse.add2Past", [&] { b.addCurveSegment2(p.tmax(), rng.gvec(D), 0); }, d);
        expectThrow("C13.refuse.addSize", [&] { b.addCurveSegment(p.tmax() + 1, rng.gvec(D + 1)); }, d);
        (void)shorter;
        mon().check("C13.refusalKeeps", b.knots() == p.kn && b.coefficients() == p.C, d);
        // a shorter valid sequence replaces the longer one
        if (p.segs() > 1) { std::vector<double> sh(p.kn.begin(), p.kn.end() - 1); BSpline c = b; noThrow("C13.shorter", [&] { c.setKnotsAndCoefficients(sh, p.C.leftCols(p.C.cols() - 1)); }, d); selfConsistent(rng, c, d); }
        std::vector<double> lo = p.kn; lo.push_back(lo.back() + 1); lo.push_back(lo.back() + 1);
        BSpline c = b; Eigen::MatrixXd lc = rng.mat(D, p.C.cols() + 2);
        noThrow("C13.longer", [&] { c.setKnotsAndCoefficients(lo, lc); }, d); selfConsistent(rng, c, d);
      }
    }
    selfConsistent(rng, b, d);
  }
  mon().sample(hist);
}
VF_GROUP(orders, 20, 40) {
  mon().evaluation(hmix(77, caseno));
  int o = rng.i(-3, 1);
  expectThrow("C13.refuse.order", [&] { BSpline b(o); }, "order " + std::to_string(o));
}
}  // namespace
}  // namespace vf
VF_MAIN
