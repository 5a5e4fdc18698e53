// C05: linear solvers against a dense oracle.
#include "backend_common.hpp"
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
using namespace vf;

struct S { std::string name; boost::shared_ptr<LinearSystemSolver> s; bool conditions; };
static std::vector<S> solvers() {
  return {{"block_cholesky", boost::shared_ptr<LinearSystemSolver>(new BlockCholeskyLinearSystemSolver("cholesky")), true},
          {"block_spqr", boost::shared_ptr<LinearSystemSolver>(new BlockCholeskyLinearSystemSolver("spqr")), true},
          {"sparse_cholesky", boost::shared_ptr<LinearSystemSolver>(new SparseCholeskyLinearSystemSolver()), true},
          {"sparse_qr", boost::shared_ptr<LinearSystemSolver>(new SparseQrLinearSystemSolver()), false},
          {"dense_qr", boost::shared_ptr<LinearSystemSolver>(new DenseQrLinearSystemSolver()), true}};
}
static MX upper(const SparseBlockMatrix& M) { MX D = M.toDense(); MX U = D.triangularView<Eigen::Upper>(); MX L = U.transpose(); L.diagonal().setZero(); return U + L; }

static void history(Rng& rng, S& s, Problem& p, const std::string& x) {
  bool cond = s.conditions && rng.b(0.6);
  p.layout(rng);
  s.s->initMatrixStructure(p.order, p.eptr, cond);
  mon().check("dims/" + s.name, (int)s.s->JRows() == p.rows && (int)s.s->JCols() == p.cols, x);
  bool useM = rng.b(0.6); VX d = VX::Zero(p.cols); MX J; VX e; double cost; bool built = false;
  MX Jb; VX eb;   // as of the last build
  int ops = rng.i(3, 9);
  for (int o = 0; o < ops; ++o) {
    int op = o == 0 ? 0 : rng.i(0, 5);
    int nt = rng.i(0, 9);
    if (op == 0) {  // new state, evaluate, build
      if (rng.b(0.7)) for (auto& v : p.dvs) if (v->isActive()) v->x += rng.vec(v->x.size(), 0.3);
      double c = s.s->evaluateError(nt, useM);
      p.dense(useM, J, e, &cost);
      mon().near("cost/" + s.name, c, cost, 1e-10 * (1 + cost), x);
      mon().near("error-norm/" + s.name, s.s->e().squaredNorm(), e.squaredNorm(), 1e-10 * (1 + e.squaredNorm()), x);
      s.s->buildSystem(nt, useM); Jb = J; eb = e; built = true;
      VX rhs = J.transpose() * e; double sc = 1 + rhs.cwiseAbs().maxCoeff();
      mon().near("gradient/" + s.name, s.s->rhs(), rhs, 1e-10 * sc, x);
      double q = (J * rhs).squaredNorm();
      mon().near("curvature/" + s.name, s.s->rhsJtJrhs(), q, 1e-9 * (1 + q), x);
      MX H = J.transpose() * J;
      if (auto b = dynamic_cast<BlockCholeskyLinearSystemSolver*>(s.s.get())) { SparseBlockMatrix Hb; b->copyHessian(Hb); mon().near("information/" + s.name, upper(Hb), H, 1e-10 * (1 + H.cwiseAbs().maxCoeff()), x); }
      if (auto b = dynamic_cast<DenseQrLinearSystemSolver*>(s.s.get())) mon().near("information/" + s.name, b->getJacobian().transpose() * b->getJacobian(), H, 1e-10 * (1 + H.cwiseAbs().maxCoeff()), x);
      if (auto b = dynamic_cast<SparseQrLinearSystemSolver*>(s.s.get())) { MX Jt; b->getJacobianTranspose().toDenseInto(Jt); mon().near("information/" + s.name, Jt * Jt.transpose(), H, 1e-10 * (1 + H.cwiseAbs().maxCoeff()), x); }
    } else if (op == 1 && cond) { d = rng.vec(p.cols, rng.b(0.3) ? 10 : 1); s.s->setConditioner(d); mon().tag("conditioner/vector"); }
    else if (op == 2 && cond) { double v = rng.b(0.2) ? 0 : std::pow(10, rng.u(-3, 1.5)); d = VX::Constant(p.cols, v); s.s->setConstantConditioner(v); mon().tag("conditioner/constant"); }
    else if (op == 3 && s.name != "sparse_qr") {  // a trial state is evaluated but not accepted: the built system must not change
      VX keep = p.state(); for (auto& v : p.dvs) if (v->isActive()) v->x += rng.vec(v->x.size(), 0.5);
      s.s->evaluateError(nt, useM); p.setState(keep); mon().tag("trial evaluation without rebuild");
    } else {
      if (!built) continue;
      VX dx; bool ok = s.s->solveSystem(dx);
      if (!mon().check("solve-success/" + s.name, ok, x)) return;
      MX H = Jb.transpose() * Jb; if (cond) H.diagonal() += d.cwiseProduct(d); VX rhs = Jb.transpose() * eb;
      Eigen::SelfAdjointEigenSolver<MX> es(H); double k = es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff();
      VX ref = H.ldlt().solve(rhs);
      mon().near("step/" + s.name, dx, ref, 1e-12 * k * (1 + ref.norm()), x + " conditioner=" + mstr(d.transpose()) + " op " + str(o));
      mon().tag(std::string("solve/") + s.name + (cond ? "/conditioned" : ""));
      if (auto b = dynamic_cast<BlockCholeskyLinearSystemSolver*>(s.s.get())) {
        SparseBlockMatrix Hb; b->copyHessian(Hb); MX H0 = Jb.transpose() * Jb;
        mon().near("system-unchanged-by-solve/" + s.name, upper(Hb), H0, 1e-9 * (1 + H.cwiseAbs().maxCoeff()), x);
        if (s.name == "block_cholesky" && rng.b(0.5)) {
          std::vector<std::pair<int, int>> bl; for (size_t i = 0; i < p.order.size(); ++i) for (size_t j = i; j < p.order.size(); ++j) if (i == j || rng.b(0.5)) bl.push_back({int(i), int(j)});
          SparseBlockMatrix P; b->computeCovarianceBlocks(bl, P); MX inv = H.inverse();
          for (auto& ij : bl) {
            int r0 = p.order[ij.first]->columnBase(), c0 = p.order[ij.second]->columnBase(), rn = p.order[ij.first]->minimalDimensions(), cn = p.order[ij.second]->minimalDimensions();
            MX* B = P.block(ij.first, ij.second);
            if (mon().check("covariance-present", B != NULL, x)) mon().near("covariance", *B, inv.block(r0, c0, rn, cn), 1e-12 * k * (1 + inv.cwiseAbs().maxCoeff()), x);
          }
          b->copyHessian(Hb); mon().near("system-unchanged-by-covariance", upper(Hb), H0, 1e-9 * (1 + H.cwiseAbs().maxCoeff()), x);
        }
      }
      if (auto b = dynamic_cast<SparseQrLinearSystemSolver*>(s.s.get())) {
        mon().check("rank", (int)b->getRank() == p.cols, x);
        auto pv = b->getPermutationVectorEigen(); MX R; b->getR().toDenseInto(R); MX H0 = Jb.transpose() * Jb;
        MX Hr = R.transpose() * R; mon().near("R-factor", Hr, H0, 1e-9 * (1 + H0.cwiseAbs().maxCoeff()), x);
        std::vector<int> seen(p.cols, 0); bool perm = pv.size() == p.cols; for (int i = 0; perm && i < pv.size(); ++i) { perm = pv[i] >= 0 && pv[i] < p.cols && !seen[pv[i]]++; } mon().check("permutation", perm, x);
      }
    }
  }
}

VF_GROUP(histories, 500, 25000) {
  Problem p; GenOpt o; if (rng.b(0.1)) { o.maxDv = 14; o.maxErr = 40; } genProblem(rng, p, o);
  mon().evaluation(p.hash());
  std::string x = str(p.dvs.size()) + " variables, " + str(p.errs.size()) + " error terms";
  if (caseno < 4) mon().sample(x);
  for (auto& s : solvers()) {
    history(rng, s, p, x + " " + s.name);
    if (rng.b(0.5)) {  // same solver object, different activation and column order
      std::vector<VDv*> was; for (auto& d : p.dvs) if (d->isActive()) was.push_back(d.get());
      for (auto d : was) if (d != p.order[0]) d->setActive(rng.b(0.8));
      bool ok = true; for (auto& m : p.models) { bool any = false; for (auto d : m->dv) any |= d->isActive(); ok &= any; }
      if (!ok) for (auto d : was) d->setActive(true);
      history(rng, s, p, x + " reinit " + s.name); mon().tag("re-initialised");
    }
  }
}

// A variable no measurement sees: each solver reports failure or returns a solution of the normal equations.
VF_GROUP(singular, 150, 6000) {
  Problem p; GenOpt o; o.maxDv = 4; genProblem(rng, p, o);
  p.addDv(new VDv(rng.vec(rng.i(1, 3))));
  VDv* u = p.dvs.back().get();
  Model* m = new Model; m->dv = {p.dvs[0].get(), u}; m->z = rng.vec(2); m->A = {rng.mat(2, p.dvs[0]->x.size()), MX::Zero(2, u->x.size())}; m->B = m->A; m->invR = MX::Identity(2, 2);
  p.addErr(m, Robust());
  mon().evaluation(p.hash());
  for (auto& s : solvers()) {
    p.layout(rng); s.s->initMatrixStructure(p.order, p.eptr, false);
    s.s->evaluateError(1, true); s.s->buildSystem(1, true); VX dx; bool ok = s.s->solveSystem(dx);
    mon().tag(std::string("singular/") + s.name + (ok ? "/answered" : "/failed"));
    if (ok) { MX J; VX e; p.dense(true, J, e); MX H = J.transpose() * J; mon().near("singular-answer/" + s.name, H * dx, J.transpose() * e, 1e-8 * (1 + e.norm()) * (1 + H.norm()), ""); }
    // and the same object solves a regular system afterwards
    m->A[1] = rng.mat(2, u->x.size()); Model* r2 = new Model; r2->dv = {u}; r2->A = {MX(MX::Identity(u->x.size(), u->x.size()))}; r2->B = r2->A; r2->z = rng.vec(u->x.size()); r2->invR = MX::Identity(u->x.size(), u->x.size());
    p.addErr(r2, Robust()); p.layout(rng); s.s->initMatrixStructure(p.order, p.eptr, false); s.s->evaluateError(2, true); s.s->buildSystem(2, true);
    ok = s.s->solveSystem(dx); if (mon().check("recovers-after-singular/" + s.name, ok)) { MX J; VX e; p.dense(true, J, e); mon().near("step-after-singular/" + s.name, dx, (J.transpose() * J).ldlt().solve(J.transpose() * e), 1e-7 * (1 + dx.norm()), ""); }
    p.errs.pop_back(); p.models.pop_back(); p.rob.pop_back(); m->A[1].setZero();
  }
}

// Robust policies: weights follow their definition; weighted error and Jacobian are consistent.
VF_GROUP(robust, 2000, 100000) {
  Robust rb; rb.kind = rng.i(0, 3); rb.s = std::pow(10, rng.u(-2, 2)); auto pol = rb.make(); double s2 = rng.b(0.1) ? 0 : std::pow(10, rng.u(-6, 4));
  mon().evaluation(hmix(rb.kind, uint64_t(s2 * 1e9)));
  mon().near("weight/" + str(rb.kind), pol->getWeight(s2), rb.w(s2), 1e-12 * (1 + rb.w(s2)), "s=" + str(rb.s) + " e2=" + str(s2));
  double s3 = s2 * rng.u(1, 3); mon().check("weight/non-increasing", pol->getWeight(s3) <= pol->getWeight(s2) * (1 + 1e-12), "");
  size_t df = rng.i(1, 6); double pc = rng.u(0.5, 0.999), wc = rng.u(0.01, 0.9); BlakeZissermanMEstimator bz(df, pc, wc);
  // weight equals wc at the pc-quantile; find the quantile by bisection on a numerically integrated chi-square density
  if (df == 2) { double q = -2 * std::log(1 - pc); mon().near("weight/blake-zisserman-cut", bz.getWeight(q), wc, 1e-9, "df=2"); }
  mon().check("weight/blake-zisserman-range", bz.getWeight(s2) <= 1 && bz.getWeight(s2) >= 0 && bz.getWeight(0) >= bz.getWeight(s2), "");
  BlakeZissermanMEstimator c(bz); mon().near("weight/blake-zisserman-copy", c.getWeight(s2), bz.getWeight(s2), 0); BlakeZissermanMEstimator a2(1, 0.9, 0.5); a2 = bz; mon().near("weight/blake-zisserman-assign", a2.getWeight(s2), bz.getWeight(s2), 0);
}

// What one error term contributes: weighted error, Jacobians and information agree with each other and with finite differences.
VF_GROUP(terms, 600, 30000) {
  Problem p; GenOpt o; o.fullRank = false; genProblem(rng, p, o); p.layout(rng);
  mon().evaluation(p.hash());
  for (size_t i = 0; i < p.errs.size(); ++i) {
    ErrorTerm& e = *p.errs[i]; Model& m = *p.models[i]; double ws = e.evaluateError(); VX r = m.residual(); double s2 = r.dot(m.invR * r); double w = p.rob[i].w(s2);
    mon().near("term/raw", e.getRawSquaredError(), s2, 1e-11 * (1 + s2)); mon().near("term/weighted", ws, w * s2, 1e-11 * (1 + s2)); mon().near("term/weighted2", e.getWeightedSquaredError(), ws, 0); mon().near("term/weight", e.getCurrentMEstimatorWeight(), w, 1e-11);
    mon().near("term/vsError", e.vsError(), r, 1e-13 * (1 + r.norm())); MX iR; e.getInvR(iR); mon().near("term/invR", iR, m.invR, 1e-11 * (1 + m.invR.norm())); mon().near("term/vsInvR", e.vsInvR(), m.invR, 1e-11 * (1 + m.invR.norm()));
    for (bool useM : {false, true}) {
      VX we; e.getWeightedError(we, useM); JacobianContainer jc(e.dimension()); e.getWeightedJacobians(jc, useM);
      mon().near("term/weighted-error-norm", we.squaredNorm(), useM ? w * s2 : s2, 1e-11 * (1 + s2));
      for (size_t k = 0; k < m.dv.size(); ++k) if (m.dv[k]->isActive()) { MX g = jc.Jacobian(m.dv[k]).transpose() * we; MX ref = m.dv[k]->scaling() * (useM ? w : 1) * m.jac(k).transpose() * m.invR * r; mon().near("term/weighted-gradient", g, ref, 1e-10 * (1 + ref.norm())); }
    }
    JacobianContainer a(e.dimension()), n(e.dimension()); e.evaluateJacobians(a); e.evaluateJacobiansFiniteDifference(n);
    for (size_t k = 0; k < m.dv.size(); ++k) if (m.dv[k]->isActive()) { mon().near("term/jacobian", a.Jacobian(m.dv[k]), m.jac(k), 1e-12); mon().near("term/finite-difference", n.Jacobian(m.dv[k]), m.jac(k), 1e-4); }
    MX R2 = rng.spd(e.dimension(), 0.2); e.vsSetInvR(R2); mon().near("term/setInvR", e.vsInvR(), R2, 1e-11 * (1 + R2.norm())); m.invR = R2; double s = e.evaluateError(); (void)s; mon().near("term/raw-after-setInvR", e.getRawSquaredError(), r.dot(R2 * r), 1e-11 * (1 + r.dot(R2 * r)));
    e.clearMEstimatorPolicy(); mon().near("term/clear-policy", e.getWeightedSquaredError(), e.getRawSquaredError(), 0);
  }
}
VF_MAIN
