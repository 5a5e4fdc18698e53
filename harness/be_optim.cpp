// C06: optimizers. A trust region policy that only watches is put between the optimizer and the real policy.
#include "backend_common.hpp"
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/Optimizer.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/SimpleOptimizationProblem.hpp>
using namespace vf;
typedef boost::shared_ptr<LinearSystemSolver> LS; typedef boost::shared_ptr<TrustRegionPolicy> TP;

// the k-th solve reports failure (k from a fault plan); everything else is the real solver
template <class B> struct Faulty : public B {
  std::set<int> plan; int n = 0, failed = 0; bool allFail = false;
  template <class... A> explicit Faulty(A... a) : B(a...) {}
  bool solveSystem(Eigen::VectorXd& dx) override { int k = n++; if (allFail || plan.count(k)) { ++failed; return false; } return B::solveSystem(dx); }
};
struct Plan { std::set<int> at; bool all = false; };
static LS mkSolver(int k, const Plan& f = Plan()) {
  auto set = [&](auto* s) { s->plan = f.at; s->allFail = f.all; return LS(s); };
  switch (k) { case 0: return set(new Faulty<BlockCholeskyLinearSystemSolver>(std::string("cholesky"))); case 1: return set(new Faulty<BlockCholeskyLinearSystemSolver>(std::string("spqr")));
    case 2: return set(new Faulty<SparseCholeskyLinearSystemSolver>()); case 3: return set(new Faulty<SparseQrLinearSystemSolver>()); default: return set(new Faulty<DenseQrLinearSystemSolver>()); }
}
static const char* SN[] = {"block_cholesky", "block_spqr", "sparse_cholesky", "sparse_qr", "dense_qr"}; static const char* PN[] = {"gauss_newton", "levenberg_marquardt", "dog_leg"};
static TP mkPolicy(int k, Rng& r) { switch (k) { case 0: return TP(new GaussNewtonTrustRegionPolicy()); case 1: return r.b(0.6) ? TP(new LevenbergMarquardtTrustRegionPolicy()) : TP(new LevenbergMarquardtTrustRegionPolicy(std::pow(10, r.u(-8, 3)))); default: return TP(new DogLegTrustRegionPolicy()); } }

// distance of dx to the dog leg path 0 -> sd -> gn
static double segDist(const VX& p, const VX& a, const VX& b) { VX d = b - a; double t = d.squaredNorm() > 0 ? (p - a).dot(d) / d.squaredNorm() : 0; t = std::max(0., std::min(1., t)); return (p - a - t * d).norm(); }

struct Watch : public TrustRegionPolicy {
  TP real; Problem& p; std::string x; bool regular; VX accepted; double best = 0; VX lastDx; bool lastOk = false; int calls = 0, rejected = 0, failures = 0; bool first = true; std::string kind;
  Watch(TP r, Problem& pp, const std::string& xx, bool reg) : real(r), p(pp), x(xx), regular(reg), kind(r->name()) {}
  std::string name() const override { return real->name(); }
  bool requiresAugmentedDiagonal() const override { return real->requiresAugmentedDiagonal(); }
  bool revertOnFailure() override { return real->revertOnFailure(); }
  std::ostream& printState(std::ostream& o) const override { return real->printState(o); }
  void setSolver(LS s) override { TrustRegionPolicy::setSolver(s); real->setSolver(s); }
  void optimizationStarting(double J) override { double c = p.cost(); mon().near("start-cost", J, c, 1e-10 * (1 + c), x); best = c; accepted = p.state(); first = true; calls = 0; real->optimizationStarting(J); }
  void optimizationStartingImplementation(double) override {}
  bool solveSystemImplementation(double, bool, int, Eigen::VectorXd&) override { return false; }
  bool solveSystem(double J, bool prevFailed, int nThreads, Eigen::VectorXd& dx) override {
    VX s = p.state(); double c = p.cost(); std::string y = x + " call " + str(calls);
    mon().check("finite-state", s.allFinite(), y);
    if (prevFailed && revertOnFailure()) { mon().near("reverted-state/" + kind, s, accepted, 0, y); mon().tag(lastOk ? "history/" + kind + "/rejected step" : "history/" + kind + "/solver failure"); if (lastOk) ++rejected; }
    else if (!first) { if (revertOnFailure()) mon().check("accepted-not-worse/" + kind, c <= best * (1 + 1e-12) + 1e-14, y + " cost " + str(c) + " after " + str(best)); mon().near("cost-reported", J, c, 1e-10 * (1 + c), y); mon().tag("history/" + kind + "/accepted step"); accepted = s; best = c; }
    bool ok = real->solveSystem(J, prevFailed, nThreads, dx); ++calls;
    if (!ok) { ++failures; lastOk = false; first = false; return false; }
    if (!mon().check("step-size/" + kind, dx.size() == p.cols && dx.allFinite(), y + " step " + mstr(dx.transpose()))) { first = false; lastOk = true; lastDx = dx; return ok; }
    // a rejected step is retried with a shorter one
    if (prevFailed && lastOk && revertOnFailure()) mon().check("retry-is-shorter/" + kind, kind == "dog_leg" ? dx.norm() < lastDx.norm() || dx.norm() < 1e-13 : dx.norm() <= lastDx.norm() * (1 + 1e-6) + 1e-13, y + " " + str(dx.norm()) + " after " + str(lastDx.norm()));
    if (regular) {
      MX Jm; VX e; p.dense(true, Jm, e); MX H = Jm.transpose() * Jm; VX g = Jm.transpose() * e; Eigen::SelfAdjointEigenSolver<MX> es(H); double k = es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff(); double tol = 1e-12 * k, noise = 1e-12 * Jm.norm() * e.norm(), nx = noise / es.eigenvalues().minCoeff();  // rounding of the gradient
     
      if (k > 0 && k < 1e8) {
        if (kind == "gauss_newton") { VX gn = H.ldlt().solve(g); mon().near("step/gauss_newton", dx, gn, tol * (1e-8 + gn.norm()) + nx, y); }
        else if (kind == "levenberg_marquardt") { double n2 = dx.squaredNorm(); if (n2 > 1e-28) { VX r = g - H * dx; double mu = r.dot(dx) / n2; mon().check("step/levenberg_marquardt", mu >= -1e-9 * (1 + H.norm()) - noise / dx.norm() && (r - mu * dx).norm() <= 1e-8 * (g.norm() + H.norm() * dx.norm()) + noise + 1e-13, y + " is not a damped normal-equation step: damping " + str(mu) + " residual " + str((r - mu * dx).norm())); } }
        else { VX gn = H.ldlt().solve(g); double q = g.dot(H * g); VX sd = q > 0 ? VX(g * (g.squaredNorm() / q)) : VX(VX::Zero(g.size())); double d = std::min(segDist(dx, VX::Zero(g.size()), sd), segDist(dx, sd, gn)); mon().check("step/dog_leg", d <= 1e-7 * (gn.norm() + 1e-8) * std::max(1., tol * 1e6) + nx, y + " distance to the dog leg path " + str(d)); }
      }
    }
    lastDx = dx; lastOk = true; first = false; return ok;
  }
};

template <class P> static boost::shared_ptr<OptimizationProblemBase> expose(Problem& p) {
  boost::shared_ptr<P> o(new P); for (auto& d : p.dvs) o->addDesignVariable(d.get(), false); for (auto& e : p.errs) o->addErrorTerm(e.get(), false); return o;
}
static boost::shared_ptr<OptimizationProblemBase> expose(Problem& p, Rng& r) { return r.b(0.5) ? expose<OptimizationProblem>(p) : expose<SimpleOptimizationProblem>(p); }
static void order(Problem& p) { Rng r(1); p.layout(r, false); }
static std::vector<VX> inactive(Problem& p) { std::vector<VX> v; for (auto& d : p.dvs) v.push_back(d->x); return v; }
static void sameInactive(Problem& p, const std::vector<VX>& v, const std::string& x) { for (size_t i = 0; i < v.size(); ++i) if (!p.dvs[i]->isActive()) mon().check("inactive-untouched", p.dvs[i]->x == v[i] && p.dvs[i]->nUpdate == 0, x); }

struct R2 { SolutionReturnValue srv; boost::shared_ptr<Watch> w; };
static R2 run2(Rng& rng, Problem& p, int sk, int pk, Optimizer2Options o, const std::string& x, bool regular, const Plan& f = Plan(), boost::shared_ptr<Optimizer2> opt = boost::shared_ptr<Optimizer2>()) {
  order(p); VX s0 = p.state(); double c0 = p.cost(); auto in = inactive(p);
  int pkEff = sk == 3 && pk == 1 ? 2 : pk;   // sparse_qr does not condition; the optimizer says so and changes to dog leg
  R2 r; TP real = mkPolicy(pkEff, rng); r.w.reset(new Watch(real, p, x, regular));
  o.linearSystemSolver = mkSolver(sk, f); o.trustRegionPolicy = r.w; o.nThreads = rng.i(1, 5);
  if (getenv("VF_VERBOSE")) o.verbose = true; Optimizer2 op(o); op.setProblem(expose(p, rng));
  for (auto& d : p.dvs) { d->nRevertBeforeUpdate = 0; d->nUpdate = d->nRevert = 0; }
  try { r.srv = op.optimize(); } catch (std::exception& e) { mon().check("no-exception", false, x + ": " + e.what()); return r; }
  const SolutionReturnValue& v = r.srv; double c = p.cost(); const std::string k = std::string(PN[pkEff]);
  mon().near("JStart", v.JStart, c0, 1e-10 * (1 + c0), x);
  mon().near("JFinal/" + k, v.JFinal, c, 1e-10 * (1 + c), x + " iterations " + str(v.iterations) + " failed " + str(v.failedIterations));
  if (r.w->revertOnFailure()) mon().check("never-worse/" + k, c <= c0 * (1 + 1e-12) + 1e-14, x + " from " + str(c0) + " to " + str(c));
  mon().check("state-finite/" + k, p.state().allFinite() || !r.w->revertOnFailure(), x);
  mon().check("iteration-bound", v.iterations <= o.maxIterations && v.failedIterations <= o.maxIterations, x + " " + str(v.iterations) + "/" + str(v.failedIterations) + " of " + str(o.maxIterations));
  if (v.iterations < o.maxIterations && v.failedIterations < o.maxIterations) mon().check("stops-for-a-reason", !(v.dXFinal > o.convergenceDeltaX && std::fabs(v.dJFinal) > o.convergenceDeltaJ), x + " dX " + str(v.dXFinal) + " dJ " + str(v.dJFinal));
  sameInactive(p, in, x);
  for (auto& d : p.dvs) if (d->isActive()) { mon().check("revert-only-updates", d->nRevertBeforeUpdate == 0, x + " revert without a pending update"); mon().check("every-variable-updated-equally", d->nUpdate == p.order[0]->minimalDimensions() * 0 + static_cast<VDv*>(p.order[0])->nUpdate && d->nRevert == static_cast<VDv*>(p.order[0])->nRevert, x); }
  if (r.w->failures) mon().check("failure-reported", v.linearSolverFailure && v.failedIterations >= r.w->failures, x);
  else mon().check("failure-not-invented", !v.linearSolverFailure, x);
  mon().tag("solver/" + std::string(SN[sk])); if (r.w->rejected) mon().tag("run with rejected steps/" + k); if (r.w->failures) mon().tag("run with solver failures/" + k);
  return r;
}
static Optimizer2Options opts(Rng& r) { Optimizer2Options o; o.convergenceDeltaJ = std::pow(10, r.u(-10, -1)); o.convergenceDeltaX = std::pow(10, r.u(-10, -1)); o.maxIterations = r.b(0.1) ? r.i(0, 2) : r.i(3, 40); return o; }
static std::string desc(Problem& p, int sk, int pk) { return std::string(SN[sk]) + "+" + PN[pk] + " " + str(p.dvs.size()) + " variables " + str(p.errs.size()) + " errors"; }

// Random non-linear problems; starts far from the solution provoke rejected steps.
VF_GROUP(traces, 700, 30000) {
  Problem p; GenOpt o; o.nonlinear = 0.8; genProblem(rng, p, o);
  if (rng.b(0.6)) { double amp = rng.u(1, 8); for (auto& m : p.models) if (m->q) { m->q *= amp; for (auto& b : m->B) b *= rng.u(1, 4); } for (auto& d : p.dvs) if (d->isActive()) d->x += rng.vec(d->x.size(), 5); }
  mon().evaluation(p.hash()); int sk = rng.i(0, 4), pk = rng.i(0, 2); if (caseno < 5) mon().sample(desc(p, sk, pk));
  Optimizer2Options op = opts(rng); VX s0 = p.state();
  run2(rng, p, sk, pk, op, desc(p, sk, pk), true);
  // resuming or restarting with other solvers and policies continues from where the state is
  if (rng.b(0.4)) { if (rng.b(0.5)) p.setState(s0); int s2 = rng.i(0, 4), p2 = rng.i(0, 2); run2(rng, p, s2, p2, opts(rng), desc(p, s2, p2) + " second run", true); mon().tag("second run"); }
}

// Linear least squares: every policy and solver ends at the global minimiser.
VF_GROUP(linear, 300, 12000) {
  Problem p; GenOpt o; o.nonlinear = 0; o.robust = 0; genProblem(rng, p, o); order(p); mon().evaluation(p.hash());
  MX J; VX e; p.dense(true, J, e); VX dx = (J.transpose() * J).ldlt().solve(J.transpose() * e); VX s0 = p.state(); Eigen::SelfAdjointEigenSolver<MX> es(J.transpose() * J); bool well = es.eigenvalues().maxCoeff() < 1e3 * es.eigenvalues().minCoeff() && es.eigenvalues().minCoeff() > 0.05;
  for (auto d : p.order) { VDv* v = static_cast<VDv*>(d); v->x += v->scaling() * dx.segment(v->columnBase(), v->x.size()); } VX ref = p.state(); double c = p.cost(); p.setState(s0);
  int sk = rng.i(0, 4), pk = rng.i(0, 2); Optimizer2Options op; op.convergenceDeltaJ = op.convergenceDeltaX = 1e-13; op.maxIterations = 300;
  R2 r = run2(rng, p, sk, pk, op, desc(p, sk, pk), true);
  if (pk == 0) mon().check("gauss-newton-one-step", r.srv.iterations <= 4, desc(p, sk, pk) + " took " + str(r.srv.iterations));
  if (!well && r.srv.iterations >= op.maxIterations) { mon().tag("linear/ill-conditioned, out of iterations"); return; }
  mon().near("global-minimum/" + std::string(PN[pk]), p.cost(), c, 1e-8 * (1 + c), desc(p, sk, pk) + " iterations " + str(r.srv.iterations));
  mon().near("global-minimiser/" + std::string(PN[pk]), p.state(), ref, 1e-4 * (1 + ref.norm()), desc(p, sk, pk));
  mon().tag("linear/" + std::string(SN[sk]) + "+" + PN[pk]);
}

// Already at the optimum (exactly zero residual or exactly zero gradient): nothing may be destroyed.
VF_GROUP(at_optimum, 200, 6000) {
  Problem p; GenOpt o; o.nonlinear = 0.3; genProblem(rng, p, o); for (auto& m : p.models) { m->z.setZero(); m->z = m->residual(); }
  mon().evaluation(p.hash()); VX s0 = p.state();
  for (int pk = 0; pk < 3; ++pk) { int sk = rng.i(0, 4); run2(rng, p, sk, pk, opts(rng), desc(p, sk, pk) + " starting at the optimum", false); mon().near("optimum-kept/" + std::string(PN[pk]), p.state(), s0, 1e-9 * (1 + s0.norm()), desc(p, sk, pk)); p.setState(s0); }
  mon().tag("at optimum");
}

// Injected solver failures, singular systems, regions where the cost is not a number.
VF_GROUP(faults, 400, 16000) {
  int kind = rng.i(0, 3); Problem p; GenOpt o; o.nonlinear = 0.7; genProblem(rng, p, o); int sk = rng.i(0, 4), pk = rng.i(0, 2); Plan f; std::string what;
  if (kind == 0) { for (int i = rng.i(1, 3); i > 0; --i) f.at.insert(rng.i(0, 5)); what = " injected failures"; }
  if (kind == 1) { f.all = true; what = " all solves fail"; }
  if (kind == 2) { VDv* u = new VDv(rng.vec(rng.i(1, 3))); p.addDv(u); Model* m = new Model; m->dv = {p.dvs[0].get(), u}; m->z = rng.vec(2); m->A = {rng.mat(2, p.dvs[0]->x.size()), MX::Zero(2, u->x.size())}; m->B = m->A; m->invR = MX::Identity(2, 2); p.addErr(m, Robust()); what = " unobserved variable"; }
  if (kind == 3) { pk = rng.i(1, 2); order(p); for (auto& m : p.models) if (m->dv[0]->isActive() && rng.b(0.6)) m->nanR = m->dv[0]->x.norm() * rng.u(1.001, 1.5); what = " undefined region"; }
  mon().evaluation(p.hash()); VX s0 = p.state(); Optimizer2Options op = opts(rng); mon().tag("fault/" + what.substr(1));
  R2 r = run2(rng, p, sk, pk, op, desc(p, sk, pk) + what, kind == 3, f);
  if (f.all) { mon().near("all-failed-state-unchanged", p.state(), s0, 0, desc(p, sk, pk)); if (op.maxIterations > 0) mon().check("all-failed-reported", r.srv.linearSolverFailure, desc(p, sk, pk)); }
}

// The Hessian handed out for marginalisation.
VF_GROUP(hessian, 150, 5000) {
  Problem p; GenOpt o; genProblem(rng, p, o); mon().evaluation(p.hash()); order(p);
  Optimizer2Options op; op.linearSystemSolver = mkSolver(rng.i(0, 4)); op.trustRegionPolicy = mkPolicy(0, rng); op.nThreads = rng.i(1, 4); op.maxIterations = rng.i(0, 3); Optimizer2 opt(op); opt.setProblem(expose(p, rng)); opt.optimize();
  SparseBlockMatrix H; opt.computeHessian(H, 0.0); MX J; VX e; p.dense(false, J, e); MX D = H.toDense(); MX U = D.triangularView<Eigen::Upper>(); MX L = U.transpose(); L.diagonal().setZero(); MX ref = J.transpose() * J;
  mon().near("optimizer-hessian", MX(U + L), ref, 1e-9 * (1 + ref.cwiseAbs().maxCoeff()), ""); mon().tag("hessian");
  mon().near("optimizer-cost", opt.evaluateError(true), p.cost(), 1e-10 * (1 + p.cost()), "");
}

// The original Optimizer: Gauss-Newton, Levenberg-Marquardt, Dog-Leg, with and without the Schur complement.
static const char* OS[] = {"cholmod", "dense", "spqr"};
static void oldRun(Rng& rng, Problem& p, OptimizerOptions o, bool dogleg, const std::string& x, SolutionReturnValue& v) {
  VX s0 = p.state(); double c0 = p.cost(true); auto in = inactive(p); for (auto& d : p.dvs) { d->nRevertBeforeUpdate = 0; d->nUpdate = d->nRevert = 0; d->pending = false; }
  Optimizer op(o); op.setProblem(expose<OptimizationProblem>(p));
  try { v = dogleg ? op.optimizeDogLeg() : op.optimize(); } catch (std::exception& e) { mon().check("no-exception", false, x + ": " + e.what()); return; }
  double c = p.cost(true); std::string k = dogleg ? "old-dog-leg" : o.doLevenbergMarquardt ? "old-lm" : "old-gn";
  mon().near("JStart/" + k, v.JStart, c0, 1e-10 * (1 + c0), x);
  mon().near("JFinal/" + k, v.JFinal, c, 1e-10 * (1 + c), x + " iterations " + str(v.iterations) + " failed " + str(v.failedIterations));
  if (dogleg || o.doLevenbergMarquardt) { mon().check("never-worse/" + k, c <= c0 * (1 + 1e-12) + 1e-14, x + " from " + str(c0) + " to " + str(c)); mon().check("state-finite/" + k, p.state().allFinite(), x); }
  mon().check("iteration-bound/" + k, v.iterations <= o.maxIterations, x); sameInactive(p, in, x);
  for (auto& d : p.dvs) mon().check("revert-only-updates/" + k, d->nRevertBeforeUpdate == 0, x + " revert without a pending update");
  mon().tag("optimizer/" + k + (o.doSchurComplement ? "/schur" : ""));
}
VF_GROUP(original, 500, 20000) {
  Problem p; GenOpt o; o.nonlinear = rng.b(0.5) ? 0.8 : 0; o.robust = o.nonlinear > 0 ? 0.5 : 0; bool schur = rng.b(0.4);
  if (schur) {  // errors touch at most one marginalised variable
    int nd = rng.i(1, 4), ns = rng.i(1, 5); for (int i = 0; i < nd + ns; ++i) { VDv* d = new VDv(rng.vec(rng.i(1, 4), 2)); d->setMarginalized(i >= nd); if (rng.b(0.3)) d->setScaling(rng.u(0.2, 4)); p.addDv(d); }
    auto mk = [&](std::vector<VDv*> c, int D, double diag) { Model* m = new Model; m->dv = c; m->q = rng.b(o.nonlinear) ? rng.u(0.05, 0.5) : 0; m->z = rng.vec(D, 2); for (auto d : c) { m->A.push_back(rng.mat(D, d->x.size())); m->B.push_back(rng.mat(D, d->x.size())); } if (diag) m->A[0] += diag * MX::Identity(D, D); m->invR = rng.spd(D, 0.3); Robust rb; if (rng.b(o.robust)) { rb.kind = rng.i(1, 2); rb.s = rng.u(0.3, 5); } p.addErr(m, rb); };
    for (int i = rng.i(1, 12); i > 0; --i) { std::vector<VDv*> c{p.dvs[rng.i(0, nd - 1)].get()}; if (nd > 1 && rng.b(0.4)) { VDv* e = p.dvs[rng.i(0, nd - 1)].get(); if (e != c[0]) c.push_back(e); } if (rng.b(0.8)) c.push_back(p.dvs[nd + rng.i(0, ns - 1)].get()); mk(c, rng.i(1, 5), 0); }
    for (auto& d : p.dvs) mk({d.get()}, d->x.size(), 2);
  } else { o.inactive = 0.15; genProblem(rng, p, o); }
  mon().evaluation(p.hash()); VX s0 = p.state(); order(p);
  OptimizerOptions oo; oo.linearSolver = OS[rng.i(0, 2)]; oo.doSchurComplement = schur; oo.doLevenbergMarquardt = rng.b(0.6); oo.resetSolverEveryIteration = rng.b(0.3); if (rng.b(0.3)) oo.levenbergMarquardtEstimateLambdaScale = std::pow(10, rng.u(-6, 0)); oo.convergenceDeltaJ = oo.convergenceDeltaX = std::pow(10, rng.u(-10, -2)); oo.maxIterations = rng.i(0, 30);
  std::string x = str(oo.linearSolver) + (oo.doLevenbergMarquardt ? " lm" : " gn") + (schur ? " schur" : ""); SolutionReturnValue v;
  // one undamped iteration is the dense solution, marginalised or not
  { MX J; VX e; p.dense(true, J, e); MX H = J.transpose() * J; VX dx = H.ldlt().solve(J.transpose() * e); OptimizerOptions o1 = oo; o1.doLevenbergMarquardt = false; o1.maxIterations = 1; oldRun(rng, p, o1, false, x, v); VX got = p.state(); p.setState(s0); for (auto d : p.order) { VDv* w = static_cast<VDv*>(d); order(p); w->x += w->scaling() * dx.segment(w->columnBase(), w->x.size()); } mon().near(std::string("first-step") + (schur ? "/schur" : ""), got, p.state(), 1e-8 * (1 + dx.norm()), x); p.setState(s0); }
  if (rng.b(0.4)) for (auto& d : p.dvs) if (d->isActive()) d->x += rng.vec(d->x.size(), 5);
  bool dl = !schur && rng.b(0.3); oldRun(rng, p, oo, dl, x + (dl ? " dogleg" : ""), v);
  if (o.nonlinear == 0) { order(p); oo.maxIterations = 300; oo.convergenceDeltaJ = oo.convergenceDeltaX = 1e-13; oldRun(rng, p, oo, dl, x + " linear", v); order(p); MX J; VX e; p.dense(true, J, e); VX dx = (J.transpose() * J).ldlt().solve(J.transpose() * e); mon().near(std::string("global-minimiser/old") + (dl ? "/dog-leg" : ""), dx, VX(VX::Zero(dx.size())), 1e-4, x); }
}
// the original optimizer when a linear solve fails half way: what it accepted before stays
VF_GROUP(original_failure, 200, 6000) {
  Problem p; VDv* a = new VDv(rng.vec(1, 1)); VDv* b = new VDv(rng.vec(rng.i(1, 3), 1)); p.addDv(a); p.addDv(b);
  // a's Jacobian vanishes beyond a border the first step crosses
  Model* m = new Model; m->dv = {a}; m->z = VX::Constant(1, rng.u(3, 6)); m->A = {MX::Identity(1, 1)}; m->B = m->A; m->invR = MX::Identity(1, 1); p.addErr(m, Robust());
  Model* n = new Model; n->dv = {b}; n->z = rng.vec(b->x.size(), 3); n->A = {MX(MX::Identity(b->x.size(), b->x.size()))}; n->B = n->A; n->q = 0.2; n->invR = MX::Identity(b->x.size(), b->x.size()); p.addErr(n, Robust());
  m->hook = [m, a] { m->A[0](0, 0) = a->x[0] > 2.5 ? 0.0 : 1.0; };
  mon().evaluation(hashm(m->z, hashm(n->z))); OptimizerOptions oo; oo.linearSolver = rng.b(0.5) ? "cholmod" : "spqr"; oo.doLevenbergMarquardt = false; oo.convergenceDeltaJ = oo.convergenceDeltaX = 1e-9; oo.maxIterations = rng.i(2, 8); oo.resetSolverEveryIteration = rng.b(0.5);
  SolutionReturnValue v; Optimizer op(oo); op.setProblem(expose<OptimizationProblem>(p)); v = op.optimize(); m->hook();
  double c = p.cost(true); mon().near("JFinal/after-solver-failure", v.JFinal, c, 1e-10 * (1 + c), oo.linearSolver + " failed iterations " + str(v.failedIterations)); mon().check("revert-only-updates/after-solver-failure", a->nRevertBeforeUpdate == 0 && b->nRevertBeforeUpdate == 0, ""); if (v.failedIterations) mon().tag("original/solver failure"); else mon().tag("original/solver coped");
}
VF_MAIN
