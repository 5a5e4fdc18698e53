// C07: the same problem with one and with many threads. Hooks delay workers; no hook synchronises them.
#include "backend_common.hpp"
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
using namespace vf;
typedef boost::shared_ptr<LinearSystemSolver> LS;
static const char* SN[] = {"block_cholesky", "sparse_cholesky", "sparse_qr", "dense_qr"};
static LS mk(int k) { switch (k) { case 0: return LS(new BlockCholeskyLinearSystemSolver()); case 1: return LS(new SparseCholeskyLinearSystemSolver()); case 2: return LS(new SparseQrLinearSystemSolver()); default: return LS(new DenseQrLinearSystemSolver()); } }
static void reset(Problem& p) { for (auto& m : p.models) { m->nErr = 0; m->nJac = 0; } }
static bool once(Problem& p, bool jac) { bool ok = true; for (auto& m : p.models) ok &= (jac ? m->nJac : m->nErr) == 1; return ok; }
static std::string counts(Problem& p, bool jac) { std::string s; for (auto& m : p.models) s += str(int(jac ? m->nJac : m->nErr)) + " "; return s; }
static MX jacobian(LS s) {
  if (auto b = dynamic_cast<BlockCholeskyLinearSystemSolver*>(s.get())) { SparseBlockMatrix H; b->copyHessian(H); return H.toDense(); }
  if (auto b = dynamic_cast<DenseQrLinearSystemSolver*>(s.get())) return b->getJacobian();
  if (auto b = dynamic_cast<SparseQrLinearSystemSolver*>(s.get())) { MX J; b->getJacobianTranspose().toDenseInto(J); return J; }
  if (s->Jacobian()) return s->Jacobian()->toDense();
  return MX();
}
static void delays(Rng& r, Problem& p) {
  int mode = r.i(0, 3);
  for (auto& m : p.models) { int us = mode == 0 ? 0 : mode == 1 ? r.i(0, 30) : mode == 2 ? (r.b(0.1) ? 400 : 0) : 0; bool y = mode == 3; m->hook = [us, y] { if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); if (y) std::this_thread::yield(); }; }
  static const char* N[] = {"none", "uniform", "stragglers", "yield"}; mon().tag(std::string("delay/") + N[mode]);
}
static uint64_t schedule(Problem& p) { std::map<std::thread::id, int> id; uint64_t h = 5; for (auto& m : p.models) { auto it = id.insert({m->who, int(id.size())}).first; h = hmix(h, it->second); } return hmix(h, id.size()); }

VF_GROUP(equal, 250, 12000) {
  Problem p; GenOpt o; if (rng.b(0.3)) { o.maxDv = 12; o.maxErr = 60; } genProblem(rng, p, o); p.layout(rng); delays(rng, p); mon().evaluation(p.hash());
  bool useM = rng.b(0.7); MX J; VX e; p.dense(useM, J, e);
  for (int k = 0; k < 4; ++k) {
    LS one = mk(k), many = mk(k); std::string n = SN[k]; bool cond = k != 2 && rng.b(0.5);
    one->initMatrixStructure(p.order, p.eptr, cond); many->initMatrixStructure(p.order, p.eptr, cond);
    if (cond) { VX d = rng.vec(p.cols); one->setConditioner(d); many->setConditioner(d); }
    for (int rep = rng.i(1, 3); rep > 0; --rep) {
      size_t nt = rng.b(0.15) ? p.errs.size() + rng.i(0, 5) : rng.i(2, 16); std::string x = n + " " + str(nt) + " threads, " + str(p.errs.size()) + " error terms";
      for (auto d : p.order) static_cast<VDv*>(d)->x += rng.vec(d->minimalDimensions(), 0.2);
      reset(p); double c1 = one->evaluateError(1, useM); mon().check("exactly-once/single", once(p, false), x + ": " + counts(p, false)); one->buildSystem(1, useM);
      reset(p); double cn = many->evaluateError(nt, useM); mon().check("exactly-once/error/" + n, once(p, false), x + ": " + counts(p, false)); mon().distinctIn("assignments of error terms to threads", schedule(p));
      std::set<std::thread::id> ids; for (auto& m : p.models) ids.insert(m->who); mon().tag("workers seen/" + str(ids.size() > 8 ? std::string(">8") : str(ids.size())));
      reset(p); many->buildSystem(nt, useM); mon().check("exactly-once/jacobian/" + n, once(p, true), x + ": " + counts(p, true));
      mon().near("cost/" + n, cn, c1, 1e-11 * (1 + c1), x); mon().near("errors/" + n, many->e(), one->e(), 0, x);
      mon().near("gradient/" + n, many->rhs(), one->rhs(), 1e-12 * (1 + one->rhs().cwiseAbs().maxCoeff()), x);
      mon().near("system/" + n, jacobian(many), jacobian(one), k == 0 ? 1e-12 * (1 + jacobian(one).cwiseAbs().maxCoeff()) : 0, x);
      VX a, b; bool oka = one->solveSystem(a), okb = many->solveSystem(b); mon().check("solved/" + n, oka && okb, x);
      if (oka && okb) mon().near("step/" + n, b, a, 1e-7 * (1 + a.norm()), x);
      if (rng.b(0.3)) { p.dense(useM, J, e); mon().near("gradient-oracle/" + n, many->rhs(), VX(J.transpose() * e), 1e-10 * (1 + e.norm()) * (1 + J.norm()), x); }
    }
    mon().tag("solver/" + n);
  }
}

struct Boom : std::runtime_error { int tag; Boom(int t) : std::runtime_error("error term " + std::to_string(t) + " cannot be evaluated"), tag(t) {} };
// A failing error term: the caller learns of it, whatever the thread it ran in, and the solver is usable afterwards.
VF_GROUP(failures, 250, 10000) {
  Problem p; GenOpt o; o.maxErr = 20; genProblem(rng, p, o); p.layout(rng); mon().evaluation(p.hash()); int k = rng.i(0, 3); LS s = mk(k); std::string n = SN[k];
  s->initMatrixStructure(p.order, p.eptr, false); size_t nt = rng.b(0.2) ? 1 : rng.i(2, 12);
  std::set<int> bad; for (int i = rng.b(0.7) ? 1 : rng.i(2, 4); i > 0; --i) bad.insert(rng.i(0, p.models.size() - 1)); bool inJac = rng.b(0.5), foreign = rng.b(0.15);
  std::string x = n + " " + str(nt) + " threads, " + str(p.errs.size()) + " error terms, " + str(bad.size()) + " failing " + (inJac ? "Jacobians" : "errors");
  std::atomic<bool> armed{false};
  for (int b : bad) p.models[b]->hook = [&armed, b, foreign] { if (armed.load(std::memory_order_relaxed)) { if (foreign) throw b; throw Boom(b); } };
  if (inJac) s->evaluateError(nt, true);
  armed = true; int got = 0; std::string what; bool right = false;
  try { if (inJac) s->buildSystem(nt, true); else s->evaluateError(nt, true); } catch (Boom& e) { got = 1; what = e.what(); right = bad.count(e.tag); } catch (std::exception& e) { got = 2; what = e.what(); } catch (int t) { got = 3; right = bad.count(t); }
  mon().check("failure-reaches-caller/" + n, got != 0, x); mon().check("failure-identity/" + n, got == (foreign ? 3 : 1) && right, x + " arrived as \"" + what + "\"");
  armed = false; for (auto& m : p.models) m->hook = nullptr; reset(p); double c = s->evaluateError(nt, true); mon().check("exactly-once/after-failure", once(p, false), x + ": " + counts(p, false)); mon().near("cost-after-failure", c, p.cost(), 1e-10 * (1 + c), x);
  s->buildSystem(nt, true); VX dx; if (mon().check("solved-after-failure", s->solveSystem(dx), x)) { MX J; VX e; p.dense(true, J, e); VX g = J.transpose() * e; mon().near("gradient-after-failure", s->rhs(), g, 1e-10 * (1 + e.norm()) * (1 + J.norm()), x); }
  mon().tag(std::string("failure/") + (inJac ? "jacobian" : "error") + (nt > 1 ? "/worker" : "/caller") + (bad.size() > 1 ? "/several" : ""));
}
// no error term at all
VF_GROUP(empty, 20, 200) {
  Problem p; for (int i = rng.i(1, 3); i > 0; --i) p.addDv(new VDv(rng.vec(rng.i(1, 3)))); p.layout(rng); mon().evaluation(rng.next());
  for (int k : {0, 3}) { LS s = mk(k); s->initMatrixStructure(p.order, p.eptr, false); size_t nt = rng.i(0, 4); mon().near("cost/no-error-terms", s->evaluateError(nt, true), 0, 0, SN[k]); }
  mon().tag("no error terms");
}
// whole optimizations
VF_GROUP(optimize, 60, 2500) {
  Problem p; GenOpt o; o.nonlinear = 0.4; genProblem(rng, p, o); delays(rng, p); mon().evaluation(p.hash()); VX s0 = p.state(); int sk = rng.i(0, 3), pk = rng.i(0, 2); if (sk == 2 && pk == 1) pk = 2; VX ref; double J1 = 0; int it1 = 0;
  for (int nt : {1, rng.i(2, 4), rng.i(5, 12)}) {
    p.setState(s0); Optimizer2Options op; op.nThreads = nt; op.maxIterations = 6; op.convergenceDeltaJ = op.convergenceDeltaX = 1e-3; op.linearSystemSolver = mk(sk); switch (pk) { case 0: op.trustRegionPolicy.reset(new GaussNewtonTrustRegionPolicy()); break; case 1: op.trustRegionPolicy.reset(new LevenbergMarquardtTrustRegionPolicy()); break; default: op.trustRegionPolicy.reset(new DogLegTrustRegionPolicy()); }
    boost::shared_ptr<OptimizationProblem> pr(new OptimizationProblem); for (auto& d : p.dvs) pr->addDesignVariable(d.get(), false); for (auto& e : p.errs) pr->addErrorTerm(e.get(), false);
    Optimizer2 opt(op); opt.setProblem(pr); SolutionReturnValue v = opt.optimize();
    if (nt == 1) { ref = p.state(); J1 = v.JFinal; it1 = v.iterations; } else if (v.iterations == it1) { mon().near(std::string("optimum/") + SN[sk], p.state(), ref, 1e-6 * (1 + ref.norm()), str(nt) + " threads"); mon().near(std::string("optimal-cost/") + SN[sk], v.JFinal, J1, 1e-8 * (1 + J1), str(nt) + " threads"); } else mon().tag("optimize/rounding changed the iteration count");
  }
  mon().tag(std::string("optimize/") + SN[sk]);
}
VF_MAIN
