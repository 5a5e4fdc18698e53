// C09: marginalization against dense Schur complements.
#include "backend_common.hpp"
#include <aslam_backend/backend/Marginalizer.hpp>
#include <aslam_backend/backend/MarginalizationPriorErrorTerm.hpp>
#include <aslam_backend/backend/sparse_matrix_functions.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
using namespace vf;
typedef boost::shared_ptr<MarginalizationPriorErrorTerm> PriorPtr;

// quadratic model of the problem around the current state, in the order of dvs: cost(dx) = dx'H dx - 2 g'dx + c
struct Quad { MX H; VX g; double c; };
static Quad quadOf(const Problem& p, bool useM) {
  MX J = MX::Zero(p.rows, p.cols); Quad q; q.H = MX::Zero(p.cols, p.cols); q.g = VX::Zero(p.cols); q.c = 0;
  for (size_t i = 0; i < p.models.size(); ++i) { const Model& m = *p.models[i]; VX r = m.residual(); double s2 = r.dot(m.invR * r), w = useM ? p.rob[i].w(s2) : 1.0; MX Ji = MX::Zero(r.size(), p.cols); for (size_t k = 0; k < m.dv.size(); ++k) Ji.middleCols(m.dv[k]->columnBase(), m.dv[k]->x.size()) += m.jac(k); q.H += w * Ji.transpose() * m.invR * Ji; q.g -= w * Ji.transpose() * m.invR * r; q.c += w * s2; }
  return q;
}
static MX pinvSym(const MX& A) { if (A.size() == 0) return A; Eigen::SelfAdjointEigenSolver<MX> es(A); VX d = es.eigenvalues(); double mx = d.cwiseAbs().maxCoeff(); for (int i = 0; i < d.size(); ++i) d[i] = d[i] > 1e-10 * mx ? 1 / d[i] : 0; return es.eigenvectors() * d.asDiagonal() * es.eigenvectors().transpose(); }
// eliminate the first k columns
static Quad schur(const Quad& q, int k) {
  int n = q.g.size() - k; Quad o; MX iA = pinvSym(q.H.topLeftCorner(k, k)), B = q.H.topRightCorner(k, n);
  o.H = q.H.bottomRightCorner(n, n) - B.transpose() * iA * B; o.g = q.g.tail(n) - B.transpose() * iA * q.g.head(k); o.c = q.c - q.g.head(k).dot(iA * q.g.head(k)); return o;
}
static double evalQ(const Quad& q, const VX& d) { return d.dot(q.H * d) - 2 * q.g.dot(d) + q.c; }
// the prior's weighted residual and derivative with respect to the given variables
static Quad quadOfPrior(MarginalizationPriorErrorTerm& e, const std::vector<DesignVariable*>& order) {
  int n = 0; std::vector<int> base; for (auto* d : order) { base.push_back(n); n += d->minimalDimensions(); }
  Quad q; q.c = ((ErrorTerm&)e).evaluateError(); VX r = e.vsError(); MX W = e.vsInvR(); JacobianContainer jc(e.dimension()); ((ErrorTerm&)e).evaluateJacobians(jc); MX J = MX::Zero(e.dimension(), n);
  for (size_t i = 0; i < order.size(); ++i) { bool in = false; for (auto it = jc.begin(); it != jc.end(); ++it) in |= it->first == order[i]; if (in) J.middleCols(base[i], order[i]->minimalDimensions()) = jc.Jacobian(order[i]); }
  q.H = J.transpose() * W * J; q.g = -J.transpose() * W * r; mon().near("prior/chi2", q.c, r.dot(W * r), 1e-9, "squared error of the prior is not that of its error vector"); return q;
}
struct Snap { std::vector<int> bi, cb; std::vector<size_t> rb; Snap(const std::vector<DesignVariable*>& d, const std::vector<ErrorTerm*>& e) { for (auto* x : d) { bi.push_back(x->blockIndex()); cb.push_back(x->columnBase()); } for (auto* x : e) rb.push_back(x->rowBase()); } bool operator==(const Snap& o) const { return bi == o.bi && cb == o.cb && rb == o.rb; } };
static std::unique_ptr<Problem> gen(Rng& r, bool linear, double robust, int maxDv = 7) {
  std::unique_ptr<Problem> p(new Problem); GenOpt o; o.maxDv = maxDv; o.maxDim = 3; o.maxErr = 14; o.inactive = 0; o.nonlinear = linear ? 0 : 0.7; o.robust = robust; o.scaling = 0.3; o.fullRank = r.b(0.8);
  do { p.reset(new Problem); genProblem(r, *p, o); p->layout(r); } while (p->order.size() < 2 || p->rows < p->cols); return p;
}
static bool wellPosed(const MX& H, int k, bool& removedSingular) {
  Eigen::SelfAdjointEigenSolver<MX> es(H); Eigen::SelfAdjointEigenSolver<MX> e1(MX(H.topLeftCorner(k, k))); double mx = e1.eigenvalues().maxCoeff(), mn = e1.eigenvalues().minCoeff();
  removedSingular = mn < 1e-12 * mx; return mn > 1e-6 * mx || removedSingular;
}
VF_GROUP(linear, 1200, 15000) {
  (void)caseno; auto& m = mon(); Rng& r = rng; bool useM = r.b(0.5); auto P = gen(r, r.b(0.7), useM ? 0.6 : 0); Problem& p = *P;
  if (r.b(0.15)) { VDv* d = (VDv*)p.order[r.i(0, p.order.size() - 1)]; for (auto& mo : p.models) for (size_t k = 0; k < mo->dv.size(); ++k) if (mo->dv[k] == d) { if (r.b(0.5) || d->x.size() == 1) { mo->A[k].setZero(); mo->B[k].setZero(); } else { mo->A[k].col(0).setZero(); mo->B[k].col(0).setZero(); } } m.tag("variable with an unobserved part"); }
  Quad full = quadOf(p, useM); int nRem = r.i(0, p.order.size() - 1), k = 0; for (int i = 0; i < nRem; ++i) k += p.order[i]->minimalDimensions();
  bool rs = false; if (k && !wellPosed(full.H, k, rs)) return; if (rs) m.tag("removed variables not determined");
  // scramble indices so that restoring them is visible
  for (auto* d : p.order) { d->setBlockIndex(r.i(0, 99)); d->setColumnBase(r.i(0, 99)); } for (auto* e : p.eptr) e->setRowBase(r.i(0, 99)); Snap s0(p.order, p.eptr); VX st0 = p.state();
  PriorPtr prior; MX cov; std::vector<DesignVariable*> top; size_t nTop = r.b(0.5) ? r.i(1, p.cols) : 0; bool covOk = !rs && Eigen::SelfAdjointEigenSolver<MX>(full.H).eigenvalues().minCoeff() > 1e-6 * Eigen::SelfAdjointEigenSolver<MX>(full.H).eigenvalues().maxCoeff(); if (!covOk) nTop = 0;
  std::vector<DesignVariable*> in = p.order; std::vector<ErrorTerm*> et = p.eptr; for (size_t i = et.size(); i > 1; --i) std::swap(et[i - 1], et[r.i(0, i - 1)]);
  if (!noThrow("marg/throws", [&] { marginalize(in, et, nRem, useM, prior, cov, top, nTop, r.i(1, 4)); }, "marginalize")) return;
  m.check("marg/restored", Snap(p.order, p.eptr) == s0, "block indices, columns or rows of the input were changed"); m.check("marg/state", p.state() == st0, "marginalization moved a variable"); m.check("marg/input", in == p.order, "");
  std::vector<DesignVariable*> rem(p.order.begin() + nRem, p.order.end()); m.check("marg/variables", ((ErrorTerm&)*prior).designVariables() == rem && prior->numDesignVariables() == (int)rem.size(), "variables of the prior"); for (size_t i = 0; i < rem.size(); ++i) m.check("marg/variables", prior->getDesignVariable(i) == rem[i], "");
  { int b = 0; for (auto* d : p.order) { d->setColumnBase(b); b += d->minimalDimensions(); } int i = 0; for (auto* d : p.order) d->setBlockIndex(i++); b = 0; for (auto* e : p.eptr) { e->setRowBase(b); b += e->dimension(); } }
  Quad want = schur(full, k); double sc = full.H.norm() + 1; Quad got = quadOfPrior(*prior, rem);
  m.near("marg/information", got.H, want.H, 1e-7 * sc, rs ? "removed block rank-deficient" : "information of the prior"); m.near("marg/gradient", got.g, want.g, 1e-7 * (full.g.norm() + sc), "gradient");
  // any later state of the remaining variables
  double c0 = got.c; VX x0 = p.state(); int reps = r.i(1, 3);
  for (int t = 0; t < reps; ++t) {
    VX d(want.g.size()); int b = 0; for (auto* v : rem) { VX dx = r.vec(v->minimalDimensions(), 2); d.segment(b, dx.size()) = dx; b += dx.size(); }
    b = 0; p.setState(x0); for (auto* v : rem) { VX dx = d.segment(b, v->minimalDimensions()); v->update(dx.data(), dx.size()); b += dx.size(); }
    double lhs = ((ErrorTerm&)*prior).evaluateError() - c0, rhs = evalQ(want, d) - want.c; m.near("marg/cost", lhs, rhs, 1e-6 * (sc * (1 + d.squaredNorm()) + full.g.norm() * d.norm()), "cost of the prior at a later state");
    Quad later = quadOfPrior(*prior, rem); m.near("marg/later-gradient", later.g, want.g - want.H * d, 1e-6 * (sc * (1 + d.norm()) + full.g.norm()), "gradient at a later state"); m.near("marg/later-information", later.H, got.H, 1e-9 * sc, "information at a later state");
    if (r.b(0.2)) for (auto* v : rem) v->revertUpdate();
  }
  p.setState(x0);
  if (nTop) { MX iH = full.H.inverse(); m.near("marg/covariance", cov, iH.topLeftCorner(nTop, nTop), 1e-6 * iH.norm(), "covariance block"); std::vector<DesignVariable*> wt; size_t dsum = 0; for (auto* d : p.order) { if (dsum < nTop) wt.push_back(d); dsum += d->minimalDimensions(); } m.check("marg/covariance-variables", top == wt, ""); m.tag("covariance"); }
  m.evaluation(hmix(p.hash(), nRem)); m.tag(useM ? "robust" : "plain");
}
// marginalize A and then B == marginalize A and B at once; the prior replaces the removed part in an optimization
VF_GROUP(chained, 300, 4000) {
  (void)caseno; auto& m = mon(); Rng& r = rng; auto P = gen(r, true, 0); Problem& p = *P; if (p.order.size() < 3) return; int n = p.order.size(); int a = r.i(1, n - 2), b = r.i(a + 1, n - 1); Quad full = quadOf(p, false); int ka = 0, kb = 0; for (int i = 0; i < b; ++i) { if (i < a) ka += p.order[i]->minimalDimensions(); kb += p.order[i]->minimalDimensions(); }
  bool rs = false; if (!wellPosed(full.H, kb, rs) || rs) return;
  // terms touching the first a variables first
  std::set<DesignVariable*> A(p.order.begin(), p.order.begin() + a); std::vector<ErrorTerm*> e1, e2; std::set<DesignVariable*> touched; for (auto* e : p.eptr) { bool t = false; for (auto* d : e->designVariables()) t |= A.count(d) > 0; (t ? e1 : e2).push_back(e); if (t) for (auto* d : e->designVariables()) touched.insert(d); }
  std::vector<DesignVariable*> in; for (auto* d : p.order) if (touched.count(d) || A.count(d)) in.push_back(d); int rows = 0, cols = 0; for (auto* e : e1) rows += e->dimension(); for (auto* d : in) cols += d->minimalDimensions(); if (rows < cols || (int)in.size() == a) return;
  PriorPtr p1, p2; MX cov; std::vector<DesignVariable*> top; marginalize(in, e1, a, false, p1, cov, top);
  VX x0 = p.state(); double s = r.u(0, 2); if (r.b(0.6)) { for (int i = a; i < n; ++i) { VX dx = s * r.vec(p.order[i]->minimalDimensions()); p.order[i]->update(dx.data(), dx.size()); } m.tag("moved between marginalizations"); }
  std::vector<DesignVariable*> in2(p.order.begin() + a, p.order.end()); e2.push_back(p1.get()); rows = 0; cols = 0; for (auto* e : e2) rows += e->dimension(); for (auto* d : in2) cols += d->minimalDimensions(); if (rows < cols) return; top.clear(); marginalize(in2, e2, b - a, false, p2, cov, top);
  std::vector<DesignVariable*> rem(p.order.begin() + b, p.order.end()); Quad now = quadOf(p, false); Quad want = schur(now, kb), got = quadOfPrior(*p2, rem); double sc = now.H.norm() + 1; m.near("chain/information", got.H, want.H, 1e-6 * sc, "information"); 
  // the state of the already removed variables does not matter for the minimum over them
  VX d = VX::Zero(want.g.size()); for (int i = 0; i < d.size(); ++i) d[i] = r.n(); m.near("chain/gradient", got.g, want.g, 1e-6 * (sc + now.g.norm()), "gradient"); m.evaluation(p.hash());
  // optimum of the remaining variables with the prior only equals that of the full problem
  if (Eigen::SelfAdjointEigenSolver<MX>(want.H).eigenvalues().minCoeff() > 1e-4 * sc) { VX dx = got.H.ldlt().solve(got.g), fullDx = now.H.ldlt().solve(now.g).tail(dx.size());
    if (Eigen::SelfAdjointEigenSolver<MX>(now.H).eigenvalues().minCoeff() > 1e-6 * sc) {
      boost::shared_ptr<OptimizationProblem> op(new OptimizationProblem); for (auto* v : rem) op->addDesignVariable(v, false); op->addErrorTerm(boost::shared_ptr<ErrorTerm>(p2)); std::vector<VX> before; for (auto* v : rem) before.push_back(((VDv*)v)->x);
      Optimizer2Options oo; oo.verbose = false; oo.maxIterations = 10; oo.linearSystemSolver.reset(new DenseQrLinearSystemSolver()); oo.trustRegionPolicy.reset(new GaussNewtonTrustRegionPolicy()); oo.convergenceDeltaX = 1e-9; oo.convergenceDeltaJ = 1e-12; Optimizer2 opt(oo); opt.setProblem(op); opt.optimize();
      int bb = 0; for (size_t i = 0; i < rem.size(); ++i) { VX& x = ((VDv*)rem[i])->x; m.near("chain/optimum", x, before[i] + fullDx.segment(bb, x.size()), 1e-4 * (1 + fullDx.norm()), "optimum with the prior differs from the optimum of the full problem"); bb += x.size(); } m.tag("optimized with the prior"); } }
}
VF_GROUP(refused, 200, 1500) {
  (void)caseno; auto& m = mon(); Rng& r = rng; auto P = gen(r, true, 0); Problem& p = *P; PriorPtr prior; MX cov; std::vector<DesignVariable*> top;
  { auto in = p.order; in.push_back(in[0]); auto et = p.eptr; expectThrow("refused/duplicate-variable", [&] { marginalize(in, et, 1, false, prior, cov, top); }, ""); top.clear(); }
  { auto in = p.order; auto et = p.eptr; et.push_back(et[0]); expectThrow("refused/duplicate-term", [&] { marginalize(in, et, 1, false, prior, cov, top); }, ""); top.clear(); }
  { auto in = p.order; auto et = p.eptr; expectThrow("refused/all", [&] { marginalize(in, et, in.size(), false, prior, cov, top); }, "nothing remains"); top.clear(); }
  { p.layout(r); Snap s(p.order, p.eptr); auto in = p.order; std::vector<ErrorTerm*> et; int rows = 0; for (auto* e : p.eptr) if (rows + (int)e->dimension() < p.cols) { et.push_back(e); rows += e->dimension(); } if (!et.empty()) expectThrow("refused/underdetermined", [&] { marginalize(in, et, 1, false, prior, cov, top); }, "fewer equations than unknowns"); }
  m.check("refused/no-prior", !prior, "a refused marginalization returned a prior"); m.evaluation(p.hash());
}
// manifold variables: the relation in the tangent space, and exact derivatives later
struct MVar { std::shared_ptr<void> keep; DesignVariable* d; std::function<MX()> val; };
struct MErr : public ErrorTermDs { std::vector<DesignVariable*> v; std::vector<MX> A; VX z; MErr(const std::vector<DesignVariable*>& vv, const std::vector<MX>& a, const VX& zz, const MX& W) : ErrorTermDs(zz.size()), v(vv), A(a), z(zz) { setDesignVariables(v); setInvR(W); }
  VX raw() { VX r = -z; for (size_t i = 0; i < v.size(); ++i) { MX P; v[i]->getParameters(P); r += (A[i] * Eigen::Map<VX>(P.data(), P.size())).array().sin().matrix(); } return r; }
  double evaluateErrorImplementation() override { setError(raw()); return evaluateChiSquaredError(); }
  MX num(size_t i) { int n = v[i]->minimalDimensions(); MX P; v[i]->getParameters(P); return numDiff([&](const VX& t) { VX c = t; v[i]->update(c.data(), n); VX o = raw(); v[i]->setParameters(P); return o; }, VX::Zero(n), 1e-5); }
  void evaluateJacobiansImplementation(JacobianContainer& o) const override { MErr* s = const_cast<MErr*>(this); for (size_t i = 0; i < v.size(); ++i) o.add(v[i], s->num(i)); } };
VF_GROUP(manifold, 300, 4000) {
  (void)caseno; auto& m = mon(); Rng& r = rng; int n = r.i(2, 5); std::vector<std::shared_ptr<DesignVariable>> own; std::vector<DesignVariable*> in; std::vector<std::shared_ptr<Eigen::Vector4d>> mem; uint64_t h = 3;
  for (int i = 0; i < n; ++i) { std::shared_ptr<DesignVariable> d; switch (r.i(0, 4)) { case 0: d = std::make_shared<RotationQuaternion>(Eigen::Vector4d(r.vec(4).normalized())); break; case 1: d = std::make_shared<EuclideanPoint>(Eigen::Vector3d(r.vec(3))); break; case 2: d = std::make_shared<HomogeneousPoint>(Eigen::Vector4d(r.vec(4).normalized())); break; case 3: mem.push_back(std::make_shared<Eigen::Vector4d>(r.vec(4).normalized())); d = std::make_shared<MappedRotationQuaternion>(mem.back()->data()); break; default: d = std::make_shared<Scalar>(r.u(-2, 2)); } d->setActive(true); d->setBlockIndex(i); if (r.b(0.2)) d->setScaling(r.u(0.3, 3)); own.push_back(d); in.push_back(d.get()); }
  std::vector<std::unique_ptr<MErr>> errs; std::vector<ErrorTerm*> et; auto mk = [&](std::vector<DesignVariable*> v, int D) { std::vector<MX> A; for (auto* d : v) { MX P; d->getParameters(P); A.push_back(r.mat(D, P.size())); h = hashm(A.back(), h); } errs.emplace_back(new MErr(v, A, r.vec(D, 0.7), r.spd(D, 0.5))); et.push_back(errs.back().get()); };
  for (auto* d : in) mk({d}, d->minimalDimensions() + 1); for (int i = 0; i < n; ++i) { auto* a = in[r.i(0, n - 1)]; auto* b = in[r.i(0, n - 1)]; if (a != b) mk({a, b}, r.i(1, 4)); }
  int nRem = r.i(1, n - 1), k = 0, cols = 0; std::vector<int> base; for (int i = 0; i < n; ++i) { base.push_back(cols); cols += in[i]->minimalDimensions(); if (i < nRem) k = cols; }
  Quad full; full.H = MX::Zero(cols, cols); full.g = VX::Zero(cols); full.c = 0; for (auto& e : errs) { VX rr = e->raw(); MX W = e->vsInvR(), J = MX::Zero(rr.size(), cols); for (size_t i = 0; i < e->v.size(); ++i) { int q = std::find(in.begin(), in.end(), e->v[i]) - in.begin(); J.middleCols(base[q], in[q]->minimalDimensions()) += e->num(i); } full.H += J.transpose() * W * J; full.g -= J.transpose() * W * rr; full.c += rr.dot(W * rr); }
  bool rs = false; if (!wellPosed(full.H, k, rs) || rs) return;
  PriorPtr prior; MX cov; std::vector<DesignVariable*> top; marginalize(in, et, nRem, false, prior, cov, top); std::vector<DesignVariable*> rem(in.begin() + nRem, in.end()); Quad want = schur(full, k), got = quadOfPrior(*prior, rem); double sc = full.H.norm() + 1; m.near("manifold/information", got.H, want.H, 1e-6 * sc, "information"); m.near("manifold/gradient", got.g, want.g, 1e-6 * (sc + full.g.norm()), "gradient");
  // later states: cost is the quadratic in the tangent-space difference; derivative is exact
  double c0 = got.c; VX d(cols - k); int b = 0; for (auto* v : rem) { VX dx = r.vec(v->minimalDimensions(), 0.6); d.segment(b, dx.size()) = dx; v->update(dx.data(), dx.size()); b += dx.size(); }
  m.near("manifold/cost", ((ErrorTerm&)*prior).evaluateError() - c0, evalQ(want, d) - want.c, 1e-5 * (sc * (1 + d.squaredNorm()) + full.g.norm() * d.norm()), "cost at a later state");
  JacobianContainer jc(prior->dimension()); ((ErrorTerm&)*prior).evaluateJacobians(jc);
  for (auto* v : rem) { MX P; v->getParameters(P); int q = v->minimalDimensions(); MX Jn = numDiff([&](const VX& t) { VX c = t; v->update(c.data(), q); ((ErrorTerm&)*prior).evaluateError(); VX o = prior->vsError(); v->setParameters(P); return o; }, VX::Zero(q), 1e-5); m.near("manifold/jacobian", jc.Jacobian(v), Jn, 1e-5 * (1 + std::sqrt(sc)), "derivative of the prior at a later state"); }
  m.evaluation(h);
}
// sparse Schur complement of the normal equations (used by the original optimizer)
VF_GROUP(schur, 800, 8000) {
  (void)caseno; auto& m = mon(); Rng& r = rng; int n = r.i(1, 4), k = r.i(1, 5); std::vector<int> cum; int s = 0; std::vector<int> dim; for (int i = 0; i < n + k; ++i) { dim.push_back(r.i(1, 3)); s += dim.back(); cum.push_back(s); }
  typedef aslam_sparse_block_matrix::SparseBlockMatrix<MX> SBM; MX J = r.mat(s + 3, s); int b0 = cum[n - 1]; MX Hd = J.transpose() * J + MX::Identity(s, s);
  // the marginalized part is block diagonal
  for (int i = n; i < n + k; ++i) for (int j = n; j < n + k; ++j) if (i != j) Hd.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]).setZero();
  for (int i = 0; i < n; ++i) for (int j = n; j < n + k; ++j) if (r.b(0.3)) { Hd.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]).setZero(); Hd.block(cum[j] - dim[j], cum[i] - dim[i], dim[j], dim[i]).setZero(); }
  std::vector<int> topCum(cum.begin(), cum.begin() + n); SBM H(cum, cum, true), A(topCum, topCum, true); for (int i = 0; i < n + k; ++i) for (int j = i; j < n + k; ++j) { MX B = Hd.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]); if (!B.isZero(0) || i == j) *H.block(i, j, true) = B; }
  VX rhs = r.vec(s), b; double lambda = r.u(0.01, 2); bool lm = r.b(0.5); std::vector<MX> invVi(k); applySchurComplement(H, rhs, lambda, n, lm, A, invVi, b);
  MX Hl = Hd; if (lm) Hl.diagonal().array() += lambda; MX V = Hl.bottomRightCorner(s - b0, s - b0), W = Hl.topRightCorner(b0, s - b0); MX S = Hl.topLeftCorner(b0, b0) - W * V.inverse() * W.transpose(); VX bb = rhs.head(b0) - W * V.inverse() * rhs.tail(s - b0);
  MX Ad = A.toDense(); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m.near("schur/matrix", Ad.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]), S.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]), 1e-7 * (1 + S.norm()), "reduced matrix"); m.near("schur/rhs", b, bb, 1e-7 * (1 + bb.norm()), "reduced right-hand side");
  MX H2 = H.toDense(); for (int i = 0; i < n + k; ++i) for (int j = i; j < n + k; ++j) m.near("schur/input", H2.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]), Hd.block(cum[i] - dim[i], cum[j] - dim[j], dim[i], dim[j]), 0, "the input was changed");
  VX dx = Hl.ldlt().solve(rhs); for (int i = 0; i < k; ++i) { VX ds; VX top = dx.head(b0); buildDsi(i, H, rhs, n, invVi[i], top, ds); m.near("schur/back-substitution", ds, dx.segment(cum[n + i] - dim[n + i], dim[n + i]), 1e-6 * (1 + dx.norm()), "back substitution"); }
  m.evaluation(hashm(Hd)); m.tag(lm ? "damped" : "undamped");
}
VF_MAIN
