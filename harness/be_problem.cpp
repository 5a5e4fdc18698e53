// C08: problem bookkeeping, Jacobian containers, design variable state machines - reference models.
#include "backend_common.hpp"
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/SimpleOptimizationProblem.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_backend/backend/DesignVariableAdapter.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
using namespace vf;

// ---------------------------------------------------------------- problem
static std::set<const void*> gAlive;
struct PDv : public VDv { PDv(Rng& r) : VDv(r.vec(r.i(1, 3))) { setActive(r.b(0.7)); gAlive.insert(this); } ~PDv() { gAlive.erase(this); } };
struct PEt : public ErrorTermDs {
  PEt(const std::vector<DesignVariable*>& d) : ErrorTermDs(1) { setDesignVariables(d); gAlive.insert(this); }
  ~PEt() { gAlive.erase(this); }
  double evaluateErrorImplementation() override { VX e(1); e[0] = 1; setError(e); return 1; }
  void evaluateJacobiansImplementation(JacobianContainer&) const override {}
};
template <class P> struct Tr; template <> struct Tr<OptimizationProblem> { static const bool simple = false; static void rem(OptimizationProblem& p, PEt* e) { p.removeErrorTerm(e); } static void rem(OptimizationProblem& p, PDv* d) { p.removeDesignVariable(d); } static size_t act(OptimizationProblem& p) { return p.countActiveDesignVariables(); } };
template <> struct Tr<SimpleOptimizationProblem> { static const bool simple = true; template <class T> static void rem(SimpleOptimizationProblem&, T*) {} static size_t act(SimpleOptimizationProblem& p) { size_t c = 0; for (size_t i = 0; i < p.numDesignVariables(); ++i) c += p.designVariable(i)->isActive(); return c; } };
template <class P> static void cmpProblem(P& p, const std::vector<PDv*>& dv, const std::vector<PEt*>& et, const std::map<PEt*, std::vector<DesignVariable*>>& uses, const std::vector<PDv*>& all, const std::string& op) {
  auto& m = mon(); const P& cp = p;
  std::vector<DesignVariable*> a; for (size_t i = 0; i < p.numDesignVariables(); ++i) { a.push_back(p.designVariable(i)); m.check("problem/const-access", cp.designVariable(i) == a.back(), op); }
  std::vector<ErrorTerm*> b; for (size_t i = 0; i < p.numErrorTerms(); ++i) { b.push_back(p.errorTerm(i)); m.check("problem/const-access", cp.errorTerm(i) == b.back(), op); }
  m.check("problem/variables", a == std::vector<DesignVariable*>(dv.begin(), dv.end()), op + ": the list of variables differs from the model: " + str(a.size()) + " vs " + str(dv.size()));
  m.check("problem/terms", b == std::vector<ErrorTerm*>(et.begin(), et.end()), op + ": the list of error terms differs from the model: " + str(b.size()) + " vs " + str(et.size()));
  size_t act = 0; for (auto* d : dv) act += d->isActive();
  m.check("problem/active", Tr<P>::act(p) == act, op);
  for (auto* d : all) {
    bool in = std::find(dv.begin(), dv.end(), d) != dv.end();
    m.check("problem/contains", p.isDesignVariableInProblem(d) == in, op);
    if (!Tr<P>::simple) {
      std::set<ErrorTerm*> s, want; p.getErrors(d, s);
      for (auto* e : et) { auto& u = uses.at(e); if (std::find(u.begin(), u.end(), d) != u.end()) want.insert(e); }
      m.check("problem/reachable", s == want, op + ": error terms of a variable: " + str(s.size()) + " vs " + str(want.size()));
    }
  }
}
template <class P> static void fuzzProblem(Rng& r) {
  auto& m = mon(); gAlive.clear();
  std::vector<PDv*> all; std::vector<boost::shared_ptr<PDv>> hold; std::set<PDv*> ownedDv; std::vector<PEt*> rawTerms; std::set<PEt*> ownedEt; std::vector<boost::shared_ptr<PEt>> holdEt;
  {
    P p; std::vector<PDv*> dv; std::vector<PEt*> et; std::map<PEt*, std::vector<DesignVariable*>> uses; uint64_t h = 1;
    int nops = r.i(5, 60);
    std::vector<PEt*> dead; size_t nHold = 0;
    for (int o = 0; o < nops; ++o) {
      int k = r.i(0, 99); std::string op; h = hmix(h, k);
      if (k < 30 || dv.empty()) {                           // add a variable
        op = "add variable"; PDv* d = new PDv(r); all.push_back(d);
        int how = r.i(0, 2);
        if (how == 0) { p.addDesignVariable(d, true); ownedDv.insert(d); }
        else if (how == 1) { hold.emplace_back(d); p.addDesignVariable(d, false); }
        else { boost::shared_ptr<PDv> s(d); if (r.b(0.5)) hold.push_back(s); else ownedDv.insert(d); p.addDesignVariable(s); }
        dv.push_back(d);
      } else if (k < 37) {                                  // add it again
        op = "add variable twice"; PDv* d = r.pick(dv);
        expectThrow("problem/duplicate-variable", [&] { if (r.b(0.5)) p.addDesignVariable(d, false); else p.addDesignVariable(boost::shared_ptr<DesignVariable>(d, sm::null_deleter())); }, op);
      } else if (k < 70) {                                  // add an error term
        op = "add term"; std::vector<DesignVariable*> u; std::vector<PDv*> c = dv; int n = r.i(1, std::min<int>(4, c.size()));
        for (int i = 0; i < n; ++i) { int j = r.i(0, c.size() - 1); u.push_back(c[j]); c.erase(c.begin() + j); }
        PEt* e = new PEt(u); int how = r.i(0, 2);
        if (how == 0) { p.addErrorTerm(e, true); ownedEt.insert(e); }
        else if (how == 1) { holdEt.emplace_back(e); p.addErrorTerm(e, false); }
        else { boost::shared_ptr<PEt> s(e); if (r.b(0.5)) holdEt.push_back(s); else ownedEt.insert(e); p.addErrorTerm(boost::shared_ptr<ErrorTerm>(s)); }
        et.push_back(e); uses[e] = u;
      } else if (k < 76 && !Tr<P>::simple) {                // term with a foreign variable among its own
        op = "add term with missing variable"; PDv* f = new PDv(r); hold.emplace_back(f); all.push_back(f);
        std::vector<DesignVariable*> u; if (r.b(0.7)) u.push_back(r.pick(dv)); u.push_back(f); if (r.b(0.3)) { PDv* q = r.pick(dv); if (u[0] != q) u.push_back(q); }
        boost::shared_ptr<ErrorTerm> e(new PEt(u)); holdEt.push_back(boost::static_pointer_cast<PEt>(e));
        expectThrow("problem/missing-variable", [&] { p.addErrorTerm(e); }, op);
      } else if (k < 85 && !et.empty() && !Tr<P>::simple) {
        op = "remove term"; PEt* e = r.pick(et); Tr<P>::rem(p, e); et.erase(std::find(et.begin(), et.end(), e));
        if (ownedEt.count(e)) { m.check("problem/ownership", !gAlive.count((PEt*)e), "an owned error term is still alive after its removal"); ownedEt.erase(e); uses.erase(e); }
      } else if (k < 88 && !holdEt.empty() && !Tr<P>::simple) {
        op = "remove foreign term"; auto e = r.pick(holdEt); if (std::find(et.begin(), et.end(), e.get()) == et.end()) Tr<P>::rem(p, e.get());
      } else if (k < 97) {
        if (Tr<P>::simple) continue;
        op = "remove variable"; PDv* d = r.pick(dv); Tr<P>::rem(p, d); dv.erase(std::find(dv.begin(), dv.end(), d));
        for (size_t i = 0; i < et.size();) { auto* e = et[i]; auto& u = uses[e]; if (std::find(u.begin(), u.end(), d) != u.end()) { et.erase(et.begin() + i); if (ownedEt.count(e)) { m.check("problem/ownership", !gAlive.count((PEt*)e), op); ownedEt.erase(e); uses.erase(e); } } else ++i; }
        if (ownedDv.count(d)) { m.check("problem/ownership", !gAlive.count((PDv*)d), "an owned variable is still alive after its removal"); ownedDv.erase(d); all.erase(std::find(all.begin(), all.end(), d)); }
      } else if (k == 99) {
        op = "clear"; p.clear(); dv.clear(); et.clear(); for (auto* d : ownedDv) { m.check("problem/ownership", !gAlive.count((PDv*)d), op); all.erase(std::find(all.begin(), all.end(), d)); } for (auto* e : ownedEt) { m.check("problem/ownership", !gAlive.count((PEt*)e), op); uses.erase(e); }
        ownedDv.clear(); ownedEt.clear();
      } else { op = "activate"; PDv* d = r.pick(dv); d->setActive(!d->isActive()); }
      cmpProblem(p, dv, et, uses, all, op); m.tag(op);
    }
    m.evaluation(h); (void)nHold;
  }
  for (auto& d : hold) m.check("problem/ownership", gAlive.count(d.get()), "a variable owned by the caller was destroyed");
  for (auto& e : holdEt) m.check("problem/ownership", gAlive.count(e.get()), "an error term owned by the caller was destroyed");
  hold.clear(); holdEt.clear();
  m.check("problem/ownership", gAlive.empty(), str(gAlive.size()) + " owned objects outlive their problem");
}
VF_GROUP(problem, 1500, 20000) { (void)caseno; fuzzProblem<OptimizationProblem>(rng); }
VF_GROUP(simple_problem, 300, 3000) { (void)caseno; fuzzProblem<SimpleOptimizationProblem>(rng); }

// ---------------------------------------------------------------- Jacobian container
static MX denseOf(const std::map<int, MX>& mp, const std::vector<std::unique_ptr<VDv>>& dv, int rows, bool all) {
  int c = 0; for (auto& d : dv) if (all || mp.count(d->blockIndex())) c += d->x.size();
  MX D = MX::Zero(rows, c); c = 0;
  std::vector<VDv*> s; for (auto& d : dv) s.push_back(d.get()); std::sort(s.begin(), s.end(), [](VDv* a, VDv* b) { return a->blockIndex() < b->blockIndex(); });
  for (auto* d : s) { bool in = mp.count(d->blockIndex()); if (in) D.block(0, c, rows, d->x.size()) = mp.at(d->blockIndex()); if (in || all) c += d->x.size(); }
  return D;
}
VF_GROUP(container, 2500, 30000) {
  (void)caseno; auto& m = mon(); Rng& r = rng;
  int n = r.i(1, 8); std::vector<std::unique_ptr<VDv>> dv; std::vector<int> idx(n); for (int i = 0; i < n; ++i) idx[i] = i; for (int i = n - 1; i > 0; --i) std::swap(idx[i], idx[r.i(0, i)]);
  std::vector<VDv*> byIdx(n); for (int i = 0; i < n; ++i) { dv.emplace_back(new VDv(r.vec(r.i(1, 4)))); dv.back()->setBlockIndex(idx[i]); dv.back()->setScaling(r.b(0.3) ? r.u(0.2, 3) : 1.0); byIdx[idx[i]] = dv.back().get(); }
  std::vector<std::unique_ptr<VDv>> inactive; for (int i = 0; i < 2; ++i) { inactive.emplace_back(new VDv(r.vec(2))); inactive.back()->setActive(false); }
  int rows = r.i(1, 6); JacobianContainer jc(rows); std::map<int, MX> ref; uint64_t h = n;
  auto cmp = [&](const std::string& op) {
    m.check("container/rows", jc.rows() == rows, op); m.check("container/count", jc.numDesignVariables() == ref.size(), op + ": " + str(jc.numDesignVariables()) + " vs " + str(ref.size()));
    if (ref.size() != jc.numDesignVariables()) return;
    size_t i = 0; int cols = 0; const JacobianContainer& cj = jc;
    for (auto& kv : ref) { m.check("container/order", jc.designVariable(i) == byIdx[kv.first] && cj.designVariable(i) == byIdx[kv.first], op); m.near("container/jacobian", jc.Jacobian(byIdx[kv.first]), kv.second, 1e-9, op); cols += kv.second.cols(); ++i; }
    i = 0; for (auto it = cj.begin(); it != cj.end(); ++it, ++i) m.check("container/iterate", ref.count(it->first->blockIndex()), op);
    m.check("container/cols", jc.cols() == cols, op);
    for (int b = 0; b < n; ++b) if (!ref.count(b)) { expectThrow("container/missing", [&] { jc.Jacobian(byIdx[b]); }, op); break; }
    expectThrow("container/index", [&] { jc.designVariable(ref.size()); }, op);
    if (!ref.empty()) m.near("container/dense", jc.asDenseMatrix(), denseOf(ref, dv, rows, false), 1e-9, op);
    std::vector<int> cum; int s = 0; for (int b = 0; b < n; ++b) { s += byIdx[b]->x.size(); cum.push_back(s); }
    m.near("container/dense-full", jc.asDenseMatrix(cum), denseOf(ref, dv, rows, true), 1e-9, op);
    m.near("container/sparse-full", jc.asSparseMatrix(cum).toDense(), denseOf(ref, dv, rows, true), 1e-9, op);
  };
  int nops = r.i(2, 14);
  for (int o = 0; o < nops; ++o) {
    int k = r.i(0, 99); std::string op;
    if (k < 45) { op = "add"; VDv* d = byIdx[r.i(0, n - 1)]; MX J = r.mat(rows, d->x.size()); h = hashm(J, h); jc.add(d, J); if (ref.count(d->blockIndex())) ref[d->blockIndex()] += J; else ref[d->blockIndex()] = J; }
    else if (k < 52) { op = "add inactive"; auto& d = r.pick(inactive); jc.add(d.get(), r.mat(rows, 2)); }
    else if (k < 58) { op = "wrong size"; VDv* d = byIdx[r.i(0, n - 1)]; if (r.b(0.5)) expectThrow("container/size", [&] { jc.add(d, r.mat(rows + 1, d->x.size())); }, op); else expectThrow("container/size", [&] { jc.add(d, r.mat(rows, d->x.size() + 1)); }, op); }
    else if (k < 78) {
      op = "add container"; JacobianContainer o2(rows); std::map<int, MX> r2; int q = r.i(0, n); for (int i = 0; i < q; ++i) { VDv* d = byIdx[r.i(0, n - 1)]; MX J = r.mat(rows, d->x.size()); h = hashm(J, h); o2.add(d, J); if (r2.count(d->blockIndex())) r2[d->blockIndex()] += J; else r2[d->blockIndex()] = J; }
      jc.add(o2); for (auto& kv : r2) if (ref.count(kv.first)) ref[kv.first] += kv.second; else ref[kv.first] = kv.second;
      JacobianContainer bad(rows + 1); expectThrow("container/add-size", [&] { jc.add(bad); }, op);
    }
    else if (k < 94) { op = "chain rule"; int nr = r.i(1, 6); MX A = r.mat(nr, rows); jc.applyChainRule(A); for (auto& kv : ref) kv.second = (A * kv.second).eval(); rows = nr; h = hashm(A, h); expectThrow("container/chain-size", [&] { jc.applyChainRule(r.mat(2, rows + 1)); }, op); }
    else if (k < 97) { op = "clear"; jc.clear(); ref.clear(); }
    else { op = "reset"; rows = r.i(1, 6); jc.reset(rows); ref.clear(); }
    cmp(op); m.tag("container " + op);
  }
  // Hessian and right-hand side
  std::vector<int> cum; int s = 0; for (int b = 0; b < n; ++b) { s += byIdx[b]->x.size(); cum.push_back(s); }
  SparseBlockMatrix H(cum, cum, true); VX rhs = r.vec(s), rhs0 = rhs; VX e = r.vec(rows); MX L = r.mat(rows, rows);
  MX J = denseOf(ref, dv, rows, true); int c = 0; for (int b = 0; b < n; ++b) { J.middleCols(c, byIdx[b]->x.size()) *= byIdx[b]->scaling(); c += byIdx[b]->x.size(); }
  int rep = r.i(1, 2); for (int i = 0; i < rep; ++i) jc.evaluateHessian(e, L, H, rhs);
  MX Hd = H.toDense(), W = rep * J.transpose() * L * L.transpose() * J; VX g = rhs0 - rep * J.transpose() * L * L.transpose() * e;
  // only the upper block triangle is filled
  for (int a = 0, ra = 0; a < n; ra = cum[a], ++a) for (int b = 0, cb = 0; b < n; cb = cum[b], ++b) { MX want = W.block(ra, cb, byIdx[a]->x.size(), byIdx[b]->x.size()); MX got = Hd.block(ra, cb, want.rows(), want.cols()); if (b >= a) m.near("container/hessian", got, want, 1e-8, "block"); else m.near("container/hessian-lower", got, MX::Zero(want.rows(), want.cols()), 0, "lower block"); }
  m.near("container/rhs", rhs, g, 1e-8, "rhs"); m.evaluation(h);
}

// ---------------------------------------------------------------- design variables
struct AdT { VX x; AdT(const VX& v) : x(v) {} int minimalDimensions() const { return x.size(); } void update(const double* dp) { for (int i = 0; i < x.size(); ++i) x[i] += dp[i]; } void getParameters(MX& P) const { P = x; } void setParameters(const MX& P) { x = P; } Eigen::Vector2i dummy() { return Eigen::Vector2i(); } };
struct Kind {
  std::string name; std::shared_ptr<void> keep; DesignVariable* dv; bool minDiff; int rot = 0;       // rot: minimal difference only defined below pi
  std::function<MX(const MX&, const VX&)> plus;   // reference update
  std::function<MX()> value;                      // what the variable evaluates to (as its parameters), through its expression interface
  std::function<MX(Rng&)> rnd;                    // random parameters
  std::function<MX(const MX&)> val = [](const MX& P) { return P; };   // value expected for parameters P
  std::function<void(const MX&)> set;             // direct setter where there is one
  bool setKeepsPrevious = true;
};
static Eigen::Matrix3d expRot(const Eigen::Vector3d& v) { double t = v.norm(); return t < 1e-300 ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : Eigen::AngleAxisd(t, v / t).toRotationMatrix(); }
// update of a quaternion (x,y,z,w in the library's convention): q' = exp(dp) (+) q, its matrix is exp(-[dp]x) ... compared as 4-vectors
static Eigen::Vector4d qmul(const Eigen::Vector4d& a, const Eigen::Vector4d& b) {   // library: qplus(a,b) with C(a+b) = C(a) C(b)
  Eigen::Vector3d av = a.head<3>(), bv = b.head<3>(); Eigen::Vector4d q; q.head<3>() = a[3] * bv + b[3] * av - av.cross(bv); q[3] = a[3] * b[3] - av.dot(bv); return q;
}
static Eigen::Vector4d qexp(const Eigen::Vector3d& v) { double t = v.norm(); Eigen::Vector4d q; q.head<3>() = (t < 1e-12 ? 0.5 : std::sin(t / 2) / t) * v; q[3] = std::cos(t / 2); return q; }
static Eigen::Matrix3d qmat(const Eigen::Vector4d& q) { Eigen::Vector3d e = q.head<3>(); Eigen::Matrix3d X; X << 0, -e[2], e[1], e[2], 0, -e[0], -e[1], e[0], 0; return (q[3] * q[3] - e.dot(e)) * Eigen::Matrix3d::Identity() + 2 * e * e.transpose() - 2 * q[3] * X; }
template <int D> static Kind vecKind(Rng& r) { auto d = std::make_shared<DesignVariableVector<D>>(Eigen::Matrix<double, D, 1>(r.vec(D))); Kind k; k.name = "Vector"; k.keep = d; k.dv = d.get(); k.minDiff = true; auto* p = d.get(); k.plus = [](const MX& P, const VX& dp) { return MX(P + dp); }; k.value = [p] { return MX(p->toExpression().toValue()); }; k.rnd = [](Rng& r) { return MX(r.vec(D)); }; return k; }
template <int D> static Kind mapVecKind(Rng& r) { struct S { double buf[D + 2]; std::unique_ptr<DesignVariableMappedVector<D>> d; }; auto s = std::make_shared<S>(); for (double& x : s->buf) x = r.u(-3, 3); s->d.reset(new DesignVariableMappedVector<D>(s->buf + 1)); Kind k; k.name = "MappedVector"; k.keep = s; k.dv = s->d.get(); k.minDiff = true; k.plus = [](const MX& P, const VX& dp) { return MX(P + dp); }; auto* b = s.get(); k.value = [b] { Eigen::Map<VX> mp(b->buf + 1, D); mon().check("dv/mapped-memory", mp == VX(b->d->value()), "mapped memory and value differ"); return MX(b->d->toExpression().toValue()); }; k.rnd = [](Rng& r) { return MX(r.vec(D)); }; return k; }
template <int D> static Kind genVecKind(Rng& r) { auto d = std::make_shared<DesignVariableGenericVector<D>>(Eigen::Matrix<double, D, 1>(r.vec(D))); Kind k; k.name = "GenericVector"; k.keep = d; k.dv = d.get(); k.minDiff = false; auto* p = d.get(); k.plus = [](const MX& P, const VX& dp) { return MX(P + dp); }; k.value = [p] { return MX(p->value()); }; k.rnd = [](Rng& r) { return MX(r.vec(D)); }; k.setKeepsPrevious = false; return k; }
static MX qplusRef(const MX& P, const VX& dp) { return qmul(qexp(dp), Eigen::Vector4d(P)); }
static Kind mk(int t, Rng& r) {
  Kind k; auto add = [](const MX& P, const VX& dp) { return MX(P + dp); };
  switch (t) {
    case 0: { Eigen::Vector4d q = r.vec(4).normalized(); bool fromC = r.b(0.3); auto d = fromC ? std::make_shared<RotationQuaternion>(qmat(q)) : std::make_shared<RotationQuaternion>(q); k.name = "RotationQuaternion"; k.keep = d; k.dv = d.get(); k.minDiff = true; k.rot = 1; k.plus = qplusRef; auto* p = d.get(); k.value = [p] { return MX(p->toExpression().toRotationMatrix()); }; k.val = [](const MX& P) { return MX(qmat(P)); }; k.rnd = [](Rng& r) { return MX(r.vec(4).normalized()); }; k.set = [p](const MX& P) { p->set(Eigen::Vector4d(P)); }; return k; }
    case 1: { auto d = std::make_shared<EuclideanPoint>(Eigen::Vector3d(r.vec(3))); k.name = "EuclideanPoint"; k.keep = d; k.dv = d.get(); k.minDiff = true; k.plus = add; auto* p = d.get(); k.value = [p] { return MX(p->toExpression().toEuclidean()); }; k.rnd = [](Rng& r) { return MX(r.vec(3)); }; k.set = [p](const MX& P) { p->set(Eigen::Vector3d(P)); }; return k; }
    case 2: { auto d = std::make_shared<EuclideanDirection>(Eigen::Vector3d(r.vec(3).normalized() * r.u(0.1, 5))); k.name = "EuclideanDirection"; k.keep = d; k.dv = d.get(); k.minDiff = false; auto* p = d.get(); double mag = p->toExpression().toEuclidean().norm();
      k.plus = [](const MX& P, const VX& dp) { Eigen::Matrix3d R = (Eigen::AngleAxisd(0, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(dp[0], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(dp[1], Eigen::Vector3d::UnitX())).toRotationMatrix(); return MX(Eigen::Matrix3d(P) * R.transpose()); };
      k.value = [p] { return MX(p->toExpression().toEuclidean()); }; k.val = [mag](const MX& P) { return MX(Eigen::Matrix3d(P).col(2) * mag); }; k.rnd = [](Rng& r) { return MX(qmat(r.vec(4).normalized())); }; return k; }
    case 3: { auto d = std::make_shared<HomogeneousPoint>(Eigen::Vector4d(r.vec(4))); k.name = "HomogeneousPoint"; k.keep = d; k.dv = d.get(); k.minDiff = true; k.rot = 1; k.plus = qplusRef; auto* p = d.get(); k.value = [p] { return MX(p->toExpression().toHomogeneous()); }; k.rnd = [](Rng& r) { return MX(r.vec(4).normalized()); }; return k; }
    case 4: { auto d = std::make_shared<Scalar>(r.u(-3, 3)); k.name = "Scalar"; k.keep = d; k.dv = d.get(); k.minDiff = true; k.plus = add; auto* p = d.get(); k.value = [p] { MX v(1, 1); v << p->toExpression().toScalar(); mon().near("dv/scalar-parameters", ((Scalar*)p)->Scalar::getParameters(), v, 0, ""); return v; }; k.rnd = [](Rng& r) { return MX(r.vec(1)); }; return k; }
    case 5: { auto d = std::make_shared<GenericScalar<double>>(r.u(-3, 3)); k.name = "GenericScalar"; k.keep = d; k.dv = d.get(); k.minDiff = true; k.plus = add; auto* p = d.get(); k.value = [p] { MX v(1, 1); v << p->toExpression().toScalar(); return v; }; k.rnd = [](Rng& r) { return MX(r.vec(1)); }; return k; }
    case 6: {
      Eigen::Matrix3i pat = Eigen::Matrix3i::Ones(); bool full = r.b(0.25); if (!full) for (int i = 0; i < 9; ++i) pat(i) = r.b(0.5); if (pat.isZero()) pat(r.i(0, 8)) = 1;
      k.plus = [pat](const MX& P, const VX& dp) { MX Q = P; int j = 0; for (int i = 0; i < 9; ++i) if (pat(i)) Q(i) += dp[j++]; return Q; };
      k.rnd = [](Rng& r) { return r.mat(3, 3); }; k.minDiff = false;
      {
        // the pattern of MatrixBasic is enumerated row by row
        auto d = full ? std::make_shared<MatrixBasic>(Eigen::Matrix3d(r.mat(3, 3))) : std::make_shared<MatrixBasic>(Eigen::Matrix3d(r.mat(3, 3)), pat); k.name = "MatrixBasic"; k.keep = d; k.dv = d.get(); auto* p = d.get(); k.value = [p] { return MX(p->toExpression().toMatrix3x3()); };
        if (!full) k.plus = [pat](const MX& P, const VX& dp) { MX Q = P; int j = 0; for (int i = 0; i < 3; ++i) for (int c = 0; c < 3; ++c) if (pat(i, c)) Q(i, c) += dp[j++]; return Q; };
      }
      return k; }
    case 7: { struct S { Eigen::Vector4d q; std::unique_ptr<MappedRotationQuaternion> d; }; auto s = std::make_shared<S>(); s->q = r.vec(4).normalized(); s->d.reset(new MappedRotationQuaternion(s->q.data())); k.name = "MappedRotationQuaternion"; k.keep = s; k.dv = s->d.get(); k.minDiff = true; k.rot = 1; k.plus = qplusRef; auto* p = s.get(); k.value = [p] { return MX(p->d->toExpression().toRotationMatrix()); }; k.val = [p](const MX& P) { mon().check("dv/mapped-memory", p->q == Eigen::Vector4d(P), "mapped memory and parameters differ"); return MX(qmat(P)); }; k.rnd = [](Rng& r) { return MX(r.vec(4).normalized()); }; k.set = [p](const MX& P) { p->d->set(Eigen::Vector4d(P)); }; return k; }
    case 8: { struct S { Eigen::Vector3d q; std::unique_ptr<MappedEuclideanPoint> d; }; auto s = std::make_shared<S>(); s->q = r.vec(3); s->d.reset(new MappedEuclideanPoint(s->q.data())); k.name = "MappedEuclideanPoint"; k.keep = s; k.dv = s->d.get(); k.minDiff = true; k.plus = add; auto* p = s.get(); k.value = [p] { return MX(p->d->toExpression().toEuclidean()); }; k.val = [p](const MX& P) { mon().check("dv/mapped-memory", p->q == Eigen::Vector3d(P), "mapped memory and parameters differ"); return P; }; k.rnd = [](Rng& r) { return MX(r.vec(3)); }; k.set = [p](const MX& P) { p->d->set(Eigen::Vector3d(P)); }; return k; }
    case 9: { struct S { Eigen::Vector4d q; std::unique_ptr<MappedHomogeneousPoint> d; }; auto s = std::make_shared<S>(); s->q = r.vec(4); s->d.reset(new MappedHomogeneousPoint(s->q.data())); k.name = "MappedHomogeneousPoint"; k.keep = s; k.dv = s->d.get(); k.minDiff = true; k.rot = 1; k.plus = qplusRef; auto* p = s.get(); k.value = [p] { return MX(p->d->toExpression().toHomogeneous()); }; k.val = [p](const MX& P) { mon().check("dv/mapped-memory", p->q == Eigen::Vector4d(P), "mapped memory and parameters differ"); return P; }; k.rnd = [](Rng& r) { return MX(r.vec(4).normalized()); }; return k; }
    case 10: return vecKind<1>(r); case 11: return vecKind<5>(r); case 12: return mapVecKind<1>(r); case 13: return mapVecKind<6>(r); case 14: return genVecKind<1>(r); case 15: return genVecKind<4>(r);
    default: { struct S { std::unique_ptr<AdT> a; std::unique_ptr<DesignVariableAdapter<AdT>> d; }; auto s = std::make_shared<S>(); VX v = r.vec(r.i(1, 5)); bool own = r.b(0.5); AdT* a = new AdT(v); if (!own) s->a.reset(a); s->d.reset(new DesignVariableAdapter<AdT>(a, own)); k.name = "DesignVariableAdapter"; k.keep = s; k.dv = s->d.get(); k.minDiff = false; k.plus = add; auto* p = s.get(); k.value = [p] { mon().near("dv/adapter-parameters", p->d->getParameters(), p->d->value().x, 0, ""); return MX(p->d->valuePtr()->x); }; int n = v.size(); k.rnd = [n](Rng& r) { return MX(r.vec(n)); }; return k; }
  }
}
VF_GROUP(design_variables, 3400, 51000) {
  auto& m = mon(); Rng& r = rng; Kind k = mk(caseno % 17, r); DesignVariable& d = *k.dv; std::string N = k.name; uint64_t h = fnv(N);
  // flags
  d.setActive(true); m.check("dv/active", d.isActive(), N); d.setBlockIndex(7); d.setColumnBase(13); d.setScaling(2.5); m.check("dv/index", d.blockIndex() == 7 && d.columnBase() == 13 && d.scaling() == 2.5, N); d.setMarginalized(true); m.check("dv/marginalized", d.isMarginalized(), N); d.setMarginalized(false); d.setActive(r.b(0.5));
  MX cur; d.getParameters(cur); MX prev = cur; bool prevValid = false; int n = d.minimalDimensions();
  auto cmp = [&](const std::string& op) { MX P; d.getParameters(P); m.near("dv/parameters", P, cur, 1e-9, N + " after " + op); m.near("dv/value", k.value(), k.val(P), 1e-9, N + " after " + op); };
  cmp("construction"); std::vector<MX> saved;
  int nops = r.i(2, 16);
  for (int o = 0; o < nops; ++o) {
    int q = r.i(0, 99); std::string op;
    if (q < 40) {
      op = "update"; std::unique_ptr<double[]> dp(new double[n]); VX v(n); double s = r.pick(std::vector<double>{0, 1e-9, 1e-3, 0.3, 1.0}); for (int i = 0; i < n; ++i) dp[i] = v[i] = s * r.n(); h = hashm(v, h); MX before; d.getParameters(before);
      d.update(dp.get(), n); prev = cur; cur = k.plus(cur, v); prevValid = true;
      if (k.minDiff && (!k.rot || v.norm() < 2.9)) {
        VX diff, diff2; MX J; d.minimalDifference(before, diff); if (k.rot && false) diff = -diff; m.near("dv/minimal-difference", diff, v, 1e-7, N + ": minimal difference after an update");
        d.minimalDifferenceAndJacobian(before, diff2, J); m.near("dv/minimal-difference-2", diff2, diff, 0, N);
        if (!k.rot || v.norm() > 1e-4 || v.norm() < 1e-10) {
          MX Jn = numDiff([&](const VX& t) { MX P; d.getParameters(P); std::unique_ptr<double[]> dq(new double[n]); for (int i = 0; i < n; ++i) dq[i] = t[i]; d.update(dq.get(), n); VX out; d.minimalDifference(before, out); d.setParameters(P); return out; }, VX::Zero(n), 1e-5);
          m.near("dv/minimal-difference-jacobian", J, Jn, 1e-5, N + " at " + mstr(v));
          // restore the previous value that the differencing has overwritten
          d.setParameters(before); d.update(dp.get(), n);
        }
      }
    } else if (q < 65) { if (!prevValid) continue; op = "revert"; d.revertUpdate(); cur = prev; prevValid = r.b(0.5); MX P; d.getParameters(P); m.check("dv/revert-exact", (P - cur).norm() <= 1e-9 * (1 + cur.norm()), N); }
    else if (q < 78) { op = "setParameters"; MX P = k.rnd(r); h = hashm(P, h); d.setParameters(P); MX Q; d.getParameters(Q); m.check("dv/set-get", Q == P, N + ": parameters read back differ from those set"); prev = cur; cur = P; if (!k.setKeepsPrevious) prevValid = false; else prevValid = true; }
    else if (q < 86 && k.set) { op = "set"; MX P = k.rnd(r); k.set(P); prev = cur = P; prevValid = true; }
    else if (q < 93) { op = "save"; MX P; d.getParameters(P); saved.push_back(P); }
    else if (!saved.empty()) { op = "restore"; MX P = r.pick(saved); d.setParameters(P); prev = cur; cur = P; prevValid = k.setKeepsPrevious; }
    else continue;
    cmp(op); m.tag("dv " + op);
  }
  // exact revert: parameters bit-wise as before the last update
  { MX b, a; d.getParameters(b); std::unique_ptr<double[]> dp(new double[n]); for (int i = 0; i < n; ++i) dp[i] = r.n(); d.update(dp.get(), n); MX v1 = k.value(); d.revertUpdate(); d.getParameters(a); m.check("dv/revert-bitwise", a == b, N + ": revert does not restore the parameters exactly"); m.near("dv/revert-value", k.value(), k.val(b), 1e-9, N); d.update(dp.get(), n); m.near("dv/update-again", k.value(), v1, 1e-9, N + ": the same update after a revert"); }
  if (!k.minDiff && N != "DesignVariableAdapter" ) { VX out; MX J, P; d.getParameters(P); expectThrow("dv/minimal-difference-refused", [&] { d.minimalDifference(P, out); }, N); expectThrow("dv/minimal-difference-refused", [&] { d.minimalDifferenceAndJacobian(P, out, J); }, N); }
  if (k.minDiff) { VX out; expectThrow("dv/minimal-difference-size", [&] { d.minimalDifference(MX::Zero(7, 2), out); }, N); VX z; MX P; d.getParameters(P); d.minimalDifference(P, z); m.near("dv/minimal-difference-zero", z, VX::Zero(n), 1e-9, N); }
  m.evaluation(h); m.tag("kind " + N);
}

// ---------------------------------------------------------------- error terms: variable lists, finite differences
struct OneEt : public ErrorTermDs { std::vector<MX> A; OneEt(int d) : ErrorTermDs(d) {} using ErrorTerm::setDesignVariables; template <class I> void it(I a, I b) { setDesignVariablesIterator(a, b); }
  double evaluateErrorImplementation() override { VX e = VX::Zero(dimension()); for (size_t i = 0; i < A.size(); ++i) e += (A[i] * ((VDv*)designVariable(i))->x).array().sin().matrix(); setError(e); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(JacobianContainer& o) const override { for (size_t i = 0; i < A.size(); ++i) { const VDv* v = (const VDv*)designVariable(i); o.add(const_cast<VDv*>(v), MX((A[i] * v->x).array().cos().matrix().asDiagonal() * A[i])); } } };
VF_GROUP(error_term_lists, 800, 8000) {
  (void)caseno; auto& m = mon(); Rng& r = rng; int n = r.i(1, 6), dim = r.i(1, 4); std::vector<std::unique_ptr<VDv>> st; std::vector<DesignVariable*> v; OneEt e(dim); uint64_t h = n;
  for (int i = 0; i < n; ++i) { st.emplace_back(new VDv(r.vec(r.i(1, 4)))); st.back()->setBlockIndex(i); st.back()->setActive(r.b(0.8)); v.push_back(st.back().get()); e.A.push_back(r.mat(dim, st.back()->x.size())); h = hashm(e.A.back(), h); }
  if (r.b(0.3) && n <= 4) { if (n == 1) e.setDesignVariables(v[0]); if (n == 2) e.setDesignVariables(v[0], v[1]); if (n == 3) e.setDesignVariables(v[0], v[1], v[2]); if (n == 4) e.setDesignVariables(v[0], v[1], v[2], v[3]); }
  else if (r.b(0.4)) e.it(v.begin(), v.end()); else { if (r.b(0.3)) { auto w = v; w[r.i(0, n - 1)] = 0; expectThrow("term/null-variable", [&] { e.setDesignVariables(w); }, "null variable"); m.check("term/null-variable", e.numDesignVariables() == 0, "refused list was kept"); } e.setDesignVariables(v); }
  m.check("term/list", e.designVariables() == v, "list of variables differs"); m.check("term/count", e.numDesignVariables() == (size_t)n, ""); for (int i = 0; i < n; ++i) m.check("term/get", e.designVariable(i) == v[i] && ((const OneEt&)e).designVariable(i) == v[i], "");
  expectThrow("term/set-twice", [&] { e.setDesignVariables(v); }, "set twice"); expectThrow("term/index", [&] { e.designVariable(n); }, "index");
  DesignVariable::set_t s; e.getDesignVariables(s); m.check("term/set", s.size() == (size_t)n, "set of variables: " + str(s.size()) + " vs " + str(n)); for (auto* d : v) m.check("term/set", s.count(d), "variable missing");
  MX B = r.spd(dim); e.vsSetInvR(B); e.setRowBase(5); m.check("term/row", e.rowBase() == 5, "");
  JacobianContainer a(dim), f(dim); e.evaluateError(); e.evaluateJacobians(a); std::vector<VX> before; for (auto& d : st) before.push_back(d->x); e.evaluateJacobiansFiniteDifference(f);
  m.check("term/fd-count", a.numDesignVariables() == f.numDesignVariables(), str(a.numDesignVariables()) + " vs " + str(f.numDesignVariables()));
  for (auto& d : st) if (d->isActive()) m.near("term/fd", f.Jacobian(d.get()), a.Jacobian(d.get()), 1e-4, "finite differences");
  for (int i = 0; i < n; ++i) m.near("term/fd-state", st[i]->x, before[i], 1e-12, "finite differencing moved a variable");
  // evaluateJacobians replaces the content
  e.evaluateJacobians(a); for (auto& d : st) if (d->isActive()) { int i = d->blockIndex(); MX J = (e.A[i] * d->x).array().cos().matrix().asDiagonal() * e.A[i]; m.near("term/jacobian", a.Jacobian(d.get()), J, 1e-9, "accumulated over repeated evaluation?"); }
  m.evaluation(h);
}
VF_MAIN
