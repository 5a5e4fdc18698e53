// Monitored design variables and error terms for the optimizer back end, with an independent dense oracle.
#pragma once
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <thread>
#include <memory>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/MEstimatorPolicies.hpp>
#include <Eigen/Dense>
namespace vf {
using namespace aslam::backend;
typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;

struct VDv : public DesignVariable {
  VX x, prev; int nUpdate = 0, nRevert = 0, nRevertBeforeUpdate = 0; std::vector<VX>* log = 0; VX lastDx; bool pending = false; int id = 0;
  explicit VDv(const VX& v) : x(v), prev(v) { setActive(true); }
  int minimalDimensionsImplementation() const override { return x.size(); }
  void updateImplementation(const double* dp, int n) override {
    mon().check("dv/update-size", n == x.size(), "update of size " + str(n) + " for variable of size " + str(x.size()));
    prev = x; lastDx = Eigen::Map<const VX>(dp, n); x += lastDx; ++nUpdate; pending = true;
  }
  void revertUpdateImplementation() override { if (!pending) ++nRevertBeforeUpdate; x = prev; ++nRevert; pending = false; }
  void getParametersImplementation(MX& v) const override { v = x; }
  void setParametersImplementation(const MX& v) override { prev = x; x = v; }
  void minimalDifferenceImplementation(const MX& xHat, VX& d) const override { d = x - VX(xHat.col(0)); }
  void minimalDifferenceAndJacobianImplementation(const MX& xHat, VX& d, MX& J) const override { d = x - VX(xHat.col(0)); J = MX::Identity(x.size(), x.size()); }
};

// residual r = sum_k A_k x_k + q * sin(B_k x_k) - z
struct Model {
  std::vector<VDv*> dv; std::vector<MX> A, B; double q = 0, nanR = 0; VX z; MX invR;   // nanR > 0: not defined where |x_0| > nanR
  std::function<void()> hook;                                  // run at the start of every evaluation
  std::atomic<int> nErr{0}, nJac{0}; mutable std::thread::id who;
  VX residual() const { VX r = -z; if (nanR > 0 && dv[0]->x.norm() > nanR) r[0] = NAN; for (size_t k = 0; k < dv.size(); ++k) { r += A[k] * dv[k]->x; if (q) r += q * (B[k] * dv[k]->x).array().sin().matrix(); } return r; }
  MX jac(size_t k) const { MX J = A[k]; if (q) J += q * (B[k] * dv[k]->x).array().cos().matrix().asDiagonal() * B[k]; return J; }
};
template <int D> struct ErrF : public ErrorTermFs<D> {
  Model* m; bool addInactive = true;
  explicit ErrF(Model* mm) : m(mm) { std::vector<DesignVariable*> d(m->dv.begin(), m->dv.end()); this->setDesignVariables(d); this->setInvR(m->invR); }
  double evaluateErrorImplementation() override { m->nErr.fetch_add(1, std::memory_order_relaxed); m->who = std::this_thread::get_id(); if (m->hook) m->hook(); this->setError(m->residual()); return this->evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(JacobianContainer& o) const override { m->nJac.fetch_add(1, std::memory_order_relaxed); if (m->hook) m->hook(); for (size_t k = 0; k < m->dv.size(); ++k) o.add(m->dv[k], m->jac(k)); }
};
struct ErrD : public ErrorTermDs {
  Model* m;
  explicit ErrD(Model* mm) : ErrorTermDs(mm->z.size()), m(mm) { std::vector<DesignVariable*> d(m->dv.begin(), m->dv.end()); setDesignVariables(d); setInvR(m->invR); }
  double evaluateErrorImplementation() override { m->nErr.fetch_add(1, std::memory_order_relaxed); m->who = std::this_thread::get_id(); if (m->hook) m->hook(); setError(m->residual()); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(JacobianContainer& o) const override { m->nJac.fetch_add(1, std::memory_order_relaxed); if (m->hook) m->hook(); for (size_t k = 0; k < m->dv.size(); ++k) o.add(m->dv[k], m->jac(k)); }
};

struct Robust {
  int kind = 0; double s = 1; size_t df = 1; double pc = 0.95, wc = 0.1;
  double w(double e2) const {
    switch (kind) {
      case 1: { double e = std::sqrt(e2); return e < s ? 1.0 : s / e; }                 // Huber(k)
      case 2: return 1.0 / (1.0 + e2 / s);                                             // Cauchy(sigma2)
      case 3: return s / ((s + e2) * (s + e2));                                        // Geman-McClure(sigma2)
      default: return 1;
    }
  }
  boost::shared_ptr<MEstimator> make() const {
    switch (kind) {
      case 1: return boost::make_shared<HuberMEstimator>(s);
      case 2: return boost::make_shared<CauchyMEstimator>(s);
      case 3: return boost::make_shared<GemanMcClureMEstimator>(s);
      default: return boost::make_shared<NoMEstimator>();
    }
  }
};

struct Problem {
  std::vector<std::unique_ptr<VDv>> dvs; std::vector<std::unique_ptr<Model>> models; std::vector<boost::shared_ptr<ErrorTerm>> errs; std::vector<Robust> rob;
  std::vector<DesignVariable*> order;   // active, in column order
  std::vector<ErrorTerm*> eptr; int cols = 0, rows = 0;
  void addDv(VDv* d) { d->id = dvs.size(); dvs.emplace_back(d); }
  void addErr(Model* m, const Robust& r) {
    models.emplace_back(m); rob.push_back(r);
    boost::shared_ptr<ErrorTerm> e;
    switch (m->z.size()) {
      case 1: e.reset(new ErrF<1>(m)); break; case 2: e.reset(new ErrF<2>(m)); break; case 3: e.reset(new ErrF<3>(m)); break;
      case 4: e.reset(new ErrF<4>(m)); break; default: e.reset(new ErrD(m));
    }
    if (r.kind) e->setMEstimatorPolicy(r.make());
    errs.push_back(e);
  }
  // fixes the column order (as the optimizers do)
  void layout(Rng& r, bool shuffle = true) {
    order.clear(); eptr.clear();
    for (auto& d : dvs) { d->setBlockIndex(-1); d->setColumnBase(-1); if (d->isActive()) order.push_back(d.get()); }
    if (shuffle) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.i(0, i - 1)]);
    cols = rows = 0;
    for (size_t i = 0; i < order.size(); ++i) { order[i]->setBlockIndex(i); order[i]->setColumnBase(cols); cols += order[i]->minimalDimensions(); }
    for (auto& e : errs) { e->setRowBase(rows); rows += e->dimension(); eptr.push_back(e.get()); }
  }
  // dense weighted system at the current state
  void dense(bool useM, MX& J, VX& e, double* cost = 0) const {
    J = MX::Zero(rows, cols); e = VX::Zero(rows); int row = 0; double c = 0;
    for (size_t i = 0; i < models.size(); ++i) {
      const Model& m = *models[i]; VX r = m.residual(); double s2 = r.dot(m.invR * r); double w = useM ? rob[i].w(s2) : 1.0; c += rob[i].w(s2) * s2;
      // any square root works for J'J and J'e; use the library's LDLT-free choice: symmetric root
      MX S = Eigen::SelfAdjointEigenSolver<MX>(m.invR).operatorSqrt() * std::sqrt(w);
      int D = r.size();
      e.segment(row, D) = -S * r;
      for (size_t k = 0; k < m.dv.size(); ++k) if (m.dv[k]->isActive()) J.block(row, m.dv[k]->columnBase(), D, m.dv[k]->x.size()) += m.dv[k]->scaling() * S * m.jac(k);
      row += D;
    }
    if (cost) *cost = c;
  }
  double cost(bool onlyActive = false) const { double c = 0; for (size_t i = 0; i < models.size(); ++i) { if (onlyActive) { bool a = false; for (auto d : models[i]->dv) a |= d->isActive(); if (!a) continue; } VX r = models[i]->residual(); double s2 = r.dot(models[i]->invR * r); c += rob[i].w(s2) * s2; } return c; }
  VX state() const { int n = 0; for (auto& d : dvs) n += d->x.size(); VX s(n); n = 0; for (auto& d : dvs) { s.segment(n, d->x.size()) = d->x; n += d->x.size(); } return s; }
  void setState(const VX& s) { int n = 0; for (auto& d : dvs) { d->x = s.segment(n, d->x.size()); n += d->x.size(); } }
  uint64_t hash() const { uint64_t h = 1; for (auto& m : models) { h = hashm(m->z, h); for (auto& a : m->A) h = hashm(a, h); } return h; }
};

struct GenOpt { int maxDv = 6, maxDim = 4, maxErr = 12; double inactive = 0.15; double nonlinear = 0.5; double robust = 0.5; bool fullRank = true; double scaling = 0.3; int maxErrDim = 6; };
inline void genProblem(Rng& r, Problem& p, const GenOpt& o) {
  int nd = r.i(1, o.maxDv);
  for (int i = 0; i < nd; ++i) {
    VDv* d = new VDv(r.vec(r.i(1, o.maxDim), 2)); p.addDv(d);
    if (i > 0 && r.b(o.inactive)) d->setActive(false);
    if (r.b(o.scaling)) d->setScaling(r.u(0.2, 4));
  }
  std::vector<VDv*> act; for (auto& d : p.dvs) if (d->isActive()) act.push_back(d.get());
  auto mk = [&](std::vector<VDv*> c, int D) {
    Model* m = new Model; m->dv = c; m->q = r.b(o.nonlinear) ? r.u(0.05, 0.5) : 0; m->z = r.vec(D, 2);
    for (auto d : c) { m->A.push_back(r.mat(D, d->x.size())); m->B.push_back(r.mat(D, d->x.size())); }
    m->invR = r.b(0.3) ? MX(MX::Identity(D, D)) : MX(r.spd(D, 0.3) * r.u(0.3, 3));
    Robust rb; if (r.b(o.robust)) { rb.kind = r.i(1, 3); rb.s = r.u(0.3, 5); }
    p.addErr(m, rb);
  };
  int ne = r.i(1, o.maxErr);
  for (int i = 0; i < ne; ++i) {
    std::vector<VDv*> c; std::vector<VDv*> pool; for (auto& d : p.dvs) pool.push_back(d.get());
    int n = r.i(1, std::min<int>(4, pool.size()));
    for (int k = 0; k < n; ++k) { int j = r.i(0, pool.size() - 1); c.push_back(pool[j]); pool.erase(pool.begin() + j); }
    bool any = false; for (auto d : c) any |= d->isActive();
    if (!any) c.push_back(r.pick(act));
    mk(c, r.i(1, o.maxErrDim));
  }
  if (o.fullRank) for (auto d : act) { mk({d}, d->x.size()); Model& m = *p.models.back(); m.A[0] += 2 * MX::Identity(d->x.size(), d->x.size()); }
}
}  // namespace vf
