#pragma once
// C11: random expression trees against an independently evaluated oracle; Jacobians against differences along the variables' own updates.
#include "common.hpp"
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/ScalarExpressionNode.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/HomogeneousExpression.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/MatrixExpression.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_backend_expressions/TransformationExpression.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
#include <aslam_backend_expressions/DesignVariableUnitQuaternion.hpp>
#include <aslam_backend_expressions/DesignVariableMinimalDifferenceExpression.hpp>
#include <aslam_backend_expressions/Vector2RotationQuaternionExpressionAdapter.hpp>
#include <aslam_backend_expressions/VectorExpressionToGenericMatrixTraits.hpp>
#include <aslam_backend_expressions/GenericMatrixExpression.hpp>
#include <aslam_backend_expressions/QuaternionExpression.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend_expressions/GenericScalarExpression.hpp>
#include <aslam_backend_expressions/FixedPointNumber.hpp>
#include <aslam_backend_expressions/ErrorTermEuclidean.hpp>
#include <aslam_backend_expressions/ErrorTermTransformation.hpp>
#include <aslam_backend_expressions/ExpressionErrorTerm.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
using namespace vf; using namespace aslam::backend; typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
typedef std::set<const DesignVariable*> Vars; typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix4d M4;
static Vars uni(const Vars& a, const Vars& b) { Vars c = a; c.insert(b.begin(), b.end()); return c; }
static M3 sk(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static M3 quatR(const V4& q) { V3 e = q.head<3>(); double w = q[3]; return M3((w * w - e.dot(e)) * M3::Identity() + 2 * e * e.transpose() - 2 * w * sk(e)); }
static V3 rotLog(const M3& D) { Eigen::AngleAxisd a(D); return a.angle() * a.axis(); }
// a value of an expression, an oracle for it, and access to the expression itself
struct Item {
  std::string type, how; int dim = 0, diff = 0;   // diff 0: additive, 1: rotation, 2: rigid transformation
  std::function<VX()> val, real; std::function<void(JacobianContainer&)> jac; std::function<void(JacobianContainer&, const MX&)> jacC; std::function<void(DesignVariable::set_t&)> dvs; Vars vars; int depth = 0;
};
static VX flat(const MX& m) { return Eigen::Map<const VX>(m.data(), m.size()); }
static VX fl(double s) { VX v(1); v[0] = s; return v; }
static VX diffOf(int kind, const VX& a, const VX& b) {   // b relative to a
  if (kind == 0) return b - a;
  if (kind == 1) return -rotLog(Eigen::Map<const M3>(b.data()) * Eigen::Map<const M3>(a.data()).transpose());
  M4 A = Eigen::Map<const M4>(a.data()), B = Eigen::Map<const M4>(b.data()); VX d(6); V3 phi = -rotLog(B.topLeftCorner<3, 3>() * A.topLeftCorner<3, 3>().transpose()); V3 ta = A.topRightCorner<3, 1>(), tb = B.topRightCorner<3, 1>(); d << (tb - ta + phi.cross(ta)), phi; return d;
}
static double gNoise = 0;   // largest disagreement between two step sizes
static MX numJ(const Item& it, DesignVariable* d) {
  int n = d->minimalDimensions(); MX J(it.dim, n); VX a = it.val();
  auto at = [&](int i, double h) { std::vector<double> dp(n, 0.0); dp[i] = h; d->update(dp.data(), n); VX v = it.val(); d->revertUpdate(); return diffOf(it.diff, a, v); };
  auto der = [&](int i, double h) { return VX((8 * (at(i, h) - at(i, -h)) - (at(i, 2 * h) - at(i, -2 * h))) / (12 * h)); };
  for (int i = 0; i < n; ++i) { VX c = der(i, 2e-3); J.col(i) = der(i, 5e-4); gNoise = std::max(gNoise, (c - J.col(i)).cwiseAbs().maxCoeff()); }
  return J;
}
static bool tame(const VX& v, double mx = 200) { return v.size() && v.allFinite() && v.norm() < mx; }
struct JC { std::map<const DesignVariable*, MX> m; explicit JC(const JacobianContainer& c) { for (auto it = c.begin(); it != c.end(); ++it) m[it->first] = it->second; } };
static void checkItem(const Item& it, Rng& r, const std::string& K) {
  auto& m = mon(); std::string k = K + "/" + it.type; VX v0 = it.val(); if (!tame(v0)) return;
  VX v = it.real(); if (v.size() != v0.size()) { m.check(k + "/size", false, it.how); return; }
  m.near(k + "/value", v, v0, 1e-9 * (1 + v0.norm()), "value of " + it.how);
  DesignVariable::set_t s; it.dvs(s); Vars got(s.begin(), s.end()); m.check(k + "/variables", got == it.vars, "design variable set of " + it.how + " has " + std::to_string(got.size()) + " variables instead of " + std::to_string(it.vars.size()));
  if (!it.jac) return;
  gNoise = 0; std::map<const DesignVariable*, MX> N; double big = 0; for (auto* d : it.vars) { N[d] = numJ(it, const_cast<DesignVariable*>(d)); big = std::max(big, N[d].cwiseAbs().maxCoeff()); } if (!(big < 300) || !(gNoise < 1e-3 * (1 + big))) return;
  VX v2 = it.real(); m.near(k + "/value-again", v2, v0, 1e-9 * (1 + v0.norm()), "value after perturbing and reverting, " + it.how); 
  double tol = 3e-7 * (1 + big + v0.norm()) + 3 * gNoise;
  auto compare = [&](const JC& c, const MX& P, const std::string& what) {
    for (auto* d : it.vars) { auto f = c.m.find(d); MX want = P * N[d];
      if (!d->isActive()) { m.check(k + "/inactive", f == c.m.end(), "derivative reported for an inactive variable, " + it.how); continue; }
      if (f == c.m.end()) { m.check(k + "/" + what, want.cwiseAbs().maxCoeff() < tol, "derivative missing, " + it.how); continue; }
      if (f->second.rows() != want.rows() || f->second.cols() != want.cols()) { m.check(k + "/" + what, false, "derivative of wrong size, " + it.how); continue; }
      m.near(k + "/" + what, f->second, want, tol * (1 + P.norm()), "derivative of " + it.how); }
    for (auto& x : c.m) m.check(k + "/foreign", it.vars.count(x.first), "derivative for a variable not in " + it.how); };
  { JacobianContainer jc(it.dim); it.jac(jc); compare(JC(jc), MX::Identity(it.dim, it.dim), "derivative"); }
  if (it.jacC) { int n = r.i(1, 4); MX P = r.mat(n, it.dim); JacobianContainer jc(n); it.jacC(jc, P); compare(JC(jc), P, "chain-rule"); }
  m.tag("checked " + it.type); if (it.vars.size() >= 3) m.tag("three or more variables"); if (it.depth >= 4) m.tag("depth of four or more");
}
static VX par(DesignVariable* d) { MX p; d->getParameters(p); return flat(p); }

struct World {
  std::vector<std::shared_ptr<void>> keep; std::vector<DesignVariable*> dvs; std::vector<Item> all;
  template <class T> T* own(T* p) { keep.push_back(std::shared_ptr<void>(p, [](void* q) { delete (T*)q; })); return p; }
  void add(DesignVariable* d, Rng& r) { dvs.push_back(d); d->setActive(!r.b(0.12)); }
  void number(Rng& r) { std::vector<int> idx; for (size_t i = 0; i < dvs.size(); ++i) idx.push_back(i); for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.i(0, i - 1)]); for (size_t i = 0; i < dvs.size(); ++i) { dvs[i]->setBlockIndex(idx[i]); dvs[i]->setColumnBase(3 * idx[i]); } }
};
template <class E> struct Pool { struct Entry { E e; std::function<MX()> f; Vars v; int depth; std::string how; }; std::vector<Entry> p;
  void put(const E& e, std::function<MX()> f, Vars v, int depth, const std::string& how) { p.push_back({e, f, v, depth, how.size() > 160 ? how.substr(0, 160) + ".." : how}); }
  const Entry& any(Rng& r) const { return (r.b(0.5) && p.size() > 3) ? p[p.size() - 1 - r.i(0, 2)] : p[r.i(0, p.size() - 1)]; } };
template <class E> static Item base(const typename Pool<E>::Entry& x, const char* type) { Item i; i.type = type; i.how = x.how; auto f = x.f; i.val = [f] { return flat(f()); }; i.vars = x.v; i.depth = x.depth; auto e = std::make_shared<E>(x.e); i.dvs = [e](DesignVariable::set_t& s) { e->getDesignVariables(s); }; i.jac = [e](JacobianContainer& j) { e->evaluateJacobians(j); }; return i; }
template <class E> static Item item(const typename Pool<E>::Entry& x, const char* t, int dim, std::function<VX(E&)> real) { Item i = base<E>(x, t); i.dim = dim; auto e = std::make_shared<E>(x.e); i.real = [e, real] { return real(*e); }; i.jacC = [e](JacobianContainer& j, const MX& c) { e->evaluateJacobians(j, c); }; return i; }
// error terms built from expressions
static void checkTerm(ErrorTerm& e, const Item& it, const VX& want, const MX& invR, std::function<VX()> res, Rng& r, const std::string& k) {
  auto& m = mon(); double c = e.evaluateError(); VX got = e.vsError(); if (got.size() != want.size()) { m.check(k + "/size", false, it.how); return; }
  m.near(k + "/residual", got, want, 1e-9 * (1 + want.norm()), "residual of " + it.how); m.near(k + "/chi2", c, want.dot(invR * want), 1e-7 * (1 + std::abs(c)), "squared error of " + it.how);
  Vars v; for (size_t i = 0; i < e.numDesignVariables(); ++i) v.insert(e.designVariable(i)); m.check(k + "/variables", v == it.vars && v.size() == e.numDesignVariables(), "variables of the error term on " + it.how);
  Item d; d.dim = want.size(); d.val = res; gNoise = 0; std::map<const DesignVariable*, MX> N; double big = 0; for (auto* x : it.vars) { N[x] = numJ(d, const_cast<DesignVariable*>(x)); big = std::max(big, N[x].cwiseAbs().maxCoeff()); } if (!(big < 300) || !(gNoise < 1e-3 * (1 + big))) return; e.evaluateError();
  JacobianContainer jc(want.size()); e.evaluateJacobians(jc); JC j(jc); for (auto* x : it.vars) { auto f = j.m.find(x); if (!x->isActive()) { m.check(k + "/inactive", f == j.m.end(), ""); continue; } MX g = f == j.m.end() ? MX(MX::Zero(N[x].rows(), N[x].cols())) : f->second; m.near(k + "/derivative", g, N[x], 3e-7 * (1 + big + want.norm()) + 3 * gNoise, "derivative of the error term on " + it.how); }
}
