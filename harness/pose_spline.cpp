// C14: pose splines, their rates and Jacobians, spline design variables, time-dependent expressions, motion errors.
#include <Eigen/Dense>
#include "expr_common.hpp"
#include "bspline_common.hpp"
#include <aslam_bsplines/BSplinePose.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_splines/BSplineDesignVariable.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
#include <aslam_splines/BSplineMotionErrorFactory.hpp>
#include <aslam_splines/SimpleSplineError.hpp>
using aslam_bsplines::BSplinePose; using namespace aslam::splines;
typedef sm::kinematics::RotationalKinematics RK;
namespace {
RK::Ptr kinematics(Rng& r, std::string& name) {
  switch (r.i(0, 2)) {
    case 0: name = "rotation vector"; return RK::Ptr(new sm::kinematics::RotationVector());
    case 1: name = "Euler angles"; return RK::Ptr(new sm::kinematics::EulerAnglesYawPitchRoll());
    default: name = "Rodriguez"; return RK::Ptr(new sm::kinematics::EulerRodriguez());
  }
}
// a curve of moderate speed whose rotation parameters stay away from the singularities of the representation
RefSpline genPose(Rng& r, int kmin = 2, int kmax = 6) {
  RefSpline s; s.k = r.i(kmin, kmax); int segs = r.pick(std::vector<int>{1, 2, 4, 7}), K = segs + 2 * s.k - 1; double dt = r.pick(std::vector<double>{0.4, 1.0, 3.0}), t = r.b(0.3) ? 0 : r.u(-30, 30); bool uni = r.b();
  s.kn.resize(K); for (int i = 0; i < K; ++i) { s.kn[i] = t; t += dt * (uni ? 1.0 : r.u(0.5, 1.5)); }
  s.C = r.mat(6, segs + s.k - 1); s.C.topRows(3) *= r.pick(std::vector<double>{0.5, 2, 10}); 
  V3 base = r.gvec(3) * 0.2; for (int i = 0; i < s.C.cols(); ++i) for (int q = 0; q < 3; ++q) s.C(3 + q, i) = base[q] + 0.25 * r.u(-1, 1);
  if (r.b(0.1)) for (int i = 0; i < s.C.cols(); ++i) s.C.col(i).tail(3).setZero();   // identity rotation throughout
  mon().tag("order:" + std::to_string(s.k)); return s;
}
V3 vee(const M3& S) { return V3(S(2, 1) - S(1, 2), S(0, 2) - S(2, 0), S(1, 0) - S(0, 1)) / 2; }
struct Ref6 {   // oracle of the motion on one polynomial piece
  const RefSpline& s; RK& k; int sg;
  VX p(LD t, int n = 0) const { return s.evalSeg(sg, t, n); }
  M3 C(LD t) const { VX v = p(t); return k.parametersToRotationMatrix(v.tail<3>(), (M3*)nullptr); }
  M4 T(LD t) const { M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = C(t); T.topRightCorner<3, 1>() = p(t).head<3>(); return T; }
  template <class F> auto d(F f, double t, double h) const -> decltype(f(t)) { return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h); }
  double h() const { return 2e-3 * (s.kn[sg + 1] - s.kn[sg]); }
  V3 omegaW(double t) const { M3 D = d([&](double x) { return M3(C(x)); }, t, h()); return vee(D * C(t).transpose()); }
  V3 omegaB(double t) const { return C(t).transpose() * omegaW(t); }
};
M4 inv(const M4& T) { M4 I = M4::Identity(); I.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose(); I.topRightCorner<3, 1>() = -I.topLeftCorner<3, 3>() * T.topRightCorner<3, 1>(); return I; }
// derivative of f(spline) along all coefficients of the segment
MX coefJ(const RefSpline& s, int sg, int kind, std::function<VX(const RefSpline&)> f) {
  int D = s.C.rows(); VX y0 = f(s); MX J;
  for (int j = 0; j < s.k; ++j) for (int i = 0; i < D; ++i) {
    auto at = [&](double h) { RefSpline q = s; q.C(i, sg - s.k + 1 + j) += h; return diffOf(kind, y0, f(q)); };
    double h = 1e-3; VX c = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
    if (!J.size()) J.resize(c.size(), s.k * D);
    J.col(j * D + i) = c;
  }
  return J;
}
VF_GROUP(pose, 120, 2500) {
  std::string kn; RK::Ptr rk = kinematics(rng, kn); RefSpline s = genPose(rng); mon().evaluation(s.hash()); mon().tag(kn);
  BSplinePose b(s.k, rk); b.setKnotsAndCoefficients(s.kn, s.C);
  mon().check("C14.rotation", b.rotation() == rk, kn);
  double sc = 1 + s.C.cwiseAbs().maxCoeff();
  for (double t : genTimes(rng, s, 3)) {
    int sg = s.seg(std::fabs(t - s.tmax()) < 1e-10 ? s.tmax() : t);
    Ref6 R{s, *rk, sg}; std::string d = kn + " t=" + str(t) + " " + s.desc();
    M4 T = R.T(t), Ti = inv(T); M3 C = R.C(t); VX p = R.p(t); double tol = s.tol(0) + 1e-11 * sc;
    auto rate = [&](int n) { return s.tol(n) + 1e-9 * sc; };
    mon().near("C14.transformation", b.transformation(t), T, tol, d);
    mon().near("C14.inverseTransformation", b.inverseTransformation(t), Ti, 4 * tol, d);
    mon().near("C14.position", b.position(t), p.head<3>(), tol, d);
    mon().near("C14.orientation", b.orientation(t), C, tol, d);
    mon().near("C14.inverseOrientation", b.inverseOrientation(t), M3(C.transpose()), tol, d);
    V3 v = R.p(t, 1).head<3>(), a = R.p(t, 2).head<3>();
    mon().near("C14.linearVelocity", b.linearVelocity(t), v, rate(1), d);
    mon().near("C14.linearAcceleration", b.linearAcceleration(t), a, rate(2), d);
    mon().near("C14.linearVelocityBody", b.linearVelocityBodyFrame(t), V3(C.transpose() * v), 4 * rate(1), d);
    mon().near("C14.linearAccelerationBody", b.linearAccelerationBodyFrame(t), V3(C.transpose() * a), 4 * rate(2), d);
    // the velocity is the derivative of the position returned
    V3 w = R.omegaW(t), wb = C.transpose() * w; double wt = 1e-7 * (1 + w.norm()) + 1e-9 * sc;
    mon().near("C14.angularVelocity", b.angularVelocity(t), w, wt, d);
    mon().near("C14.angularVelocityBody", b.angularVelocityBodyFrame(t), wb, wt, d);
    // Jacobians
    MX J; Eigen::VectorXi idx, want(6 * s.k); for (int q = 0; q < want.size(); ++q) want[q] = (sg - s.k + 1) * 6 + q;
    auto idxOk = [&](const char* k) { mon().check(std::string("C14.indices.") + k, idx == want, d); idx.resize(0); };
    auto jac = [&](const std::string& k, int kind, std::function<VX(const RefSpline&)> f, double scale = 1) { MX N = coefJ(s, sg, kind, f); mon().near("C14.jacobian." + k, J, N, scale * 1e-6 * (1 + N.cwiseAbs().maxCoeff()), d); };
    auto on = [&](const RefSpline& q) { return Ref6{q, *rk, sg}; };
    mon().near("C14.transformation2", b.transformationAndJacobian(t, &J, &idx), T, tol, d); idxOk("transformation");
    jac("transformation", 2, [&](const RefSpline& q) { return flat(on(q).T(t)); });
    mon().near("C14.inverseTransformation2", b.inverseTransformationAndJacobian(t, &J, &idx), Ti, 4 * tol, d); idxOk("inverseTransformation");
    jac("inverseTransformation", 2, [&](const RefSpline& q) { return flat(inv(on(q).T(t))); });
    mon().near("C14.orientation2", b.orientationAndJacobian(t, &J, &idx), C, tol, d); idxOk("orientation");
    jac("orientation", 1, [&](const RefSpline& q) { return flat(on(q).C(t)); });
    mon().near("C14.inverseOrientation2", b.inverseOrientationAndJacobian(t, &J, &idx), M3(C.transpose()), tol, d); idxOk("inverseOrientation");
    jac("inverseOrientation", 1, [&](const RefSpline& q) { return flat(M3(on(q).C(t).transpose())); });
    V4 hv; hv << rng.gvec(3), rng.b(0.3) ? 0.0 : rng.b() ? 1.0 : rng.u(0.2, 2);
    mon().near("C14.transformVector", b.transformVectorAndJacobian(t, hv, &J, &idx), V4(T * hv), 4 * tol * (1 + hv.norm()), d); idxOk("transformVector");
    jac("transformVector", 0, [&](const RefSpline& q) { return VX(on(q).T(t) * hv); });
    mon().near("C14.linearAcceleration2", b.linearAccelerationAndJacobian(t, &J, &idx), a, rate(2), d); idxOk("linearAcceleration");
    jac("linearAcceleration", 0, [&](const RefSpline& q) { return VX(on(q).p(t, 2).head<3>()); });
    // rates through the parameter rates: omega = -S(p) pdot, checked against the derivative of the rotation above
    auto omega = [&](const RefSpline& q, int n) { VX pp = on(q).p(t), pd = on(q).p(t, n); return V3(-(rk->parametersToSMatrix(pp.tail<3>()) * pd.tail<3>())); };
    mon().near("C14.angularVelocityBody2", b.angularVelocityBodyFrameAndJacobian(t, &J, &idx), wb, wt, d); idxOk("angularVelocityBody");
    jac("angularVelocityBody", 0, [&](const RefSpline& q) { return VX(on(q).C(t).transpose() * omega(q, 1)); });
    V3 wj = b.angularVelocityAndJacobian(t, &J, &idx); idxOk("angularVelocity");
    mon().near("C14.angularVelocity2", wj, w, wt, d);
    jac("angularVelocity", 0, [&](const RefSpline& q) { return VX(omega(q, 1)); });
    // angular acceleration
    if (s.k >= 2) {
      V3 ab = C.transpose() * omega(s, 2), aw = omega(s, 2);   // what the class implements: -S(p) pddot
      V3 g = b.angularAccelerationBodyFrame(t);
      double at = 1e-8 * (1 + aw.norm()) + rate(2);
      mon().near("C14.angularAccelerationBody", g, ab, at, d);
      mon().near("C14.angularAccelerationBody2", b.angularAccelerationBodyFrameAndJacobian(t, &J, &idx), ab, at, d); idxOk("angularAccelerationBody");
      jac("angularAccelerationBody", 0, [&](const RefSpline& q) { return VX(on(q).C(t).transpose() * omega(q, 2)); });
      V3 aj = b.angularAccelerationAndJacobian(t, &J, &idx); idxOk("angularAcceleration");
      mon().near("C14.angularAcceleration2", aj, aw, at, d);
      jac("angularAcceleration", 0, [&](const RefSpline& q) { return VX(omega(q, 2)); });
      // the true angular acceleration also contains the change of S along the motion
      V3 truth = R.d([&](double x) { return V3(R.C(x).transpose() * R.omegaW(x)); }, t, 5 * R.h());
      mon().near("C14.angularAccelerationIsDerivative", g, truth, 1e-4 * (1 + truth.norm() + w.squaredNorm()), d);
    }
    VX c2 = p; MX JT; mon().near("C14.curveValue", b.curveValueToTransformation(p), T, 1e-12 * sc, d);
    mon().near("C14.curveValue2", b.curveValueToTransformationAndJacobian(p, &JT), T, 1e-12 * sc, d);
    VX back = b.transformationToCurveValue(T);
    mon().near("C14.curveValueBack", b.curveValueToTransformation(back), T, 1e-9 * sc, d);
    if (p.tail<3>().norm() < 1.2) mon().near("C14.curveValueParameters", back, p, 1e-7 * sc, d);
    { MX N(6, 6); for (int i = 0; i < 6; ++i) { auto at = [&](double h) { VX q = p; q[i] += h; M4 X = M4::Identity(); X.topLeftCorner<3, 3>() = rk->parametersToRotationMatrix(q.tail<3>(), (M3*)nullptr); X.topRightCorner<3, 1>() = q.head<3>(); return diffOf(2, flat(T), flat(X)); }; double h = 1e-3; N.col(i) = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }
      mon().near("C14.jacobian.curveValue", JT, N, 1e-7 * sc, d); }
  }
  for (double t : {s.tmin() - 1e-6 * (1 + std::fabs(s.tmin())), s.tmax() + 1e-6 * (1 + std::fabs(s.tmax())), (double)NAN, (double)INFINITY}) {
    std::string d = "time " + str(t) + " outside " + s.desc(); MX J;
#define VF_REFUSE(call) expectThrow("C14.refuse", [&] { b.call; }, #call " at " + d)
    VF_REFUSE(transformation(t)); VF_REFUSE(inverseTransformation(t)); VF_REFUSE(position(t)); VF_REFUSE(orientation(t)); VF_REFUSE(inverseOrientation(t)); VF_REFUSE(linearVelocity(t)); VF_REFUSE(linearAcceleration(t)); VF_REFUSE(linearVelocityBodyFrame(t)); VF_REFUSE(linearAccelerationBodyFrame(t)); VF_REFUSE(angularVelocity(t)); VF_REFUSE(angularVelocityBodyFrame(t)); VF_REFUSE(angularAccelerationBodyFrame(t)); VF_REFUSE(transformationAndJacobian(t, &J)); VF_REFUSE(inverseTransformationAndJacobian(t, &J)); VF_REFUSE(orientationAndJacobian(t, &J, NULL)); VF_REFUSE(angularVelocityBodyFrameAndJacobian(t, &J, NULL));
  }
}
VF_GROUP(initialise, 80, 1500) {   // construction from poses
  std::string kn; RK::Ptr rk = kinematics(rng, kn); int k = rng.i(2, 6);
  auto pose = [&] { VX p = rng.gvec(6); p.tail<3>() *= 0.3; M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = rk->parametersToRotationMatrix(p.tail<3>(), (M3*)nullptr); T.topRightCorner<3, 1>() = p.head<3>(); return T; };
  M4 T0 = pose(), T1 = pose(); double t0 = rng.u(-5, 5), t1 = t0 + rng.pick(std::vector<double>{0.5, 1, 4}); mon().evaluation(hashm(T0, hashm(T1)));
  BSplinePose b(k, rk); std::string d = kn + " order " + std::to_string(k); double tol = k % 2 ? 1e-6 : 1e-8;
  b.initPoseSpline(t0, t1, T0, T1);
  mon().near("C14.init.start", b.transformation(t0), T0, tol * (1 + T0.norm()), d); mon().near("C14.init.end", b.transformation(b.t_max()), T1, tol * (1 + T1.norm()), d);
  for (int q = 0; q < 3; ++q) {
    double tk = b.t_max() + (rng.b(0.6) ? t1 - t0 : (t1 - t0) * rng.u(0.7, 1.4)); M4 Tk = pose(), E = b.transformation(b.t_max()); double te = b.t_max(); bool two = rng.b(0.4);
    if (two) b.addPoseSegment2(tk, Tk, 0.0); else b.addPoseSegment(tk, Tk);
    mon().near("C14.add.end", b.transformation(b.t_max()), Tk, 1e-5 * (1 + Tk.norm()), d); mon().near("C14.add.joint", b.transformation(te), E, 1e-5 * (1 + E.norm()), d);
  }
  int S = rng.i(1, 4), n = rng.i(2, 12); VX times(n); Eigen::Matrix<double, 6, Eigen::Dynamic> P(6, n); for (int i = 0; i < n; ++i) { times[i] = t0 + i * (t1 - t0) / (n - 1); P.col(i) = rng.gvec(6) * 0.4; }
  BSplinePose x(k, rk); BSpline y(k); int w = rng.i(0, 3); double lam = 1e-3;
  if (w == 0) { x.initPoseSpline2(times, P, S, lam); y.initSpline2(times, P, S, lam); } else if (w == 1) { x.initPoseSpline3(times, P, S, lam); y.initSpline3(times, P, S, lam); } else if (w == 2) { x.initPoseSplineSparse(times, P, S, lam); y.initSplineSparse(times, P, S, lam); }
  else { VX kk(S + 2 * k - 1); for (int i = 0; i < kk.size(); ++i) kk[i] = t0 + (t1 - t0) / S * (i - k + 1); kk[kk.size() - k] = std::max(kk[kk.size() - k], t1); x.initPoseSplineSparseKnots(times, P, kk, lam); y.initSplineSparseKnots(times, P, kk, lam); }
  mon().near("C14.initPoseSpline" + std::to_string(w), x.coefficients(), y.coefficients(), 1e-9, d); mon().check("C14.initPoseKnots", x.knots() == y.knots(), d);
}
template <class SP> void activate(Rng& r, SP& dv) { for (size_t i = 0; i < dv.numDesignVariables(); ++i) { dv.designVariable(i)->setActive(!r.b(0.15)); dv.designVariable(i)->setBlockIndex(i); dv.designVariable(i)->setColumnBase(6 * i); } }
template <class E> auto chain(E& e, JacobianContainer& j, const MX& c, int) -> decltype(e.evaluateJacobians(j, c)) { return e.evaluateJacobians(j, c); }
template <class E> void chain(E&, JacobianContainer&, const MX&, long) {}
template <class E> auto hasChain(int) -> decltype(std::declval<E&>().evaluateJacobians(std::declval<JacobianContainer&>(), std::declval<const MX&>()), true) { return true; }
template <class E> bool hasChain(long) { return false; }
template <class E> Item mk(E e, const char* type, int dim, int diff, const std::string& how, const Vars& v, std::function<VX()> val, std::function<VX(E&)> real) {
  Item i; i.type = type; i.dim = dim; i.diff = diff; i.how = how; i.vars = v; i.val = val; auto x = std::make_shared<E>(e); i.real = [x, real] { return real(*x); }; i.dvs = [x](DesignVariable::set_t& s) { x->getDesignVariables(s); }; i.jac = [x](JacobianContainer& j) { x->evaluateJacobians(j); }; if (hasChain<E>(0)) i.jacC = [x](JacobianContainer& j, const MX& c) { chain(*x, j, c, 0); }; return i;
}
VF_GROUP(poseVariables, 60, 1200) {
  std::string kn; RK::Ptr rk = kinematics(rng, kn); RefSpline s = genPose(rng, 3, 6); mon().evaluation(s.hash()); mon().tag(kn);
  BSplinePose b(s.k, rk); b.setKnotsAndCoefficients(s.kn, s.C);
  BSplinePoseDesignVariable dv(b);
  auto& sp = dv.spline();
  for (int round = 0; round < 2; ++round) {
    if (round == 1) {   // growing and shrinking keeps every variable attached to its coefficient
      if (rng.b(0.5)) { M4 T = b.transformation(b.t_max()); T.topRightCorner<3, 1>() += 0.2 * V3(rng.gvec(3)); double t = 2 * s.kn[s.kn.size() - s.k] - s.kn[s.kn.size() - s.k - 1]; if (rng.b()) dv.addSegment(t, T); else dv.addSegment2(t, T, 1e-6); mon().tag("addSegment"); }
      else if (sp.numValidTimeSegments() > 1) { dv.removeSegment(); mon().tag("removeSegment"); }
    }
    activate(rng, dv);
    mon().check("C14.dv.count", dv.numDesignVariables() == (size_t)sp.numVvCoefficients(), kn);
    for (size_t i = 0; i < dv.numDesignVariables(); ++i) {
      MX q; dv.designVariable(i)->getParameters(q); mon().check("C14.dv.mapped", q == MX(sp.coefficients().col(i)), "variable " + std::to_string(i));
      VX u = rng.gvec(6) * 0.01; MX before = sp.coefficients(); dv.designVariable(i)->update(u.data(), 6); MX w = before; w.col(i) += u; mon().near("C14.dv.update", sp.coefficients(), w, 1e-15 * (1 + w.norm()), "variable " + std::to_string(i)); dv.designVariable(i)->revertUpdate(); mon().check("C14.dv.revert", sp.coefficients() == before, "variable " + std::to_string(i));
    }
    expectThrow("C14.refuse.variable", [&] { dv.designVariable(dv.numDesignVariables()); }, "index out of range");
    RefSpline cur = refOf(sp); if (cur.C.cwiseAbs().maxCoeff() > 30 || cur.C.bottomRows(3).cwiseAbs().maxCoeff() > 1.2) { mon().tag("far coefficients"); return; }
    for (double t : genTimes(rng, cur, 2)) {
      int sg = cur.seg(std::fabs(t - cur.tmax()) < 1e-10 ? cur.tmax() : t); std::string d = kn + " t=" + str(t) + " " + cur.desc();
      Vars v; std::vector<DesignVariable*> lst = dv.getDesignVariables(t); Eigen::VectorXi ai = dv.getActiveDesignVariableIndices(t); bool ok = (int)lst.size() == cur.k && ai.size() == cur.k;
      for (int j = 0; j < cur.k; ++j) { v.insert(dv.designVariable(sg - cur.k + 1 + j)); if (ok && (lst[j] != dv.designVariable(sg - cur.k + 1 + j) || ai[j] != sg - cur.k + 1 + j)) ok = false; }
      mon().check("C14.dv.support", ok, d);
      auto ref = [&, sg](std::function<VX(const Ref6&)> f) { return std::function<VX()>([&, sg, f] { RefSpline q = refOf(sp); return f(Ref6{q, *rk, sg}); }); };
      auto om = [rk](const Ref6& R, double t, int n) { VX p = R.p(t), pd = R.p(t, n); return V3(-(R.C(t).transpose() * (rk->parametersToSMatrix(p.tail<3>()) * pd.tail<3>()))); };
      auto eu = [](EuclideanExpression& e) { return VX(e.toEuclidean()); };
      checkItem(mk<TransformationExpression>(dv.transformation(t), "transformation", 6, 2, d, v, ref([t](const Ref6& R) { return flat(R.T(t)); }), [](TransformationExpression& e) { return flat(e.toTransformationMatrix()); }), rng, "C14.expr");
      checkItem(mk<RotationExpression>(dv.orientation(t), "orientation", 3, 1, d, v, ref([t](const Ref6& R) { return flat(R.C(t)); }), [](RotationExpression& e) { return flat(e.toRotationMatrix()); }), rng, "C14.expr");
      checkItem(mk<EuclideanExpression>(dv.position(t), "position", 3, 0, d, v, ref([t](const Ref6& R) { return VX(R.p(t).head(3)); }), eu), rng, "C14.expr");
      checkItem(mk<EuclideanExpression>(dv.linearVelocity(t), "linearVelocity", 3, 0, d, v, ref([t](const Ref6& R) { return VX(R.p(t, 1).head(3)); }), eu), rng, "C14.expr");
      checkItem(mk<EuclideanExpression>(dv.linearAcceleration(t), "linearAcceleration", 3, 0, d, v, ref([t](const Ref6& R) { return VX(R.p(t, 2).head(3)); }), eu), rng, "C14.expr");
      checkItem(mk<EuclideanExpression>(dv.linearAccelerationBodyFrame(t), "linearAccelerationBodyFrame", 3, 0, d, v, ref([t](const Ref6& R) { return VX(R.C(t).transpose() * R.p(t, 2).head(3)); }), eu), rng, "C14.expr");
      checkItem(mk<EuclideanExpression>(dv.angularVelocityBodyFrame(t), "angularVelocityBodyFrame", 3, 0, d, v, ref([t, om](const Ref6& R) { return VX(om(R, t, 1)); }), eu), rng, "C14.expr");
      checkItem(mk<EuclideanExpression>(dv.angularAccelerationBodyFrame(t), "angularAccelerationBodyFrame", 3, 0, d, v, ref([t, om](const Ref6& R) { return VX(om(R, t, 2)); }), eu), rng, "C14.expr");
    }
    for (double t : {cur.tmin() - 0.01, cur.tmax() + 0.01}) { expectThrow("C14.refuse.expression", [&] { dv.transformation(t); }, str(t)); expectThrow("C14.refuse.expression2", [&] { dv.position(t); }, str(t)); expectThrow("C14.refuse.expression3", [&] { dv.orientation(t); }, str(t)); expectThrow("C14.refuse.expression4", [&] { dv.getDesignVariables(t); }, str(t)); }
    // time is itself an unknown
    for (int q = 0; q < 4; ++q) {
      int seg = rng.i(0, cur.segs() - 1); double lo = cur.kn[cur.k - 1 + seg], hi = cur.kn[cur.k + seg], t0 = lo + (hi - lo) * rng.u(0.03, 0.97), lb = rng.b(0.4) ? 0 : rng.u(0, 3), rb = rng.b(0.4) ? 0 : rng.u(0, 3);
      Scalar tv(t0); tv.setActive(!rng.b(0.1)); tv.setBlockIndex(100); tv.setColumnBase(600);
      Scalar off(0.0); bool sum = rng.b(0.3); off.setActive(true); off.setBlockIndex(101); off.setColumnBase(601);
      ScalarExpression te = tv.toExpression(); if (sum) te = te + off.toExpression();
      TransformationExpression e = lb == 0 && rb == 0 && rng.b() ? dv.transformationAtTime(te) : dv.transformationAtTime(te, lb, rb);
      int s0 = t0 - lb < cur.tmin() ? 0 : cur.seg(t0 - lb) - cur.k + 1, s1 = t0 + rb > cur.tmax() ? cur.segs() - 1 : cur.seg(t0 + rb) - cur.k + 1;
      // evaluate away from the initial time but inside the buffered segments
      int es = rng.i(s0, s1); double el = cur.kn[cur.k - 1 + es], eh = cur.kn[cur.k + es], t1 = el + (eh - el) * rng.u(0.05, 0.95);
      MX tp(1, 1); tp(0, 0) = t1; tv.setParameters(tp);
      Vars v; v.insert(&tv); if (sum) v.insert(&off); for (int i = s0; i <= s1 + cur.k - 1; ++i) v.insert(dv.designVariable(i));
      std::string d = kn + " initial time " + str(t0) + " evaluated at " + str(t1) + " buffers " + str(lb) + " " + str(rb) + " " + cur.desc();
      int esg = es + cur.k - 1; std::function<VX()> val = [&, esg] { RefSpline z = refOf(sp); double tt = tv.toScalar() + (sum ? off.toScalar() : 0.0); return flat(Ref6{z, *rk, z.seg(tt)}.T(tt)); }; (void)esg;
      checkItem(mk<TransformationExpression>(e, "atTime", 6, 2, d, v, val, [](TransformationExpression& x) { return flat(x.toTransformationMatrix()); }), rng, "C14.expr");
      mon().tag(es == seg ? "same segment" : "other segment");
      for (double bad : {cur.kn[cur.k - 1 + s0] - 1e-3, cur.kn[cur.k + s1] + 1e-3, cur.tmin() - 1, cur.tmax() + 1}) { tp(0, 0) = bad; tv.setParameters(tp); JacobianContainer jc(6); expectThrow("C14.refuse.atTime", [&] { e.toTransformationMatrix(); }, d + " moved to " + str(bad)); expectThrow("C14.refuse.atTimeJacobian", [&] { e.evaluateJacobians(jc); }, d + " moved to " + str(bad)); }
    }
  }
}
template <int D> void vectorVariables(Rng& rng) {
  RefSpline s = genSpline(rng, 2, 5, D, rng.i(0, 1)); if (s.minSpan() < 0.2) { double f = 0.3 / s.minSpan(); for (auto& k : s.kn) k *= f; } s.C /= s.C.cwiseAbs().maxCoeff(); mon().evaluation(s.hash()); mon().tag("vector spline of dimension " + std::to_string(D));
  BSpline b = make(s); BSplineDesignVariable<D> dv(b); auto& sp = dv.spline();
  for (int round = 0; round < 2; ++round) {
    if (round == 1) { if (rng.b()) { double t = 2 * s.kn[s.kn.size() - s.k] - s.kn[s.kn.size() - s.k - 1]; VX p = b.eval(b.t_max()) + 0.1 * rng.gvec(D); if (rng.b()) dv.addSegment(t, p); else dv.addSegment2(t, p, 1e-6); } else if (sp.numValidTimeSegments() > 1) dv.removeSegment(); }
    activate(rng, dv);
    for (size_t i = 0; i < dv.numDesignVariables(); ++i) { MX q; dv.designVariable(i)->getParameters(q); mon().check("C14.dv.mapped", q == MX(sp.coefficients().col(i)), "variable " + std::to_string(i)); }
    mon().check("C14.dv.count", dv.numDesignVariables() == (size_t)sp.numVvCoefficients(), "");
    RefSpline cur = refOf(sp); if (cur.C.cwiseAbs().maxCoeff() > 30) return;
    for (double t : genTimes(rng, cur, 2)) for (int n = 0; n < 3; ++n) {
      int sg = cur.seg(std::fabs(t - cur.tmax()) < 1e-10 ? cur.tmax() : t); std::string d = "t=" + str(t) + " derivative " + std::to_string(n) + " " + cur.desc(); Vars v; for (int j = 0; j < cur.k; ++j) v.insert(dv.designVariable(sg - cur.k + 1 + j));
      auto val = [&, sg, t, n] { return VX(refOf(sp).evalSeg(sg, t, n)); };
      checkItem(mk<VectorExpression<D> >(dv.toExpression(t, n), "vector", D, 0, d, v, val, [](VectorExpression<D>& e) { return VX(e.evaluate()); }), rng, "C14.expr");
      std::vector<DesignVariable*> lst = dv.getDesignVariables(t); mon().check("C14.dv.support", Vars(lst.begin(), lst.end()) == v, d);
    }
    for (double t : {cur.tmin() - 0.01, cur.tmax() + 0.01}) expectThrow("C14.refuse.vectorExpression", [&] { dv.toExpression(t, 0); }, str(t));
  }
}
VF_GROUP(vectorSplines, 90, 1500) { switch (rng.i(0, 3)) { case 0: vectorVariables<1>(rng); break; case 1: vectorVariables<2>(rng); break; case 2: vectorVariables<3>(rng); break; default: vectorVariables<6>(rng); } }
VF_GROUP(euclideanSplines, 40, 600) {
  RefSpline s = genSpline(rng, 2, 5, 3, rng.i(0, 1)); if (s.minSpan() < 0.2) { double f = 0.3 / s.minSpan(); for (auto& k : s.kn) k *= f; } s.C /= s.C.cwiseAbs().maxCoeff(); mon().evaluation(s.hash());
  BSpline b = make(s); EuclideanBSplineDesignVariable dv(b); auto& sp = dv.spline(); activate(rng, dv);
  for (double t : genTimes(rng, s, 2)) for (int n = 0; n < 3; ++n) {
    int sg = s.seg(std::fabs(t - s.tmax()) < 1e-10 ? s.tmax() : t); Vars v; for (int j = 0; j < s.k; ++j) v.insert(dv.designVariable(sg - s.k + 1 + j)); std::string d = "t=" + str(t) + " derivative " + std::to_string(n) + " " + s.desc();
    mon().near("C14.euclidean.value", dv.toEuclidean(t, n), s.evalSeg(sg, t, n), s.tol(n) + 1e-9 * std::pow(2.0 * s.k / s.minSpan(), n), d);
    checkItem(mk<EuclideanExpression>(dv.toEuclideanExpression(t, n), "euclidean", 3, 0, d, v, [&, sg, t, n] { return VX(refOf(sp).evalSeg(sg, t, n)); }, [](EuclideanExpression& e) { return VX(e.toEuclidean()); }), rng, "C14.expr");
  }
}
// motion errors: c' Q c with Q the integral of the squared derivative
MX motionQ(const RefSpline& s, const MX& W, int n) { MX G = s.gram(n, s.tmin(), s.tmax()); int D = W.rows(); MX Q(G.rows() * D, G.cols() * D); for (int i = 0; i < G.rows(); ++i) for (int j = 0; j < G.cols(); ++j) Q.block(i * D, j * D, D, D) = G(i, j) * W; return Q; }
template <class SP> void motionError(Rng& rng, SP& dv, const std::string& name) {
  auto& sp = dv.spline(); RefSpline s = refOf(sp); int D = s.C.rows(), n = rng.i(0, s.k - 1); MX W = rng.spd(D); if (rng.b(0.3)) W = MX::Identity(D, D);
  bool reduce = rng.b(0.1); int req = reduce ? s.k + rng.i(0, 2) : n; if (reduce) n = s.k - 1;
  bool def = !reduce && rng.b(0.2) && s.k > 2; if (def) n = 2;
  std::string d = name + " derivative " + std::to_string(req) + " " + s.desc(); MX Q = motionQ(s, W, n); double qs = 1 + Q.cwiseAbs().maxCoeff(); mon().tag(name + (reduce ? ":reduced" : ""));
  std::shared_ptr<BSplineMotionError<SP> > e(def ? new BSplineMotionError<SP>(&dv, W) : new BSplineMotionError<SP>(&dv, W, req));
  mon().near("C14.motion.Q", e->Q(), Q, 1e-8 * qs, d);
  for (int round = 0; round < 2; ++round) {
    VX c = sp.coefficientVectorLength() ? VX(Eigen::Map<const VX>(sp.coefficients().data(), sp.coefficients().size())) : VX(); double cs = qs * (1 + c.squaredNorm());
    mon().near("C14.motion.error", e->evaluateError(), c.dot(Q * c), 1e-8 * cs, d); mon().near("C14.motion.rhs", e->rhs(), VX(-(Q * c)), 1e-8 * cs, d);
    mon().check("C14.motion.variables", e->numDesignVariables() == dv.numDesignVariables(), d); for (size_t i = 0; i < e->numDesignVariables(); ++i) mon().check("C14.motion.variable", e->designVariable(i) == dv.designVariable(i), d);
    // assembled normal equations: half the gradient and Hessian of c'Qc for the active variables, in the order of their block indices
    std::vector<int> act, pos; bool permute = rng.b(0.3); for (size_t i = 0; i < dv.numDesignVariables(); ++i) { bool a = !rng.b(0.2); dv.designVariable(i)->setActive(a); if (a) act.push_back(i); }
    pos.resize(act.size()); for (size_t i = 0; i < pos.size(); ++i) pos[i] = i; if (permute) for (size_t i = pos.size(); i > 1; --i) std::swap(pos[i - 1], pos[rng.i(0, i - 1)]);
    std::vector<int> blocks; for (size_t i = 0; i < act.size(); ++i) { dv.designVariable(act[i])->setBlockIndex(pos[i]); dv.designVariable(act[i])->setColumnBase(D * pos[i]); blocks.push_back(D * (i + 1)); }
    if (!act.empty()) {
      aslam_sparse_block_matrix::SparseBlockMatrix<MX> H(blocks, blocks, true); VX rhs = rng.gvec(D * act.size()), r0 = rhs; int N = D * act.size();
      e->buildHessian(H, rhs, rng.b());
      MX U = MX::Zero(N, N), full = MX::Zero(N, N); VX g = VX::Zero(N); for (size_t i = 0; i < act.size(); ++i) { g.segment(D * pos[i], D) = (Q * c).segment(D * act[i], D); for (size_t j = 0; j < act.size(); ++j) full.block(D * pos[i], D * pos[j], D, D) = Q.block(D * act[i], D * act[j], D, D); }
      MX got = H.toDense(); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i / D <= j / D) U(i, j) = got(i, j) - full(i, j);
      mon().near(permute ? "C14.motion.hessian.permuted" : "C14.motion.hessian", U, MX::Zero(N, N), 1e-8 * qs, d); mon().near("C14.motion.gradient", rhs, VX(r0 - g), 1e-8 * cs, d);
    }
    for (size_t i = 0; i < dv.numDesignVariables(); ++i) { VX u = rng.gvec(D) * 0.3; dv.designVariable(i)->update(u.data(), D); }
  }
  // the same cost as separate terms per segment
  for (size_t i = 0; i < dv.numDesignVariables(); ++i) { dv.designVariable(i)->setActive(true); dv.designVariable(i)->setBlockIndex(i); }
  OptimizationProblem p; for (size_t i = 0; i < dv.numDesignVariables(); ++i) p.addDesignVariable(dv.designVariable(i), false);
  addMotionErrorTerms(p, dv, W, n); mon().check("C14.motionTerms.count", p.numErrorTerms() == (size_t)s.segs(), d);
  for (int round = 0; round < 2; ++round) {
    VX c = Eigen::Map<const VX>(sp.coefficients().data(), sp.coefficients().size()); double cs = qs * (1 + c.squaredNorm()), sum = 0; for (size_t i = 0; i < p.numErrorTerms(); ++i) sum += p.errorTerm(i)->evaluateError();
    mon().near("C14.motionTerms.error", sum, c.dot(Q * c), 1e-7 * cs, d + (round ? " after moving" : ""));
    VX g = VX::Zero(c.size()); for (size_t i = 0; i < p.numErrorTerms(); ++i) { ErrorTerm* t = p.errorTerm(i); JacobianContainer jc(t->dimension()); t->evaluateJacobians(jc); VX ev = t->vsError(); for (auto it = jc.begin(); it != jc.end(); ++it) g.segment(D * it->first->blockIndex(), D) += it->second.transpose() * ev; }
    mon().near("C14.motionTerms.gradient", g, VX(Q * c), 1e-7 * cs, d + (round ? " after moving" : ""));
    for (size_t i = 0; i < dv.numDesignVariables(); ++i) { VX u = rng.gvec(D) * 0.3; dv.designVariable(i)->update(u.data(), D); }
  }
}
VF_GROUP(motion, 80, 1500) {
  if (rng.b(0.4)) { std::string kn; RK::Ptr rk = kinematics(rng, kn); RefSpline s = genPose(rng); mon().evaluation(s.hash()); BSplinePose b(s.k, rk); b.setKnotsAndCoefficients(s.kn, s.C); BSplinePoseDesignVariable dv(b); motionError(rng, dv, "pose"); }
  else { int D = rng.i(1, 3); RefSpline s = genSpline(rng, 2, 5, D, rng.i(0, 1)); double f = rng.u(0.5, 2) / s.minSpan(); for (auto& k : s.kn) k *= f; s.C /= s.C.cwiseAbs().maxCoeff(); mon().evaluation(s.hash()); BSpline b = make(s);
    if (D == 1) { BSplineDesignVariable<1> dv(b); motionError(rng, dv, "vector1"); } else if (D == 2) { BSplineDesignVariable<2> dv(b); motionError(rng, dv, "vector2"); } else { EuclideanBSplineDesignVariable dv(b); motionError(rng, dv, "euclidean"); } }
}
VF_GROUP(simpleError, 40, 500) {
  RefSpline s = genSpline(rng, 2, 5, 1, rng.i(0, 1)); if (s.minSpan() < 0.2) { double f = 0.3 / s.minSpan(); for (auto& k : s.kn) k *= f; } s.C /= s.C.cwiseAbs().maxCoeff(); mon().evaluation(s.hash());
  BSpline b = make(s); BSplineDesignVariable<1> dv(b); auto& sp = dv.spline(); activate(rng, dv); double t = rng.u(s.tmin(), s.tmax()); int sg = s.seg(t); VectorExpression<1> ex = dv.toExpression(t, 0); Eigen::Matrix<double, 1, 1> y; y[0] = rng.u(-1, 1);
  SimpleSplineError<BSplineDesignVariable<1> > e(&dv, &ex, y, t); Item it; it.how = "spline value error"; it.dim = 1; for (int j = 0; j < s.k; ++j) it.vars.insert(dv.designVariable(sg - s.k + 1 + j));
  auto res = [&] { return VX(refOf(sp).evalSeg(sg, t, 0) - y); }; checkTerm(e, it, res(), MX::Identity(1, 1), res, rng, "C14.simpleError");
}
}  // namespace
VF_MAIN
