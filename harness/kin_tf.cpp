// C02: rigid transformations, homogeneous points and uncertainty propagation.
#include "common.hpp"
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/HomogeneousPoint.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <sm_kinematics/transformations.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/Eigenvalues>
using namespace vf; using namespace sm::kinematics;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6;

// covariances that are zero in some directions (down to everywhere), vectors with zero entries: what a fast path would look for
static Eigen::MatrixXd semi(Rng& r, int n, double reg = 0.5) { Eigen::MatrixXd U = r.spd(n, reg); if (r.b(0.3)) { int m = r.i(0, 3); for (int i = 0; i < n; ++i) if (m == 0 || (m == 1 && i < n / 2) || (m == 2 && i >= n / 2) || (m == 3 && r.b())) { U.row(i).setZero(); U.col(i).setZero(); } } return U; }
static V3 sv3(Rng& r, double s = 1) { V3 v = r.v3(s); if (r.b(0.2)) for (int i = 0; i < 3; ++i) if (r.b()) v[i] = 0; return v; }
static V4 rq(Rng& r) { V4 q = r.gvec(4); if (r.b(0.15)) { q.head<3>() *= 1e-6; q[3] = r.b() ? 1 : -1; } if (r.b(0.1)) { q[3] = 0; } if (r.b(0.1)) { q[r.i(0, 2)] = 0; q[r.i(0, 2)] = 0; } if (r.b(0.03)) q = V4(0, 0, 0, 1); return q / q.norm(); }
static M3 C(const V4& q) { V3 e = q.head<3>(); M3 K; K << 0, -e[2], e[1], e[2], 0, -e[0], -e[1], e[0], 0; return (q[3] * q[3] - e.squaredNorm()) * M3::Identity() + 2 * e * e.transpose() - 2 * q[3] * K; }
static M4 mk(const V4& q, const V3& t) { M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = C(q); T.topRightCorner<3, 1>() = t; return T; }
static M4 B(const V6& d) { M4 m; m << 0, -d[5], d[4], -d[0], d[5], 0, -d[3], -d[1], -d[4], d[3], 0, -d[2], 0, 0, 0, 0; return m; }
// inverse of first-order increment: E = I - B(d)
static V6 incr(const M4& E) { V6 d; d << E(0, 3), E(1, 3), E(2, 3), (E(1, 2) - E(2, 1)) / 2, (E(2, 0) - E(0, 2)) / 2, (E(0, 1) - E(1, 0)) / 2; return d; }
static M6 U6(Rng& r) { return semi(r, 6, r.b() ? 1e-3 : 0.3); }
static bool psd(const Eigen::MatrixXd& M) { Eigen::MatrixXd S = 0.5 * (M + M.transpose()); return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(S).eigenvalues().minCoeff() > -1e-9 * (1 + S.cwiseAbs().maxCoeff()); }
static void cov(const std::string& k, const Eigen::MatrixXd& U, const Eigen::MatrixXd& E, const std::string& x) {
  mon().near(k, U, E, 1e-6 * (1 + E.cwiseAbs().maxCoeff()), x);
  mon().near(k + "/symmetric", U, U.transpose(), 1e-10 * (1 + U.cwiseAbs().maxCoeff()), x);
  mon().check(k + "/psd", psd(U), x);
}
// propagate covariance U through f at 0 by numerical differentiation
static Eigen::MatrixXd prop(const std::function<Eigen::VectorXd(const Eigen::VectorXd&)>& f, const Eigen::MatrixXd& U) {
  Eigen::MatrixXd J = numDiff(f, Eigen::VectorXd::Zero(U.rows()), 1e-3); return J * U * J.transpose();
}

VF_GROUP(group, 3000, 150000) {
  V4 qa = rq(rng), qb = rq(rng), qc = rq(rng); V3 ta = sv3(rng, 10), tb = sv3(rng, 10), tc = sv3(rng, 10);
  Transformation a(qa, ta), b(qb, tb), c(qc, tc);
  M4 A = mk(qa, ta), Bm = mk(qb, tb);
  std::string x = "qa=" + mstr(qa.transpose()) + " ta=" + mstr(ta.transpose());
  mon().evaluation(hashm(qa, hashm(ta)));
  if (caseno < 3) mon().sample(x);
  mon().near("tf/matrix", a.T(), A, 1e-13, x);
  mon().near("tf/C", a.C(), A.topLeftCorner<3, 3>(), 1e-14, x); mon().near("tf/t", a.t(), ta, 0, x); mon().near("tf/q", a.q(), qa, 1e-15, x);
  mon().near("tf/T3x4", a.T3x4(), A.topRows<3>(), 1e-13, x);
  mon().near("tf/unit-quaternion", Transformation(V4(qa * 3.7), ta).q().norm(), 1, 1e-14, x);
  mon().near("tf/unit-quaternion-same", Transformation(V4(qa * 3.7), ta).T(), A, 1e-13, x);
  mon().near("tf/from-matrix", Transformation(A).T(), A, 1e-12, x);
  Transformation s; mon().near("tf/default-identity", s.T(), M4::Identity(), 0, x);
  s.set(A); mon().near("tf/set", s.T(), A, 1e-12, x); s.setIdentity(); mon().near("tf/setIdentity", s.T(), M4::Identity(), 0, x);
  mon().near("tf/compose", (a * b).T(), A * Bm, 1e-12, x);
  mon().near("tf/associative", ((a * b) * c).T(), (a * (b * c)).T(), 1e-12, x);
  mon().near("tf/inverse", a.inverse().T() * A, M4::Identity(), 1e-12, x);
  mon().near("tf/inverse-right", (a * a.inverse()).T(), M4::Identity(), 1e-12, x);
  V3 p = sv3(rng, 20); V4 ph = rng.gvec(4, 3); if (rng.b(0.2)) ph[3] = 0;
  V4 p1(p[0], p[1], p[2], 1);
  mon().near("tf/point", a * p, (A * p1).head<3>(), 1e-12, x);
  mon().near("tf/homogeneous", a * ph, A * ph, 1e-12, x);
  mon().near("tf/homogeneous-point", (a * HomogeneousPoint(ph)).toHomogeneous(), A * ph, 1e-12, x);
  mon().near("tf/rotate3", a.rotate(p), a.C() * p, 1e-12, x);
  V4 rot4 = a.rotate(ph); mon().near("tf/rotate4", rot4.head<3>(), a.C() * ph.head<3>(), 1e-12, x); mon().near("tf/rotate4-w", rot4[3], ph[3], 0, x);
  // increments
  V6 d = rng.vec(6, 1e-4);
  Transformation u = a; u.oplus(d);
  mon().near("tf/oplus-t", u.t(), ta + d.head<3>(), 1e-14, x);
  mon().near("tf/oplus-q", u.q(), qplus(axisAngle2quat(d.tail<3>()), a.q()), 1e-14, x);
  Eigen::MatrixXd Sn = numDiff([&](const Eigen::VectorXd& e) { Transformation w = a; w.oplus(V6(e)); return Eigen::VectorXd(incr(w.T() * inverseTransform(A))); }, V6::Zero(), 1e-3);
  mon().near("tf/S", a.S(), Sn, 1e-8, x);
  Transformation r; double tm = rng.u(0.1, 5), rm = rng.u(0.1, 3);
  r.setRandom(tm, rm);
  mon().check("tf/random-bounds", r.t().norm() <= tm * (1 + 1e-12) && quat2AxisAngle(V4(r.q() / r.q().norm())).norm() <= rm * (1 + 1e-12), "t " + str(r.t().norm()) + " max " + str(tm));
  r.setRandom(); mon().near("tf/random-unit", r.q().norm(), 1, 1e-12);
  mon().check("tf/binary-equal", a.isBinaryEqual(a) && !a.isBinaryEqual(b), x);
}

VF_GROUP(matrixforms, 2000, 100000) {
  V4 q = rq(rng); V3 t = sv3(rng, 5); M4 T = mk(q, t); V6 d = rng.vec(6); V4 p = rng.gvec(4, 2);
  std::string x = "T=" + mstr(T);
  mon().evaluation(hashm(T));
  mon().near("rt2Transform", rt2Transform(T.topLeftCorner<3, 3>(), t), T, 0, x);
  mon().near("transform2C", transform2C(T), T.topLeftCorner<3, 3>(), 0, x); mon().near("transform2rho", transform2rho(T), t, 0, x);
  mon().near("transform2rhoH", transform2rhoHomogeneous(T), T.col(3), 0, x);
  mon().near("inverseTransform", inverseTransform(T) * T, M4::Identity(), 1e-13, x);
  mon().near("boxPlus", boxPlus(d), B(d), 0, x);
  mon().near("boxMinus", boxMinus(p) * d, -B(d) * p, 1e-13, x);
  mon().near("boxTimes-adjoint", boxPlus(boxTimes(T) * d), T * B(d) * T.inverse(), 1e-11, x);
  V4 out; Eigen::Matrix<double, 4, 6> J;
  transformationAndJacobian(T, p, out, J);
  mon().near("transformationAndJacobian/value", out, T * p, 1e-13, x);
  Eigen::MatrixXd Jn = numDiff([&](const Eigen::VectorXd& e) { return Eigen::VectorXd((M4::Identity() - B(V6(e))) * T * p); }, V6::Zero(), 1e-3);
  mon().near("transformationAndJacobian/J", J, Jn, 1e-9, x);
  inverseTransformationAndJacobian(T, p, out, J);
  mon().near("inverseTransformationAndJacobian/value", out, inverseTransform(T) * p, 1e-13, x);
  Eigen::MatrixXd Jd = numDiff([&](const Eigen::VectorXd& e) { return Eigen::VectorXd(inverseTransform(T) * (M4::Identity() + B(V6(e))) * p); }, V6::Zero(), 1e-3);
  mon().near("inverseTransformationAndJacobian/J", J, Jd, 1e-8, x);
  V6 e; e << sv3(rng, 5), rng.u(-3, 3), rng.u(-1.5, 1.5), rng.u(-3, 3);
  mon().near("TEuler/roundtrip", fromTEuler(toTEuler(e)), e, 1e-10, mstr(e.transpose()));
  mon().near("TEuler/six", toTEuler(e[0], e[1], e[2], e[3], e[4], e[5]), toTEuler(e), 0, mstr(e.transpose()));
  mon().near("TEuler/matrix", toTEuler(fromTEuler(T)), T, 1e-6, x);
  // homogeneous coordinates
  V3 v = sv3(rng, 4); V4 h = rng.gvec(4, 2); if (std::fabs(h[3]) < 0.1) h[3] = 0.5;
  Eigen::Matrix<double, 4, 3> J43; Eigen::Matrix<double, 3, 4> J34;
  mon().near("toHomogeneous", toHomogeneous(v, &J43), V4(v[0], v[1], v[2], 1), 0, x);
  mon().near("toHomogeneous/J", J43, numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(toHomogeneous(y)); }, v), 1e-9, x);
  mon().near("fromHomogeneous", fromHomogeneous(h, &J34), h.head<3>() / h[3], 1e-13 * (1 + h.norm() / std::fabs(h[3])), x);
  Eigen::MatrixXd J34n = numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(fromHomogeneous(y)); }, h, 1e-3);
  mon().near("fromHomogeneous/J", J34, J34n, 1e-4, mstr(h.transpose())); mon().near("fromHomogeneousJacobian", fromHomogeneousJacobian(h), J34, 0, x);
  Eigen::MatrixXd M = rng.mat(rng.i(1, 4), rng.i(1, 6));
  Eigen::MatrixXd H = toHomogeneousColumns(M);
  mon().near("columns/roundtrip", fromHomogeneousColumns(H * 2.5), M, 1e-14); mon().near("columns/ones", H.bottomRows(1), Eigen::MatrixXd::Ones(1, M.cols()), 0);
  Eigen::Matrix3d NJ; V3 nv = v.norm() > 0.1 ? v : V3(1, 2, 3);
  mon().near("normalize", normalizeAndJacobian<3>(nv, NJ), nv / nv.norm(), 1e-15);
  mon().near("normalize/J", NJ, numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(y / y.norm()); }, nv, 1e-4), 1e-6);
}

VF_GROUP(interpolation, 2000, 100000) {
  Transformation a(rq(rng), sv3(rng, 5)), b(rq(rng), sv3(rng, 5));
  if (rng.b(0.2)) b = a;
  if (rng.b(0.2)) b = Transformation(V4(-a.q()), b.t());
  double s0 = rng.u(-5, 5), s1 = rng.u(-5, 5), f = rng.u();
  if (rng.b(0.2)) { f = rng.b() ? rng.u(-1, 0) : rng.u(1, 2); mon().tag("interp:outside"); }
  double si = s0 + f * (s1 - s0);
  std::string x = "s0=" + str(s0) + " s1=" + str(s1) + " si=" + str(si);
  mon().evaluation(hashm(a.q(), fnv(x)));
  Transformation r, w;
  try { r = interpolateTransformations(a, s0, b, s1, si); w = interpolateTransformations(b, s1, a, s0, si); }
  catch (const std::exception&) { mon().tag("interp:unit-norm-precondition"); return; }
  double g = std::min(1.0, std::max(0.0, f));
  mon().near("interp/translation", r.t(), a.t() + g * (b.t() - a.t()), 1e-10, x);
  mon().near("interp/symmetric-t", r.t(), w.t(), 1e-9, x);
  double h = std::fabs(a.q().dot(b.q()));
  if (h > 1e-6) {
    mon().near("interp/symmetric-C", r.C(), w.C(), 1e-6, x);
    auto ang = [](const V4& p, const V4& q) { V4 d = qplus(p, quatInv(q)); return 2 * std::atan2(d.head<3>().norm(), std::fabs(d[3])); };
    mon().near("interp/angle", ang(r.q(), a.q()), g * ang(b.q(), a.q()), 1e-7, x);
    mon().near("interp/angle-rest", ang(r.q(), b.q()), (1 - g) * ang(b.q(), a.q()), 1e-7, x);
  }
  Transformation s = slerpTransformations(a, b, g);
  mon().near("interp/slerp", s.T(), r.T(), 1e-7, x);
}

VF_GROUP(uncertain, 800, 40000) {
  V4 qa = rq(rng), qb = rq(rng); V3 ta = sv3(rng, 5), tb = sv3(rng, 5);
  M6 Ua = U6(rng), Ub = U6(rng);
  UncertainTransformation a(qa, ta, Ua), b(qb, tb, Ub); Transformation ca(qa, ta), cb(qb, tb);
  M4 A = mk(qa, ta), Bm = mk(qb, tb), I = M4::Identity();
  std::string x = "A=" + mstr(A) + " B=" + mstr(Bm);
  mon().evaluation(hashm(A, hashm(Bm)));
  if (caseno < 2) mon().sample(x);
  mon().near("ut/U", a.U(), Ua, 0, x);
  auto P = [&](const M4& T, const Eigen::VectorXd& e) { return M4((I - B(V6(e))) * T); };
  UncertainTransformation ab = a * b;
  mon().near("ut/compose-mean", ab.T(), A * Bm, 1e-12, x);
  M4 ABi = (A * Bm).inverse();
  Eigen::MatrixXd Ja = numDiff([&](const Eigen::VectorXd& e) { return Eigen::VectorXd(incr(P(A, e) * Bm * ABi)); }, V6::Zero(), 1e-3);
  Eigen::MatrixXd Jb = numDiff([&](const Eigen::VectorXd& e) { return Eigen::VectorXd(incr(A * P(Bm, e) * ABi)); }, V6::Zero(), 1e-3);
  cov("ut/compose", ab.U(), Ja * Ua * Ja.transpose() + Jb * Ub * Jb.transpose(), x);
  UncertainTransformation acb = a * cb; mon().near("ut/compose-certain-right-mean", acb.T(), A * Bm, 1e-12, x); cov("ut/compose-certain-right", acb.U(), Ja * Ua * Ja.transpose(), x);
  UncertainTransformation cab = ca * b; mon().near("ut/compose-certain-left-mean", cab.T(), A * Bm, 1e-12, x); cov("ut/compose-certain-left", cab.U(), Jb * Ub * Jb.transpose(), x);
  UncertainTransformation ai = a.inverse();
  mon().near("ut/inverse-mean", ai.T(), A.inverse(), 1e-11, x);
  cov("ut/inverse", ai.U(), prop([&](const Eigen::VectorXd& e) { return Eigen::VectorXd(incr(A.inverse() * (I + B(V6(e))) * A)); }, Ua), x);
  mon().near("ut/inverse-twice", ai.inverse().U(), Ua, 1e-8 * (1 + Ua.norm()), x);
  // covariance expressed in the oplus increment
  UncertainTransformation o = a; o.setUOplus(Ub); mon().near("ut/UOplus-roundtrip", o.UOplus(), Ub, 1e-8 * (1 + Ub.norm()) * 100, x);
  cov("ut/setUOplus", o.U(), prop([&](const Eigen::VectorXd& e) { Transformation w = ca; w.oplus(V6(e)); return Eigen::VectorXd(incr(w.T() * A.inverse())); }, Ub), x);
  o.setU(Ub); mon().near("ut/setU", o.U(), Ub, 0, x);
  UncertainTransformation dg(A, 0.3, 0.7); V6 dd; dd << .3, .3, .3, .7, .7, .7;
  mon().near("ut/diag-matrix", dg.U(), M6(dd.asDiagonal()), 0); mon().near("ut/diag-q", UncertainTransformation(qa, ta, 0.3, 0.7).U(), M6(dd.asDiagonal()), 0); mon().near("ut/diag-T", UncertainTransformation(ca, 0.3, 0.7).U(), M6(dd.asDiagonal()), 0);
  mon().near("ut/zero", UncertainTransformation(ca).U(), M6::Zero(), 0); mon().near("ut/zeroM", UncertainTransformation(A).U(), M6::Zero(), 0);
  mon().near("ut/toTransformation", a.toTransformation().T(), A, 1e-13, x);
  UncertainTransformation rn; rn.setRandom(); mon().check("ut/random-psd", psd(rn.U()), "");
  // points
  V4 p = rng.gvec(4, 2); Eigen::Matrix4d Up = semi(rng, 4, 0.1);
  UncertainHomogeneousPoint up(p, Up);
  Eigen::MatrixXd Up_exp = A * Up * A.transpose();
  Eigen::MatrixXd Ut_exp = prop([&](const Eigen::VectorXd& e) { return Eigen::VectorXd(P(A, e) * p); }, Ua);
  UncertainHomogeneousPoint r1 = a * up, r2 = a * HomogeneousPoint(p), r3 = ca * up;
  mon().near("ut/point-mean", r1.toHomogeneous(), A * p, 1e-12, x); mon().near("ut/point-mean2", r2.toHomogeneous(), A * p, 1e-12, x); mon().near("ut/point-mean3", r3.toHomogeneous(), A * p, 1e-12, x);
  cov("ut/point", r1.U4(), Up_exp + Ut_exp, x); cov("ut/certain-point", r2.U4(), Ut_exp, x); cov("ut/point-certain-tf", r3.U4(), Up_exp, x);
  UncertainVector3 uv(sv3(rng, 3), semi(rng, 3)); UncertainVector3 rv = ca.rotate(uv);
  mon().near("ut/rotate-mean", rv.mean(), C(qa) * uv.mean(), 1e-12); cov("ut/rotate", rv.covariance(), C(qa) * uv.covariance() * C(qa).transpose(), x);
}

static V4 plus(const V4& l, const V4& r, double s) { V4 o; o.head<3>() = l.head<3>() * r[3] + s * r.head<3>() * l[3]; o[3] = l[3] * r[3]; return o; }
VF_GROUP(points, 1500, 80000) {
  V4 l = rng.gvec(4, 2), r = rng.gvec(4, 2);
  if (rng.b(0.3)) l[3] = 1; if (rng.b(0.3)) r[3] = 1;
  if (std::fabs(l[3]) < 0.2) l[3] = 0.5; if (std::fabs(r[3]) < 0.2) r[3] = -0.7;
  Eigen::Matrix4d Ul = semi(rng, 4, 0.1), Ur = semi(rng, 4, 0.1);
  std::string x = "l=" + mstr(l.transpose()) + " r=" + mstr(r.transpose());
  mon().evaluation(hashm(l, hashm(r)));
  HomogeneousPoint hl(l), hr(r);
  mon().near("hp/toEuclidean", hl.toEuclidean(), l.head<3>() / l[3], 1e-12 * (1 + l.norm() / std::fabs(l[3])), x);
  mon().near("hp/plus", (hl + hr).toEuclidean(), hl.toEuclidean() + hr.toEuclidean(), 1e-10, x); mon().near("hp/minus", (hl - hr).toEuclidean(), hl.toEuclidean() - hr.toEuclidean(), 1e-10, x);
  HomogeneousPoint::euclidean_jacobian_t Je; HomogeneousPoint::homogeneous_jacobian_t Jh;
  mon().near("hp/toEuclideanJ-value", hl.toEuclideanAndJacobian(Je), hl.toEuclidean(), 1e-12, x);
  mon().near("hp/toEuclidean-J", Je, numDiff([&](const Eigen::VectorXd& e) { HomogeneousPoint w(l); w.oplus(e); return Eigen::VectorXd(w.toEuclidean()); }, V3::Zero(), 1e-3), 2e-4 * (1 + l.squaredNorm()), x);
  mon().near("hp/toHomogeneousJ-value", hl.toHomogeneousAndJacobian(Jh), l, 0, x);
  mon().near("hp/toHomogeneous-J", Jh, numDiff([&](const Eigen::VectorXd& e) { HomogeneousPoint w(l); w.oplus(e); return Eigen::VectorXd(w.toHomogeneous()); }, V3::Zero(), 1e-3), 1e-8, x);
  HomogeneousPoint w(l); w.oplus(sv3(rng)); mon().near("hp/oplus-norm", w.toHomogeneous().norm(), l.norm(), 1e-12, x);
  w = HomogeneousPoint(l); w.normalize(); mon().near("hp/normalize", w.toHomogeneous().norm(), 1, 1e-14); mon().near("hp/normalize-same-point", w.toEuclidean(), hl.toEuclidean(), 1e-10, x);
  w.setZero(); mon().near("hp/zero", w.toEuclidean(), V3::Zero(), 0); w = V3(1, 2, 3); mon().near("hp/assign3", w.toHomogeneous(), V4(1, 2, 3, 1), 0); w.set(l); mon().near("hp/set4", w.toHomogeneous(), l, 0); w.set(V3(r.head<3>())); mon().near("hp/set3", w.toEuclidean(), r.head<3>(), 0);
  mon().check("hp/infinity", !hl.atInfinity() && HomogeneousPoint(V4(1, 2, 3, 0)).atInfinity() && HomogeneousPoint(V4(1, 2, 3, 0)).isVector());
  w = HomogeneousPoint(l); w.scale(2); mon().near("hp/scale", w.toEuclidean(), 2 * hl.toEuclidean(), 1e-10);
  w.convertToVector(); mon().check("hp/convertToVector", w.atInfinity()); w.convertToPoint(); mon().near("hp/convertToPoint-dir", w.toEuclidean(), l.head<3>() / l.head<3>().norm(), 1e-13);
  expectThrow("hp/rejects-zero", [] { V4 z4 = V4::Zero(); HomogeneousPoint z(z4); }, "all-zero homogeneous point");
  // uncertain points
  UncertainHomogeneousPoint ul(l, Ul), ur(r, Ur);
  for (int s = -1; s <= 1; s += 2) {
    std::string k = s > 0 ? "uhp/plus" : "uhp/minus";
    Eigen::MatrixXd Jl = numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(plus(y, r, s)); }, l, 1e-3), Jr = numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(plus(l, y, s)); }, r, 1e-3);
    UncertainHomogeneousPoint o = s > 0 ? ul + ur : ul - ur;
    mon().near(k + "-mean", o.toHomogeneous(), plus(l, r, s), 1e-12, x); cov(k, o.U4(), Jl * Ul * Jl.transpose() + Jr * Ur * Jr.transpose(), x);
    UncertainHomogeneousPoint o1 = s > 0 ? ul + hr : ul - hr; mon().near(k + "-certain-mean", o1.toHomogeneous(), plus(l, r, s), 1e-12, x); cov(k + "-certain-rhs", o1.U4(), Jl * Ul * Jl.transpose(), x);
    UncertainHomogeneousPoint o2 = s > 0 ? hl + ur : hl - ur; mon().near(k + "-certain-lhs-mean", o2.toHomogeneous(), plus(l, r, s), 1e-12, x); cov(k + "-certain-lhs", o2.U4(), Jr * Ur * Jr.transpose(), x);
  }
  Eigen::Matrix<double, 3, 4> Jf; fromHomogeneous(l, &Jf);
  cov("uhp/U3", ul.U3(), Jf * Ul * Jf.transpose(), x);
  UncertainHomogeneousPoint un(l, Ul); un.normalize();
  cov("uhp/normalize", un.U4(), [&] { Eigen::MatrixXd J = numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(y / y.norm()); }, l, 1e-3); return Eigen::MatrixXd(J * Ul * J.transpose()); }(), x);
  Eigen::Matrix3d Uo = semi(rng, 3, 0.1); V4 lu = l / l.norm();
  UncertainHomogeneousPoint uo(lu, Uo); mon().near("uhp/oplus-roundtrip", uo.U_av_form(), Uo, 1e-10, x);
  cov("uhp/oplus", uo.U4(), prop([&](const Eigen::VectorXd& e) { HomogeneousPoint z(lu); z.oplus(e); return Eigen::VectorXd(z.toHomogeneous()); }, Uo), x);
  V3 r3v = r.head<3>(); UncertainHomogeneousPoint ue(r3v, Uo); mon().near("uhp/euclidean", ue.U3(), Uo, 1e-12, x); mon().near("uhp/euclidean-w", ue.U4().row(3), Eigen::RowVector4d::Zero(), 0);
  // uncertain vectors: first-order propagation
  V3 va = sv3(rng, 2), vb = sv3(rng, 2); M3 Ea = semi(rng, 3), Eb = semi(rng, 3); double sv = rng.u(0.3, 2) * (rng.b() ? 1 : -1), s2 = rng.u(0.1, 2);
  UncertainVector3 a(va, Ea), b(vb, Eb); UncertainVector<1> sc(sv, s2), sd(rng.u(0.5, 2), rng.u(0.1, 2)); M3 M = rng.mat(3, 3);
  auto chk = [&](const std::string& k, const UncertainVector3& o, const V3& m, const M3& E) { mon().near("uv/" + k + "-mean", o.mean(), m, 1e-12, x); cov("uv/" + k, o.covariance(), E, x); mon().near("uv/" + k + "-v", o.v(), o.mean(), 0); mon().near("uv/" + k + "-E", o.E(), o.covariance(), 0); };
  chk("add", a + b, va + vb, Ea + Eb); chk("sub", a - b, va - vb, Ea + Eb); chk("addc", a + vb, va + vb, Ea); chk("subc", a - vb, va - vb, Ea);
  chk("scale", a * sv, va * sv, Ea * sv * sv); chk("uscale", a * sc, va * sv, Ea * sv * sv + va * va.transpose() * s2); chk("uscale-left", sc * a, va * sv, Ea * sv * sv + va * va.transpose() * s2); chk("scalar-times-vector", sc * vb, vb * sv, vb * vb.transpose() * s2);
  chk("linear", M * a, M * va, M * Ea * M.transpose());
  if (va.norm() > 0.3) { M3 J = numDiff([&](const Eigen::VectorXd& y) { return Eigen::VectorXd(y / y.norm()); }, va, 1e-3); chk("normalized", a.normalized(), va / va.norm(), J * Ea * J.transpose()); UncertainVector3 n = a; n.normalize(); chk("normalize", n, va / va.norm(), J * Ea * J.transpose()); }
  UncertainVector<1> dt = a.dot(b), dc = a.dot(vb);
  mon().near("uv/dot", dt.v(), va.dot(vb), 1e-13); mon().near("uv/dot-var", dt.E(), vb.dot(Ea * vb) + va.dot(Eb * va), 1e-12); mon().near("uv/dotc", dc.v(), va.dot(vb), 1e-13); mon().near("uv/dotc-var", dc.E(), vb.dot(Ea * vb), 1e-12);
  auto c1 = [&](const std::string& k, const UncertainVector<1>& o, double m, double v) { mon().near("us/" + k, o.mean(), m, 1e-12, x); mon().near("us/" + k + "-var", o.covariance(), v, 1e-11, x); };
  double e = sd.v(), ev = sd.E();
  c1("add", sc + sd, sv + e, s2 + ev); c1("sub", sc - sd, sv - e, s2 + ev); c1("mul", sc * sd, sv * e, e * e * s2 + sv * sv * ev); c1("div", sc / sd, sv / e, s2 / (e * e) + sv * sv * ev / (e * e * e * e));
  c1("addc", sc + 2.0, sv + 2, s2); c1("subc", sc - 2.0, sv - 2, s2); c1("mulc", sc * 2.0, sv * 2, s2 * 4); c1("divc", sc / 2.0, sv / 2, s2 / 4); c1("dot", sc.dot(sd), sv * e, e * e * s2 + sv * sv * ev);
}
VF_MAIN
