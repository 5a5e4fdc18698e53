// C01: rotation representations.
#include "common.hpp"
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/three_point_methods.hpp>
#include <Eigen/Geometry>
#include <Eigen/LU>
using namespace vf;
using namespace sm::kinematics;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3;

// --- oracle, written from the definitions (passive convention: C = exp(-[p]x)) ---
static M3 cross(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static M3 passive(const V3& p) {
  long double a = std::sqrt((long double)p.squaredNorm());
  if (a == 0) return M3::Identity();
  M3 K = cross(p);
  long double s = std::sin(a) / a, h = std::sin(a / 2), c = 2 * h * h / (a * a);
  return M3::Identity() - double(s) * K + double(c) * K * K;
}
static V4 qOf(const V3& p) {
  long double a = std::sqrt((long double)p.squaredNorm());
  long double k = a < 1e-9 ? 0.5L - a * a / 48 : std::sin(a / 2) / a;
  return V4(double(p[0] * k), double(p[1] * k), double(p[2] * k), double(std::cos(a / 2)));
}
static void properRotation(const std::string& key, const M3& C, const std::string& x) {
  mon().near(key + "/orthonormal", C * C.transpose(), M3::Identity(), 1e-11, x);
  mon().near(key + "/det", C.determinant(), 1.0, 1e-11, x);
}
// rotation vectors in every regime, of angle below `amax`
static V3 rotvec(Rng& r, double amax = M_PI) {
  V3 d = r.dir();
  if (r.b(0.2)) { d.setZero(); d[r.i(0, 2)] = r.b() ? 1 : -1; }
  double a;
  switch (r.i(0, 6)) {
    case 0: a = std::pow(10., r.u(-14, -2)); mon().tag("angle:tiny"); break;
    case 1: a = 0; mon().tag("angle:zero"); break;
    case 2: a = amax - std::pow(10., r.u(-8, -1)); mon().tag("angle:near-limit"); break;
    case 3: a = M_PI / 2 + (r.b() ? 0 : std::pow(10., r.u(-12, -3))); mon().tag("angle:quarter"); break;
    case 4: a = std::pow(2.220446049250313e-16, .25) * r.u(0.3, 3); mon().tag("angle:series-switch"); break;
    default: a = r.u(0, amax); mon().tag("angle:generic");
  }
  a = std::min(a, amax);
  return d * a;
}
static V4 unitq(Rng& r) {
  if (r.b(0.5)) { V4 q = qOf(rotvec(r)); if (r.b()) q = -q; return q; }
  V4 q = r.gvec(4); return q / q.norm();
}

VF_GROUP(quaternions, 3000, 200000) {
  V4 a = unitq(rng), b = unitq(rng), c = unitq(rng);
  V3 v = rng.v3(5);
  std::string x = "a=" + mstr(a.transpose()) + " b=" + mstr(b.transpose());
  mon().evaluation(hashm(a, hashm(b)));
  if (caseno < 3) mon().sample("quaternion pair " + x);
  M3 Ca = quat2r(a), Cb = quat2r(b);
  properRotation("quat2r", Ca, x);
  mon().near("quat/homomorphism", quat2r(qplus(a, b)), Ca * Cb, 1e-13, x);
  mon().near("quat/associative", qplus(qplus(a, b), c), qplus(a, qplus(b, c)), 1e-14, x);
  mon().near("quat/plus-matrix", quatPlus(a) * b, qplus(a, b), 1e-15, x);
  mon().near("quat/oplus-matrix", quatOPlus(a) * b, qoplus(a, b), 1e-15, x);
  mon().near("quat/oplus-swaps", qoplus(a, b), qplus(b, a), 1e-15, x);
  mon().near("quat/inverse", qplus(a, quatInv(a)), quatIdentity(), 1e-14, x);
  mon().near("quat/identity", quat2r(quatIdentity()), M3::Identity(), 0, x);
  V4 ia = a; invertQuat(ia); mon().near("quat/invert-in-place", quat2r(ia), Ca.transpose(), 1e-14, x);
  mon().near("quat/rotate", quatRotate(a, v), Ca * v, 1e-13, x);
  mon().near("quat/parts", V4(qeps(a)[0], qeps(a)[1], qeps(a)[2], qeta(a)), a, 0, x);
  // matrix -> quaternion -> matrix and scalar part convention
  V4 ra = r2quat(Ca);
  mon().near("quat/r2quat-roundtrip", quat2r(ra), Ca, 1e-13, x);
  mon().near("quat/r2quat-unit", ra.norm(), 1.0, 1e-13, x);
  mon().check("quat/r2quat-nonneg-scalar", ra[3] >= 0, x);
  mon().check("quat/r2quat-same-up-to-sign", std::min((ra - a).norm(), (ra + a).norm()) < 1e-13, x);
  // tangent-space maps of the product
  V3 d = rng.v3(1e-3);
  mon().near("quat/update-is-left-product", updateQuat(a, d), qplus(axisAngle2quat(d), a), 1e-14, x);
  Eigen::MatrixXd J = numDiff([&](const Eigen::VectorXd& t) { return Eigen::VectorXd(updateQuat(a, t)); }, V3::Zero(), 1e-3);
  mon().near("quat/update-jacobian", quatJacobian(a), J, 1e-9, x);
  mon().near("quat/S-invS", quatS(a) * quatInvS(a), M3::Identity(), 1e-13, x);
  mon().near("quat/invS-is-update-jacobian", quatInvS(a), J, 1e-9, x);
  // interpolation: end points, unit norm, constant rate along the shortest path
  auto angleTo = [](const M3& A, const M3& B) { M3 D = A * B.transpose(); V3 w(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)); return std::atan2(w.norm() / 2, (D.trace() - 1) / 2); };
  double t = rng.u();
  V4 s0 = a, s1 = b;
  mon().near("slerp/start", qslerp(s0, s1, 0), s0, 0, x);
  mon().near("slerp/end", qslerp(s0, s1, 1), s1, 0, x);
  double full = angleTo(Ca, Cb);
  if (full < M_PI - 1e-6) {
    bool ok = true; V4 st;
    try { st = qslerp(s0, s1, t); } catch (const std::exception&) { ok = false; }  // debug precondition on rounding of the norm
    if (ok) {
      mon().near("slerp/unit", st.norm(), 1.0, 1e-13, x);
      mon().near("slerp/rate", angleTo(quat2r(st), Ca), t * full, 1e-7, x + " t=" + str(t));
      mon().near("slerp/rest", angleTo(quat2r(st), Cb), (1 - t) * full, 1e-7, x + " t=" + str(t));
    } else mon().tag("slerp:unit-norm-precondition");
  }
  mon().near("lerp", lerp(v, v * 3 + V3::Ones(), t), (1 - t) * v + t * (v * 3 + V3::Ones()), 1e-13, x);
}

VF_GROUP(explog, 4000, 200000) {
  V3 p = rotvec(rng, 2 * M_PI);
  V4 q = axisAngle2quat(p);
  double ang = p.norm();
  std::string x = "p=" + mstr(p.transpose()) + " |p|=" + str(ang);
  mon().evaluation(hashm(p), ang > 0);
  if (caseno < 3) mon().sample("rotation vector " + x);
  V4 qo = qOf(p);
  mon().near("exp/value-scalar", q[3], qo[3], 4e-16 * (1 + ang), x);
  mon().near("exp/value-vector", q.head<3>(), qo.head<3>(), 1e-15 * std::max(1e-300, ang), x);   // relative to the angle
  mon().near("exp/unit", q.norm(), 1, 4e-16, x);
  mon().near("exp/matrix", quat2r(q), passive(p), 1e-14, x);
  mon().near("exp/alias", qexp(p), q, 0, x);
  if (ang < 2 * M_PI - 1e-3) {
    V3 l = quat2AxisAngle(qo / qo.norm());
    mon().near("log/inverse-of-exp", l, p, 2e-14 * std::max(ang, 1e-300) / std::min(1.0, (2 * M_PI - ang)) , x);
    mon().near("log/alias", qlog(qo / qo.norm()), l, 0, x);
  }
  if (ang < M_PI * 1.9) {
    Eigen::MatrixXd Je = numDiff([&](const Eigen::VectorXd& t) { return Eigen::VectorXd(qOf(t)); }, p, 1e-3);
    mon().near("exp/jacobian", quatExpJacobian<double>(p), Je, 1e-8, x);
    // first-order increment of the exponential: exp(p+d) = exp(D d) exp(p)
    Eigen::Matrix<double, 3, 3> D = expDiffMat<double>(p);
    Eigen::MatrixXd Dn = numDiff([&](const Eigen::VectorXd& t) {
      M3 R = passive(t) * passive(p).transpose(); V3 w(R(1, 2) - R(2, 1), R(2, 0) - R(0, 2), R(0, 1) - R(1, 0)); return Eigen::VectorXd(w / 2); }, p, 1e-3);
    mon().near("exp/increment", D, Dn, 1e-8, x);
    if (ang < M_PI * 1.8) mon().near("log/increment-inverse", logDiffMat<double>(p) * D, M3::Identity(), 1e-8, x);
    V4 qn = qo / qo.norm();
    if (ang < M_PI * 1.8) {
      Eigen::Matrix<double, 3, 4> L2 = quatLogJacobian2<double>(qn);
      mon().near("log/jacobian2-inverts-exp", L2 * Je, M3::Identity(), 1e-7, x);
      if (ang > 1e-2) mon().near("log/jacobian-inverts-exp", quatLogJacobian(qn) * Je, M3::Identity(), 1e-7, x);
    }
    Eigen::Matrix<float, 3, 1> pf = p.cast<float>();
    if (ang < M_PI * 1.5) {
      mon().near("float/exp-increment", expDiffMat<float>(pf), D, 2e-3, x);
      mon().near("float/log-increment", logDiffMat<float>(pf), logDiffMat<double>(p), 2e-3, x);
      mon().near("float/exp-jacobian", quatExpJacobian<float>(pf), Je, 2e-3, x);
    }
  }
  M3 V; V << 0.5, 0, 0, 0, 0.5, 0, 0, 0, 0.5;
  Eigen::Matrix<double, 4, 3> QV = quatV<double>();
  mon().near("quatV", QV.topRows<3>(), V, 0, x); mon().near("quatV0", QV.row(3), Eigen::RowVector3d::Zero(), 0, x);
}

template <class K> static void kinematics(Rng& rng, const std::string& n, const V3& p, double rtTol, bool roundtrip) {
  K k; const RotationalKinematics& rk = k;
  std::string x = n + " p=" + mstr(p.transpose());
  M3 S, C = rk.parametersToRotationMatrix(p, &S);
  properRotation(n, C, x);
  mon().near(n + "/C-without-S", rk.parametersToRotationMatrix(p), C, 0, x);
  mon().near(n + "/S-two-ways", rk.parametersToSMatrix(p), S, 1e-15, x);
  if (roundtrip) {
    V3 p2 = rk.rotationMatrixToParameters(C);
    mon().near(n + "/roundtrip", rk.parametersToRotationMatrix(p2), C, rtTol, x + " p'=" + mstr(p2.transpose()));
  }
  // S: C(p+dp) = (1 - [S dp]x) C(p)
  Eigen::MatrixXd Sn = numDiff([&](const Eigen::VectorXd& t) {
    M3 D = rk.parametersToRotationMatrix(t) * C.transpose(); return Eigen::VectorXd(V3(D(1, 2) - D(2, 1), D(2, 0) - D(0, 2), D(0, 1) - D(1, 0)) / 2); }, p, 1e-3);
  double sc = 1 + p.squaredNorm();
  mon().near(n + "/S-matrix", S, Sn, 1e-7 * sc, x);
  // angular velocity and its derivative
  V3 pd = rng.v3(2);
  Eigen::Matrix<double, 3, 6> J;
  V3 w = rk.angularVelocityAndJacobian(p, pd, &J), w0 = rk.angularVelocityAndJacobian(p, pd, NULL);
  mon().near(n + "/omega", w, S * pd, 1e-13, x);
  mon().near(n + "/omega-without-J", w0, w, 0, x);
  Eigen::VectorXd pp(6); pp << p, pd;
  Eigen::MatrixXd Jn = numDiff([&](const Eigen::VectorXd& t) { return Eigen::VectorXd(rk.parametersToSMatrix(t.head<3>()) * t.tail<3>()); }, pp, 1e-3);
  mon().near(n + "/omega-jacobian", J, Jn, 1e-6 * sc, x + " pdot=" + mstr(pd.transpose()));
}
VF_GROUP(parameterizations, 3000, 100000) {
  // Euler angles: middle angle away from and close to gimbal lock
  V3 e(rng.u(-M_PI, M_PI), rng.u(-M_PI / 2, M_PI / 2), rng.u(-M_PI, M_PI));
  double rt = 1e-7;
  if (rng.b(0.2)) { e[1] = (rng.b() ? 1 : -1) * (M_PI / 2 - std::pow(10., rng.u(-9, -2))); mon().tag("euler:near-gimbal-lock"); }
  if (rng.b(0.1)) { e[1] = (rng.b() ? 1 : -1) * M_PI / 2; mon().tag("euler:gimbal-lock"); }
  if (rng.b(0.1)) { e[0] = 0; e[2] = 0; }
  mon().evaluation(hashm(e));
  if (caseno < 2) mon().sample("euler angles " + mstr(e.transpose()));
  kinematics<EulerAnglesZYX>(rng, "EulerZYX", e, rt, true);
  kinematics<EulerAnglesYawPitchRoll>(rng, "EulerYPR", e, rt, true);
  kinematics<EulerAnglesZXY>(rng, "EulerZXY", e, rt, true);
  V3 rv = rotvec(rng, M_PI - 1e-7);
  if (rng.b(0.7) || rv.norm() > 1e-3)
    kinematics<RotationVector>(rng, "RotationVector", rv, 1e-6, true);
  else {
    RotationVector k; M3 S, C = k.parametersToRotationMatrix(rv, &S);
    mon().near("RotationVector/small", C, passive(rv), 1e-15, mstr(rv.transpose()));
    mon().near("RotationVector/small-roundtrip", k.rotationMatrixToParameters(C), rv, 3e-8, mstr(rv.transpose()));
    mon().near("RotationVector/small-S", S, M3::Identity() - 0.5 * cross(rv), 1e-5, mstr(rv.transpose()));
  }
  {
    RotationVector k; 
    mon().near("RotationVector/vs-definition", k.parametersToRotationMatrix(rv), passive(rv), 1e-14, mstr(rv.transpose()));
    if (rv.norm() > 1e-2) mon().near("RotationVector/inverse-S", k.parametersToInverseSMatrix(rv) * k.parametersToSMatrix(rv), M3::Identity(), 1e-9, mstr(rv.transpose()));
    V3 h = rng.dir() * M_PI;  // half turns
    if (rng.b(0.3)) { h.setZero(); h[rng.i(0, 2)] = M_PI; }
    M3 H = 2 / (M_PI * M_PI) * h * h.transpose() - M3::Identity();
    mon().near("RotationVector/half-turn-roundtrip", k.parametersToRotationMatrix(k.rotationMatrixToParameters(H)), H, 1e-6, mstr(h.transpose()));
    mon().near("axisAngle/half-turn-roundtrip", axisAngle2R(R2AxisAngle(H)), H, 1e-6, mstr(h.transpose()));
  }
  V3 er = rng.dir() * std::tan(rotvec(rng, M_PI - 0.05).norm() / 2);
  if (rng.b(0.2)) er = rng.v3(1e-6);
  kinematics<EulerRodriguez>(rng, "EulerRodriguez", er, 1e-6, true);
  EulerRodriguez erk;
  mon().near("EulerRodriguez/vs-definition", erk.parametersToRotationMatrix(er), passive(er.norm() == 0 ? V3(er) : V3(er / er.norm() * 2 * std::atan(er.norm()))), 1e-13, mstr(er.transpose()));
}

// Extraction from rotation matrices that were composed, hence carry rounding errors.
VF_GROUP(composed, 4000, 200000) {
  M3 G; int kind = rng.i(0, 5);
  V3 a = rotvec(rng), b = rotvec(rng);
  if (kind == 0) { G = passive(a) * passive(a).transpose(); mon().tag("composed:identity"); }
  else if (kind == 1) { G = passive(a) * passive(b) * passive(b).transpose() * passive(a).transpose(); mon().tag("composed:identity4"); }
  else if (kind == 2) {  // gimbal lock of Z-Y-X sequences reached by composition
    M3 L = Rz(rng.u(-3, 3)) * Ry((rng.b() ? 1 : -1) * M_PI / 2) * Rx(rng.u(-3, 3)); G = passive(a) * (passive(a).transpose() * L); mon().tag("composed:lock-zyx"); }
  else if (kind == 3) {
    M3 L = Rz(rng.u(-3, 3)) * Rx((rng.b() ? 1 : -1) * M_PI / 2) * Ry(rng.u(-3, 3)); G = passive(a) * (passive(a).transpose() * L); mon().tag("composed:lock-zxy"); }
  else if (kind == 4) { V3 h = rng.dir(); G = passive(a) * (passive(a).transpose() * (2 * h * h.transpose() - M3::Identity())); mon().tag("composed:half-turn"); }
  else { G = passive(a) * passive(b); mon().tag("composed:generic"); }
  std::string x = "G=" + mstr(G) + " trace=" + str(G.trace());
  mon().evaluation(hashm(G));
  // angles are only determined to sqrt(eps) at the ends of asin/acos
  const double tol = 1e-6;
  auto rt = [&](const RotationalKinematics& k, const std::string& n) { mon().near("composed/" + n, k.parametersToRotationMatrix(k.rotationMatrixToParameters(G)), G, tol, x); };
  rt(EulerAnglesZYX(), "EulerZYX"); rt(EulerAnglesYawPitchRoll(), "EulerYPR"); rt(EulerAnglesZXY(), "EulerZXY");
  rt(RotationVector(), "RotationVector");
  if (G.trace() > -0.999) rt(EulerRodriguez(), "EulerRodriguez");
  mon().near("composed/rph", rph2R(R2rph(G)), G, tol, x);
  mon().near("composed/C-rph", rph2C(C2rph(G)), G, tol, x);
  mon().near("composed/quat", quat2r(r2quat(G)), G, 1e-12, x);
  mon().near("composed/axisAngle", axisAngle2R(R2AxisAngle(G)), G, tol, x);
}

VF_GROUP(rotations, 3000, 100000) {
  double a = rng.u(-10, 10), ax = rng.u(-3.1, 3.1), ay = rng.u(-1.57, 1.57), az = rng.u(-3.1, 3.1);
  V3 v = rng.v3(3), w = rng.v3(3);
  std::string x = "a=" + str(a);
  mon().evaluation(hashm(v, fnv(x)));
  M3 X = Eigen::AngleAxisd(a, V3::UnitX()).toRotationMatrix(), Y = Eigen::AngleAxisd(a, V3::UnitY()).toRotationMatrix(), Z = Eigen::AngleAxisd(a, V3::UnitZ()).toRotationMatrix();
  mon().near("Rx", Rx(a), X, 1e-15, x); mon().near("Ry", Ry(a), Y, 1e-15, x); mon().near("Rz", Rz(a), Z, 1e-15, x);
  mon().near("Cx", Cx(a), X.transpose(), 1e-15, x); mon().near("Cy", Cy(a), Y.transpose(), 1e-15, x); mon().near("Cz", Cz(a), Z.transpose(), 1e-15, x);
  V3 rph(ax, ay, az); x = "rph=" + mstr(rph.transpose());
  mon().near("rph2R", rph2R(rph), Rz(az) * Ry(ay) * Rx(ax), 1e-14, x);
  mon().near("rph2R-3", rph2R(ax, ay, az), rph2R(rph), 0, x);
  mon().near("rph2C", rph2C(rph), rph2R(-ax, -ay, -az), 0, x);
  mon().near("R2rph", rph2R(R2rph(rph2R(rph))), rph2R(rph), 1e-7, x);
  mon().near("C2rph", rph2C(C2rph(rph2C(rph))), rph2C(rph), 1e-7, x);
  if (std::fabs(ay) < 1.5) { mon().near("R2rph-angles", R2rph(rph2R(rph)), rph, 1e-12, x); mon().near("C2rph-angles", C2rph(rph2C(rph)), rph, 1e-12, x); }
  V3 p = rotvec(rng, M_PI - 1e-6);
  x = "p=" + mstr(p.transpose());
  mon().near("axisAngle2R", axisAngle2R(p), passive(p), 1e-11, x);
  mon().near("axisAngle2R-xyz", axisAngle2R(p[0], p[1], p[2]), axisAngle2R(p), 0, x);
  if (p.norm() > 1e-3) { V3 d = p / p.norm(); mon().near("axisAngle2R-angle-axis", axisAngle2R(p.norm(), d[0], d[1], d[2]), passive(p), 1e-13, x); }
  mon().near("R2AxisAngle", axisAngle2R(R2AxisAngle(passive(p))), passive(p), 1e-6, x);
  mon().near("crossMx", crossMx(v) * w, v.cross(w), 1e-14, x);
  mon().near("crossMx3", crossMx(v[0], v[1], v[2]), cross(v), 0, x);
  double big = rng.u(-1, 1) * std::pow(10., rng.u(-3, 6));
  double m = angleMod(big);
  mon().check("angleMod/range", m >= -M_PI - 1e-9 && m <= M_PI + 1e-9, "in " + str(big) + " out " + str(m));
  double turns = (big - m) / (2 * M_PI);
  mon().near("angleMod/congruent", turns, std::round(turns), 1e-9 * (1 + std::fabs(turns)), str(big));
  mon().near("deg2rad", deg2rad(big), big * M_PI / 180, 1e-12 * std::fabs(big)); mon().near("rad2deg", rad2deg(big), big * 180 / M_PI, 1e-12 * std::fabs(big) * 180);
}

// Alignment of point sets: the returned motion is proper and optimal.
VF_GROUP(alignment, 300, 20000) {
  int n = rng.i(3, 12), kind = rng.i(0, 3);
  M3 R = passive(rotvec(rng)); V3 t = rng.v3(5);
  Eigen::MatrixXd p1 = rng.mat(3, n, 2);
  if (kind == 1) { p1.row(2).setZero(); mon().tag("alignment:planar"); }
  else if (kind == 2) { mon().tag("alignment:noisy"); } else if (kind == 3) { mon().tag("alignment:reflected"); }
  Eigen::MatrixXd p0 = (R * p1).colwise() + t;
  if (kind == 2) p0 += rng.mat(3, n, 0.05);
  if (kind == 3) p0.row(0) *= -1;
  std::string x = "kind=" + str(kind) + " n=" + str(n);
  mon().evaluation(hashm(p0));
  Eigen::Matrix4d T = threePointSvd(p0, p1);
  M3 C = T.topLeftCorner<3, 3>();
  properRotation("threePointSvd", C, x);
  mon().near("threePointSvd/last-row", T.row(3), Eigen::RowVector4d(0, 0, 0, 1), 0, x);
  if (kind <= 1 && n >= 4) { mon().near("threePointSvd/rotation", C, R, 1e-7, x); mon().near("threePointSvd/translation", T.topRightCorner<3, 1>(), t, 1e-7, x); }
  auto cost = [&](const M3& Q, const V3& s) { return (p0 - ((Q * p1).colwise() + s)).squaredNorm(); };
  double c0 = cost(C, T.topRightCorner<3, 1>());
  for (int k = 0; k < 12; ++k) {
    double m = std::pow(10., -k / 4.0);
    mon().check("threePointSvd/optimal", cost(passive(rng.dir() * m) * C, T.topRightCorner<3, 1>() + rng.v3(m)) >= c0 - 1e-9, x);
    M3 Q = passive(rng.dir() * m) * C; V3 s = p0.rowwise().mean() - Q * p1.rowwise().mean();
    mon().check("threePointSvd/optimal-rot", cost(Q, s) >= c0 - 1e-9, x);
  }
  // weighted vector alignment (Wahba)
  Eigen::MatrixXd d1(3, n), d0(3, n); Eigen::VectorXd wgt(n);
  for (int i = 0; i < n; ++i) { d1.col(i) = rng.dir(); V3 e = R * d1.col(i) + (kind == 2 ? V3(rng.v3(0.1)) : V3(V3::Zero())); d0.col(i) = e / e.norm(); wgt[i] = rng.u(0.1, 4); }
  M3 Qm = qMethod(d0, d1, wgt), Qu = qMethod(d0, d1);
  properRotation("qMethod", Qm, x);
  if (kind != 2) { mon().near("qMethod/rotation", Qm, R, 1e-6, x); mon().near("qMethod/rotation-unweighted", Qu, R, 1e-6, x); }
  auto wc = [&](const M3& Q, bool u) { double s = 0; for (int i = 0; i < n; ++i) s += (u ? 1 : wgt[i]) * (d0.col(i) - Q * d1.col(i)).squaredNorm(); return s; };
  for (int k = 0; k < 12; ++k) {
    M3 P = passive(rng.dir() * std::pow(10., -k / 4.0));
    mon().check("qMethod/optimal", wc(P * Qm, false) >= wc(Qm, false) - 1e-9, x);
    mon().check("qMethod/optimal-unweighted", wc(P * Qu, true) >= wc(Qu, true) - 1e-9, x);
  }
}
VF_MAIN
