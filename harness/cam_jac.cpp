// C04: Jacobians of cameras, projections, distortions and shutters against the derivatives of independent formulas; parameter vectors.
#include "camera_common.hpp"
using namespace cam;

template <class C, class M> void jacobians(Rng& r, const C& c, const M& m, const std::string& n, double line) {
  typedef typename C::projection_t P; const CameraGeometryBase& b = c; const int NP = M::NP, ND = M::ND, NS = c.minimalDimensionsShutter();
  const bool fov = std::is_same<typename M::D, FovDistortion>::value; const double rel = fov ? 1e-4 : 1e-6;
  mon().check("dimensions/" + n, b.minimalDimensionsProjection() == NP && b.minimalDimensionsDistortion() == ND && b.minimalDimensions(true, true, true) == NP + ND + NS && b.minimalDimensions(false, true, false) == ND && b.minimalDimensions(true, false, false) == NP && b.minimalDimensions(false, false, false) == 0 && b.minimalDimensions(false, false, true) == NS, m.str());
  for (int i = 0; i < 8; ++i) {
    Eigen::Vector3d p = m.point(r); double vm; if (!m.visible(p, vm) || vm < 0.02) continue;
    V2L kl = m.project(p); if (!(kl.norm() < 1e6)) continue;
    std::string in = m.str() + " p=" + mstr(p.transpose());
    bool atCentre = m.normalized(p).norm() < 2e-8 && std::is_same<typename M::D, EquidistantDistortion>::value;
    mon().tag("jacobian-points");
    Eigen::Vector2d k; Eigen::Matrix<double, 2, 3> J; c.euclideanToKeypoint(p, k, J);
    Eigen::MatrixXd Jw = m.dPoint(p); double s = rel * (1 + Jw.cwiseAbs().maxCoeff());
    mon().near("pointJacobian/" + n, J, Jw, s, in);
    Eigen::VectorXd kv; Eigen::MatrixXd Jv; b.vsEuclideanToKeypoint(p, kv, Jv); mon().near("pointJacobianVirtual/" + n, Jv, J, 1e-12 * (1 + J.norm()), in);
    for (double w : {r.u(0.1, 2), -r.u(0.1, 2)}) {
      Eigen::Vector4d ph; ph << (w < 0 ? -1 : 1) * p, w; Eigen::Matrix<double, 2, 4> J4; Eigen::MatrixXd J4w(2, 4); J4w << (w < 0 ? -1 : 1) * Jw, Eigen::Vector2d::Zero();
      c.homogeneousToKeypoint(ph, k, J4); mon().near("homogeneousJacobian/" + n, J4, J4w, s, in + " w=" + std::to_string(w));
      Eigen::MatrixXd J4v; b.vsHomogeneousToKeypoint(ph, kv, J4v); mon().near("homogeneousJacobianVirtual/" + n, J4v, J4w, s, in + " w=" + std::to_string(w));
    }
    // intrinsics
    Eigen::MatrixXd Pw = m.dProj(p), Dw = m.dDist(p), Jp, Jd; double sp = rel * (1 + Pw.cwiseAbs().maxCoeff()), sd = (fov ? 3e-4 : 1e-6) * (1 + (ND ? Dw.cwiseAbs().maxCoeff() : 0));
    c.euclideanToKeypointIntrinsicsJacobian(p, Jp); mon().near("projectionParameterJacobian/" + n, Jp, Pw, sp, in);
    c.euclideanToKeypointDistortionJacobian(p, Jd); if (ND) mon().near("distortionParameterJacobian/" + n, Jd, Dw, sd, in);
    for (double w : {1.0, -0.7}) {
      Eigen::Vector4d ph; ph << (w < 0 ? -1 : 1) * p, w; Eigen::MatrixXd Hp, Hd;
      c.homogeneousToKeypointIntrinsicsJacobian(ph, Hp); mon().near("homogeneousProjectionParameterJacobian/" + n, Hp, Pw, sp, in);
      c.homogeneousToKeypointDistortionJacobian(ph, Hd); if (ND) mon().near("homogeneousDistortionParameterJacobian/" + n, Hd, Dw, sd, in);
    }
    for (int sel = 0; sel < 8; ++sel) {
      bool ep = sel & 1, ed = sel & 2, es = sel & 4; Eigen::MatrixXd A, B, T; Eigen::Vector4d ph; ph << p, 1; if (r.b()) ph *= -r.u(0.5, 2);
      int N = (ep ? NP : 0) + (ed ? ND : 0) + (es ? NS : 0); Eigen::MatrixXd W = Eigen::MatrixXd::Zero(2, N); if (ep) W.leftCols(NP) = Pw; if (ed && ND) W.middleCols(ep ? NP : 0, ND) = Dw;
      b.euclideanToKeypointIntrinsicsJacobian(p, A, ep, ed, es); b.homogeneousToKeypointIntrinsicsJacobian(ph, B, ep, ed, es);
      std::string si = in + " selected " + std::to_string(sel); double ss = std::max(sp, sd);
      mon().check("selectedJacobianSize/" + n, A.rows() == 2 && A.cols() == N && B.rows() == 2 && B.cols() == N, si);
      if (N && A.cols() == N && B.cols() == N) { mon().near("selectedJacobian/" + n, A, W, ss, si); mon().near("selectedHomogeneousJacobian/" + n, B, W, ss, si); }
      Eigen::VectorXd kk = kv; kk[1] = r.u(0, m.h); b.temporalOffsetIntrinsicsJacobian(kk, T, ep, ed, es); Eigen::MatrixXd Tw = Eigen::MatrixXd::Zero(1, N); if (es && NS) Tw(0, N - 1) = kk[1];
      mon().check("temporalJacobianSize/" + n, T.rows() == 1 && T.cols() == N, si); if (N && T.cols() == N) mon().near("temporalJacobian/" + n, T, Tw, 1e-9 * (1 + kk[1]), si);
      double off = b.vsTemporalOffset(kk).toSec(); mon().near("temporalOffset/" + n, off, NS ? line * kk[1] : 0.0, 1e-9, si); mon().near("temporalOffsetSame/" + n, b.temporalOffset(kk).toSec(), off, 1e-12, si);
    }
    (void)atCentre;
    // back-projection
    V2L y = m.normalized(p); L lm; bool lift = PT<P>::liftable(toL(m.t), y.squaredNorm(), lm);
    if (!lift || double(lm) < 0.05 || double(y.norm()) > 0.95 * m.rmax || double(y.norm()) > 3 || fov) continue;
    Eigen::Vector2d kp = kl.template cast<double>(); Eigen::Vector3d q; Eigen::Matrix<double, 3, 2> Jk;
    c.keypointToEuclidean(kp, q, Jk);
    auto f = [&](const Eigen::VectorXd& x) { Eigen::Vector3d o; c.keypointToEuclidean(Eigen::Vector2d(x), o); return Eigen::VectorXd(o); };
    double h = 1e-4 * m.t[M::Off]; Eigen::MatrixXd Jkw = numDiff(f, kp, h); double sk = 2e-5 * (Jkw.norm() + 1.0 / m.t[M::Off]) / std::min(1.0, double(lm)) * (1 + double(y.squaredNorm()));
    if (std::abs(kp[0] - m.t[M::Off + 2]) + std::abs(kp[1] - m.t[M::Off + 3]) < 4 * h && std::is_same<typename M::D, EquidistantDistortion>::value) sk = 1e-2 * Jkw.norm();
    mon().near("backProjectionJacobian/" + n, Jk, Jkw, sk, in);
    Eigen::VectorXd kx = kp, qx; Eigen::MatrixXd Jx; b.vsKeypointToEuclidean(kx, qx, Jx); mon().near("backProjectionJacobianVirtual/" + n, Jx, Jk, 1e-12 * (1 + Jk.norm()), in);
    Eigen::Vector4d q4; Eigen::Matrix<double, 4, 2> J42; c.keypointToHomogeneous(kp, q4, J42); Eigen::MatrixXd J42w(4, 2); J42w << Jkw, 0, 0;
    mon().near("homogeneousBackProjectionJacobian/" + n, J42, J42w, sk, in);
    mon().tag("back-projection-jacobian");
  }
}

template <class S> struct ST;
template <> struct ST<GlobalShutter> { static GlobalShutter make(double) { return GlobalShutter(); } };
template <> struct ST<RollingShutter> { static RollingShutter make(double l) { return RollingShutter(l); } };

template <class P, class S> void camCase(Rng& r) {
  typedef CameraGeometry<P, S, NoMask> C; typedef Model<P> M; typedef typename M::D D; const bool rs = std::is_same<S, RollingShutter>::value; const int NP = M::NP, ND = M::ND, NS = rs ? 1 : 0;
  M m = M::gen(r); double line = r.u(0, 1e-3); C c(m.make(), ST<S>::make(line)); std::string n = PT<P>::name() + (rs ? "-rs" : "");
  mon().evaluation(m.hash()); mon().sample(n + " " + m.str(), 40);
  jacobians(r, c, m, n, line);
  // a history of reading, updating and writing parameters
  M cur = m; double curLine = line;
  auto want = [&](bool ep, bool ed, bool es) { std::vector<double> v; if (ep) for (int k = 0; k < NP; ++k) v.push_back(cur.t[k]); if (ed) for (int k = 0; k < ND; ++k) v.push_back(cur.d[k]); if (es && NS) v.push_back(curLine); return v; };
  for (int step = 0; step < 6; ++step) {
    bool ep = r.b(), ed = r.b(), es = r.b(); std::string s = n + " step " + std::to_string(step) + " p/d/s " + std::to_string(ep) + std::to_string(ed) + std::to_string(es);
    int N = (ep ? NP : 0) + (ed ? ND : 0) + (es ? NS : 0);
    M nx = M::gen(r); nx.w = cur.w; nx.h = cur.h; double nl = r.u(0, 1e-3);
    if (r.b()) {   // update by an increment
      std::vector<double> dv; double guard = 1e9;
      if (ep) for (int k = 0; k < NP; ++k) { dv.push_back(nx.t[k] - cur.t[k]); nx.t[k] = cur.t[k] + dv.back(); } else nx.t = cur.t;
      if (ed) for (int k = 0; k < ND; ++k) { dv.push_back(nx.d[k] - cur.d[k]); nx.d[k] = cur.d[k] + dv.back(); } else nx.d = cur.d;
      if (es && NS) { dv.push_back(nl - curLine); nl = curLine + dv.back(); } else nl = curLine;
      if (std::is_same<D, FovDistortion>::value && ed && !(std::abs(nx.d[0]) < 1e-16 || (nx.d[0] >= 0.5 && nx.d[0] <= 1.5))) { continue; }
      dv.push_back(guard); double* heap = new double[dv.size() - 1]; for (size_t k = 0; k + 1 < dv.size(); ++k) heap[k] = dv[k];
      c.update(heap, ep, ed, es); delete[] heap; mon().tag("update");
    } else {
      Eigen::MatrixXd X(std::max(N, 1), 1); X.setZero(); int k = 0;
      if (ep) for (int q = 0; q < NP; ++q) X(k++, 0) = nx.t[q]; else nx.t = cur.t;
      if (ed) for (int q = 0; q < ND; ++q) X(k++, 0) = nx.d[q]; else nx.d = cur.d;
      if (es && NS) X(k++, 0) = nl; else nl = curLine;
      c.setParameters(X, ep, ed, es); mon().tag("setParameters");
    }
    cur = nx; cur.rmax = injectiveRadius<D>(cur.d); curLine = nl;
    for (int sel = 0; sel < 8; ++sel) {
      bool a = sel & 1, d = sel & 2, e = sel & 4; Eigen::MatrixXd G; c.getParameters(G, a, d, e); std::vector<double> w = want(a, d, e);
      bool ok = size_t(G.rows()) == w.size() && (w.empty() || G.cols() == 1); if (ok) for (size_t k = 0; k < w.size(); ++k) ok = ok && G(k, 0) == w[k];
      mon().check("parametersReadBack/" + n, ok, [&] { return s + " selection " + std::to_string(sel) + " got " + mstr(G.transpose()); });
    }
    // behaves like a newly constructed camera
    C fresh(cur.make(), ST<S>::make(curLine)); Eigen::VectorXd kk(2); kk << 3, r.u(0, cur.h);
    mon().check("updatedIsEqualToNew/" + n, c.projection().isBinaryEqual(fresh.projection()) && c.shutter().isBinaryEqual(fresh.shutter()), s);
    for (int q = 0; q < 4; ++q) {
      Eigen::Vector3d p = cur.point(r); Eigen::Vector2d k1(0, 0), k2(0, 0); Eigen::Matrix<double, 2, 3> J1, J2; J1.setZero(); J2.setZero();
      bool o1 = c.euclideanToKeypoint(p, k1, J1), o2 = fresh.euclideanToKeypoint(p, k2, J2); auto eqm = [](const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { for (int z = 0; z < a.size(); ++z) if (!(a.data()[z] == b.data()[z] || (std::isnan(a.data()[z]) && std::isnan(b.data()[z])))) return false; return true; };
      mon().check("updatedBehavesLikeNew/" + n, o1 == o2 && (!o1 || (eqm(k1, k2) && eqm(J1, J2))), [&] { return s + cur.str() + mstr(p.transpose()); });
      Eigen::Vector2d u(r.u(0, cur.w), r.u(0, cur.h)); Eigen::Vector3d q1(0, 0, 0), q2(0, 0, 0); o1 = c.keypointToEuclidean(u, q1); o2 = fresh.keypointToEuclidean(u, q2);
      mon().check("updatedBackProjectsLikeNew/" + n, o1 == o2 && (!o1 || eqm(q1, q2)), [&] { return s + cur.str() + mstr(u.transpose()); });
    }
    mon().check("updatedTemporalOffset/" + n, c.vsTemporalOffset(kk) == fresh.vsTemporalOffset(kk), s);
  }
  jacobians(r, c, cur, n, curLine);
  // the projection's and distortion's own parameter interface
  { P p = cur.make(); Eigen::MatrixXd G; p.getParameters(G); mon().check("projectionParameters/" + n, G.rows() == NP && G.cols() == 1 && G.col(0) == cur.t && p.parameterSize() == Eigen::Vector2i(NP, 1) && p.minimalDimensions() == NP, cur.str());
    D d = DT<D>::make(cur.d); d.getParameters(G); mon().check("distortionParameters/" + n, G.size() == ND && (ND == 0 || (G.col(0) == cur.d && d.parameterSize() == Eigen::Vector2i(ND, 1))) && d.minimalDimensions() == ND, cur.str());
    mon().check("distortionOfProjection/" + n, p.distortion().isBinaryEqual(d), cur.str()); }
}
#define CAM_GROUP(name, P) VF_GROUP(name, 110, 2500) { if (rng.b()) camCase<P, GlobalShutter>(rng); else camCase<P, RollingShutter>(rng); }
typedef PinholeProjection<NoDistortion> PN; typedef PinholeProjection<RadialTangentialDistortion> PR; typedef PinholeProjection<EquidistantDistortion> PE; typedef PinholeProjection<FovDistortion> PF;
typedef OmniProjection<NoDistortion> ON; typedef OmniProjection<RadialTangentialDistortion> OR_; typedef OmniProjection<EquidistantDistortion> OE; typedef OmniProjection<FovDistortion> OF;
CAM_GROUP(pinhole_none, PN) CAM_GROUP(pinhole_radtan, PR) CAM_GROUP(pinhole_equi, PE) CAM_GROUP(pinhole_fov, PF)
CAM_GROUP(omni_none, ON) CAM_GROUP(omni_radtan, OR_) CAM_GROUP(omni_equi, OE) CAM_GROUP(omni_fov, OF)
VF_GROUP(eucm, 110, 2500) { camCase<ExtendedUnifiedProjection<NoDistortion>, GlobalShutter>(rng); }
VF_GROUP(double_sphere, 110, 2500) { camCase<DoubleSphereProjection<NoDistortion>, GlobalShutter>(rng); }

// ---------------------------------------------------------------- distortions on their own
template <class D> void distCase(Rng& r) {
  Eigen::VectorXd d = DT<D>::gen(r); D dist = DT<D>::make(d); double rm = injectiveRadius<D>(d); std::string n = DT<D>::name(); const bool fov = std::is_same<D, FovDistortion>::value; const int ND = DT<D>::N;
  mon().evaluation(hashm(d));
  for (int i = 0; i < 15; ++i) {
    double rad = r.pick(std::vector<double>{r.u(0, 1) * rm, r.u(0, 1) * std::min(1.0, rm), 1e-9, 1e-4, 2e-3, 1e-2, 0.0}), a = r.u(0, 2 * M_PI); if (r.b(0.3)) a = M_PI / 2 * r.i(0, 3);
    Eigen::Vector2d y(rad * std::cos(a), rad * std::sin(a)), z = y; Eigen::Matrix2d J, Jw; std::string s = n + " d=" + mstr(d.transpose()) + " y=" + mstr(y.transpose());
    dist.distort(z, J); L h = 1e-6L;
    for (int k = 0; k < 2; ++k) { V2L p(y[0], y[1]), q = p; p[k] += h; q[k] -= h; Jw.col(k) = ((DT<D>::f(toL(d), p) - DT<D>::f(toL(d), q)) / (2 * h)).template cast<double>(); }
    mon().near("distortJacobian/" + n, J, Jw, (fov ? 8e-5 : 1e-7) * (1 + Jw.norm()), s);
    if (ND) { Eigen::MatrixXd Pj, Pw(2, int(ND)); dist.distortParameterJacobian(y, Pj);
      for (int k = 0; k < ND; ++k) { VL p = toL(d), q = p; p[k] += h; q[k] -= h; V2L yy(y[0], y[1]); Pw.col(k) = ((DT<D>::f(p, yy) - DT<D>::f(q, yy)) / (2 * h)).template cast<double>(); }
      if (!(fov && d[0] == 0)) mon().near("parameterJacobian/" + n, Pj, Pw, (fov ? 1e-4 * rad + 1e-9 : 1e-7) * (1 + Pw.norm()), s); }
    if (!fov && rad < 0.95 * rm) { Eigen::Vector2d u = z; Eigen::MatrixXd Ju(2, 2); dist.undistort(u, Ju); Eigen::Matrix2d I = Ju * Jw; mon().near("undistortJacobian/" + n, I, Eigen::Matrix2d::Identity(), 1e-4 * (1 + Ju.norm() * Jw.norm()), s); }
  }
}
VF_GROUP(dist_none, 30, 200) { distCase<NoDistortion>(rng); }
VF_GROUP(dist_radtan, 250, 6000) { distCase<RadialTangentialDistortion>(rng); }
VF_GROUP(dist_equi, 250, 6000) { distCase<EquidistantDistortion>(rng); }
VF_GROUP(dist_fov, 250, 6000) { distCase<FovDistortion>(rng); }

VF_MAIN
