// C03: projection, back-projection, validity and masks of every camera model against independent formulas.
#include "camera_common.hpp"
#include <sm_kinematics/HomogeneousPoint.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
using namespace cam;

template <class C, class M> struct Checker {
  const C& c; const M& m; std::string n; const CameraGeometryBase& b;
  Checker(const C& c_, const M& m_, const std::string& n_) : c(c_), m(m_), n(n_), b(c_) {}

  void forward(Rng& r, const Eigen::Vector3d& p) {
    std::string in = m.str() + " p=" + mstr(p.transpose());
    double vm, im; bool vis = m.visible(p, vm); V2L kl = m.project(p); Eigen::Vector2d want = kl.cast<double>();
    bool fin = want.allFinite(), inside = fin && m.inImage(kl, im); bool expect = vis && inside;
    bool sure = std::abs(vm) > 1e-9 && (!vis || (fin && im > 1e-6));
    Eigen::Vector2d k(-7, -7); bool ok = c.euclideanToKeypoint(p, k);
    double scale = std::max(1.0, want.cwiseAbs().maxCoeff());
    double tol = (std::is_same<typename M::D, FovDistortion>::value ? 2e-5 : 1e-8) * scale / std::min(1.0, std::max(1e-6, std::abs(vm)));
    mon().tag(PT<typename C::projection_t>::name() + (expect ? "/visible" : vis ? "/outside-image" : "/unseen"));
    if (sure) mon().check("validityIsImageAndView/" + n, ok == expect, [&] { return in + " reported " + std::to_string(ok) + " expected " + std::to_string(expect) + " pixel " + mstr(want.transpose()); });
    if (ok) mon().check("validIsFinite/" + n, k.allFinite(), [&] { return in + " -> " + mstr(k.transpose()); });
    if (vis && fin && vm > 1e-4 && scale < 1e6) mon().near("projection/" + n, k, want, tol, in);
    // every variant of the projection agrees
    Eigen::Vector2d k2(-7, -7); Eigen::Matrix<double, 2, 3> J; bool ok2 = c.euclideanToKeypoint(p, k2, J);
    mon().check("withJacobianSame/" + n, ok2 == ok && (!ok || (k2 - k).norm() < 1e-9 * scale), [&] { return in + " " + mstr(k2.transpose()); });
    Eigen::VectorXd kv; Eigen::MatrixXd Jv; bool okv = b.vsEuclideanToKeypoint(p, kv);
    mon().check("virtualSame/" + n, okv == ok && (!ok || (kv.size() == 2 && kv == k)), in);
    Eigen::VectorXd kv2; bool okv2 = b.vsEuclideanToKeypoint(p, kv2, Jv);
    mon().check("virtualWithJacobianSame/" + n, okv2 == ok && (!ok || (kv2.size() == 2 && (kv2 - k).norm() < 1e-9 * scale)), in);
    mon().check("isVisibleSame/" + n, c.isEuclideanVisible(p) == ok && b.vsIsEuclideanVisible(p) == ok, in);
    for (double w : {1.0, -1.0, r.u(0.1, 5), -r.u(0.1, 5), 0.0}) {
      Eigen::Vector4d ph; ph << p, w; if (w < 0) ph.head<3>() *= -1;
      Eigen::Vector2d kh(-7, -7), kh2(-7, -7); Eigen::Matrix<double, 2, 4> J4; Eigen::VectorXd kx, kx2; Eigen::MatrixXd Jx;
      bool o1 = c.homogeneousToKeypoint(ph, kh), o2 = c.homogeneousToKeypoint(ph, kh2, J4), o3 = b.vsHomogeneousToKeypoint(ph, kx), o4 = b.vsHomogeneousToKeypoint(ph, kx2, Jx);
      mon().check("homogeneousSame/" + n, o1 == ok && o2 == ok && o3 == ok && o4 == ok && c.isHomogeneousVisible(ph) == ok && b.vsIsHomogeneousVisible(ph) == ok, [&] { return in + " w=" + std::to_string(w); });
      if (ok) mon().check("homogeneousPixelSame/" + n, (kh - k).norm() < 1e-9 * scale && (kh2 - k).norm() < 1e-9 * scale && (kx - k).norm() < 1e-9 * scale && (kx2 - k).norm() < 1e-9 * scale, [&] { return in + " w=" + std::to_string(w) + " " + mstr(kh.transpose()) + mstr(kh2.transpose()); });
    }
    // the library's homogeneous point types
    Eigen::Vector4d ph; ph << p, r.u(0.2, 3); ph.head<3>() *= ph[3];
    Eigen::Vector2d ku(-7, -7), kq(-7, -7); bool oq = c.homogeneousToKeypoint(sm::kinematics::HomogeneousPoint(ph), kq);
    Eigen::Matrix4d U4 = Eigen::Matrix4d(r.spd(4)); sm::kinematics::UncertainHomogeneousPoint up(ph, U4);
    Eigen::Matrix2d U; bool ou = static_cast<const C&>(c).homogeneousToKeypoint(up, ku, U);
    mon().check("pointTypesSame/" + n, oq == ok && ou == ok, in);
    if (ok) mon().check("pointTypesPixelSame/" + n, (kq - k).norm() < 1e-8 * scale && (ku - k).norm() < 1e-8 * scale, in);
    if (ok && scale < 1e5) {
      Eigen::Vector2d kt; Eigen::Matrix<double, 2, 4> J4; c.homogeneousToKeypoint(up.toHomogeneous(), kt, J4); Eigen::Matrix2d Uw = J4 * up.U4() * J4.transpose();
      mon().near("pointCovariance/" + n, U, Uw, 1e-9 * (1 + Uw.norm()), in);
    }
    if (expect && sure && vm > 0.02) backOf(r, p, k, in);
  }

  void backOf(Rng& r, const Eigen::Vector3d& p, const Eigen::Vector2d& k, const std::string& in) {
    V2L y = m.normalized(p); double rad = double(y.norm());
    if (rad > m.rmax * 0.98) { mon().tag("beyond-injective"); return; }
    L lm; bool lift = PT<typename C::projection_t>::liftable(toL(m.t), y.squaredNorm(), lm);
    if (double(lm) < 1e-3) { mon().tag("near-lift-limit"); return; }
    if (!lift) return;
    mon().tag("round-trip");
    Eigen::Vector3d q, dir = p.normalized(); bool ok = c.keypointToEuclidean(k, q);
    mon().check("visiblePixelBackProjects/" + n, ok && q.allFinite() && q.norm() > 0, [&] { return in + " k=" + mstr(k.transpose()) + " -> " + std::to_string(ok) + " " + mstr(q.transpose()); });
    if (!ok || !q.allFinite() || q.norm() == 0) return;
    double fmin = std::min(m.t[M::Off], m.t[M::Off + 1]); (void)fmin;
    Eigen::Vector3d qd = q.normalized();
    mon().near("directionRoundTrip/" + n, qd, dir, 1e-6, in + " k=" + mstr(k.transpose()));
    Eigen::Vector2d kk(-7, -7); bool ok3 = c.euclideanToKeypoint(q, kk);
    double im; m.inImage(V2L(k[0], k[1]), im);
    if (im > 1e-3) mon().check("pixelRoundTripValid/" + n, ok3, in + " k=" + mstr(k.transpose()));
    if (im > 1e-3 && ok3) mon().near("pixelRoundTrip/" + n, kk, k, 1e-4 + 5e-8 * m.t.tail(4).head(2).maxCoeff(), in);
    // variants
    if (std::is_same<typename M::D, FovDistortion>::value) { Eigen::VectorXd kf = k; Eigen::Vector3d qf; Eigen::Vector4d hf; mon().check("backProjectionVariants/" + n, b.vsKeypointToEuclidean(kf, qf) == ok && (qf - q).norm() < 1e-9 * q.norm() && c.keypointToHomogeneous(k, hf) == ok && (hf.head<3>() - q).norm() < 1e-9 * q.norm(), in); return; }   // the derivative of undoing this distortion is not implemented, the library refuses it
    Eigen::Vector3d q2; Eigen::Matrix<double, 3, 2> J; bool o2 = c.keypointToEuclidean(k, q2, J);
    Eigen::VectorXd kv = k, qv; Eigen::Vector3d q3; Eigen::MatrixXd Jv; bool o3 = b.vsKeypointToEuclidean(kv, q3);
    bool o4 = false, threw = false;
    try { o4 = b.vsKeypointToEuclidean(kv, qv, Jv); } catch (const std::exception&) { threw = true; }
    mon().check("backProjectionVariants/" + n, o2 == ok && o3 == ok && (q2 - q).norm() < 1e-9 * q.norm() && (q3 - q).norm() < 1e-9 * q.norm(), in);
    mon().check("backProjectionVirtualWithJacobian/" + n, !threw && o4 == ok && qv.size() == 3 && (qv - q).norm() < 1e-9 * q.norm(), in);
    Eigen::Vector4d h, h2; Eigen::Matrix<double, 4, 2> J4; Eigen::VectorXd hv, hv2; Eigen::MatrixXd J4v;
    bool p1 = c.keypointToHomogeneous(k, h), p2 = c.keypointToHomogeneous(k, h2, J4), p3 = b.vsKeypointToHomogeneous(kv, hv), p4 = b.vsKeypointToHomogeneous(kv, hv2, J4v);
    auto same = [&](const Eigen::VectorXd& v) { return v.size() == 4 && v.allFinite() && (v.head<3>().normalized() - qd).norm() < 1e-7 && v[3] >= 0; };
    mon().check("homogeneousBackProjection/" + n, p1 == ok && p2 == ok && p3 == ok && p4 == ok && same(h) && same(h2) && same(hv) && same(hv2), [&] { return in + mstr(h.transpose()) + mstr(h2.transpose()); });
    mon().check("homogeneousBackProjectionSameW/" + n, (h - h2).norm() < 1e-9 * (1 + h.norm()) && hv.size() == 4 && (h - hv).norm() < 1e-9 * (1 + h.norm()), in);
  }

  void validity(Rng& r) {
    const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
    auto near = [&](double e) { return std::vector<double>{e, std::nextafter(e, -inf), std::nextafter(e, inf), e - 0.5, e + 0.5, -0.0, 0.0, r.u(-1, 1) * 2 * e, nan, inf, -inf, -1e-300, 1e300}; };
    auto us = near(m.w), vs = near(m.h);
    for (double u : us) { Eigen::VectorXd k(2); k << u, r.pick(vs);
      bool e = k[0] >= 0 && k[0] < m.w && k[1] >= 0 && k[1] < m.h;
      mon().check("isValidIsInImage/" + n, c.projection().isValid(k) == e && c.isValid(Eigen::Vector2d(k)) == e && b.vsIsValid(k) == e, [&] { return m.str() + " k=" + mstr(k.transpose()); }); }
    // non finite and extreme points never give a valid non-finite pixel
    for (int i = 0; i < 12; ++i) {
      std::vector<double> pool{nan, inf, -inf, 0, 0, 1, -1, 1e300, 1e-320, 1e-160, -0.0};
      Eigen::Vector3d p(r.pick(pool), r.pick(pool), r.pick(pool)); Eigen::Vector2d k(nan, nan), k2(nan, nan); Eigen::Matrix<double, 2, 3> J;
      bool o = c.euclideanToKeypoint(p, k), o2 = c.euclideanToKeypoint(p, k2, J);
      mon().check("extremeNeverValidNonFinite/" + n, (!o || (k.allFinite() && k[0] >= 0 && k[0] < m.w && k[1] >= 0 && k[1] < m.h)) && (!o2 || k2.allFinite()), [&] { return m.str() + " p=" + mstr(p.transpose()) + " k=" + mstr(k.transpose()); });
      if (!p.allFinite() && (std::isnan(p[0]) || std::isnan(p[1]) || std::isnan(p[2]))) mon().check("nanNeverValid/" + n, !o && !o2, [&] { return m.str() + " p=" + mstr(p.transpose()); });
    }
    // pixels anywhere in the image (the principal point included): valid results are finite
    for (int i = 0; i < 8; ++i) {
      Eigen::Vector2d k(r.u(0, m.w), r.u(0, m.h)); if (i == 0) k << m.t[M::Off + 2], m.t[M::Off + 3]; if (i == 1) k << m.t[M::Off + 2], r.u(0, m.h); if (i == 2) k << 0, 0; if (i == 3) k = Eigen::Vector2d(m.t[M::Off + 2] + r.n() * 1e-6, m.t[M::Off + 3]);
      Eigen::Vector3d q, q2; Eigen::Matrix<double, 3, 2> J; bool o = c.keypointToEuclidean(k, q);
      mon().check("pixelValidIsFinite/" + n, !o || q.allFinite(), [&] { return m.str() + " k=" + mstr(k.transpose()) + " -> " + mstr(q.transpose()); });
      bool o2 = false; try { o2 = c.keypointToEuclidean(k, q2, J); } catch (const std::exception&) { continue; }
      if (i == 0) mon().check("pixelJacobianFinite/" + n, !o2 || (q2.allFinite() && J.allFinite()), [&] { return m.str() + " k=" + mstr(k.transpose()) + " J " + mstr(J); });
    }
    mon().check("size/" + n, b.width() == m.w && b.height() == m.h && b.keypointDimension() == 2, m.str());
  }
};

template <class P, bool MASK> struct Run {
  static void go(Rng& r) {
    typedef CameraGeometry<P, GlobalShutter, NoMask> C; typedef Model<P> M;
    M m = M::gen(r); C c(m.make()); Checker<C, M> k(c, m, PT<P>::name());
    mon().evaluation(m.hash());
    for (int i = 0; i < 12; ++i) k.forward(r, m.point(r));
    k.validity(r);
    if (r.b(0.3)) {   // rescaling the images rescales the projection
      double s = r.pick(std::vector<double>{0.5, 2, 0.25, 1, r.u(0.3, 3)}); P p2 = m.make(); p2.resizeIntrinsics(s);
      M m2 = m; m2.t.tail(4) *= s; m2.w = int(m.w * s); m2.h = int(m.h * s); C c2(p2); Checker<C, M> kk(c2, m2, PT<P>::name() + std::string("-resized"));
      for (int i = 0; i < 4; ++i) kk.forward(r, m2.point(r));
      mon().check("resizedSize", c2.width() == m2.w && c2.height() == m2.h, m.str());
    }
    sm_sample(m);
  }
  static void sm_sample(const Model<P>& m) { mon().sample(m.str(), 30); }
};
#define PROJ_GROUP(name, P) VF_GROUP(name, 260, 6000) { Run<P, false>::go(rng); }
PROJ_GROUP(pinhole_none, PinholeProjection<NoDistortion>)
PROJ_GROUP(pinhole_radtan, PinholeProjection<RadialTangentialDistortion>)
PROJ_GROUP(pinhole_equi, PinholeProjection<EquidistantDistortion>)
PROJ_GROUP(pinhole_fov, PinholeProjection<FovDistortion>)
PROJ_GROUP(omni_none, OmniProjection<NoDistortion>)
PROJ_GROUP(omni_radtan, OmniProjection<RadialTangentialDistortion>)
PROJ_GROUP(omni_equi, OmniProjection<EquidistantDistortion>)
PROJ_GROUP(omni_fov, OmniProjection<FovDistortion>)
PROJ_GROUP(eucm, ExtendedUnifiedProjection<NoDistortion>)
PROJ_GROUP(double_sphere, DoubleSphereProjection<NoDistortion>)

// ---------------------------------------------------------------- distortions on their own
template <class D> void distortionCase(Rng& r) {
  Eigen::VectorXd d = DT<D>::gen(r); D dist = DT<D>::make(d); double rm = injectiveRadius<D>(d); std::string n = DT<D>::name(), in = n + " d=" + mstr(d.transpose());
  mon().evaluation(hashm(d));
  for (int i = 0; i < 20; ++i) {
    double rad = r.pick(std::vector<double>{r.u(0, 1) * rm, r.u(0, 1) * std::min(1.0, rm), 1e-9, 1e-4, 3e-3, 0.0, r.u(0.9, 0.98) * rm}), a = r.u(0, 2 * M_PI); if (r.b(0.2)) a = M_PI / 2 * r.i(0, 3);
    Eigen::Vector2d y(rad * std::cos(a), rad * std::sin(a)), z = y, z2 = y, back; Eigen::Matrix2d J;
    dist.distort(z); dist.distort(z2, J); V2L w = DT<D>::f(toL(d), V2L(y[0], y[1])); Eigen::Vector2d want = w.cast<double>();
    std::string s = in + " y=" + mstr(y.transpose());
    mon().near("distort/" + n, z, want, (std::is_same<D, FovDistortion>::value ? 2e-5 * rad : 0) + 1e-12, s);
    mon().near("distortWithJacobian/" + n, z2, z, 1e-14, s);
    back = z; dist.undistort(back);
    mon().near("undistortInverts/" + n, back, y, 2e-7 * (1 + rad * rad), s);
  }
}
VF_GROUP(dist_none, 60, 500) { distortionCase<NoDistortion>(rng); }
VF_GROUP(dist_radtan, 300, 8000) { distortionCase<RadialTangentialDistortion>(rng); }
VF_GROUP(dist_equi, 300, 8000) { distortionCase<EquidistantDistortion>(rng); }
VF_GROUP(dist_fov, 300, 8000) { distortionCase<FovDistortion>(rng); }

// ---------------------------------------------------------------- masks
template <class P> void maskCase(Rng& r) {
  typedef CameraGeometry<P, RollingShutter, ImageMask> C; typedef Model<P> M;
  M m = M::gen(r); m.w = r.i(20, 120); m.h = r.i(20, 120); double s = m.w / (2.0 * m.t[M::Off + 2]); m.t[M::Off] = m.w * 0.5; m.t[M::Off + 1] = m.w * 0.45; m.t[M::Off + 2] = m.w * 0.5; m.t[M::Off + 3] = m.h * 0.4; (void)s;
  double scale = r.pick(std::vector<double>{1, 1, 0.5, 0.25, 2, r.u(0.3, 1.5)});
  int mw = std::max(1, int(std::ceil(m.w * scale))), mh = std::max(1, int(std::ceil(m.h * scale))); bool small = r.b(0.2); if (small) { mw = std::max(1, mw - 5); mh = std::max(1, mh - 3); }
  cv::Mat img(mh, mw, CV_8UC1); for (int a = 0; a < mh; ++a) for (int b = 0; b < mw; ++b) img.at<unsigned char>(a, b) = r.b(0.6) ? (r.b() ? 255 : 1) : 0;
  cv::Mat keep = img.clone(); ImageMask mask = r.b() ? ImageMask(img, scale) : ImageMask(); if (!mask.isSet()) { if (r.b()) mask.setMask(img); else { Eigen::MatrixXi e(mh, mw); for (int a = 0; a < mh; ++a) for (int b = 0; b < mw; ++b) e(a, b) = img.at<unsigned char>(a, b); mask.setMaskFromMatrix(e); } mask.setScale(scale); }
  img.setTo(0);   // the mask keeps its own copy
  C c(m.make(), RollingShutter(1e-4), mask); const CameraGeometryBase& b = c; std::string n = PT<P>::name(), in = m.str() + " mask " + std::to_string(mw) + "x" + std::to_string(mh) + " scale " + std::to_string(scale);
  mon().evaluation(hmix(m.hash(), mw * 1000 + mh));
  auto masked = [&](const Eigen::Vector2d& k) { int a = int(std::floor(k[1] * scale)), d = int(std::floor(k[0] * scale)); return a >= 0 && a < mh && d >= 0 && d < mw && keep.at<unsigned char>(a, d) > 0; };
  mon().check("maskSet", c.mask().isSet() && c.mask().getScale() == scale, in);
  Eigen::MatrixXi back = c.mask().getMaskAsMatrix(); bool eq = back.rows() == mh && back.cols() == mw; if (eq) for (int a = 0; a < mh; ++a) for (int d = 0; d < mw; ++d) eq = eq && back(a, d) == keep.at<unsigned char>(a, d);
  mon().check("maskKept", eq, in);
  for (int i = 0; i < 60; ++i) {
    Eigen::Vector2d k(r.u(-0.3, 1.3) * m.w, r.u(-0.3, 1.3) * m.h); if (r.b(0.15)) k[0] = m.w; if (r.b(0.15)) k[1] = m.h; if (r.b(0.1)) k[0] = std::nextafter(double(m.w), 0); if (r.b(0.03)) k[0] = std::nan(""); if (r.b(0.1)) k = Eigen::Vector2d(r.i(0, m.w - 1), r.i(0, m.h - 1)); if (r.b(0.05)) k[1] = -1e9;
    double im = 0; bool inside = k.allFinite() && m.inImage(V2L(k[0], k[1]), im); bool e = inside && masked(k); double fu = k[0] * scale, fv = k[1] * scale;
    if (inside && (std::abs(fu - std::round(fu)) < 1e-9 || std::abs(fv - std::round(fv)) < 1e-9) && scale != 1 && scale != 0.5 && scale != 0.25 && scale != 2) continue;
    mon().check("maskedPixelValid", b.vsIsValid(k) == e && c.isValid(k) == e, [&] { return in + " k=" + mstr(k.transpose()) + " expected " + std::to_string(e); });
    mon().tag(!inside ? "mask/outside" : e ? "mask/kept" : "mask/removed");
    if (!inside) continue;
    Eigen::Vector3d q; C nomask(m.make()); P pr = m.make(); bool ok = pr.keypointToEuclidean(k, q), okm = c.keypointToEuclidean(k, q); Eigen::Vector3d q2; bool okv = b.vsKeypointToEuclidean(Eigen::VectorXd(k), q2);
    mon().check("maskedBackProjection", okm == (ok && e) && okv == okm, [&] { return in + " k=" + mstr(k.transpose()); });
  }
  for (int i = 0; i < 30; ++i) {
    Eigen::Vector3d p = m.point(r); P pr = m.make(); Eigen::Vector2d k; bool ok = pr.euclideanToKeypoint(p, k); bool e = ok && masked(k);
    Eigen::Vector2d k2; Eigen::VectorXd kv; Eigen::Vector4d ph; ph << p, 1;
    mon().check("maskedProjection", c.euclideanToKeypoint(p, k2) == e && b.vsEuclideanToKeypoint(p, kv) == e && c.isEuclideanVisible(p) == e && c.isHomogeneousVisible(ph) == e && c.homogeneousToKeypoint(ph, k2) == e, [&] { return in + " p=" + mstr(p.transpose()); });
    mon().check("maskedVisibility", b.vsIsEuclideanVisible(p) == e && b.vsIsHomogeneousVisible(ph) == e, [&] { return in + " p=" + mstr(p.transpose()) + " expected " + std::to_string(e); });
  }
}
VF_GROUP(mask_pinhole, 60, 1500) { maskCase<PinholeProjection<RadialTangentialDistortion>>(rng); }
VF_GROUP(mask_omni, 60, 1500) { maskCase<OmniProjection<EquidistantDistortion>>(rng); }

// random pixels and points a default camera hands out are what they claim to be
template <class P> void randomCase() {
  typedef CameraGeometry<P, GlobalShutter, NoMask> C; C c = C::getTestGeometry(); mon().evaluation(0);
  for (int i = 0; i < 20; ++i) {
    Eigen::VectorXd k = c.createRandomKeypoint(); mon().check("randomKeypointValid", k.size() == 2 && k.allFinite() && c.isValid(k), [&] { return PT<P>::name() + " k=" + mstr(k.transpose()); });
    Eigen::Vector3d p = c.createRandomVisiblePoint(); Eigen::Vector2d kk; mon().check("randomPointVisible", p.allFinite() && c.euclideanToKeypoint(p, kk), [&] { return PT<P>::name() + " p=" + mstr(p.transpose()); });
    p = c.createRandomVisiblePoint(7.5); mon().near("randomPointDepth", p.norm(), 7.5, 1e-9);
  }
}
VF_GROUP(random_points, 5, 50) {
  randomCase<PinholeProjection<NoDistortion>>(); randomCase<PinholeProjection<RadialTangentialDistortion>>(); randomCase<PinholeProjection<EquidistantDistortion>>();
  randomCase<OmniProjection<NoDistortion>>(); randomCase<ExtendedUnifiedProjection<NoDistortion>>(); randomCase<DoubleSphereProjection<NoDistortion>>();
}

VF_MAIN
