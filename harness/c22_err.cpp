// C22: measurement error terms: residual, weighting and derivatives against an independent sensor model.
#include <Eigen/Dense>
#include "camera_common.hpp"
#include "expr_common.hpp"
#include <aslam_cv_error_terms/ReprojectionError.hpp>
#include <aslam_cv_error_terms/SimpleReprojectionError.hpp>
#include <aslam_cv_error_terms/CovarianceReprojectionError.hpp>
#include <aslam_cv_backend/CameraDesignVariable.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <kalibr/EuclideanError.hpp>
#include <kalibr/AccelerometerError.hpp>
#include <kalibr/GyroscopeError.hpp>
#include <sm_kinematics/RotationVector.hpp>
VF_MAIN
using namespace aslam::cameras; using aslam::cameras::GlobalShutter; using aslam::cameras::RollingShutter;
typedef Eigen::Vector2d V2; typedef Eigen::Matrix2d M2;
// like checkTerm, for large derivatives, and skipping variables without degrees of freedom
static void judge(ErrorTerm& e, const std::vector<DesignVariable*>& dvs, const MX& invR, std::function<VX()> res, const std::string& k, const std::string& how, double tol0 = 1e-9) {
  auto& m = mon(); VX want = res(); if (!want.allFinite() || want.norm() > 1e7) return; double c = e.evaluateError(); VX got = e.vsError(); if (got.size() != want.size()) { m.check(k + "/size", false, how); return; }
  m.near(k + "/residual", got, want, tol0 * (1 + want.norm() + 1000), "residual of " + how); double w = want.dot(invR * want); m.near(k + "/chi2", c, w, 1e-7 * (1 + std::abs(w)) + tol0 * 1e4 * (1 + invR.norm() * want.norm()), "squared error of " + how); m.near(k + "/chi2-raw", e.getRawSquaredError(), c, 0, "stored squared error of " + how);
  std::set<const DesignVariable*> mine, v; for (auto* x : dvs) if (x->minimalDimensions() > 0) mine.insert(x); size_t listed = 0; for (size_t i = 0; i < e.numDesignVariables(); ++i) { auto* d = e.designVariable(i); if (d->minimalDimensions() > 0) { v.insert(d); ++listed; } } m.check(k + "/variables", v == mine && listed == mine.size(), "variables of the error term of " + how);
  JacobianContainer jc(want.size()); e.evaluateJacobians(jc); JC j(jc); Item d; d.dim = want.size(); d.val = res; double all = 0;
  for (auto* x : dvs) { auto f = j.m.find(x); if (!x->isActive()) { m.check(k + "/inactive", f == j.m.end(), "derivative for an inactive variable of " + how); continue; } if (x->minimalDimensions() == 0) continue; gNoise = 0; MX N = numJ(d, x); double big = N.cwiseAbs().maxCoeff(); all = std::max(all, big); if (!N.allFinite() || !(gNoise < 2e-4 * (1 + big))) { m.tag("derivative skipped"); continue; }
    MX g = f == j.m.end() ? MX(MX::Zero(N.rows(), N.cols())) : f->second; if (g.rows() != N.rows() || g.cols() != N.cols()) { m.check(k + "/shape", false, "derivative of " + how); continue; } m.near(k + "/derivative", g, N, 1e-6 * (1 + big) + 5 * gNoise + 1e-7 * want.norm(), "derivative of the error term of " + how); }
  for (auto& x : j.m) m.check(k + "/foreign", mine.count(x.first) || x.first->minimalDimensions() == 0, "derivative for a foreign variable of " + how);
  m.near(k + "/weight", MX(e.vsInvR()), invR, 1e-12 * (1 + invR.norm()), "weight of " + how); VX we; e.getWeightedError(we, false); m.near(k + "/weighted-error", we.squaredNorm(), w, 1e-7 * (1 + std::abs(w)) + tol0 * 1e4 * (1 + invR.norm() * want.norm()), "weighted residual of " + how);
  JacobianContainer jw(want.size()); e.getWeightedJacobians(jw, false); JC k2(jw); m.check(k + "/weighted-variables", k2.m.size() == j.m.size(), how); for (auto& x : j.m) { if (!k2.m.count(x.first)) continue; MX a = k2.m[x.first].transpose() * k2.m[x.first], b = x.second.transpose() * invR * x.second; m.near(k + "/weighted-derivative", a, b, 1e-9 * (b.norm() + 1e-12), "weighted derivative of " + how); MX g = k2.m[x.first].transpose() * we, g0 = x.second.transpose() * invR * want; m.near(k + "/gradient", g, g0, 1e-7 * (g0.norm() + x.second.norm() * invR.norm() * (1 + want.norm()) * 1e-2), "gradient of " + how); }
  double hk = 0.5 + std::sqrt(std::abs(w)) * (1 + (want.size() + (int)dvs.size()) % 3) / 2; e.setMEstimatorPolicy(boost::shared_ptr<MEstimator>(new HuberMEstimator(hk))); double rw = std::sqrt(std::max(w, 0.0)) > hk ? hk / std::sqrt(w) : 1; if (std::abs(std::sqrt(std::max(w, 0.0)) - hk) > 1e-3 * hk) { m.near(k + "/robust-error", e.getWeightedSquaredError(), rw * w, 1e-6 * (1 + std::abs(w)), "robust error of " + how); e.getWeightedError(we, true); m.near(k + "/robust-residual", we.squaredNorm(), rw * w, 1e-6 * (1 + std::abs(w)), "robust residual of " + how); JacobianContainer jr(want.size()); e.getWeightedJacobians(jr, true); JC k3(jr); for (auto& x : j.m) if (k3.m.count(x.first)) { MX a = k3.m[x.first].transpose() * k3.m[x.first], b = rw * x.second.transpose() * invR * x.second; m.near(k + "/robust-derivative", a, b, 1e-6 * (b.norm() + 1e-12), "robustly weighted derivative of " + how); } } e.setMEstimatorPolicy(boost::shared_ptr<MEstimator>(new NoMEstimator));
  VX again = res(); m.near(k + "/repeatable", e.evaluateError(), again.dot(invR * again), 1e-7 * (1 + std::abs(c)) + tol0 * 1e4 * (1 + invR.norm() * want.norm()), "second evaluation of " + how);
}
static MX weight(Rng& r, int n) { MX s = r.spd(n); double c = r.pick(std::vector<double>{1, 1, 0.01, 25}); return c * s; }
// inertial and Euclidean terms
struct Imu {
  Rng& r; std::vector<std::shared_ptr<void>> keep; std::vector<DesignVariable*> dvs; explicit Imu(Rng& r) : r(r) {}
  template <class T> T* own(T* p) { keep.push_back(std::shared_ptr<void>(p, [](void* q) { delete (T*)q; })); p->setActive(!r.b(0.15)); p->setBlockIndex(dvs.size()); p->setColumnBase(10 * dvs.size()); dvs.push_back(p); return p; }
  EuclideanPoint* vec(double s = 1) { return own(new EuclideanPoint(V3(r.gvec(3) * s))); }
  RotationQuaternion* rot() { V4 q = r.gvec(4).normalized(); return own(new RotationQuaternion(q)); }
  MatrixBasic* mat(MX a, int kind) { Eigen::Matrix3i u; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) u(i, j) = kind == 0 ? 1 : kind == 1 ? j <= i : kind == 2 ? 0 : r.b(0.5); return own(new MatrixBasic(M3(a), u)); }
};
static V3 pv(DesignVariable* d) { return V3(par(d)); } static M3 pr(DesignVariable* d) { return quatR(V4(par(d))); } static M3 pm(DesignVariable* d) { MX p; d->getParameters(p); return Eigen::Map<M3>(p.data()); }
VF_GROUP(inertial, 700, 20000) {
  Imu w(rng); M3 R = weight(rng, 3); V3 y = rng.gvec(3) * 3; int kind = rng.i(0, 5); uint64_t h = hashm(y) + kind; std::shared_ptr<kalibr::EuclideanError> e; std::shared_ptr<ErrorTerm> t; std::function<V3()> pred; std::string n; bool alias = rng.b(0.15);
  if (kind == 0) { auto a = w.vec(), b = w.vec(); bool sum = rng.b(0.5); n = "euclidean"; EuclideanExpression x = a->toExpression(); if (sum) x = x + b->toExpression(); else w.dvs.pop_back(); e.reset(new kalibr::EuclideanError(y, R, x)); pred = [=] { return V3(sum ? V3(pv(a) + pv(b)) : pv(a)); }; }
  if (kind == 1) { auto a = w.vec(), b = alias ? a : w.vec(0.1); n = "gyroscope"; e.reset(new kalibr::GyroscopeError(y, R, a->toExpression(), b->toExpression())); pred = [=] { return V3(pv(a) + pv(b)); }; }
  if (kind == 2) { auto a = w.vec(); auto c = w.rot(); n = "gyroscope-no-bias"; t.reset(new kalibr::GyroscopeNoBiasError(y, R, c->toExpression() * a->toExpression())); pred = [=] { return V3(pr(c) * pv(a)); }; }
  if (kind == 3) { auto c = w.rot(); auto a = w.vec(3), b = w.vec(0.1), g = w.vec(9); n = "accelerometer"; e.reset(new kalibr::AccelerometerError(y, R, c->toExpression(), a->toExpression(), b->toExpression(), g->toExpression())); pred = [=] { return V3(pr(c) * (pv(a) - pv(g)) + pv(b)); }; }
  if (kind >= 4) { auto M = w.mat(M3::Identity() + rng.mat(3, 3) * 0.1, rng.i(0, 3)); auto c = w.rot(); auto a = w.vec(3), om = w.vec(), al = alias ? om : w.vec(); auto ci = w.rot(); auto rx = w.vec(0.2); auto b = w.vec(0.1), g = w.vec(9);
    if (kind == 4) { auto ry = alias ? rx : w.vec(0.2), rz = w.vec(0.2); n = "accelerometer-eccentric"; e.reset(new kalibr::AccelerometerErrorEccentric(y, R, M->toExpression(), c->toExpression(), a->toExpression(), om->toExpression(), al->toExpression(), ci->toExpression(), rx->toExpression(), ry->toExpression(), rz->toExpression(), b->toExpression(), g->toExpression()));
      pred = [=] { V3 o = pv(om), A = pv(al); auto lev = [&](V3 r) { return V3(A.cross(r) + o.cross(o.cross(r))); }; V3 l(lev(pv(rx))[0], lev(pv(ry))[1], lev(pv(rz))[2]); return V3(pm(M) * (pr(ci) * (pr(c) * (pv(a) - pv(g)) + l)) + pv(b)); }; }
    else { auto Ma = w.mat(rng.mat(3, 3) * 0.1, rng.i(0, 3)); n = "gyroscope-eccentric"; e.reset(new kalibr::GyroscopeErrorEccentric(y, R, M->toExpression(), Ma->toExpression(), c->toExpression(), a->toExpression(), om->toExpression(), al->toExpression(), ci->toExpression(), rx->toExpression(), b->toExpression(), g->toExpression()));
      pred = [=] { V3 o = pv(om), A = pv(al), r = pv(rx); return V3(pm(M) * (pr(ci) * o + pm(Ma) * (pr(ci) * (pr(c) * (pv(a) - pv(g)) + A.cross(r) + o.cross(o.cross(r))))) + pv(b)); }; } }
  if (e) t = e; auto res = [&] { return VX(pred() - y); }; judge(*t, w.dvs, R, res, "C22." + n, n);
  if (e) { mon().check("C22." + n + "/measurement", e->getMeasurement() == y, "measurement of " + n); mon().near("C22." + n + "/prediction", VX(e->getPredictedMeasurement()), VX(pred()), 1e-9 * (1 + y.norm() + pred().norm()), "prediction of " + n); }
  for (auto* d : w.dvs) h = hmix(h, hashm(par(d))); mon().evaluation(h); mon().tag(n);
}
// reprojection
template <class S> struct ST2; template <> struct ST2<GlobalShutter> { static GlobalShutter make(double) { return GlobalShutter(); } }; template <> struct ST2<RollingShutter> { static RollingShutter make(double l) { return RollingShutter(l); } };
template <class C> using CovarianceReprojectionErrorT = CovarianceReprojectionError<aslam::Frame<C>>;
template <class C, class S> struct CovStatic { template <class F, class E> static void go(F, aslam::Frame<C>&, int, E&, CameraDesignVariable<C>&) {} };   // needs a line delay
template <class C> struct CovStatic<C, RollingShutter> { template <class F, class E> static void go(F fn, aslam::Frame<C>& f, int idx, E& pe, CameraDesignVariable<C>& cd) { CovarianceReprojectionErrorT<C> e(&f, idx, pe, cd); fn(&e); } };
template <class C> VX parOf(const C& c) { MX p; c.getParameters(p); return p.size() ? flat(p) : VX(0); }
template <class P, class S> void reproj(Rng& r, const std::string& name) {
  typedef aslam::cameras::CameraGeometry<P, S, aslam::cameras::NoMask> C; typedef cam::Model<P> Mo; typedef typename cam::PT<P>::dist_t D; Mo m = Mo::gen(r); if (std::is_same<D, FovDistortion>::value) m.d[0] = std::min(1.45, std::max(0.55, m.d[0])); double line = r.pick(std::vector<double>{0, 1e-5, -3e-5, 5e-4}); boost::shared_ptr<C> c(new C(m.make(), ST2<S>::make(line)));
  if (parOf(c->projection()).size() != m.t.size() || parOf(c->projection()) != m.t) { mon().tag("parameter order differs"); return; }
  V3 pc; for (int tries = 0;; ++tries) { pc = m.point(r); double mg; if (m.visible(pc, mg) && mg > 0.05 && pc.norm() < 60 && pc.norm() > 0.1 && m.normalized(pc).norm() < 0.9 * std::min(m.rmax, 2.5) && m.normalized(pc).norm() > 0.03) break; if (tries > 60) { mon().tag("no visible point"); return; } }
  Imu w(r); bool withT = r.b(0.75); double sc = r.b(0.6) ? 1 : r.u(0.2, 3); HomogeneousExpression pe; std::function<V4()> point;
  HomogeneousPoint* hp; if (withT) { auto q = w.rot(); auto t = w.vec(2); V4 pw; pw << pr(q).transpose() * (pc - pv(t)), 1; pw *= sc; hp = w.own(new HomogeneousPoint(V4(pw))); pe = TransformationExpression(q->toExpression(), t->toExpression()) * hp->toExpression(); point = [=] { V4 p = par(hp), o; o << pr(q) * p.head<3>() + pv(t) * p[3], p[3]; return o; }; }
  else { V4 p; p << pc, 1; p *= sc; hp = w.own(new HomogeneousPoint(V4(p))); pe = hp->toExpression(); point = [=] { return V4(par(hp)); }; }
  auto pix = [&](const V4& p) { return VX(Mo::project(cam::toL(parOf(c->projection())), cam::toL(parOf(c->projection().distortion())), (p.head<3>() / p[3]).eval().template cast<cam::L>()).template cast<double>()); };
  V2 y = V2(pix(point())) + V2(r.gvec(2)) * r.pick(std::vector<double>{0, 0.5, 5}); M2 R = weight(r, 2); V2 y0 = y; M2 R0 = R; auto res = [&] { return VX(y - pix(point())); };
  boost::shared_ptr<CameraDesignVariable<C>> cd(new CameraDesignVariable<C>(c)); bool ap = r.b(0.7), ad = r.b(0.7), as = r.b(0.4); cd->setActive(ap, ad, as); std::vector<DesignVariable*> all = w.dvs; DesignVariable* cds[3] = {cd->projectionDesignVariable().get(), cd->distortionDesignVariable().get(), cd->shutterDesignVariable().get()}; bool want[3] = {ap, ad, as};
  for (int k = 0; k < 3; ++k) { mon().check("C22.camera/active", cds[k]->isActive() == want[k], "setActive of the camera variables"); cds[k]->setBlockIndex(20 + k); cds[k]->setColumnBase(300 + 20 * k); all.push_back(cds[k]); }
  aslam::Frame<C> f; f.setGeometry(c); double stamp = r.u(1, 1000); f.setTime(aslam::Time(stamp)); int n = r.i(1, 4), idx = r.i(0, n - 1); for (int k = 0; k < n; ++k) { aslam::Keypoint<2> kp; kp.setMeasurement(k == idx ? VX(y) : VX(r.gvec(2) * 100)); kp.setInverseMeasurementCovariance(k == idx ? MX(R) : weight(r, 2)); f.addKeypoint(kp); } std::string how = m.str();
  int form = r.i(0, 4); double tol = 1e-10; uint64_t h = hmix(m.hash(), hashm(y)); mon().tag(name + (withT ? " pose" : "")); mon().tag("form " + std::to_string(form));
  if (form == 0) { ReprojectionError<C> e(y, R, pe, *cd); judge(e, all, R, res, "C22.reprojection", how, tol); mon().check("C22.reprojection/measurement", e.getMeasurement() == y, how); mon().near("C22.reprojection/prediction", VX(e.getPredictedMeasurement()), pix(point()), tol * 1e4 + 1e-9 * pix(point()).norm(), how);
    y = y + V2(r.gvec(2)); e.updateMeasurement(y); judge(e, all, R, res, "C22.reprojection/updated", how, tol); y = V2(pix(point())) + V2(r.gvec(2)); R = weight(r, 2); e.updateMeasurementAndCovariance(y, R); judge(e, all, R, res, "C22.reprojection/reweighted", how, tol); }
  if (form == 1) { ReprojectionError<C> e(&f, idx, pe, *cd); judge(e, all, R, res, "C22.reprojection-frame", how, tol); expectThrow("C22.reprojection-frame/null", [&] { ReprojectionError<C> x((const aslam::Frame<C>*)nullptr, 0, pe, *cd); }, "a missing frame"); }
  if (form == 2) { SimpleReprojectionError<aslam::Frame<C>> e(y, R, pe, *c); judge(e, w.dvs, R, res, "C22.simple", how, tol); }
  if (form == 3) { SimpleReprojectionError<aslam::Frame<C>> e(&f, idx, pe); judge(e, w.dvs, R, res, "C22.simple-frame", how, tol); expectThrow("C22.simple-frame/null", [&] { SimpleReprojectionError<aslam::Frame<C>> x(nullptr, 0, pe); }, "a missing frame"); }
  if (form == 4) CovStatic<C, S>::go([&](auto* e) { typedef typename std::remove_reference<decltype(*e)>::type Er; judge(*e, all, R, res, "C22.covariance-static", how, tol); mon().near("C22.covariance/time", e->observationTime(), stamp + line * y[1], 2e-9 + 1e-12 * stamp, how); expectThrow("C22.covariance/index", [&] { Er x(&f, n, pe, *cd); }, "a keypoint that does not exist"); }, f, idx, pe, *cd);
  // the camera variable's own projections and observation times
  mon().near("C22.camera/homogeneous", cd->homogeneousToKeypoint(point()), pix(point()), tol * 1e4 + 1e-9 * pix(point()).norm(), how); if (point()[3] == 1) mon().near("C22.camera/euclidean", cd->euclideanToKeypoint(point().template head<3>()), pix(point()), tol * 1e4 + 1e-9 * pix(point()).norm(), how);
  double off = std::is_same<S, RollingShutter>::value ? line * y[1] : 0; auto kt = r.b() || off < 0 ? cd->keypointTime(aslam::Time(stamp), y) : cd->temporalOffset(y); bool isOff = std::abs(kt.toScalar() - off) < 1e-6 + std::abs(off) * 1e-6 && stamp > 1; double base = std::abs(kt.toScalar() - stamp - off) < std::abs(kt.toScalar() - off) ? stamp : 0; (void)isOff; mon().near("C22.keypointTime/value", kt.toScalar(), base + off, 3e-9 + 1e-12 * stamp, how);
  DesignVariable::set_t s; kt.getDesignVariables(s); mon().check("C22.keypointTime/variables", s.size() == (as ? 1u : 0u) && (!as || *s.begin() == cds[2]), how); if (as && std::is_same<S, RollingShutter>::value) { JacobianContainer jc(1); kt.evaluateJacobians(jc); JC j(jc); mon().check("C22.keypointTime/derivative", j.m.count(cds[2]) && j.m[cds[2]].size() == 1 && std::abs(j.m[cds[2]](0, 0) - y[1]) < 1e-9 * (1 + std::abs(y[1])), how); MX Pm = r.mat(2, 1); JacobianContainer j2(2); kt.evaluateJacobians(j2, Pm); JC jj(j2); mon().check("C22.keypointTime/chain", jj.m.count(cds[2]) && (jj.m[cds[2]] - Pm * y[1]).norm() < 1e-9 * (1 + std::abs(y[1])), how); }
  mon().evaluation(h);
}
#define REP(name, P) VF_GROUP(name, 160, 4000) { if (rng.b()) reproj<P, GlobalShutter>(rng, #name); else reproj<P, RollingShutter>(rng, #name); }
REP(pinhole, PinholeProjection<NoDistortion>) REP(pinhole_radtan, PinholeProjection<RadialTangentialDistortion>)
REP(pinhole_equi, PinholeProjection<EquidistantDistortion>) REP(pinhole_fov, PinholeProjection<FovDistortion>)
REP(omni, OmniProjection<NoDistortion>) REP(omni_radtan, OmniProjection<RadialTangentialDistortion>)
VF_GROUP(eucm, 120, 3000) { reproj<ExtendedUnifiedProjection<NoDistortion>, GlobalShutter>(rng, "eucm"); }
VF_GROUP(ds, 120, 3000) { reproj<DoubleSphereProjection<NoDistortion>, GlobalShutter>(rng, "ds"); }
// rolling shutter covariance: a keypoint's row noise moves its observation time
template <class P> void rsCov(Rng& r) {
  typedef aslam::cameras::CameraGeometry<P, RollingShutter, aslam::cameras::NoMask> C; typedef cam::Model<P> Mo; Mo m = Mo::gen(r); double line = r.pick(std::vector<double>{1e-5, -3e-5, 5e-4, 1e-4}); boost::shared_ptr<C> c(new C(m.make(), RollingShutter(line))); V3 pc;
  for (int tries = 0;; ++tries) { pc = m.point(r); double mg; if (m.visible(pc, mg) && mg > 0.1 && pc.norm() < 30 && pc.norm() > 0.3 && m.normalized(pc).norm() < 0.8 * std::min(m.rmax, 2.0)) break; if (tries > 60) return; }
  V2 y = V2(m.project(pc).template cast<double>()) + V2(r.gvec(2)); M2 R = weight(r, 2); int order = r.i(3, 6); double stamp = r.u(1, 50); aslam_bsplines::BSplinePose sp(order, boost::shared_ptr<sm::kinematics::RotationalKinematics>(new sm::kinematics::RotationVector)); int segs = r.i(1, 4); double dt = r.u(0.3, 1.0); std::vector<double> kn; double obs = stamp + line * y[1], start = obs - dt * r.i(0, segs - 1) - dt * r.u(0.1, 0.9); for (int k = 0; k < segs + 2 * order - 1; ++k) kn.push_back(start + (k - order + 1) * dt); MX C0 = r.mat(6, segs + order - 1); C0.topRows(3) *= 2; V3 b = r.gvec(3) * 0.4; for (int k = 0; k < C0.cols(); ++k) C0.col(k).tail(3) = b + 0.3 * C0.col(k).tail(3); sp.setKnotsAndCoefficients(kn, C0);
  aslam::splines::BSplinePoseDesignVariable dv(sp); Imu w(r); V4 ph; ph << pc, 1; HomogeneousPoint* hp = w.own(new HomogeneousPoint(V4(ph))); boost::shared_ptr<CameraDesignVariable<C>> cd(new CameraDesignVariable<C>(c)); cd->setActive(false, false, false);
  aslam::Frame<C> f; f.setGeometry(c); f.setTime(aslam::Time(stamp)); aslam::Keypoint<2> kp; kp.setMeasurement(y); kp.setInverseMeasurementCovariance(R); f.addKeypoint(kp); CovarianceReprojectionError<aslam::Frame<C>> e(&f, 0, hp->toExpression(), *cd, &dv); double t = e.observationTime(); mon().near("C22.rolling/time", t, obs, 3e-9, m.str());
  V4 pw = sp.transformation(t) * ph; auto at = [&](double x) { V4 p = sp.inverseTransformation(x) * pw; return V2(m.project(V3(p.head<3>() / p[3])).template cast<double>()); }; double hh = 1e-3 * dt; V2 d1 = (8 * (at(t + hh) - at(t - hh)) - (at(t + 2 * hh) - at(t - 2 * hh))) / (12 * hh), d2 = (8 * (at(t + 2 * hh) - at(t - 2 * hh)) - (at(t + 4 * hh) - at(t - 4 * hh))) / (24 * hh); if (!((d1 - d2).norm() < 1e-4 * (1 + d1.norm())) || !d1.allFinite()) return;
  M2 A = M2::Identity(); A.col(1) -= line * d1; MX got = e.covarianceMap(); mon().near("C22.rolling/map", got, MX(A), std::abs(line) * (1e-5 * (1 + d1.norm()) + 3 * (d1 - d2).norm()) + 1e-9, "sensitivity of the residual to the row of the keypoint, " + m.str());
  M2 cov = A * R.inverse() * A.transpose(); if (std::abs(A.determinant()) > 0.05) { M2 iR = cov.inverse(); auto pix = [&] { V4 p = par(hp); return VX(m.project(V3(p.head<3>() / p[3])).template cast<double>()); }; V2 rs = V2(y - pix()); double ch = e.evaluateError(), wch = rs.dot(iR * rs); mon().near("C22.rolling/chi2", ch, wch, 1e-3 * (1 + std::abs(wch)), m.str()); mon().near("C22.rolling/residual", VX(e.vsError()), VX(rs), 1e-6, m.str()); mon().near("C22.rolling/weight", MX(e.vsInvR()), MX(iR), 1e-3 * (1e-9 + iR.norm()), m.str()); mon().tag("rolling shutter weight"); } mon().evaluation(hmix(m.hash(), hashm(C0)));
}
VF_GROUP(rolling, 150, 4000) { switch (rng.i(0, 2)) { case 0: rsCov<PinholeProjection<RadialTangentialDistortion>>(rng); break; case 1: rsCov<PinholeProjection<EquidistantDistortion>>(rng); break; default: rsCov<OmniProjection<RadialTangentialDistortion>>(rng); } }
