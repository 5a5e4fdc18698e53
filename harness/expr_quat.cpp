#include "expr_common.hpp"
template <int R, int C> using GE = GenericMatrixExpression<R, C, double>;
// quaternion expressions, four conventions, two geometries
namespace qn = aslam::backend::quaternion;
template <qn::QuaternionMode MODE> struct QO {   // oracle on coefficient vectors in the storage order of the mode
  static const bool first = ((int)MODE & 2) == 0, trad = ((int)MODE & 1) == 0; static V4 in(const V4& v) { return first ? V4(v[1], v[2], v[3], v[0]) : v; } static V4 out(const V4& v) { return first ? V4(v[3], v[0], v[1], v[2]) : v; }
  static V4 ham(const V4& a, const V4& b) { V4 o; o << V3(a[3] * b.head<3>() + b[3] * a.head<3>() + a.head<3>().cross(b.head<3>())), a[3] * b[3] - a.head<3>().dot(b.head<3>()); return o; }
  static V4 mul(const V4& a, const V4& b) { return trad ? out(ham(in(a), in(b))) : out(ham(in(b), in(a))); }
  static V4 conj(const V4& a) { V4 q = in(a); q.head<3>() *= -1; return out(q); } static V4 inv(const V4& a) { return conj(a) / a.squaredNorm(); }
  static V4 exp(const V3& v) { double n = v.norm(); V4 q; q << (n < 1e-12 ? V3(v) : V3(v * std::sin(n) / n)), std::cos(n); return out(q); }
  static V3 log(const V4& a) { V4 q = in(a); double n = q.head<3>().norm(); return n < 1e-12 ? V3(q.head<3>()) : V3(q.head<3>() * std::atan2(n, q[3]) / n); }
  static V3 im(const V4& a) { return in(a).head<3>(); } static V4 pure(const V3& v) { V4 q; q << v, 0; return out(q); } static V3 rot(const V4& q, const V3& v) { return im(mul(mul(q, pure(v)), conj(q))); }
};
template <qn::QuaternionMode MODE, qn::UnitQuaternionGeometry GEO> static void quatCase(Rng& r, uint64_t& h) {
  typedef QO<MODE> O; typedef qn::QuaternionExpression<double, MODE> QE; typedef qn::UnitQuaternionExpression<double, MODE> UE; typedef GE<3, 1> VE; World w; Pool<QE> Q; Pool<UE> U; Pool<VE> V; auto& m = mon(); std::string tn = "q" + std::to_string((int)MODE) + (GEO == qn::UnitQuaternionGeometry::LEFT_TRANSLATED ? "L" : "R");
  auto qi = [&](const typename Pool<QE>::Entry& x) { Item i = item<QE>(x, "quaternion", 4, [](QE& e) { return VX(e.evaluate()); }); i.type += "/" + tn; return i; }; auto ui = [&](const typename Pool<UE>::Entry& x) { Item i = item<UE>(x, "unit-quaternion", 4, [](UE& e) { return VX(e.evaluate()); }); i.type += "/" + tn; return i; }; auto vi = [&](const typename Pool<VE>::Entry& x) { Item i = item<VE>(x, "vector", 3, [](VE& e) { return VX(e.evaluate()); }); i.type += "/" + tn; return i; };
  for (int i = 0; i < 2; ++i) { auto* d = w.own(new DesignVariableGenericVector<4>(V4(r.vec(4)))); w.add(d, r); Q.put(QE(typename QE::base_t((typename QE::node_t*)d)), [d] { return MX(par(d)); }, {d}, 0, "q" + std::to_string(i)); }
  for (int i = 0; i < 2; ++i) { typedef qn::DesignVariableUnitQuaternion<double, MODE, GEO> DU; auto* d = w.own(new DU(V4(r.vec(4).normalized()))); w.add(d, r); U.put(UE(typename UE::base_t::base_t((typename UE::node_t*)(DesignVariableGenericVector<4>*)d)), [d] { return MX(par(d)); }, {d}, 0, "u" + std::to_string(i));
    // the variable's own update: multiplication by the exponential on the side its geometry names
    V3 dp = r.vec(3) * r.pick(std::vector<double>{1e-9, 1e-3, 0.5}); V4 q0 = par(d), e = O::exp(dp), want = GEO == qn::UnitQuaternionGeometry::LEFT_TRANSLATED ? O::mul(q0, e) : O::mul(e, q0); d->update(dp.data(), 3); m.near("unit-quaternion-variable/" + tn + "/update", V4(par(d)), want, 1e-12, "update of a unit quaternion variable"); if (r.b(0.5)) { d->revertUpdate(); m.near("unit-quaternion-variable/" + tn + "/revert", V4(par(d)), q0, 0.0, "revert"); } }
  { auto* d = w.own(new DesignVariableGenericVector<3>(V3(r.vec(3)))); w.add(d, r); V.put(VE((typename VE::node_t*)d), [d] { return MX(par(d)); }, {d}, 0, "v"); V3 c = r.vec(3); V.put(VE(c), [c] { return MX(c); }, {}, 0, "vc"); }
  { V4 c = r.vec(4); V4 s = O::out(c); Q.put(QE(c[3], c[0], c[1], c[2]), [s] { return MX(s); }, {}, 0, "qc"); V4 n = c.normalized(); V4 ns = O::out(n); U.put(UE(n[3], n[0], n[1], n[2]), [ns] { return MX(ns); }, {}, 0, "uc"); V3 p = r.vec(3); Q.put(QE(p[0], p[1], p[2]), [p] { return MX(O::pure(p)); }, {}, 0, "qp"); }
  w.number(r); for (auto* d : w.dvs) h = hashm(par(d), h); for (auto& x : Q.p) checkItem(qi(x), r, "quat"); for (auto& x : U.p) checkItem(ui(x), r, "quat"); for (auto& x : V.p) checkItem(vi(x), r, "quat");
#define QB(P, A, B, NAME, EXPR, VAL, CHK) { auto a = A.any(r); auto b = B.any(r); auto f = a.f, g = b.f; P.put(EXPR, [f, g] { MX x = f(), y = g(); return MX(VAL); }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), std::string(NAME) + "(" + a.how + "," + b.how + ")"); done = CHK(P.p.back()); break; }
#define QU(P, A, NAME, EXPR, VAL, CHK) { auto a = A.any(r); auto f = a.f; P.put(EXPR, [f] { MX x = f(); return MX(VAL); }, a.v, 1 + a.depth, std::string(NAME) + "(" + a.how + ")"); done = CHK(P.p.back()); break; }
  int n = r.i(6, 20);
  for (int i = 0; i < n; ++i) { Item done;
    switch (r.i(0, 17)) {
      case 0: QB(Q, Q, Q, "mul", QE(a.e * b.e), O::mul(x, y), qi) case 1: QB(Q, Q, Q, "add", QE(a.e + b.e), x + y, qi) case 2: QB(Q, Q, Q, "sub", QE(a.e - b.e), x - y, qi) case 3: QU(Q, Q, "neg", QE(-a.e), -x, qi) case 4: QU(Q, Q, "conj", QE(a.e.conjugate()), O::conj(x), qi)
      case 5: { auto a = Q.any(r); if (a.f().norm() < 0.5 || !tame(flat(a.f()))) break; auto f = a.f; Q.put(QE(a.e.inverse()), [f] { return MX(O::inv(f())); }, a.v, a.depth + 1, "inv(" + a.how + ")"); done = qi(Q.p.back()); break; }
      case 6: QU(V, Q, "im", a.e.imaginaryPart(), O::im(x), vi) case 7: case 8: QB(U, U, U, "umul", UE(a.e * b.e), O::mul(x, y), ui) case 9: QU(U, U, "uconj", UE(a.e.conjugate()), O::conj(x), ui) case 10: QU(U, U, "uinv", UE(a.e.inverse()), O::conj(x), ui) case 11: QU(U, U, "uneg", UE(-a.e), -x, ui)
      case 12: QB(V, U, V, "rot", a.e.rotate3Vector(b.e), O::rot(x, y), vi)
      case 13: { auto a = V.any(r); auto f = a.f; if (!(f().norm() < 3)) break; U.put(UE(UE::exp(a.e)), [f] { return MX(O::exp(f())); }, a.v, a.depth + 1, "exp(" + a.how + ")"); done = ui(U.p.back()); break; }
      case 14: { auto a = U.any(r); auto f = a.f; if (O::in(f())[3] < -0.9) break; V.put(UE::log(a.e), [f] { return MX(O::log(f())); }, a.v, a.depth + 1, "log(" + a.how + ")"); done = vi(V.p.back()); break; }
      case 15: { auto a = U.any(r); auto b = V.any(r); auto f = a.f, g = b.f; if (!(g().norm() < 3)) break; bool left = r.b(0.5); UE e = left ? UE(a.e.template geoExp<qn::UnitQuaternionGeometry::LEFT_TRANSLATED>(b.e)) : UE(a.e.template geoExp<qn::UnitQuaternionGeometry::RIGHT_TRANSLATED>(b.e)); U.put(e, [f, g, left] { V4 q = f(), x = O::exp(g()); return MX(left ? O::mul(q, x) : O::mul(x, q)); }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), "geoExp(" + a.how + "," + b.how + ")"); done = ui(U.p.back()); break; }
      case 16: { auto a = U.any(r); auto b = U.any(r); auto f = a.f, g = b.f; bool left = r.b(0.5); auto val = [f, g, left] { V4 p = O::conj(f()), q = g(); return left ? V4(O::mul(p, q)) : V4(O::mul(q, p)); }; if (O::in(val())[3] < -0.9) break; VE e = left ? a.e.template geoLog<qn::UnitQuaternionGeometry::LEFT_TRANSLATED>(b.e) : a.e.template geoLog<qn::UnitQuaternionGeometry::RIGHT_TRANSLATED>(b.e); V.put(e, [val] { return MX(O::log(val())); }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), "geoLog(" + a.how + "," + b.how + ")"); done = vi(V.p.back()); break; }
      default: QB(V, V, V, "vadd", a.e + b.e, x + y, vi)
    }
    if (done.val) { h = fnv(done.how) ^ (h * 31); checkItem(done, r, "quat"); } }
}
VF_GROUP(quaternion, 480, 8000) {
  using M = qn::QuaternionMode; using G = qn::UnitQuaternionGeometry; uint64_t h = 17 + caseno % 8;
  switch (caseno % 8) { case 0: quatCase<(M)0, G::LEFT_TRANSLATED>(rng, h); break; case 1: quatCase<(M)0, G::RIGHT_TRANSLATED>(rng, h); break; case 2: quatCase<(M)1, G::LEFT_TRANSLATED>(rng, h); break; case 3: quatCase<(M)1, G::RIGHT_TRANSLATED>(rng, h); break; case 4: quatCase<(M)2, G::LEFT_TRANSLATED>(rng, h); break; case 5: quatCase<(M)2, G::RIGHT_TRANSLATED>(rng, h); break; case 6: quatCase<(M)3, G::LEFT_TRANSLATED>(rng, h); break; default: quatCase<(M)3, G::RIGHT_TRANSLATED>(rng, h); }
  mon().evaluation(h);
}
// generic scalars
VF_GROUP(generic_scalar, 800, 12000) {
  (void)caseno; typedef GenericScalarExpression<double> GS; Rng& r = rng; World w; Pool<GS> P; auto si = [&](const Pool<GS>::Entry& x) { return item<GS>(x, "generic-scalar", 1, [](GS& e) { VX v(1); v << e.toScalar(); mon().check("generic-scalar/toValue", e.evaluate() == v[0] && e.toValue() == v[0], ""); return v; }); };
  int n = r.i(1, 4); for (int i = 0; i < n; ++i) { auto* d = w.own(new GenericScalar<double>(r.u(-2, 2))); w.add(d, r); P.put(d->toExpression(), [d] { return MX(par(d)); }, {d}, 0, "s" + std::to_string(i)); } { double c = r.u(-2, 2); P.put(GS(c), [c] { return MX(MX::Constant(1, 1, c)); }, {}, 0, "const"); }
  w.number(r); uint64_t h = 19; for (auto* d : w.dvs) h = hashm(par(d), h); for (auto& x : P.p) checkItem(si(x), r, "scalar"); n = r.i(4, 20);
  for (int i = 0; i < n; ++i) { auto a = P.any(r); auto b = P.any(r); auto f = a.f, g = b.f; int o = r.i(0, 5); int d = 1 + std::max(a.depth, b.depth); Vars v = uni(a.v, b.v); std::string H = "(" + a.how + " " + b.how + ")";
    if (o == 0) P.put(a.e + b.e, [f, g] { return MX(f() + g()); }, v, d, "add" + H); else if (o == 1) P.put(a.e - b.e, [f, g] { return MX(f() - g()); }, v, d, "sub" + H); else if (o == 2) P.put(a.e * b.e, [f, g] { return MX(f() * g()); }, v, d, "mul" + H); else if (o == 3) { if (std::abs(g()(0)) < 0.4) continue; P.put(a.e / b.e, [f, g] { return MX(f() / g()(0)); }, v, d, "div" + H); } else if (o == 4) P.put(GS(GenericScalarExpression<long double>(a.e)), f, a.v, a.depth + 1, "cast(" + a.how + ")"); else P.put(-a.e, [f] { return MX(-f()); }, a.v, a.depth + 1, "neg(" + a.how + ")");
    Item it = si(P.p.back()); h = fnv(it.how) ^ (h * 31); checkItem(it, r, "scalar"); if (r.b(0.2) && tame(flat(it.val()))) { auto id = it.val; MX iR = MX::Constant(1, 1, r.u(0.1, 4)); auto te = toErrorTerm(P.p.back().e, Eigen::Matrix<double, 1, 1>(iR)); checkTerm(*te, it, id(), iR, id, r, "term-scalar"); } }
  mon().evaluation(h);
}
// fixed point numbers against exact integer arithmetic
template <class I, std::uintmax_t D> static void fixedCase(Rng& r, uint64_t& h, const char* N) {
  typedef FixedPointNumber<I, D> F; auto& m = mon(); std::string k = std::string("fixed/") + N; typedef __int128 W;
  auto draw = [&] { int bits = r.i(1, sizeof(I) * 8 - 2); double x = r.u(-1, 1) * std::pow(2.0, bits); return (I)x; };
  auto fits = [](W x) { return x >= (W)std::numeric_limits<I>::min() && x <= (W)std::numeric_limits<I>::max(); };
  I a = draw(), b = draw(); F x((I)a), y((I)b); h = hmix(hmix(h, a), b);
  m.check(k + "/numerator", x.getNumerator() == a && x.getDenominator() == (I)D && F::getDivider() == D, ""); m.check(k + "/double", (double)x == (double)((long double)a / (long double)D), "conversion to double of " + std::to_string(a));
  if (fits(-(W)a)) m.check(k + "/neg", (-x).getNumerator() == -a, ""); if (fits((W)a + b)) { m.check(k + "/add", (x + y).getNumerator() == (I)(a + b), ""); F z = x; z += y; m.check(k + "/add-assign", z == x + y, ""); } if (fits((W)a - b)) { m.check(k + "/sub", (x - y).getNumerator() == (I)(a - b), ""); F z = x; z -= y; m.check(k + "/sub-assign", z == x - y, ""); }
  m.check(k + "/equal", (x == y) == (a == b) && (x != y) == (a != b) && x == F(x), "");
  bool wide = sizeof(I) == 8; W p = (W)a * b / (W)D; W ad = (W)a * (W)D;
  auto exact = [&](W v) { return !wide || ((W)(long double)v == v); };   // the 64-bit type multiplies in long double, exact only within its mantissa
  if (fits(p) && exact((W)a * b)) { I got = (x * y).getNumerator(); m.check(k + "/mul", got == (I)p, std::to_string(a) + " * " + std::to_string(b)); F z = x; z *= y; m.check(k + "/mul-assign", z.getNumerator() == got, ""); }
  if (b != 0 && fits(ad / b) && exact(ad)) { W q = ad / b; I got = (x / y).getNumerator(); W d = (W)got - q; m.check(k + "/div", wide ? (d >= -1 && d <= 1) : d == 0, std::to_string(a) + " / " + std::to_string(b)); F z = x; z /= y; m.check(k + "/div-assign", z.getNumerator() == got, ""); }
  { double v = r.u(-1, 1) * std::min(1e6, (double)std::numeric_limits<I>::max() / D / 2); F z(v); double back = (double)z; m.check(k + "/from-double", std::abs(back - v) <= 1.0 / D * (1 + 1e-9) && std::abs(back) <= std::abs(v) + 1e-12 * std::abs(v), "from double"); }
  m.check(k + "/limits", std::numeric_limits<F>::epsilon() == 1.0 / D && std::numeric_limits<F>::is_integer == (D == 1), "");
}
VF_GROUP(fixed_point, 4000, 100000) {
  uint64_t h = 23 + caseno % 6; switch (caseno % 6) { case 0: fixedCase<std::int64_t, 1000000000>(rng, h, "ns64"); break; case 1: fixedCase<std::int64_t, 1>(rng, h, "int64"); break; case 2: fixedCase<std::int32_t, 1000>(rng, h, "ms32"); break; case 3: fixedCase<std::int32_t, 1>(rng, h, "int32"); break; case 4: fixedCase<std::int16_t, 128>(rng, h, "i16"); break; default: fixedCase<std::int64_t, 1024>(rng, h, "i64-1024"); }
  mon().evaluation(h);
}
