#include "expr_common.hpp"
// generic matrix expressions with fixed shapes
template <int R, int C> using GE = GenericMatrixExpression<R, C, double>;
struct Gen {
  World w; Pool<GE<3, 1>> a31; Pool<GE<1, 3>> a13; Pool<GE<3, 3>> a33; Pool<GE<2, 1>> a21; Pool<GE<1, 2>> a12; Pool<GE<2, 2>> a22; Pool<GE<3, 2>> a32; Pool<GE<2, 3>> a23; Pool<GE<1, 1>> a11;
  template <int R, int C> Item it(const typename Pool<GE<R, C>>::Entry& x) { Item i; i.type = "g" + std::to_string(R) + "x" + std::to_string(C); i.how = x.how; auto f = x.f; i.val = [f] { return flat(f()); }; i.vars = x.v; i.depth = x.depth; i.dim = R * C; auto e = std::make_shared<GE<R, C>>(x.e); i.dvs = [e](DesignVariable::set_t& s) { e->getDesignVariables(s); }; i.real = [e] { MX v = e->evaluate(); mon().check("generic/toFullMatrix", MX(e->toFullMatrix()) == v, ""); return flat(v); }; vec(i, e); return i; }
  template <int R> void vec(Item& i, std::shared_ptr<GE<R, 1>> e) { i.jac = [e](JacobianContainer& j) { e->evaluateJacobians(j); }; i.jacC = [e](JacobianContainer& j, const MX& c) { e->evaluateJacobians(j, c); }; }
  template <int R, int C> typename std::enable_if<C != 1>::type vec(Item&, std::shared_ptr<GE<R, C>>) {}
  template <int D> void leaf(Pool<GE<D, 1>>& P, Rng& r, const std::string& nm) { typedef Eigen::Matrix<double, D, 1> V; int k = r.i(0, 3);
    if (k == 0) { V c = r.vec(D); P.put(GE<D, 1>(c), [c] { return MX(c); }, {}, 0, "const" + nm); return; }
    if (k == 1) { auto* d = w.own(new DesignVariableVector<D>(V(r.vec(D)))); w.add(d, r); P.put(GE<D, 1>(convertToGME(d->toExpression())), [d] { return MX(par(d)); }, {d}, 0, "conv" + nm); return; }
    auto* d = w.own(new DesignVariableGenericVector<D>(V(r.vec(D)))); w.add(d, r); P.put(GE<D, 1>((typename GE<D, 1>::node_t*)d), [d] { return MX(par(d)); }, {d}, 0, nm); }
  void leaves(Rng& r) { leaf<3>(a31, r, "x"); leaf<3>(a31, r, "y"); if (r.b(0.5)) leaf<3>(a31, r, "z"); leaf<2>(a21, r, "u"); if (r.b(0.5)) leaf<2>(a21, r, "v"); leaf<1>(a11, r, "s"); if (w.dvs.empty()) { auto* d = w.own(new DesignVariableGenericVector<3>(V3(r.vec(3)))); w.add(d, r); a31.put(GE<3, 1>((GE<3, 1>::node_t*)d), [d] { return MX(par(d)); }, {d}, 0, "x"); }
    { M3 c = r.mat(3, 3); a33.put(GE<3, 3>(c), [c] { return MX(c); }, {}, 0, "C33"); Eigen::Matrix2d c2 = r.mat(2, 2); a22.put(GE<2, 2>(c2), [c2] { return MX(c2); }, {}, 0, "C22"); Eigen::Matrix<double, 3, 2> c3 = r.mat(3, 2); a32.put(GE<3, 2>(c3), [c3] { return MX(c3); }, {}, 0, "C32"); Eigen::Matrix<double, 2, 3> c4 = r.mat(2, 3); a23.put(GE<2, 3>(c4), [c4] { return MX(c4); }, {}, 0, "C23"); Eigen::Matrix<double, 1, 3> c5 = r.mat(1, 3); a13.put(GE<1, 3>(c5), [c5] { return MX(c5); }, {}, 0, "C13"); Eigen::Matrix<double, 1, 2> c6 = r.mat(1, 2); a12.put(GE<1, 2>(c6), [c6] { return MX(c6); }, {}, 0, "C12"); }
    w.number(r); }
  template <int R, int K, int C> Item mul(Pool<GE<R, K>>& A, Pool<GE<K, C>>& B, Pool<GE<R, C>>& O, Rng& r) { auto a = A.any(r); auto b = B.any(r); auto f = a.f, g = b.f; O.put(a.e * b.e, [f, g] { return MX(f() * g()); }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), "(" + a.how + "*" + b.how + ")"); return it<R, C>(O.p.back()); }
  template <int R, int C> Item lin(Pool<GE<R, C>>& A, Rng& r) { auto a = A.any(r); auto b = A.any(r); auto f = a.f, g = b.f; double c = r.u(-2, 2); int d = 1 + std::max(a.depth, b.depth);
    switch (r.i(0, 3)) { case 0: A.put(a.e + b.e, [f, g] { return MX(f() + g()); }, uni(a.v, b.v), d, "(" + a.how + "+" + b.how + ")"); break; case 1: A.put(a.e - b.e, [f, g] { return MX(f() - g()); }, uni(a.v, b.v), d, "(" + a.how + "-" + b.how + ")"); break; case 2: A.put(-a.e, [f] { return MX(-f()); }, a.v, a.depth + 1, "-" + a.how); break; default: A.put(a.e * c, [f, c] { return MX(f() * c); }, a.v, a.depth + 1, "scaled " + a.how); } return it<R, C>(A.p.back()); }
  template <int R, int C> Item tr(Pool<GE<R, C>>& A, Pool<GE<C, R>>& O, Rng& r) { auto a = A.any(r); auto f = a.f; O.put(a.e.transpose(), [f] { return MX(f().transpose()); }, a.v, a.depth + 1, a.how + "'"); return it<C, R>(O.p.back()); }
  template <int N> bool inv(Pool<GE<N, N>>& A, Rng& r, Item& o) { auto a = A.any(r); Eigen::JacobiSVD<MX> s(a.f()); if (!tame(flat(a.f())) || s.singularValues()[N - 1] < 0.35) return false; auto f = a.f; A.put(a.e.inverse(), [f] { return MX(f().inverse()); }, a.v, a.depth + 1, "inv(" + a.how + ")"); o = it<N, N>(A.p.back()); return true; }
  template <int CA, int CB> Item cross(Pool<GE<3, CA>>& A, Pool<GE<3, CB>>& B, Pool<GE<3, (CA == 1 ? CB : CA)>>& O, Rng& r) { auto a = A.any(r); auto b = B.any(r); auto f = a.f, g = b.f; O.put(a.e.cross(b.e), [f, g] { MX x = f(), y = g(); int n = std::max(x.cols(), y.cols()); MX o(3, n); for (int i = 0; i < n; ++i) o.col(i) = V3(x.col(x.cols() == 1 ? 0 : i)).cross(V3(y.col(y.cols() == 1 ? 0 : i))); return o; }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), "(" + a.how + "x" + b.how + ")"); return it<3, (CA == 1 ? CB : CA)>(O.p.back()); }
  Item grow(Rng& r) { Item o;
    for (;;) switch (r.i(0, 33)) {
      case 0: return mul<3, 3, 1>(a33, a31, a31, r); case 1: return mul<3, 1, 3>(a31, a13, a33, r); case 2: return mul<1, 3, 1>(a13, a31, a11, r); case 3: return mul<3, 3, 3>(a33, a33, a33, r); case 4: return mul<3, 2, 1>(a32, a21, a31, r); case 5: return mul<2, 3, 1>(a23, a31, a21, r); case 6: return mul<3, 1, 2>(a31, a12, a32, r); case 7: return mul<2, 1, 3>(a21, a13, a23, r); case 8: return mul<2, 2, 1>(a22, a21, a21, r); case 9: return mul<2, 1, 2>(a21, a12, a22, r); case 10: return mul<1, 2, 1>(a12, a21, a11, r); case 11: return mul<3, 1, 1>(a31, a11, a31, r); case 12: return mul<3, 2, 3>(a32, a23, a33, r); case 13: return mul<2, 3, 2>(a23, a32, a22, r); case 14: return mul<1, 3, 3>(a13, a33, a13, r);
      case 15: return lin<3, 1>(a31, r); case 16: return lin<3, 3>(a33, r); case 17: return lin<2, 1>(a21, r); case 18: return lin<1, 3>(a13, r); case 19: return lin<3, 2>(a32, r); case 20: return lin<1, 1>(a11, r);
      case 21: return tr<3, 1>(a31, a13, r); case 22: return tr<2, 1>(a21, a12, r); case 23: return tr<3, 3>(a33, a33, r); case 24: return tr<3, 2>(a32, a23, r); case 25: return tr<1, 3>(a13, a31, r);
      case 26: if (inv<3>(a33, r, o)) return o; break; case 27: if (inv<2>(a22, r, o)) return o; break;
      case 28: return cross<1, 1>(a31, a31, a31, r); case 29: return cross<1, 3>(a31, a33, a33, r); case 30: return cross<3, 1>(a33, a31, a33, r); case 31: return cross<2, 1>(a32, a31, a32, r); case 32: return cross<1, 2>(a31, a32, a32, r);
      default: { auto a = a31.any(r); auto f = a.f; auto t = a.e; Item x = it<3, 1>(a); x.type = "g3x1-term"; if (!tame(flat(f()))) break; auto id = [f] { return flat(f()); }; M3 iR = r.spd(3); auto te = toErrorTerm(t, iR); checkTerm(*te, x, id(), iR, id, r, "term-generic"); return x; }
    } }
};
VF_GROUP(generic, 500, 8000) {
  (void)caseno; auto& m = mon(); Gen G; G.leaves(rng); uint64_t h = 13; for (auto* d : G.w.dvs) h = hashm(par(d), h);
  for (auto& x : G.a31.p) checkItem(G.it<3, 1>(x), rng, "generic"); for (auto& x : G.a21.p) checkItem(G.it<2, 1>(x), rng, "generic"); for (auto& x : G.a11.p) checkItem(G.it<1, 1>(x), rng, "generic");
  int n = rng.i(8, 26); for (int i = 0; i < n; ++i) { Item it = G.grow(rng); h = fnv(it.how) ^ (h * 31); m.distinctIn("expression", fnv(it.how)); checkItem(it, rng, "generic"); }
  for (auto* d : G.w.dvs) { VX dp = rng.vec(d->minimalDimensions()) * 0.3; d->update(dp.data(), dp.size()); }
  for (int i = 0; i < 3; ++i) { checkItem(G.it<3, 1>(G.a31.any(rng)), rng, "generic-moved"); checkItem(G.it<2, 1>(G.a21.any(rng)), rng, "generic-moved"); checkItem(G.it<3, 3>(G.a33.any(rng)), rng, "generic-moved"); }
  m.evaluation(h);
}
