#include "expr_common.hpp"
// an 4-vector expression that is the quaternion of a rotation variable, to drive the vector-to-rotation adapter
struct QuatVec : VectorExpressionNode<4> { RotationQuaternion* d; explicit QuatVec(RotationQuaternion* x) : d(x) {} 
  MX J() const { V4 q = par(d); MX j(4, 3); for (int i = 0; i < 3; ++i) { V4 e = V4::Zero(); e[i] = 0.5; j.col(i) = sm::kinematics::quatPlus(e) * q; } return j; }
  virtual V4 evaluateImplementation() const { return par(d); }
  virtual void evaluateJacobiansImplementation(JacobianContainer& o) const { o.add(d, J()); }
  virtual void evaluateJacobiansImplementation(JacobianContainer& o, const MX& c) const { o.add(d, c * J()); }
  virtual void getDesignVariablesImplementation(DesignVariable::set_t& s) const { s.insert(d); } };

struct Legacy {
  Pool<ScalarExpression> S; Pool<EuclideanExpression> E; Pool<RotationExpression> R; Pool<TransformationExpression> T; Pool<HomogeneousExpression> H; Pool<MatrixExpression> M; World w;
  Item it(const Pool<ScalarExpression>::Entry& x) { return item<ScalarExpression>(x, "scalar", 1, [](ScalarExpression& e) { VX v(1); v << e.toScalar(); mon().check("scalar/toValue", e.toValue() == v[0], ""); return v; }); }
  Item it(const Pool<EuclideanExpression>::Entry& x) { return item<EuclideanExpression>(x, "euclidean", 3, [](EuclideanExpression& e) { VX v = e.toEuclidean(); mon().check("euclidean/toValue", e.evaluate() == v && e.toValue() == v, ""); return v; }); }
  Item it(const Pool<HomogeneousExpression>::Entry& x) { return item<HomogeneousExpression>(x, "homogeneous", 4, [](HomogeneousExpression& e) { VX v = e.toHomogeneous(); mon().check("homogeneous/toValue", e.evaluate() == v && e.toValue() == v, ""); return v; }); }
  Item it(const Pool<TransformationExpression>::Entry& x) { Item i = item<TransformationExpression>(x, "transformation", 6, [](TransformationExpression& e) { return flat(e.toTransformationMatrix()); }); i.diff = 2; return i; }
  Item it(const Pool<RotationExpression>::Entry& x) { Item i = base<RotationExpression>(x, "rotation"); i.dim = 3; i.diff = 1; auto e = std::make_shared<RotationExpression>(x.e); i.real = [e] { return flat(e->toRotationMatrix()); }; i.jacC = [e](JacobianContainer& j, const MX& c) { e->root()->evaluateJacobians(j, c); }; return i; }
  Item it(const Pool<MatrixExpression>::Entry& x) { Item i = base<MatrixExpression>(x, "matrix"); i.dim = 9; auto e = std::make_shared<MatrixExpression>(x.e); i.real = [e] { return flat(e->toMatrix3x3()); }; i.jacC = [e](JacobianContainer& j, const MX& c) { e->root()->evaluateJacobians(j, c); }; return i; }
  void leaves(Rng& r) {
    int n = r.i(1, 2);
    for (int i = 0; i < n; ++i) { auto* d = w.own(new Scalar(r.u(-2, 2))); w.add(d, r); S.put(d->toExpression(), [d] { return MX(par(d)); }, {d}, 0, "s" + std::to_string(i)); }
    if (r.b(0.5)) { auto* d = w.own(new DesignVariableVector<1>(Eigen::Matrix<double, 1, 1>(r.vec(1)))); w.add(d, r); S.put(d->toExpression().toScalarExpression(), [d] { return MX(par(d)); }, {d}, 0, "sv"); }
    { double c = r.u(-2, 2); S.put(ScalarExpression(c), [c] { return MX(MX::Constant(1, 1, c)); }, {}, 0, "const"); }
    n = r.i(1, 3);
    for (int i = 0; i < n; ++i) { auto* d = w.own(new EuclideanPoint(V3(r.vec(3)))); w.add(d, r); E.put(d->toExpression(), [d] { return MX(par(d)); }, {d}, 0, "e" + std::to_string(i)); }
    if (r.b(0.5)) { double mag = r.u(0.2, 3); auto* d = w.own(new EuclideanDirection(V3(r.vec(3).normalized() * mag))); w.add(d, r); E.put(d->toExpression(), [d, mag] { MX p = par(d); return MX(Eigen::Map<M3>(p.data()).col(2) * mag); }, {d}, 0, "dir"); }
    if (r.b(0.5)) { auto* mem = w.own(new V3(r.vec(3))); auto* d = w.own(new MappedEuclideanPoint(mem->data())); w.add(d, r); E.put(d->toExpression(), [d] { return MX(par(d)); }, {d}, 0, "mapped"); }
    if (r.b(0.5)) { auto* d = w.own(new DesignVariableVector<3>(V3(r.vec(3)))); w.add(d, r); E.put(EuclideanExpression(d->toExpression()), [d] { return MX(par(d)); }, {d}, 0, "ev"); }
    if (r.b(0.4)) { auto* mem = w.own(new V3(r.vec(3))); auto* d = w.own(new DesignVariableMappedVector<3>(mem->data())); w.add(d, r); E.put(EuclideanExpression(d->toExpression()), [d] { return MX(par(d)); }, {d}, 0, "emv"); }
    { V3 c = r.vec(3); E.put(EuclideanExpression(c), [c] { return MX(c); }, {}, 0, "econst"); }
    n = r.i(1, 3);
    for (int i = 0; i < n; ++i) { auto* d = w.own(new RotationQuaternion(V4(r.vec(4).normalized()))); w.add(d, r); R.put(d->toExpression(), [d] { return MX(quatR(par(d))); }, {d}, 0, "R" + std::to_string(i));
      if (r.b(0.3)) { auto* q = new QuatVec(d); boost::shared_ptr<VectorExpressionNode<4>> p(q); R.put(Vector2RotationQuaternionExpressionAdapter::adapt(VectorExpression<4>(p)), [d] { return MX(quatR(par(d))); }, {d}, 0, "Radapt" + std::to_string(i)); }
      if (r.b(0.3)) { V4 q0 = sm::kinematics::qplus(sm::kinematics::axisAngle2quat(V3(r.vec(3) * 0.4)), V4(par(d))); auto* md = w.own(new DesignVariableMinimalDifferenceExpression<3>(*d, q0)); M3 C0 = quatR(q0); E.put(EuclideanExpression(*md), [d, C0] { return MX(-rotLog(quatR(par(d)) * C0.transpose())); }, {d}, 0, "Rdiff"); } }
    if (r.b(0.4)) { auto* mem = w.own(new V4(r.vec(4).normalized())); auto* d = w.own(new MappedRotationQuaternion(mem->data())); w.add(d, r); R.put(d->toExpression(), [d] { return MX(quatR(par(d))); }, {d}, 0, "Rmapped"); }
    if (r.b(0.7)) { V4 p = r.vec(4); p[3] = (r.b(0.3) ? -1 : 1) * r.u(0.5, 2); auto* d = w.own(new HomogeneousPoint(p)); w.add(d, r); H.put(d->toExpression(), [d] { return MX(par(d)); }, {d}, 0, "h"); }
    if (r.b(0.4)) { auto* mem = w.own(new V4(r.vec(4))); (*mem)[3] = r.u(0.5, 2); auto* d = w.own(new MappedHomogeneousPoint(mem->data())); w.add(d, r); H.put(d->toExpression(), [d] { return MX(par(d)); }, {d}, 0, "hmapped"); }
    { V4 c = r.vec(4); H.put(HomogeneousExpression(c), [c] { return MX(c); }, {}, 0, "hconst"); V3 c3 = r.vec(3); H.put(HomogeneousExpression(c3), [c3] { return MX((V4() << c3, 1).finished()); }, {}, 0, "hconst3"); }
    if (r.b(0.6)) { bool full = r.b(0.4); Eigen::Matrix3i pat; for (int i = 0; i < 9; ++i) pat(i) = r.b(0.5); if (pat.isZero()) pat(r.i(0, 8)) = 1; M3 A = r.mat(3, 3); auto* d = w.own(full ? new MatrixBasic(A) : new MatrixBasic(A, pat)); w.add(d, r); M.put(d->toExpression(), [d] { MX p; d->getParameters(p); return p; }, {d}, 0, full ? "M" : "Mpattern"); }
    { M4 c = M4::Identity(); c.topLeftCorner<3, 3>() = quatR(r.vec(4).normalized()); c.topRightCorner<3, 1>() = r.vec(3); T.put(TransformationExpression(c), [c] { return MX(c); }, {}, 0, "Tconst"); }
    auto& x = R.any(r); auto& e = E.any(r); tf(x, e); w.number(r);
  }
  void tf(const Pool<RotationExpression>::Entry& x, const Pool<EuclideanExpression>::Entry& e) { auto f = x.f, g = e.f; T.put(TransformationExpression(x.e, e.e), [f, g] { M4 c = M4::Identity(); c.topLeftCorner<3, 3>() = f(); c.topRightCorner<3, 1>() = g(); return MX(c); }, uni(x.v, e.v), 1 + std::max(x.depth, e.depth), "T(" + x.how + "," + e.how + ")"); }
  // grow by one operation; returns the item built
  Item grow(Rng& r) {
    for (;;) switch (r.i(0, 27)) {
#define BIN(P, A, B, NAME, EXPR, VAL) { auto a = A.any(r); auto b = B.any(r); auto f = a.f, g = b.f; P.put(EXPR, [f, g] { MX x = f(), y = g(); return MX(VAL); }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), std::string(NAME) + "(" + a.how + "," + b.how + ")"); return it(P.p.back()); }
#define UN(P, A, NAME, EXPR, VAL) { auto a = A.any(r); auto f = a.f; P.put(EXPR, [=] { MX x = f(); return MX(VAL); }, a.v, 1 + a.depth, std::string(NAME) + "(" + a.how + ")"); return it(P.p.back()); }
      case 0: BIN(S, S, S, "add", a.e + b.e, x + y)
      case 1: BIN(S, S, S, "sub", a.e - b.e, x - y)
      case 2: BIN(S, S, S, "mul", a.e * b.e, x * y)
      case 3: { auto a = S.any(r); auto b = S.any(r); if (std::abs(b.f()(0)) < 0.4) break; auto f = a.f, g = b.f; S.put(a.e / b.e, [f, g] { return MX(f() / g()(0)); }, uni(a.v, b.v), 1 + std::max(a.depth, b.depth), "div(" + a.how + "," + b.how + ")"); return it(S.p.back()); }
      case 4: { double c = (r.b(0.5) ? 1 : -1) * r.u(0.3, 3); int o = r.i(0, 3); switch (o) { case 0: UN(S, S, "addc", a.e + c, x.array() + c) case 1: UN(S, S, "subc", a.e - c, x.array() - c) case 2: UN(S, S, "mulc", a.e * c, x * c) default: UN(S, S, "divc", a.e / c, x / c) } }
      case 5: BIN(E, E, E, "add", a.e + b.e, x + y)
      case 6: BIN(E, E, E, "sub", a.e - b.e, x - y)
      case 7: BIN(E, E, E, "cross", a.e.cross(b.e), V3(x).cross(V3(y)))
      case 8: BIN(E, E, E, "elementwise", a.e.elementwiseMultiply(b.e), x.cwiseProduct(y))
      case 9: BIN(E, E, S, "scale", a.e * b.e, x * y(0))
      case 10: UN(E, E, "neg", -a.e, -x)
      case 11: { V3 c = r.vec(3); UN(E, E, "subv", a.e - c, x - c) }
      case 12: BIN(E, R, E, "rotate", a.e * b.e, x * y)
      case 13: if (M.p.empty()) break; BIN(E, M, E, "matmul", a.e * b.e, x * y)
      case 14: UN(E, T, "translation", a.e.toEuclideanExpression(), x.topRightCorner(3, 1))
      case 15: { auto a = H.any(r); if (std::abs(a.f()(3)) < 0.3) break; auto f = a.f; E.put(a.e.toEuclideanExpression(), [f] { MX h = f(); return MX(h.topRows(3) / h(3)); }, a.v, a.depth + 1, "dehom(" + a.how + ")"); return it(E.p.back()); }
      case 16: UN(H, E, "hom", a.e.toHomogeneousExpression(), (V4() << V3(x), 1).finished())
      case 17: BIN(H, T, H, "transform", a.e * b.e, x * y)
      case 18: case 24: BIN(R, R, R, "mul", a.e * b.e, x * y)
      case 19: UN(R, R, "inv", RotationExpression(a.e).inverse(), x.transpose())
      case 20: UN(R, T, "rotation", a.e.toRotationExpression(), x.topLeftCorner(3, 3))
      case 21: { auto a = R.any(r); auto b = E.any(r); tf(a, b); return it(T.p.back()); }
      case 22: case 25: BIN(T, T, T, "mul", a.e * b.e, x * y)
      case 23: UN(T, T, "inv", a.e.inverse(), M4(x).inverse())
      case 26: { auto a = R.any(r); auto f = a.f; int k = r.i(0, 2); sm::kinematics::RotationalKinematics::Ptr rk; if (k == 0) rk.reset(new sm::kinematics::RotationVector); else if (k == 1) rk.reset(new sm::kinematics::EulerAnglesYawPitchRoll); else rk.reset(new sm::kinematics::EulerRodriguez);
        VX p = rk->rotationMatrixToParameters(f()); if (k == 0 && p.norm() > 2.8) break; if (k == 1 && (std::abs(p[1]) > 1.3 || std::abs(p[0]) > 3 || std::abs(p[2]) > 3)) break; if (k == 2 && p.norm() > 3) break;
        E.put(RotationExpression(a.e).toParameters(rk), [f, rk] { return MX(rk->rotationMatrixToParameters(f())); }, a.v, a.depth + 1, "params(" + a.how + ")"); return it(E.p.back()); }
      default: BIN(E, E, E, "sub", a.e - b.e, x - y)
    }
  }
};
VF_GROUP(legacy, 700, 12000) {
  (void)caseno; auto& m = mon(); Legacy L; L.leaves(rng); uint64_t h = 7; for (auto* d : L.w.dvs) h = hashm(par(d), h);
  for (auto& x : L.S.p) checkItem(L.it(x), rng, "legacy"); for (auto& x : L.E.p) checkItem(L.it(x), rng, "legacy"); for (auto& x : L.R.p) checkItem(L.it(x), rng, "legacy"); for (auto& x : L.H.p) checkItem(L.it(x), rng, "legacy"); for (auto& x : L.M.p) checkItem(L.it(x), rng, "legacy"); for (auto& x : L.T.p) checkItem(L.it(x), rng, "legacy");
  int n = rng.i(8, 24); for (int i = 0; i < n; ++i) { Item it = L.grow(rng); h = fnv(it.how) ^ (h * 31); m.distinctIn("expression", fnv(it.how)); checkItem(it, rng, "legacy"); }
  // a new state: expressions must follow the variables
  for (auto* d : L.w.dvs) { std::vector<double> dp; for (int i = 0; i < d->minimalDimensions(); ++i) dp.push_back(rng.u(-0.3, 0.3)); d->update(dp.data(), dp.size()); }
  for (int i = 0; i < 3; ++i) { checkItem(L.it(L.E.any(rng)), rng, "legacy-moved"); checkItem(L.it(L.R.any(rng)), rng, "legacy-moved"); checkItem(L.it(L.T.any(rng)), rng, "legacy-moved"); checkItem(L.it(L.S.any(rng)), rng, "legacy-moved"); checkItem(L.it(L.H.any(rng)), rng, "legacy-moved"); }
  m.evaluation(h);
}
VF_GROUP(error_terms, 500, 8000) {
  (void)caseno; auto& m = mon(); Rng& r = rng; Legacy L; L.leaves(r); int n = r.i(0, 14); for (int i = 0; i < n; ++i) L.grow(r); uint64_t h = 11; for (auto* d : L.w.dvs) h = hashm(par(d), h);
  { auto x = L.E.any(r); VX v = x.f(); if (tame(v)) { V3 pr = v + r.vec(3); M3 N = r.spd(3); Item it = L.it(x); auto f = x.f; auto res = [f, pr] { return VX(f() - pr); }; h = hashm(pr, h);
    ErrorTermEuclidean e(x.e, pr, N); checkTerm(e, it, res(), N.inverse(), res, r, "term-euclidean"); double wt = r.u(0.1, 5); ErrorTermEuclidean e2(x.e, pr, wt); checkTerm(e2, it, res(), wt * M3::Identity(), res, r, "term-euclidean-weight");
    auto id = [f] { return VX(f()); }; auto t = toErrorTerm(x.e, M3(N.inverse())); checkTerm(*t, it, id(), N.inverse(), id, r, "term-expression"); } }
  { auto x = L.T.any(r); MX v = x.f(); if (tame(flat(v))) { M4 Tp = M4::Identity(); M3 dC = quatR((V4() << r.vec(3) * r.u(0, 0.8), 1).finished().normalized()); Tp.topLeftCorner<3, 3>() = dC * v.topLeftCorner(3, 3); Tp.topRightCorner<3, 1>() = v.topRightCorner(3, 1) + r.vec(3); sm::kinematics::Transformation prior(Tp); Item it = L.it(x); auto f = x.f; M4 Ti = prior.T().inverse();
    auto res = [f, Ti] { M4 e = M4(f()) * Ti; VX q(6); q << e.topRightCorner<3, 1>(), -rotLog(e.topLeftCorner<3, 3>()); return q; }; Eigen::Matrix<double, 6, 6> N = r.spd(6); h = hashm(Tp, h);
    ErrorTermTransformation e(x.e, prior, N); checkTerm(e, it, res(), N.inverse(), res, r, "term-transformation"); double wr = r.u(0.1, 5), wt = r.u(0.1, 5); MX W = MX::Identity(6, 6) * wt; W.bottomRightCorner(3, 3) = M3::Identity() * wr; ErrorTermTransformation e2(x.e, prior, wr, wt); checkTerm(e2, it, res(), W, res, r, "term-transformation-weight"); } }
  { DesignVariableVector<5> d((Eigen::Matrix<double, 5, 1>(r.vec(5)))); d.setActive(r.b(0.9)); d.setBlockIndex(0); Item it; it.how = "vector variable"; it.vars = {&d}; MX iR = r.spd(5); auto id = [&d] { return par(&d); }; auto t = toErrorTerm(d.toExpression(), Eigen::Matrix<double, 5, 5>(iR)); checkTerm(*t, it, id(), iR, id, r, "term-vector"); Eigen::Matrix<double, 5, 5> sq = r.spd(5); auto t2 = toErrorTermSqrt(d.toExpression(), sq); checkTerm(*t2, it, id(), MX(sq * sq.transpose()), id, r, "term-vector-sqrt"); }
  m.evaluation(h);
}

VF_MAIN
