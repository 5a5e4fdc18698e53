// C10: every operation on SparseBlockMatrix (dynamic and fixed blocks), its solvers and the compressed column matrix against the dense image.
#include "common.hpp"
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
#include <aslam_sparse_block_matrix/linear_solver_dense.h>
#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
#include <aslam_backend/backend/SparseBlockMatrixWrapper.hpp>
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <sstream>
#include <Eigen/Eigenvalues>
#include <memory>
using namespace vf;
using namespace aslam_sparse_block_matrix;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

static std::vector<int> layout(Rng& g, int nmax, int fixed) {
  int n = g.i(1, nmax); std::vector<int> s; int acc = 0;
  for (int k = 0; k < n; ++k) { acc += fixed > 0 ? fixed : (g.b(0.3) ? 1 : g.i(1, 6)); s.push_back(acc); }
  return s;
}
static int base(const std::vector<int>& s, int k) { return k ? s[k - 1] : 0; }
static int size(const std::vector<int>& s, int k) { return s[k] - base(s, k); }

// The reference: a dense matrix and the set of allocated blocks.
struct Rep { std::vector<int> r, c; M d; std::set<std::pair<int, int>> set;
  Rep() {} Rep(const std::vector<int>& r_, const std::vector<int>& c_) : r(r_), c(c_), d(M::Zero(r_.empty() ? 0 : r_.back(), c_.empty() ? 0 : c_.back())) {} };
template <class T> struct Dim { enum { R = T::RowsAtCompileTime, C = T::ColsAtCompileTime }; };

template <class T> void compare(const char* key, const SparseBlockMatrix<T>& A, const Rep& ref, bool exact, double tol = 0) {
  std::string k(key);
  bool shape = A.rows() == ref.d.rows() && A.cols() == ref.d.cols() && A.rowBlockIndices() == ref.r && A.colBlockIndices() == ref.c;
  mon().check(k + "-layout", shape, "rows " + std::to_string(A.rows()) + " cols " + std::to_string(A.cols()));
  if (!shape) return;
  M d = A.toDense();
  if (exact) mon().check(k + "-values", d == ref.d, mstr(d - ref.d));
  else mon().near(k + "-values", d, ref.d, tol * (1 + ref.d.norm()));
  size_t nb = 0, nz = 0; bool same = true;
  for (int c = 0; c < (int)ref.c.size(); ++c) for (int r = 0; r < (int)ref.r.size(); ++r) {
    bool has = A.isBlockSet(r, c);
    if (has != (ref.set.count({r, c}) > 0)) same = false;
    if (has) { nb++; nz += size(ref.r, r) * size(ref.c, c);
      if (A.block(r, c)->rows() != size(ref.r, r) || A.block(r, c)->cols() != size(ref.c, c)) same = false; }
  }
  mon().check(k + "-block-structure", same, "");
  mon().check(k + "-nonzero-counts", A.nonZeroBlocks() == nb && A.nonZeros() == nz, std::to_string(A.nonZeros()) + " vs " + std::to_string(nz));
}
template <class T> void randomFill(Rng& g, SparseBlockMatrix<T>& A, Rep& ref, double density, bool upperOnly = false) {
  for (int c = 0; c < (int)ref.c.size(); ++c) for (int r = 0; r < (int)ref.r.size(); ++r) {
    if (upperOnly && r > c) continue;
    if (!g.b(density)) continue;
    M v = g.mat(size(ref.r, r), size(ref.c, c));
    *A.block(r, c, true) = v; ref.d.block(base(ref.r, r), base(ref.c, c), v.rows(), v.cols()) = v; ref.set.insert({r, c});
  }
}
template <class T> std::unique_ptr<SparseBlockMatrix<T>> make(Rng& g, const Rep& ref) {
  int k = g.i(0, 2);
  if (k == 0) return std::unique_ptr<SparseBlockMatrix<T>>(new SparseBlockMatrix<T>(&ref.r[0], &ref.c[0], ref.r.size(), ref.c.size()));
  if (k == 1) return std::unique_ptr<SparseBlockMatrix<T>>(new SparseBlockMatrix<T>(ref.r, ref.c));
  Eigen::VectorXi a(ref.r.size()), b(ref.c.size()); for (size_t i = 0; i < ref.r.size(); ++i) a[i] = ref.r[i]; for (size_t i = 0; i < ref.c.size(); ++i) b[i] = ref.c[i];
  return std::unique_ptr<SparseBlockMatrix<T>>(new SparseBlockMatrix<T>(a, b));
}
static Rep transposed(const Rep& a) { Rep t(a.c, a.r); t.d = a.d.transpose(); for (auto& p : a.set) t.set.insert({p.second, p.first}); return t; }
static Rep product(const Rep& a, const Rep& b) { Rep p(a.r, b.c); p.d = a.d * b.d;
  for (auto& x : a.set) for (auto& y : b.set) if (x.second == y.first) p.set.insert({x.first, y.second}); return p; }

template <class T> void permutations(Rng&, SparseBlockMatrix<T>&, Rep&, std::false_type) {}
template <class T> void permutations(Rng& g, SparseBlockMatrix<T>& A_, Rep& ref, std::true_type) { auto* A = &A_; if (ref.r != ref.c) return;
        // block permutation
        int nb = ref.r.size(); std::vector<int> pinv(nb); for (int i = 0; i < nb; ++i) pinv[i] = i; for (int i = nb - 1; i > 0; --i) std::swap(pinv[i], pinv[g.i(0, i)]);
        std::vector<int> sz(nb), idx(nb); for (int i = 0; i < nb; ++i) sz[pinv[i]] = size(ref.r, i); int acc = 0; for (int i = 0; i < nb; ++i) idx[i] = acc += sz[i];
        Rep p(idx, idx); for (auto& q : ref.set) p.set.insert({pinv[q.first], pinv[q.second]});
        for (int r = 0; r < nb; ++r) for (int c = 0; c < nb; ++c) p.d.block(base(idx, pinv[r]), base(idx, pinv[c]), size(ref.r, r), size(ref.r, c)) = ref.d.block(base(ref.r, r), base(ref.r, c), size(ref.r, r), size(ref.r, c));
        SparseBlockMatrix<T>* d = 0; mon().check("permutation-ok", A->symmPermutation(d, &pinv[0]), ""); compare("permutation", *d, p, true);
        Rep dirty(idx, idx); randomFill(g, *d, dirty, 0.3); mon().check("permutation-existing-ok", A->symmPermutation(d, &pinv[0]), ""); mon().check("permutation-existing-values", d->toDense() == p.d, ""); delete d;
        // upper triangular storage of a symmetric matrix
        Rep up(ref.r, ref.r); auto U = make<T>(g, up); randomFill(g, *U, up, 0.5, true);
        for (int i = 0; i < nb; ++i) if (up.set.count({i, i})) { M b = up.d.block(base(up.r, i), base(up.r, i), size(up.r, i), size(up.r, i)); b = (b + b.transpose()).eval(); *U->block(i, i) = b; up.d.block(base(up.r, i), base(up.r, i), b.rows(), b.cols()) = b; }
        auto sym = [&](const Rep& q) { M m = q.d; for (int r = 0; r < nb; ++r) for (int c = r + 1; c < nb; ++c) m.block(base(q.r, c), base(q.r, r), size(q.r, c), size(q.r, r)) = m.block(base(q.r, r), base(q.r, c), size(q.r, r), size(q.r, c)).transpose(); return m; };
        M full = sym(up); d = 0; mon().check("permutation-upper-ok", U->symmPermutation(d, &pinv[0], true), "");
        Rep ud(idx, idx); ud.d = d->toDense(); M got = sym(ud), want = M::Zero(full.rows(), full.cols());
        for (int r = 0; r < nb; ++r) for (int c = 0; c < nb; ++c) want.block(base(idx, pinv[r]), base(idx, pinv[c]), size(ref.r, r), size(ref.r, c)) = full.block(base(ref.r, r), base(ref.r, c), size(ref.r, r), size(ref.r, c));
        mon().check("permutation-upper-values", got == want, ""); bool onlyUpper = true; for (int r = 0; r < nb; ++r) for (int c = 0; c < r; ++c) onlyUpper = onlyUpper && !d->isBlockSet(r, c); mon().check("permutation-upper-storage", onlyUpper, "");
        delete d; }
template <class T> void history(Rng& g, const char* name) {
  const int FR = Dim<T>::R == Eigen::Dynamic ? 0 : (int)Dim<T>::R, FC = Dim<T>::C == Eigen::Dynamic ? 0 : (int)Dim<T>::C;
  Rep ref(layout(g, 7, FR), layout(g, 7, FC));
  const bool square = FR == FC && g.b(0.4); if (square) { ref.c = ref.r; ref.d = M::Zero(ref.r.back(), ref.r.back()); }
  auto A = make<T>(g, ref);
  compare("new", *A, ref, true);
  double density = g.pick(std::vector<double>{0.0, 0.1, 0.3, 0.6, 1.0});
  randomFill(g, *A, ref, density);
  uint64_t h = hashm(ref.d); std::string ops;
  int n = g.i(3, 14);
  for (int step = 0; step < n; ++step) {
    int op = g.i(0, 17); h = hmix(h, op);
    mon().tag("op-" + std::to_string(op));
    switch (op) {
      case 0: { int r = g.i(0, ref.r.size() - 1), c = g.i(0, ref.c.size() - 1);
        bool had = ref.set.count({r, c}); auto* b = A->block(r, c); mon().check("block-absent-iff-null", (b != 0) == had, "");
        b = A->block(r, c, true); ref.set.insert({r, c});
        M cur = ref.d.block(base(ref.r, r), base(ref.c, c), size(ref.r, r), size(ref.c, c));
        mon().check("block-returns-content", b && M(*b) == cur, "");
        if (b) { M v = g.mat(cur.rows(), cur.cols()); if (g.b()) { *b = v; ref.d.block(base(ref.r, r), base(ref.c, c), v.rows(), v.cols()) = v; } else { *b += v; ref.d.block(base(ref.r, r), base(ref.c, c), v.rows(), v.cols()) += v; } }
        break; }
      case 1: { for (int q = 0; q < 8; ++q) { int r = g.i(0, ref.d.rows() - 1), c = g.i(0, ref.d.cols() - 1); mon().check("element-access", (*A)(r, c) == ref.d(r, c), std::to_string(r) + "," + std::to_string(c)); }
        // every corner of every block
        for (int r = 0; r < ref.d.rows(); ++r) { int c = g.i(0, ref.d.cols() - 1); mon().check("element-access", (*A)(r, c) == ref.d(r, c), std::to_string(r) + "," + std::to_string(c)); }
        expectThrow("element-row-out-of-range-refused", [&] { (*A)(ref.d.rows(), 0); }, "row"); expectThrow("element-col-out-of-range-refused", [&] { (*A)(0, ref.d.cols()); }, "col");
        expectThrow("element-negative-refused", [&] { (*A)(-1, 0); }, "row"); break; }
      case 2: { double a = g.pick(std::vector<double>{0, -1, 2.5, g.u(-3, 3)}); if (g.b()) A->scale(a); else *A *= a; ref.d *= a; break; }
      case 3: { bool dealloc = g.b(); A->clear(dealloc); ref.d.setZero(); if (dealloc) ref.set.clear(); randomFill(g, *A, ref, g.u(0, 1)); break; }
      case 4: { std::unique_ptr<SparseBlockMatrix<T>> B(A->clone()); compare("clone", *B, ref, true);
        B->scale(2); for (auto& p : ref.set) B->block(p.first, p.second)->setRandom(); compare("clone-independent", *A, ref, true); break; }
      case 5: { Rep other(layout(g, 5, FR), layout(g, 5, FC)); auto B = make<T>(g, other); randomFill(g, *B, other, 0.5);
        if (g.b()) *B = *A; else A->cloneInto(*B); compare("assign", *B, ref, true); B->clear(true); compare("assign-independent", *A, ref, true); break; }
      case 6: { SparseBlockMatrix<T> B(*A); compare("copy", B, ref, true); SparseBlockMatrix<T> Cc(std::move(B)); compare("move", Cc, ref, true);
        SparseBlockMatrix<T> D; D = std::move(Cc); compare("move-assign", D, ref, true);
        randomFill(g, D, ref, 0.1); *A = std::move(D); compare("move-assign-back", *A, ref, true); *A = *A; compare("self-assign", *A, ref, true); break; }
      case 7: { auto t = A->transpose(); compare("transpose", t, transposed(ref), true);
        typedef typename SparseBlockMatrix<T>::TransposedMatrixType TT;
        Rep tr = transposed(ref); SparseBlockMatrix<TT>* p = 0; mon().check("transpose-into-new-ok", A->transpose(p), ""); compare("transpose-into-new", *p, tr, true); delete p;
        Rep dirty(ref.c, ref.r); SparseBlockMatrix<TT> D(ref.c, ref.r); randomFill(g, D, dirty, 0.6); p = &D;
        mon().check("transpose-into-existing-ok", A->transpose(p), ""); mon().check("transpose-into-existing-values", D.toDense() == tr.d, mstr(D.toDense() - tr.d));
        Rep wrong(layout(g, 7, FC), ref.r); if (wrong.r != ref.c) { SparseBlockMatrix<TT> W(wrong.r, wrong.c); randomFill(g, W, wrong, 0.5); p = &W; mon().check("transpose-into-wrong-layout-refused", !A->transpose(p), ""); compare("transpose-refused-unchanged", W, wrong, true); }
        break; }
      case 8: { Rep o(ref.r, ref.c); auto B = make<T>(g, o); randomFill(g, *B, o, 0.4); auto* p = B.get(); mon().check("add-ok", A->add(p), "");
        o.d += ref.d; o.set.insert(ref.set.begin(), ref.set.end()); compare("add", *B, o, true); compare("add-source-unchanged", *A, ref, true);
        p = 0; mon().check("add-new-ok", A->add(p), ""); compare("add-new", *p, ref, true); delete p;
        Rep w(layout(g, 7, FR), ref.c); if (w.r != ref.r) { SparseBlockMatrix<T> W(w.r, w.c); randomFill(g, W, w, 0.5); p = &W; mon().check("add-wrong-layout-refused", !A->add(p), ""); compare("add-refused-unchanged", W, w, true); }
        break; }
      case 9: { V x = g.mat(ref.d.cols(), 1), y = V::Constant(ref.d.rows(), 7); A->multiply(&y, x); mon().near("multiply-vector", y, ref.d * x, 1e-12 * (1 + (ref.d * x).norm()));
        V u = g.mat(ref.d.rows(), 1), w = V::Constant(ref.d.cols(), 7); A->rightMultiply(&w, u); mon().near("transposed-multiply-vector", w, ref.d.transpose() * u, 1e-12 * (1 + w.norm()));
        double* d = 0; A->multiply(d, x.data()); mon().near("multiply-array-new", V(Eigen::Map<V>(d, ref.d.rows())), ref.d * x, 1e-12 * (1 + y.norm()));
        A->multiply(d, x.data()); mon().near("multiply-array-existing", V(Eigen::Map<V>(d, ref.d.rows())), ref.d * x, 1e-12 * (1 + y.norm())); delete[] d;
        d = 0; A->rightMultiply(d, u.data()); mon().near("transposed-multiply-array-new", V(Eigen::Map<V>(d, ref.d.cols())), ref.d.transpose() * u, 1e-12 * (1 + w.norm()));
        A->rightMultiply(d, u.data()); mon().near("transposed-multiply-array-existing", V(Eigen::Map<V>(d, ref.d.cols())), ref.d.transpose() * u, 1e-12 * (1 + w.norm())); delete[] d; break; }
      case 10: { typedef typename SparseBlockMatrix<T>::TransposedMatrixType TT;
        Rep o(ref.c, layout(g, 6, FR)); SparseBlockMatrix<TT> B(o.r, o.c); randomFill(g, B, o, g.u(0, 1)); Rep pr = product(ref, o);
        SparseBlockMatrix<M> P = *A * B; compare("product", P, pr, false, 1e-12);
        SparseBlockMatrix<M>* p = 0; mon().check("product-new-ok", A->multiply(p, &B), ""); compare("product-new", *p, pr, false, 1e-12);
        mon().check("product-existing-ok", A->multiply(p, &B), ""); compare("product-existing", *p, pr, false, 1e-12); delete p;
        Rep wr(layout(g, 7, FC), o.c); if (wr.r != ref.c) { SparseBlockMatrix<TT> W(wr.r, wr.c); p = 0; mon().check("product-incompatible-refused", !A->multiply(p, &W), ""); delete p; expectThrow("product-incompatible-throws", [&] { *A * W; }, "layout"); }
        SparseBlockMatrix<TT> At = A->transpose(); Rep AtA = product(transposed(ref), ref); SparseBlockMatrix<M> Q = At * *A; compare("normal-product", Q, AtA, false, 1e-12); break; }
      case 11: { double a = g.u(-2, 2); SparseBlockMatrix<T> B = *A * a; Rep o = ref; o.d *= a; compare("scaled-copy", B, o, true); compare("scaled-copy-source", *A, ref, true); break; }
      case 12: { int r0 = g.i(0, ref.r.size() - 1), r1 = g.i(r0 + 1, ref.r.size()), c0 = g.i(0, ref.c.size() - 1), c1 = g.i(c0 + 1, ref.c.size());
        Rep s; for (int r = r0; r < r1; ++r) s.r.push_back(ref.r[r] - base(ref.r, r0)); for (int c = c0; c < c1; ++c) s.c.push_back(ref.c[c] - base(ref.c, c0));
        s.d = ref.d.block(base(ref.r, r0), base(ref.c, c0), s.r.back(), s.c.back());
        for (auto& p : ref.set) if (p.first >= r0 && p.first < r1 && p.second >= c0 && p.second < c1) s.set.insert({p.first - r0, p.second - c0});
        bool alloc = g.b(); SparseBlockMatrix<T>* B = A->slice(r0, r1, c0, c1, alloc); compare("slice", *B, s, true);
        Rep dst(s.r, s.c); auto D = make<T>(g, dst); randomFill(g, *D, dst, 0.5); A->sliceInto(r0, r1, c0, c1, *D); mon().check("slice-into-values", D->toDense() == s.d, mstr(D->toDense() - s.d));
        SparseBlockMatrix<T> copy(*B); compare("slice-copied", copy, s, true);
        if (alloc) { B->scale(3); compare("slice-deep-independent", *A, ref, true); }
        else { // a view: writing through it changes the viewed matrix, never its structure
          B->scale(2); for (int r = 0; r < s.d.rows(); ++r) for (int c = 0; c < s.d.cols(); ++c) ref.d(base(ref.r, r0) + r, base(ref.c, c0) + c) *= 2; compare("view-writes-through", *A, ref, true);
          mon().check("view-does-not-allocate", [&] { for (int r = 0; r < (int)s.r.size(); ++r) for (int c = 0; c < (int)s.c.size(); ++c) if (!s.set.count({r, c}) && B->block(r, c, true)) return false; return true; }(), "");
          if (g.b()) { Rep o(layout(g, 3, FR), layout(g, 3, FC)); auto O = make<T>(g, o); randomFill(g, *O, o, 0.5); if (g.b()) *B = *O; else *B = SparseBlockMatrix<T>(*O); compare("view-rebound", *B, o, true); compare("view-rebind-leaves-matrix", *A, ref, true); } }
        delete B; compare("slice-freed", *A, ref, true); break; }
      case 13: permutations<T>(g, *A, ref, std::integral_constant<bool, (int)Dim<T>::R == (int)Dim<T>::C>()); break;
      case 14: { // CCS of the stored blocks
        std::vector<int> p(A->cols() + 1, -1), i(A->nonZeros() + 1, -1); std::vector<double> x(A->nonZeros() + 1, 1e300), x2 = x;
        int nz = A->template fillCCS<int>(&p[0], &i[0], &x[0]); mon().check("ccs-count", nz == (int)A->nonZeros() && p.back() == nz, "");
        M d = M::Zero(ref.d.rows(), ref.d.cols()); bool ok = true; for (int c = 0; c < A->cols(); ++c) for (int k = p[c]; k < p[c + 1]; ++k) { if (k > p[c] && i[k] <= i[k - 1]) ok = false; d(i[k], c) += x[k]; }
        mon().check("ccs-rows-sorted", ok, ""); mon().check("ccs-values", d == ref.d, ""); int nz2 = A->template fillCCS<int>(&x2[0]); mon().check("ccs-values-only", nz2 == nz && x2 == x, "");
        break; }
      case 15: if (ref.r == ref.c && FR == FC) { // upper triangle variants
        Rep up(ref.r, ref.r); auto U = make<T>(g, up); randomFill(g, *U, up, g.u(0.2, 1), true);
        for (int k = 0; k < (int)up.r.size(); ++k) if (up.set.count({k, k})) { M b = up.d.block(base(up.r, k), base(up.r, k), size(up.r, k), size(up.r, k)); b = (b + b.transpose()).eval(); *U->block(k, k) = b; up.d.block(base(up.r, k), base(up.r, k), b.rows(), b.cols()) = b; }
        M upper = up.d.triangularView<Eigen::Upper>(), full = upper.selfadjointView<Eigen::Upper>();
        for (int v = 0; v < 2; ++v) { std::vector<long> p(U->cols() + 1, -1), i(2 * U->nonZeros() + 1, -1); std::vector<double> x(2 * U->nonZeros() + 1, 1e300), x2 = x;
          long nz = v ? U->template fillUpperTriangleCCS<long>(&p[0], &i[0], &x[0]) : U->template fillCCS<long>(&p[0], &i[0], &x[0], true);
          M d = M::Zero(up.d.rows(), up.d.cols()); bool ok = true; for (int c = 0; c < U->cols(); ++c) for (long k = p[c]; k < p[c + 1]; ++k) { if (k > p[c] && i[k] <= i[k - 1]) ok = false; d(i[k], c) += x[k]; }
          std::string k = v ? "symmetric-ccs" : "upper-ccs";
          mon().check(k + "-rows-sorted", ok, ""); mon().check(k + "-values", d == (v ? full : upper), mstr(d - (v ? full : upper)));
          long nz2 = v ? U->template fillUpperTriangleCCS<long>(&x2[0]) : U->template fillCCS<long>(&x2[0], true); mon().check(k + "-values-only", nz == nz2 && x == x2 && p.back() == nz, ""); } } break;
      case 16: { MatrixStructure ms; for (int rep = 0; rep < 2; ++rep) { A->fillBlockStructure(ms); bool ok = ms.n == (int)ref.c.size() && ms.m == (int)ref.r.size(); int k = 0; for (int c = 0; c < ms.n && ok; ++c) { ok = ms.Ap[c] == k; for (auto& q : std::set<int>([&] { std::set<int> s; for (auto& p : ref.set) if (p.second == c && p.first <= c) s.insert(p.first); return s; }())) ok = ok && ms.Aii[k++] == q; } ok = ok && ms.Ap[ms.n] == k; mon().check("block-structure-upper", ok, "");
          Rep o(layout(g, 9, FR), layout(g, 9, FC)); SparseBlockMatrix<T> B(o.r, o.c); randomFill(g, B, o, 0.7); B.fillBlockStructure(ms); mon().check("block-structure-other-size", ms.n == (int)o.c.size(), ""); } break; }
      case 17: { std::string f = scratch() + "/m.txt"; bool up = g.b(0.3) && ref.r == ref.c; mon().check("octave-written", A->writeOctave(f.c_str(), up), ""); std::ifstream in(f); std::string line; M d = M::Zero(up ? std::max(ref.d.rows(), ref.d.cols()) : ref.d.rows(), up ? std::max(ref.d.rows(), ref.d.cols()) : ref.d.cols()); int rows = -1, cols = -1;
        while (std::getline(in, line)) { if (line.compare(0, 7, "# rows:") == 0) rows = atoi(line.c_str() + 7); if (line.compare(0, 10, "# columns:") == 0) cols = atoi(line.c_str() + 10); if (line.empty() || line[0] == '#') continue; std::istringstream s(line); int r, c; double v; s >> r >> c >> v; if (s && r >= 1 && c >= 1 && r <= d.rows() && c <= d.cols()) d(r - 1, c - 1) += v; }
        mon().check("octave-dimensions", rows == ref.d.rows() && cols == ref.d.cols(), ""); if (!up) mon().near("octave-values", d, ref.d, 1e-7 * (1 + ref.d.norm())); break; }
    }
    compare("after-operation", *A, ref, true);
  }
  mon().evaluation(h);
}
VF_GROUP(history_dynamic_, 500, 20000) { history<M>(rng, "dynamic"); }
VF_GROUP(history_fixed_square, 200, 8000) { history<Eigen::Matrix3d>(rng, "fixed3"); }
VF_GROUP(history_fixed_rect, 200, 8000) { history<Eigen::Matrix<double, 2, 3>>(rng, "fixed23"); }

// --- solvers -------------------------------------------------------------------------------------------------------
template <class T> struct System { Rep ref; SparseBlockMatrix<T> A; M full; V b;
  // kind: 0 SPD, 1 symmetric indefinite (non singular), 2 exactly singular
  System(Rng& g, const std::vector<int>& lay, const std::set<std::pair<int, int>>& pattern, bool storeFull, int kind) : ref(lay, lay), A(lay, lay) {
    int n = lay.back(), nb = lay.size(); M S = M::Zero(n, n);
    for (auto& p : pattern) { M v = g.mat(size(lay, p.first), size(lay, p.second)); S.block(base(lay, p.first), base(lay, p.second), v.rows(), v.cols()) = v; S.block(base(lay, p.second), base(lay, p.first), v.cols(), v.rows()) = v.transpose(); }
    for (int r = 0; r < nb; ++r) { int s = size(lay, r), b0 = base(lay, r); M d = g.mat(s, s); S.block(b0, b0, s, s) = d + d.transpose(); }
    for (int i = 0; i < n; ++i) { double o = S.row(i).cwiseAbs().sum(); S(i, i) = o + g.u(0.1, 2); }   // diagonally dominant
    V sc(n); for (int i = 0; i < n; ++i) sc[i] = std::pow(10.0, g.b(0.3) ? g.u(-2, 2) : 0); S = sc.asDiagonal() * S * sc.asDiagonal();
    if (kind == 1) { for (int i = 0; i < n; ++i) if (g.b(0.4)) { S(i, i) = -S(i, i); } S(0, 0) = -std::abs(S(0, 0)); }
    if (kind == 2) { int z = g.i(0, n - 1); S.row(z).setZero(); S.col(z).setZero(); }
    full = S; b = g.mat(n, 1);
    if (kind == 2) b = V::Ones(n);
    for (int r = 0; r < nb; ++r) for (int c = 0; c < nb; ++c) { if (!storeFull && r > c) continue; if (r != c && !pattern.count({r, c}) && !pattern.count({c, r})) continue; *A.block(r, c, true) = S.block(base(lay, r), base(lay, c), size(lay, r), size(lay, c)); }
  } };
static std::set<std::pair<int, int>> pattern(Rng& g, int nb) { std::set<std::pair<int, int>> p; double d = g.pick(std::vector<double>{0, 0.2, 0.5, 1}); for (int r = 0; r < nb; ++r) for (int c = r + 1; c < nb; ++c) if (g.b(d)) p.insert({r, c}); return p; }

template <class T> void solverHistory(Rng& g, int which) {
  const int F = Dim<T>::R == Eigen::Dynamic ? 0 : (int)Dim<T>::R;
  std::unique_ptr<LinearSolver<T>> s; std::string name; bool orders = g.b();
  switch (which) {
    case 0: case 1: { auto* c = new LinearSolverCholmod<T>; c->setBlockOrdering(orders); mon().check("block-ordering-kept", c->blockOrdering() == orders, ""); s.reset(c); name = "cholmod"; break; }
    case 2: s.reset(new LinearSolverDense<T>); name = "dense"; break;
    default: s.reset(new LinearSolverQr<T>); name = "qr";
  }
  uint64_t h = which; std::string hist;
  int systems = g.i(1, 4);
  for (int q = 0; q < systems; ++q) {
    std::vector<int> lay = layout(g, 6, F); auto pat = pattern(g, lay.size()); bool full = which != 3 && g.b(0.4);
    s->init(); hist += "|init" + std::to_string(lay.size());
    int solves = g.i(1, 3);
    std::unique_ptr<System<T>> prev;
    for (int k = 0; k < solves; ++k) {
      int kind = g.b(0.2) ? 2 : (g.b(0.15) ? 1 : 0);
      std::unique_ptr<System<T>> sys(new System<T>(g, lay, pat, full, kind)); prev.reset();   // same pattern, a different matrix object; the former one is gone
      int n = lay.back(); h = hmix(h, hashm(sys->full)); hist += " k" + std::to_string(kind);
      mon().tag("solver-" + name + "-kind-" + std::to_string(kind));
      V b = sys->b, x = V::Constant(n, 123.0); bool ok = s->solve(sys->A, x.data(), b.data());
      mon().check("solver-keeps-right-hand-side", b == sys->b, name);
      mon().check("solver-keeps-matrix", sys->A.toDense() == [&] { M m = M::Zero(n, n); for (size_t r = 0; r < lay.size(); ++r) for (size_t c = 0; c < lay.size(); ++c) if (sys->A.isBlockSet(r, c)) m.block(base(lay, r), base(lay, c), size(lay, r), size(lay, c)) = sys->full.block(base(lay, r), base(lay, c), size(lay, r), size(lay, c)); return m; }(), name);
      if (kind == 0) { mon().check("solve-" + name + "-ok", ok, hist);
        V ref = sys->full.ldlt().solve(sys->b); double res = (sys->full * x - sys->b).norm(), scale = sys->full.norm() * x.norm() + sys->b.norm();
        mon().check("solve-" + name + "-solution", res <= 1e-11 * scale, "residual " + std::to_string(res) + " of " + std::to_string(scale) + hist); (void)ref; }
      else if (kind == 1) { if (ok) { double res = (sys->full * x - sys->b).norm(), scale = sys->full.norm() * x.norm() + sys->b.norm(); Eigen::SelfAdjointEigenSolver<M> es(sys->full); double cond = es.eigenvalues().cwiseAbs().maxCoeff() / es.eigenvalues().cwiseAbs().minCoeff();
          if (cond < 1e6) mon().check("solve-" + name + "-indefinite", res <= 1e-5 * scale, "residual " + std::to_string(res) + " of " + std::to_string(scale)); } }
      else mon().check("solve-" + name + "-singular-reported", !ok, hist + " x=" + mstr(x));
      if (which <= 1 && g.b(0.6) && kind != 1) { // inverse blocks and patterns
        if (g.b()) { double** blocks = 0; std::vector<std::vector<double>> own; std::vector<double*> ptr; bool mine = g.b();
          if (mine) { for (size_t i = 0; i < lay.size(); ++i) { own.emplace_back(size(lay, i) * size(lay, i), 5.0); } for (auto& o : own) ptr.push_back(&o[0]); blocks = &ptr[0]; }
          bool r = s->solveBlocks(blocks, sys->A); hist += "B"; mon().check("inverse-blocks-" + name + (kind == 0 ? "-ok" : "-singular-reported"), r == (kind == 0), hist);
          if (r && kind == 0) { M inv = sys->full.inverse(); for (size_t i = 0; i < lay.size(); ++i) { int z = size(lay, i); M w = inv.block(base(lay, i), base(lay, i), z, z); mon().near("inverse-blocks-" + name, M(Eigen::Map<M>(blocks[i], z, z)), w, 1e-8 * (inv.norm() * 1e-2 + w.norm()) + 1e-300); } }
          if (!mine && blocks) { for (size_t i = 0; i < lay.size(); ++i) delete[] blocks[i]; delete[] blocks; } }
        else { std::vector<std::pair<int, int>> idx; std::set<std::pair<int, int>> seen; int m = g.i(1, 5); for (int t = 0; t < m; ++t) { std::pair<int, int> p(g.i(0, lay.size() - 1), g.i(0, lay.size() - 1)); if (seen.insert(p).second) idx.push_back(p); }
          SparseBlockMatrix<M> spinv; if (g.b()) { std::vector<int> o = layout(g, 4, 0); SparseBlockMatrix<M> t(o, o); Rep tr(o, o); randomFill(g, t, tr, 0.5); spinv = t; }
          bool r = s->solvePattern(spinv, idx, sys->A); hist += "P"; mon().check("inverse-pattern-" + name + (kind == 0 ? "-ok" : "-singular-reported"), r == (kind == 0), hist);
          if (r && kind == 0) { M inv = sys->full.inverse(); mon().check("inverse-pattern-structure", spinv.nonZeroBlocks() == idx.size() && spinv.rows() == n, ""); for (auto& p : idx) { auto* bl = spinv.block(p.first, p.second); mon().check("inverse-pattern-block-present", bl != 0, ""); if (bl) { M w = inv.block(base(lay, p.first), base(lay, p.second), size(lay, p.first), size(lay, p.second)); mon().near("inverse-pattern-" + name, *bl, w, 1e-8 * (1e-2 * inv.norm() + w.norm()) + 1e-300); } } } }
      }
      prev = std::move(sys);
    }
  }
  mon().evaluation(h);
}
static void inScratch() { static bool done = false; if (!done) { done = true; if (chdir(scratch().c_str())) abort(); } }
VF_GROUP(solvers_dynamic_, 500, 20000) { inScratch(); solverHistory<M>(rng, caseno % 4); }
VF_GROUP(solvers_fixed_, 250, 8000) { inScratch(); solverHistory<Eigen::Matrix3d>(rng, caseno % 4); }

// --- the optimizer's matrix interface: compressed column matrix and block matrix wrapper -----------------------------
using namespace aslam::backend;
struct Dv : DesignVariable { int n; Dv(int n_) : n(n_) {} int minimalDimensionsImplementation() const override { return n; } void updateImplementation(const double*, int) override {} void revertUpdateImplementation() override {} void getParametersImplementation(Eigen::MatrixXd&) const override {} void setParametersImplementation(const Eigen::MatrixXd&) override {} void minimalDifferenceImplementation(const Eigen::MatrixXd&, V&) const override {} void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd&, V&, Eigen::MatrixXd&) const override {} };
template <class I> void ccm(Rng& g) {
  CompressedColumnMatrix<I> A; M ref; bool diag = false; uint64_t h = 5;
  auto cmp = [&](const char* key) { std::string k(key);
    mon().check(k + "-size", A.rows() == (size_t)ref.rows() && A.cols() == (size_t)ref.cols(), std::to_string(A.rows()) + "x" + std::to_string(A.cols()) + " vs " + std::to_string(ref.rows()) + "x" + std::to_string(ref.cols()));
    if (A.rows() != (size_t)ref.rows() || A.cols() != (size_t)ref.cols()) return;
    mon().check(k + "-dense", A.toDense() == ref, mstr(A.toDense() - ref)); mon().check(k + "-nnz", A.nnz() == A.values().size() && A.nnz() == A.row_ind().size() && A.col_ptr().size() == A.cols() + 1 && (size_t)A.col_ptr().back() == A.nnz(), "");
    if (ref.size()) for (int q = 0; q < 6; ++q) { int r = g.i(0, ref.rows() - 1), c = g.i(0, ref.cols() - 1); if (A.nnz()) mon().check(k + "-element", A(r, c) == ref(r, c) && A.value(r, c) == ref(r, c), ""); }
    int n = diag ? ref.cols() - ref.rows() : ref.cols(); V x = g.mat(n, 1), y, w, u = g.mat(ref.rows(), 1); A.rightMultiply(x, y); A.leftMultiply(u, w);
    mon().near(k + "-right-multiply", y, ref.leftCols(n) * x, 1e-12 * (1 + y.norm())); mon().near(k + "-left-multiply", w, ref.leftCols(n).transpose() * u, 1e-12 * (1 + w.norm())); };
  auto sparse = [&](int r, int c) { M m = g.mat(r, c); double d = g.u(0, 1); for (int i = 0; i < m.size(); ++i) if (!g.b(d)) m.data()[i] = 0; return m; };
  std::vector<std::unique_ptr<Dv>> dvs; int rows = 0, bi = 0; for (int i = 0, n = g.i(1, 6); i < n; ++i) { dvs.emplace_back(new Dv(g.i(1, 4))); bool act = g.b(0.8) || i == 0; dvs.back()->setActive(act); if (act) { dvs.back()->setBlockIndex(bi++); dvs.back()->setColumnBase(rows); rows += dvs.back()->minimalDimensions(); } else dvs.back()->setBlockIndex(-1); }
  std::vector<JacobianColumnPointer> ptr; std::vector<std::vector<DesignVariable*>> lists; std::vector<int> starts, dims; bool jac = false;
  for (int step = 0, n = g.i(2, 10); step < n; ++step) { int op = g.i(0, 9); h = hmix(h, op); mon().tag("ccm-op-" + std::to_string(op));
    switch (op) {
      case 0: { A.init(rows, 0, g.i(0, 50), g.i(1, 50)); if (A.nnz()) { A.clear(); A.init(rows, 0, 10, 10); } ref = M::Zero(rows, 0); diag = false; jac = true; ptr.clear(); lists.clear(); starts.clear(); dims.clear(); break; }
      case 1: { M m = sparse(g.i(1, 8), g.i(1, 8)); A.fromDense(m); ref = m; diag = false; jac = false; break; }
      case 2: { M m = sparse(g.i(1, 8), g.i(1, 8)); double t = g.b() ? g.u(0, 1) : -g.u(0, 1); A.fromDenseTolerance(m, t); ref = m.unaryExpr([&](double v) { return std::abs(v) > std::abs(t) ? v : 0.0; }); diag = false; jac = false; break; }
      case 3: case 4: if (jac && !diag) { // an error term's Jacobian, transposed, goes to the right
        int d = g.i(1, 4); std::vector<DesignVariable*> l; JacobianContainer jc(d); bool any = false;
        for (auto& v : dvs) if (g.b(0.5)) { l.push_back(v.get()); any = any || v->isActive(); }
        if (!any) { l.push_back(dvs[0].get()); } for (size_t i = l.size() - 1; i > 0; --i) std::swap(l[i], l[g.i(0, i)]);
        M J = M::Zero(d, rows); for (auto* v : l) { M b = g.mat(d, v->minimalDimensions()); jc.add(v, b); if (v->isActive()) J.middleCols(v->columnBase(), b.cols()) = b; }
        if (op == 3) A.appendJacobians(jc); else { auto p = A.appendJacobiansSymbolic(d, l); A.writeJacobians(jc, p); ptr.push_back(p); lists.push_back(l); starts.push_back(ref.cols()); dims.push_back(d); }
        M nr(rows, ref.cols() + d); nr << ref, J.transpose(); ref = nr; } break;
      case 5: if (jac && !lists.empty()) { int k = g.i(0, lists.size() - 1); JacobianContainer jc(dims[k]); M J = M::Zero(dims[k], rows); for (auto* v : lists[k]) { M b = g.mat(dims[k], v->minimalDimensions()); jc.add(v, b); if (v->isActive()) J.middleCols(v->columnBase(), b.cols()) = b; } A.writeJacobians(jc, ptr[k]); ref.middleCols(starts[k], dims[k]) = J.transpose(); } break;
      case 6: if (!diag && ref.rows() > 0) { V d = g.mat(ref.rows(), 1); bool cst = g.b(); if (cst) d.setConstant(d[0]); M nr(ref.rows(), ref.cols() + ref.rows()); nr << ref, M(d.asDiagonal()); if (cst) A.pushConstantDiagonalBlock(d[0]); else A.pushDiagonalBlock(d); ref = nr; diag = true; expectThrow("second-diagonal-refused", [&] { A.pushConstantDiagonalBlock(1.0); }, ""); } break;
      case 7: if (diag) { V d = g.mat(ref.rows(), 1); bool cst = g.b(); if (cst) d.setConstant(d[0]); if (cst) A.updateConstantDiagonalBlock(d[0]); else A.updateDiagonalBlock(d); ref.rightCols(ref.rows()) = d.asDiagonal(); } else expectThrow("update-without-diagonal-refused", [&] { A.updateConstantDiagonalBlock(1.0); }, ""); break;
      case 8: if (diag) { A.popDiagonalBlock(); ref = M(ref.leftCols(ref.cols() - ref.rows())); diag = false; } else expectThrow("pop-without-diagonal-refused", [&] { A.popDiagonalBlock(); }, ""); break;
      case 9: if (g.b(0.5) && ref.rows()) { A.clear(); if (diag) ref = M(ref.leftCols(ref.cols() - ref.rows())); diag = false; ref.setZero(); jac = false; }
        else if (ref.size()) { cholmod_sparse cs; A.getView(&cs); CompressedColumnMatrix<I> B; if (g.b()) { B.fromDense(M::Ones(2, 2)); B.pushConstantDiagonalBlock(1); } B.fromCholmodSparse(&cs); mon().check("cholmod-view-round-trip", B.toDense() == ref, ""); V x = g.mat(ref.cols(), 1), y; noThrow("cholmod-view-usable", [&] { B.rightMultiply(x, y); }, ""); mon().near("cholmod-view-multiply", y, ref * x, 1e-12 * (1 + y.norm()));
          std::ostringstream os; A.writeMATLAB(os); M d = M::Zero(ref.rows(), ref.cols()); std::istringstream is(os.str()); int r, c; double v; while (is >> r >> c >> v) d(r - 1, c - 1) += v; mon().near("matlab-export", d, ref, 1e-14 * (1 + ref.norm())); } break;
    }
    if (ref.size()) cmp("compressed-column");
    h = hmix(h, hashm(ref));
  }
  mon().evaluation(h);
}
VF_GROUP(compressed_column_, 600, 20000) { if (caseno % 2) ccm<int>(rng); else ccm<SuiteSparse_long>(rng); }
VF_GROUP(block_wrapper_, 200, 5000) {
  Rep ref(layout(rng, 6, 0), layout(rng, 6, 0)); SparseBlockMatrixWrapper w; w._M = aslam_sparse_block_matrix::SparseBlockMatrix<M>(ref.r, ref.c);
  for (int k = 0; k < 3; ++k) { M m = rng.mat(ref.d.rows(), ref.d.cols()); double d = rng.u(0, 1); for (int i = 0; i < m.size(); ++i) if (!rng.b(d)) m.data()[i] = 0; double t = rng.b() ? 0.5 : 0; if (t > 0) { w.fromDenseTolerance(m, t); m = m.unaryExpr([&](double v) { return std::abs(v) > t ? v : 0.0; }); } else w.fromDense(m);
    mon().check("wrapper-dense", static_cast<const aslam::backend::Matrix&>(w).toDense() == m && w.rows() == (size_t)m.rows() && w.cols() == (size_t)m.cols(), ""); int r = rng.i(0, m.rows() - 1), c = rng.i(0, m.cols() - 1); mon().check("wrapper-element", w(r, c) == m(r, c), "");
    V x = rng.mat(m.cols(), 1), y, u = rng.mat(m.rows(), 1), z; w.rightMultiply(x, y); w.leftMultiply(u, z); mon().near("wrapper-right-multiply", y, m * x, 1e-12 * (1 + y.norm())); mon().near("wrapper-left-multiply", z, m.transpose() * u, 1e-12 * (1 + z.norm())); mon().evaluation(hashm(m)); }
}
VF_MAIN
