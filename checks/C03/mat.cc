// C03: every linear-algebra operation of every matrix type agrees with the same operation on the flat dense matrix.
#include <limits>
#include "flat.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bccsmatrixinitializer.hh>
using namespace Dune; using namespace flat;
using C = std::complex<double>;

template <class K> std::vector<K> alphas() {
  if constexpr (isComplex<K>::value) return {K(0), K(1), K(-1), K(3, -2), K(0, 1)};
  else return {K(0), K(1), K(-1), K(3), K(0.5)};
}
template <class K> K nanOf() { return K(std::numeric_limits<double>::quiet_NaN()); }

template <class K> void same(const std::vector<K>& got, const std::vector<K>& want, const char* op) {
  mc::step();
  for (size_t i = 0; i < want.size(); ++i) CHECK(got[i] == want[i], op, ": component ", i, " is ", got[i], ", expected ", want[i], "; result ", show(got), " expected ", show(want));
}

// V, W: vectors of A's domain and range
template <class M, class K, class X, class Y>
void applyAll(const M& A, const Dense<K>& D, X x0, Y y0, unsigned seed) {
  auto gen = [&](int n, unsigned s, bool zeros) { std::vector<K> v(n); for (int i = 0; i < n; ++i) v[i] = zeros && (i + s) % 3 == 0 ? K(0) : val<K>(s * 977u + i * 31u + 5u); return v; };
  const Dense<K> T = trans(D), H = trans(D, true);
  for (int zeros = 0; zeros < 2; ++zeros) {
    auto fx = gen(D.m, seed + 1, zeros), fy = gen(D.n, seed + 2, zeros);
    X x = x0; put(x, fx); Y y = y0; put(y, fy);
    auto comb = [](std::vector<K> a, const std::vector<K>& b, K f) { for (size_t i = 0; i < a.size(); ++i) a[i] += f * b[i]; return a; };
    const auto Ax = matvec(D, fx), Ty = matvec(T, fy), Hy = matvec(H, fy);
    const auto gy = gen(D.n, seed + 3, false), gx = gen(D.m, seed + 4, false);
    Y r = y0; X t = x0;
#define OPN(op) { std::vector<K> nn(D.n, nanOf<K>()); if constexpr (std::is_floating_point_v<K> || isComplex<K>::value) put(r, nn); else put(r, gy); A.op(x, r); same(get(r), Ax, #op); }
    OPN(mv)
    { std::vector<K> nn(D.m, nanOf<K>()); if constexpr (std::is_floating_point_v<K> || isComplex<K>::value) put(t, nn); else put(t, gx); A.mtv(y, t); same(get(t), Ty, "mtv"); }
    put(r, gy); A.umv(x, r); same(get(r), comb(gy, Ax, K(1)), "umv");
    put(r, gy); A.mmv(x, r); same(get(r), comb(gy, Ax, K(-1)), "mmv");
    put(t, gx); A.umtv(y, t); same(get(t), comb(gx, Ty, K(1)), "umtv");
    put(t, gx); A.mmtv(y, t); same(get(t), comb(gx, Ty, K(-1)), "mmtv");
    put(t, gx); A.umhv(y, t); same(get(t), comb(gx, Hy, K(1)), "umhv");
    put(t, gx); A.mmhv(y, t); same(get(t), comb(gx, Hy, K(-1)), "mmhv");
    for (K al : alphas<K>()) {
      put(r, gy); A.usmv(al, x, r); same(get(r), comb(gy, Ax, al), "usmv");
      put(t, gx); A.usmtv(al, y, t); same(get(t), comb(gx, Ty, al), "usmtv");
      put(t, gx); A.usmhv(al, y, t); same(get(t), comb(gx, Hy, al), "usmhv");
    }
    same(get(x), fx, "operand x unchanged"); same(get(y), fy, "operand y unchanged");
  }
}

// norms.  Block infinity norm: the row sums of the block norms (documented generalisation)
template <class S, class K> double blkInf(const Dense<K>& D, int I, int J, int R, int Cc, bool real) {
  double mx = 0; for (int i = 0; i < R; ++i) { double s = 0; for (int j = 0; j < Cc; ++j) s += real ? abs1(D(I * R + i, J * Cc + j)) : abs2(D(I * R + i, J * Cc + j)); if (std::isnan(s)) return s; mx = std::max(mx, s); } return mx;
}
template <class B> struct Inf { template <class K> static double f(const Dense<K>& D, int i0, int j0, bool real) {
  using S = Blk<B>; double mx = 0; for (int i = 0; i < S::R; ++i) { double s = 0; for (int j = 0; j < S::C; ++j) s += real ? abs1(D(i0 + i, j0 + j)) : abs2(D(i0 + i, j0 + j)); if (std::isnan(s)) return s; mx = std::max(mx, s); } return mx; } };
template <class B0, class A> struct Inf<BCRSMatrix<B0, A>> { template <class K> static double f(const Dense<K>& D, int i0, int j0, bool real) {
  using S = Blk<B0>; double mx = 0; for (int i = 0; i < 2; ++i) { double s = 0; for (int j = 0; j < 2; ++j) s += Inf<B0>::f(D, i0 + i * S::R, j0 + j * S::C, real); if (std::isnan(s)) return s; mx = std::max(mx, s); } return mx; } };

template <class B, class M, class K> void norms(const M& A, const Dense<K>& D, int n, int m) {
  using S = Blk<B>;
  double f2 = 0; for (auto& a : D.a) f2 += abs2(a) * abs2(a);
  double inf = 0, infr = 0; bool nan = false;
  for (int i = 0; i < n; ++i) { double s = 0, sr = 0; for (int j = 0; j < m; ++j) { s += Inf<B>::f(D, i * S::R, j * S::C, false); sr += Inf<B>::f(D, i * S::R, j * S::C, true); } if (std::isnan(s)) nan = true; inf = std::max(inf, s); infr = std::max(infr, sr); }
  if (nan) inf = infr = std::nan("");
  mc::step(4);
  double tol = sizeof(K) == 4 ? 1e-5 : 1e-12;
  CHECK(mc::close(A.frobenius_norm2(), f2, 1, tol), "frobenius_norm2 ", A.frobenius_norm2(), " expected ", f2);
  CHECK(mc::close(A.frobenius_norm(), std::sqrt(f2), 1, tol), "frobenius_norm ", A.frobenius_norm(), " expected ", std::sqrt(f2));
  CHECK(mc::close(A.infinity_norm(), inf, 1, tol), "infinity_norm ", A.infinity_norm(), " expected ", inf);
  CHECK(mc::close(A.infinity_norm_real(), infr, 1, tol), "infinity_norm_real ", A.infinity_norm_real(), " expected ", infr);
}
template <class K> void eq(const Dense<K>& got, const Dense<K>& want, const char* op) { mc::step(); CHECK(got == want, op, ": ", show(got), " expected ", show(want)); }

template <class M> struct Vecs {
  using B = typename M::block_type;
  using X = BlockVector<typename VecFor<B>::col>; using Y = BlockVector<typename VecFor<B>::row>;
};
template <class K> constexpr bool canNan = std::is_floating_point_v<K> || isComplex<K>::value;

template <class B> constexpr bool hasAxpy = IsNumber<B>::value || requires(B b, B d) { b.axpy(typename Blk<B>::F(1), d); };
template <class M> void oneMatrix(mc::Chooser& c, int n, int m, const Pattern& p, unsigned seed) {
  using B = typename M::block_type; using K = FieldOf<M>; using S = Blk<B>;
  M A; buildPattern(A, n, m, p);
  auto g = [&](int i, int j) { return val<K>(seed * 7919u + i * 131u + j * 17u + 3u); };
  auto D = fill(A, n, m, p, g);
  NOTE("matrix ", n, "x", m, " blocks ", S::R, "x", S::C, " pattern ", show(p), " = ", show(D));
  mc::state(mc::Hash()(n)(m)(show(p))((int)seed)((int)S::R)((int)S::C)((int)sizeof(K)));
  typename Vecs<M>::X x; make(x, m); typename Vecs<M>::Y y; make(y, n);
  applyAll(A, D, x, y, seed);
  norms<B>(A, D, n, m);
  eq(flatten(A), D, "matrix unchanged by products and norms");
  // entrywise operations
  const K k = num<K>(2, 1), q = num<K>(-4, 0);
  { M Z(A); Z *= k; auto E = D; for (auto& e : E.a) e *= k; eq(flatten(Z), E, "*="); }
  { M Z(A); Z *= q; Z /= q; eq(flatten(Z), D, "*= and /="); }
  { M Z(A); Z /= K(q); auto E = D; for (auto& e : E.a) e /= q; eq(flatten(Z), E, "/="); }
  { M Z(A); auto E = D; Z += A; for (auto& e : E.a) e += e; eq(flatten(Z), E, "+="); Z -= A; eq(flatten(Z), D, "-="); if constexpr (hasAxpy<B>) { Z.axpy(k, A); for (size_t i = 0; i < E.a.size(); ++i) E.a[i] = D.a[i] + k * D.a[i]; eq(flatten(Z), E, "axpy"); } }
  if constexpr (std::is_same_v<B, K> || requires(B b) { b = K(5); }) {
    M Z(A); Z = K(5); Dense<K> E(D.n, D.m);
    for (int i = 0; i < n; ++i) for (int j : p[i]) for (int a = 0; a < S::R; ++a) for (int b = 0; b < S::C; ++b) if (!S::off(a, b)) E(i * S::R + a, j * S::C + b) = K(5);
    eq(flatten(Z), E, "= scalar");
  }
  eq(flatten(A), D, "operand unchanged");
  if constexpr (canNan<K>) { // every single position NaN
    for (int i = 0; i < n; ++i) for (int j : p[i]) {
      M Z(A); auto E = D; for (int a = 0; a < S::R; ++a) for (int b = 0; b < S::C; ++b) if (!S::off(a, b)) { S::set(Z[i][j], [&](int r, int s) { return r == a && s == b ? nanOf<K>() : g(i * S::R + r, j * S::C + s); });
        for (int r = 0; r < S::R; ++r) for (int s = 0; s < S::C; ++s) E(i * S::R + r, j * S::C + s) = S::get(Z[i][j], r, s);
        norms<B>(Z, E, n, m); }
    }
  }
}
template <class M> void unit(mc::Chooser& c, int lim) {
  int n = c(4, "rows"), m = c(4, "cols");
  if (n * m > lim) throw mc::Skip{};
  uint64_t mask = c.mask(n * m, "pattern");
  unsigned seed = c(2, "values");
  oneMatrix<M>(c, n, m, patternOf(n, m, mask), seed);
}
// larger sizes: band and arrow shapes
template <class M> void ladder(mc::Chooser& c) {
  static const std::vector<int> sizes{4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65};
  int n = c.of(sizes, "rows"), m = c.of(sizes, "cols"); int shape = c(5, "shape");
  Pattern p(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
    bool in = shape == 0 ? i == j : shape == 1 ? std::abs(i - j) <= 1 : shape == 2 ? (i == 0 || j == 0 || i == j) : shape == 3 ? (i + 2 * j) % 5 == 0 : (n <= 17 && m <= 17);
    if (in) p[i].push_back(j);
  }
  oneMatrix<M>(c, n, m, p, c(2, "values"));
}
#ifdef PART1
UNIT(bcrs_double) { unit<BCRSMatrix<double>>(c, 9); }
UNIT(bcrs_fm23) { unit<BCRSMatrix<FieldMatrix<double, 2, 3>>>(c, 6); }
UNIT(bcrs_fm11) { unit<BCRSMatrix<FieldMatrix<double, 1, 1>>>(c, 6); }
UNIT(bcrs_double_ladder) { ladder<BCRSMatrix<double>>(c); }
#endif
#ifdef PART2
UNIT(bcrs_complex) { unit<BCRSMatrix<C>>(c, 9); }
UNIT(bcrs_fmc22) { unit<BCRSMatrix<FieldMatrix<C, 2, 2>>>(c, 6); }
UNIT(bcrs_fmc21_ladder) { ladder<BCRSMatrix<FieldMatrix<C, 2, 1>>>(c); }
UNIT(bcrs_sid) { unit<BCRSMatrix<ScaledIdentityMatrix<double, 2>>>(c, 6); }
#endif
#ifdef PART3
UNIT(bcrs_nested) { unit<BCRSMatrix<BCRSMatrix<FieldMatrix<double, 1, 1>>>>(c, 4); }
UNIT(bcrs_nested_fm) { unit<BCRSMatrix<BCRSMatrix<FieldMatrix<C, 1, 2>>>>(c, 4); }
#endif
#ifdef PART7
UNIT(bcrs_diag) { unit<BCRSMatrix<DiagonalMatrix<double, 2>>>(c, 6); }
UNIT(bcrs_float) { unit<BCRSMatrix<FieldMatrix<float, 2, 2>>>(c, 6); }
#endif

// += and -= with a matrix whose pattern is a subset
#ifdef PART1
UNIT(subset_add) {
  using M = BCRSMatrix<FieldMatrix<double, 1, 2>>; using K = double;
  int n = c(4, "rows"), m = c(4, "cols"); if (n * m > (mc::thorough() ? 9 : 8) && n * m != 9) throw mc::Skip{};
  if (n * m == 9 && !mc::thorough()) { n = 3; m = 3; }
  Pattern p(n), q(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { int w = c(3, "none/A/A+B"); if (w) p[i].push_back(j); if (w == 2) q[i].push_back(j); }
  M A, B; buildPattern(A, n, m, p); buildPattern(B, n, m, q);
  auto D = fill(A, n, m, p, [](int i, int j) { return val<K>(i * 31 + j * 7 + 1); });
  auto E = fill(B, n, m, q, [](int i, int j) { return val<K>(i * 57 + j * 3 + 100); });
  NOTE("A ", show(D), " B ", show(E)); mc::state(mc::Hash()(show(p))(show(q))(n)(m));
  auto F = D;
  M Z(A); Z += B; for (size_t i = 0; i < F.a.size(); ++i) F.a[i] = D.a[i] + E.a[i]; eq(flatten(Z), F, "+= subset");
  Z -= B; eq(flatten(Z), D, "-= subset");
  Z -= B; for (size_t i = 0; i < F.a.size(); ++i) F.a[i] = D.a[i] - E.a[i]; eq(flatten(Z), F, "-= subset");
  M Y(A); Y.axpy(3.0, B); for (size_t i = 0; i < F.a.size(); ++i) F.a[i] = D.a[i] + 3 * E.a[i]; eq(flatten(Y), F, "axpy subset");
}
#endif

// entrywise operations in place, on matrices built in every mode (they store their entries differently)
template <class M> void modes(mc::Chooser& c, int lim) {
  using B = typename M::block_type; using K = FieldOf<M>;
  int n = c(4, "rows"), m = c(4, "cols"); if (n * m > lim) throw mc::Skip{};
  auto p = patternOf(n, m, c.mask(n * m, "pattern")); int ma = c(buildModes, "mode of A"), mb = c(buildModes, "mode of B");
  M A, B2; buildAs(A, ma, n, m, p); buildAs(B2, mb, n, m, p);
  auto D = fill(A, n, m, p, [](int i, int j) { return val<K>(i * 31 + j * 7 + 1); }); auto E = fill(B2, n, m, p, [](int i, int j) { return val<K>(i * 57 + j * 3 + 100); });
  NOTE("modes ", ma, " ", mb, " A ", show(D), " B ", show(E)); mc::state(mc::Hash()(show(p))(n)(m)(ma)(mb)((int)sizeof(B)));
  CHECK((int)A.nonzeroes() == nnz(p), "nonzeroes ", A.nonzeroes());
  typename Vecs<M>::X x; make(x, m); typename Vecs<M>::Y y; make(y, n); applyAll(A, D, x, y, 3);
  const K k = num<K>(2, 1), q = num<K>(-4, 0); auto each = [&](auto f) { for (size_t i = 0; i < D.a.size(); ++i) D.a[i] = f(D.a[i], E.a[i]); };
  A *= k; each([&](K a, K) { return a * k; }); eq(flatten(A), D, "*=");
  A *= q; each([&](K a, K) { return a * q; }); A /= q; each([&](K a, K) { return a / q; }); eq(flatten(A), D, "/=");
  A += B2; each([&](K a, K b) { return a + b; }); eq(flatten(A), D, "+=");
  A -= B2; each([&](K a, K b) { return a - b; }); eq(flatten(A), D, "-=");
  if constexpr (hasAxpy<B>) { A.axpy(k, B2); each([&](K a, K b) { return a + k * b; }); eq(flatten(A), D, "axpy"); }
  norms<B>(A, D, n, m); A -= A; each([&](K, K) { return K(0); }); eq(flatten(A), D, "-= itself");
  eq(flatten(B2), E, "operand unchanged");
}
#ifdef PART4
UNIT(modes_double) { modes<BCRSMatrix<double>>(c, 6); }
#endif
#ifdef PART4
UNIT(modes_complex) { modes<BCRSMatrix<FieldMatrix<C, 2, 1>>>(c, 4); }
#endif
#ifdef PART7
UNIT(modes_nested) { modes<BCRSMatrix<BCRSMatrix<FieldMatrix<double, 1, 2>>>>(c, 4); }
#endif

// the dense block matrix
template <class T> void denseMat(mc::Chooser& c) {
  using S = Blk<T>; using K = typename S::F; using M = Matrix<T>;
  static const std::vector<int> sizes{0, 1, 2, 3, 4, 7, 8, 9, 17};
  int n = c.of(sizes, "rows"), m = c.of(sizes, "cols"); unsigned seed = c(3, "values");
  M A(n, m); Dense<K> D(n * S::R, m * S::C);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) S::set(A[i][j], [&](int k, int l) { K v = seed == 2 && (i + j + k) % 2 ? K(0) : val<K>(seed * 7919u + (i * S::R + k) * 131u + (j * S::C + l) * 17u); D(i * S::R + k, j * S::C + l) = v; return v; });
  NOTE("Matrix ", show(D)); mc::state(mc::Hash()(n)(m)((int)seed)((int)sizeof(T)));
  auto flatM = [&](const M& Z) { Dense<K> E((int)Z.N() * S::R, (int)Z.M() * S::C); for (size_t i = 0; i < Z.N(); ++i) for (size_t j = 0; j < Z.M(); ++j) for (int k = 0; k < S::R; ++k) for (int l = 0; l < S::C; ++l) E((int)i * S::R + k, (int)j * S::C + l) = S::get(Z[i][j], k, l); return E; };
  CHECK((int)A.N() == n && (int)A.M() == m, "sizes");
  BlockVector<typename VecFor<T>::col> x(m); BlockVector<typename VecFor<T>::row> y(n);
  applyAll(A, D, x, y, seed); norms<T>(A, D, n, m);
  if (m > 0) { // iterator access
    Dense<K> E(D.n, D.m); int ri = 0; const M& Ac = A;
    for (auto r = Ac.begin(); r != Ac.end(); ++r, ++ri) { CHECK((int)r.index() == ri, "row index ", r.index()); int ci = 0; for (auto cc = r->begin(); cc != r->end(); ++cc, ++ci) { CHECK((int)cc.index() == ci, "column index"); for (int k = 0; k < S::R; ++k) for (int l = 0; l < S::C; ++l) E(ri * S::R + k, ci * S::C + l) = S::get(*cc, k, l); } CHECK(ci == m, "row has ", ci, " entries"); }
    CHECK(ri == n, "iterated ", ri, " rows"); eq(E, D, "iteration");
    int back = n; if (n > 0) for (auto r = Ac.beforeEnd(); back > 0; --r) { --back; CHECK((int)r.index() == back, "reverse row index"); if (back == 0) break; }
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) CHECK(A.exists(i, j), "exists ", i, ",", j);
  const K k = num<K>(2, 1), q = num<K>(-4, 0);
  { M Z(A); Z *= k; auto E = D; for (auto& e : E.a) e *= k; eq(flatM(Z), E, "*="); }
  { M Z(A); Z /= q; auto E = D; for (auto& e : E.a) e /= q; eq(flatM(Z), E, "/="); }
  { M Z(A); auto E = D; Z += A; for (auto& e : E.a) e += e; eq(flatM(Z), E, "+="); Z -= A; eq(flatM(Z), D, "-="); }
  { M Z(A); Z = K(7); Dense<K> E(D.n, D.m); for (auto& e : E.a) e = K(7); eq(flatM(Z), E, "= scalar"); }
  if constexpr (S::R == 1 && S::C == 1) eq(flatM(A.transpose()), trans(D), "transpose");
  if constexpr (S::R == S::C) {
    for (int l : {0, 1, 2, 3, 5}) {
      M B(m, l); Dense<K> E(m * S::R, l * S::C);
      for (int i = 0; i < m; ++i) for (int j = 0; j < l; ++j) S::set(B[i][j], [&](int kk, int ll) { K v = val<K>(99u + (i * S::R + kk) * 13u + (j * S::C + ll) * 7u); E(i * S::R + kk, j * S::C + ll) = v; return v; });
      M P = A * B; CHECK((int)P.N() == n && (int)P.M() == l, "product size"); eq(flatM(P), mul(D, E), "matrix product");
    }
  }
  if constexpr (canNan<K>) if (n <= 4 && m <= 4) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { M Z(A); auto E = D; S::set(Z[i][j], [&](int k, int l) { return k == 0 && l == 0 ? nanOf<K>() : D(i * S::R + k, j * S::C + l); }); E(i * S::R, j * S::C) = nanOf<K>(); norms<T>(Z, E, n, m); }
}
#ifdef PART5
UNIT(matrix_double) { denseMat<double>(c); }
UNIT(matrix_complex) { denseMat<C>(c); }
UNIT(matrix_fm23) { denseMat<FieldMatrix<double, 2, 3>>(c); }
UNIT(matrix_fmc22) { denseMat<FieldMatrix<C, 2, 2>>(c); }
#endif

// block diagonal and tridiagonal
template <class M> void banded(mc::Chooser& c, int bw) {
  using S = Blk<typename M::block_type>; using K = FieldOf<M>;
  int n = c(9, "size"); unsigned seed = c(3, "values"); bool two = c.flag("setSize"); if (n == 0 && !two) {}
  M A; if (two) A.setSize(n); else A = M(n);
  Pattern p(n); for (int i = 0; i < n; ++i) for (int j = std::max(0, i - bw); j <= std::min(n - 1, i + bw); ++j) p[i].push_back(j);
  CHECK((int)A.N() == n && (int)A.M() == n, "size ", A.N(), "x", A.M());
  for (int i = 0; i < n; ++i) { CHECK((int)A.getrowsize(i) == (int)p[i].size(), "row size"); for (int j = 0; j < n; ++j) CHECK(A.exists(i, j) == (std::abs(i - j) <= bw), "pattern ", i, ",", j); }
  auto D = fill(A, n, n, p, [&](int i, int j) { return val<K>(seed * 7919u + i * 131u + j * 17u + 3u); });
  NOTE(show(D)); mc::state(mc::Hash()(n)((int)seed)(bw)((int)sizeof(K)));
  typename Vecs<M>::X x(n); typename Vecs<M>::Y y(n);
  applyAll(A, D, x, y, seed); norms<typename M::block_type>(A, D, n, n);
  M Z(A); eq(flatten(Z), D, "copy"); Z = K(3); for (int i = 0; i < n; ++i) for (int j : p[i]) CHECK(S::get(Z[i][j], 0, 0) == K(3), "assigned scalar"); eq(flatten(A), D, "unchanged");
  Z = A; eq(flatten(Z), D, "assignment"); Z += A; Z -= A; eq(flatten(Z), D, "+= -=");
}
#ifdef PART6
UNIT(bd_double) { banded<BDMatrix<double>>(c, 0); }
UNIT(bd_fm) { banded<BDMatrix<FieldMatrix<double, 2, 2>>>(c, 0); }
UNIT(btd_double) { banded<BTDMatrix<double>>(c, 1); }
UNIT(btd_fmc) { banded<BTDMatrix<FieldMatrix<C, 2, 2>>>(c, 1); }

// a multiple of the identity
template <class K, int n> void scaled(mc::Chooser& c) {
  using M = ScaledIdentityMatrix<K, n>;
  static const std::vector<K> vals = [] { std::vector<K> v; for (int a : {0, 1, -1, 2, -3, 7}) { if constexpr (isComplex<K>::value) { for (int b : {0, 1, -2}) v.push_back(K(a, b)); } else v.push_back(K(a)); } return v; }();
  K p = c.of(vals, "scalar");
  M A(p); Dense<K> D(n, n); for (int i = 0; i < n; ++i) D(i, i) = p;
  NOTE(show(D)); mc::state(mc::Hash()(mc::str(p))(n));
  auto fl = [&](const M& Z) { Dense<K> E(n, n); for (auto r = Z.begin(); r != Z.end(); ++r) for (auto q = (*r).begin(); q != (*r).end(); ++q) { CHECK(Z.exists(r.index(), q.index()), "pattern"); E((int)r.index(), (int)q.index()) = *q; } return E; };
  eq(fl(A), D, "iteration");
  using V = FieldVector<K, n>;
  struct One { V v; };
  { // products, via a one-block block vector
    auto gen = [&](int s) { std::vector<K> v(n); for (int i = 0; i < n; ++i) v[i] = val<K>(s * 77 + i * 13); return v; };
    auto pv = [&](const std::vector<K>& w) { V v; for (int i = 0; i < n; ++i) v[i] = w[i]; return v; };
    auto gv = [&](const V& v) { return std::vector<K>(v.begin(), v.end()); };
    auto fx = gen(1), fy = gen(2); V x = pv(fx), y;
    auto Ax = matvec(D, fx), Hx = matvec(trans(D, true), fx);
    auto comb = [](std::vector<K> a, const std::vector<K>& b, K f) { for (size_t i = 0; i < a.size(); ++i) a[i] += f * b[i]; return a; };
    y = nanOf<K>(); A.mv(x, y); same(gv(y), Ax, "mv"); y = nanOf<K>(); A.mtv(x, y); same(gv(y), Ax, "mtv");
    y = pv(fy); A.umv(x, y); same(gv(y), comb(fy, Ax, K(1)), "umv"); y = pv(fy); A.mmv(x, y); same(gv(y), comb(fy, Ax, K(-1)), "mmv");
    y = pv(fy); A.umtv(x, y); same(gv(y), comb(fy, Ax, K(1)), "umtv"); y = pv(fy); A.mmtv(x, y); same(gv(y), comb(fy, Ax, K(-1)), "mmtv");
    y = pv(fy); A.umhv(x, y); same(gv(y), comb(fy, Hx, K(1)), "umhv"); y = pv(fy); A.mmhv(x, y); same(gv(y), comb(fy, Hx, K(-1)), "mmhv");
    for (K al : alphas<K>()) {
      y = pv(fy); A.usmv(al, x, y); same(gv(y), comb(fy, Ax, al), "usmv"); y = pv(fy); A.usmtv(al, x, y); same(gv(y), comb(fy, Ax, al), "usmtv"); y = pv(fy); A.usmhv(al, x, y); same(gv(y), comb(fy, Hx, al), "usmhv");
    }
    if (p != K(0)) {
      V s; A.solve(s, x); V back; A.mv(s, back); for (int i = 0; i < n; ++i) CHECK(mc::close(back[i], x[i]), "solve: ", back[i], " expected ", x[i]);
      M I(A); I.invert(); CHECK(mc::close(I.scalar() * p, K(1)), "invert: ", I.scalar());
    }
  }
  double a2 = std::norm(p);
  CHECK(mc::close(A.frobenius_norm2(), n * a2), "frobenius_norm2 ", A.frobenius_norm2());
  CHECK(mc::close(A.frobenius_norm(), std::sqrt(n * a2)), "frobenius_norm ", A.frobenius_norm());
  CHECK(mc::close(A.infinity_norm(), abs2(p)), "infinity_norm"); CHECK(mc::close(A.infinity_norm_real(), abs1(p)), "infinity_norm_real");
  { K d = A.determinant(), e = K(1); for (int i = 0; i < n; ++i) e *= p; CHECK(mc::close(d, e), "determinant ", d, " expected ", e); }
  M Z(A); Z += A; CHECK(Z.scalar() == p + p, "+="); Z -= A; CHECK(Z == A && !(Z != A), "-="); Z += K(2); CHECK(Z.scalar() == p + K(2) && Z != A, "+= k"); Z -= K(2); Z *= K(3); CHECK(Z.scalar() == p * K(3), "*="); Z /= K(3); CHECK(Z == A, "/="); Z = K(4); CHECK(Z.scalar() == K(4), "="); CHECK(A.scalar() == p && A.diagonal(0) == p, "unchanged");
  CHECK((A * K(2)).scalar() == p * K(2) && (K(2) * A).scalar() == p * K(2), "scalar multiples");
  CHECK(A.N() == n && A.M() == n, "size");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(A.exists(i, j) == (i == j), "exists");
  { std::ostringstream s; s << A; std::istringstream in(s.str()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { K v; CHECK(bool(in >> v), "output ", s.str()); CHECK(v == D(i, j), "printed entry"); } }
  { FieldMatrix<K, n, n> F; F = A; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(F[i][j] == D(i, j), "conversion to a dense matrix"); }
  // writing through the rows
  { M W(A); for (int i = 0; i < n; ++i) { W[i][i] = K(9); CHECK(W.scalar() == K(9), "write through row ", i); W = p; } }
}
UNIT(scaled_double1) { scaled<double, 1>(c); }
UNIT(scaled_double3) { scaled<double, 3>(c); }
UNIT(scaled_complex2) { scaled<C, 2>(c); }
#endif
