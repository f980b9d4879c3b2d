// Heterogeneous block matrices and vectors against the flat dense matrix.
#include "mc.hh"
#include "flat.hh"
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/operators.hh>
using namespace flat; using namespace Dune::Indices; using Dune::Hybrid::forEach; using Dune::Hybrid::integralRange; using Dune::index_constant;
using C = std::complex<double>;
template <class K, int r, int s> using BM = Dune::BCRSMatrix<Dune::FieldMatrix<K, r, s>>;
template <class K, int r> using BV = Dune::BlockVector<Dune::FieldVector<K, r>>;
// block rows of entry sizes 1,2; block columns of entry sizes 1,2,1
template <class K> struct Rect {
  using M = Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<BM<K, 1, 1>, BM<K, 1, 2>, BM<K, 1, 1>>, Dune::MultiTypeBlockVector<BM<K, 2, 1>, BM<K, 2, 2>, BM<K, 2, 1>>>;
  using X = Dune::MultiTypeBlockVector<BV<K, 1>, BV<K, 2>, BV<K, 1>>; using Y = Dune::MultiTypeBlockVector<BV<K, 1>, BV<K, 2>>;
  static constexpr int R = 2, Cn = 3; static int rs(int i) { return i + 1; } static int cs(int j) { return j == 1 ? 2 : 1; }
};
template <class K> struct Square {
  using M = Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<BM<K, 2, 2>, BM<K, 2, 1>>, Dune::MultiTypeBlockVector<BM<K, 1, 2>, Dune::BCRSMatrix<K>>>;
  using X = Dune::MultiTypeBlockVector<BV<K, 2>, Dune::BlockVector<K>>; using Y = X;
  static constexpr int R = 2, Cn = 2; static int rs(int i) { return 2 - i; } static int cs(int j) { return 2 - j; }
};
template <class V> auto getV(const V& v) { std::vector<typename V::field_type> r; forEach(v, [&](auto& b) { auto s = get(b); r.insert(r.end(), s.begin(), s.end()); }); return r; }
template <class V, class W> void putV(V& v, const W& w) { size_t q = 0; forEach(v, [&](auto& b) { using Bt = std::decay_t<decltype(b)>; size_t k = b.size() * VB<typename Bt::block_type>::N; put(b, std::vector<typename V::field_type>(w.begin() + q, w.begin() + q + k)); q += k; }); }
template <class S, class K> void run(mc::Chooser& c, const std::vector<std::vector<int>>& shapes, int maxbits) {
  using M = typename S::M; using X = typename S::X; using Y = typename S::Y; constexpr int R = S::R, Cn = S::Cn;
  auto& sh = c.of(shapes, "shape"); int seed = c(2, "values");
  std::vector<int> ro{0}, co{0}; for (int i = 0; i < R; ++i) ro.push_back(ro.back() + sh[i] * S::rs(i)); for (int j = 0; j < Cn; ++j) co.push_back(co.back() + sh[R + j] * S::cs(j));
  int bits = 0; for (int i = 0; i < R; ++i) for (int j = 0; j < Cn; ++j) bits += sh[i] * sh[R + j];
  if (bits > maxbits) throw mc::Skip{};
  unsigned mask = c.mask(bits, "pattern");
  M A; const int N = ro[R], Mc = co[Cn]; Dense<K> D(N, Mc), D2(N, Mc); M B; Dense<double> NB(R, Cn), NBr(R, Cn); int sft = 0;
  auto g = [&](int i, int j) { return val<K>((unsigned)(i * 31 + j * 7 + seed * 977 + 3)); };
  forEach(integralRange(index_constant<R>()), [&](auto i) { forEach(integralRange(index_constant<Cn>()), [&](auto j) {
    int n = sh[i], m = sh[R + j]; auto p = patternOf(n, m, mask >> sft); sft += n * m;
    auto& a = A[i][j]; buildPattern(a, n, m, p);
    auto E = fill(a, n, m, p, [&](int k, int l) { return g(ro[i] + k, co[j] + l); });
    for (int k = 0; k < E.n; ++k) for (int l = 0; l < E.m; ++l) D(ro[i] + k, co[j] + l) = E(k, l);
    for (int k = 0; k < n; ++k) { double s = 0, sr = 0; for (int l = 0; l < m; ++l) { double b = 0, br = 0; for (int u = 0; u < S::rs(i); ++u) { double t = 0, tr = 0; for (int w = 0; w < S::cs(j); ++w) { t += abs2(E(k * S::rs(i) + u, l * S::cs(j) + w)); tr += abs1(E(k * S::rs(i) + u, l * S::cs(j) + w)); } b = std::max(b, t); br = std::max(br, tr); } s += b; sr += br; } NB(i, j) = std::max(NB(i, j), s); NBr(i, j) = std::max(NBr(i, j), sr); }   // the block-wise row-sum norm
    B[i][j] = a; for (auto r = B[i][j].begin(); r != B[i][j].end(); ++r) for (auto q = r->begin(); q != r->end(); ++q) *q *= K(2);
  }); });
  for (size_t i = 0; i < D.a.size(); ++i) D2.a[i] = D.a[i] * K(2);
  auto flatA = [&](const M& Q) { Dense<K> F(N, Mc); forEach(integralRange(index_constant<R>()), [&](auto i) { forEach(integralRange(index_constant<Cn>()), [&](auto j) { auto E = flatten(Q[i][j]); for (int k = 0; k < E.n; ++k) for (int l = 0; l < E.m; ++l) F(ro[i] + k, co[j] + l) = E(k, l); }); }); return F; };
  NOTE("A=", show(D));
  X x; Y y; forEach(integralRange(index_constant<Cn>()), [&](auto j) { x[j].resize(sh[R + j]); }); forEach(integralRange(index_constant<R>()), [&](auto i) { y[i].resize(sh[i]); });
  std::vector<K> xf(Mc), yf(N); for (int i = 0; i < Mc; ++i) xf[i] = val<K>(i * 5 + 11); for (int i = 0; i < N; ++i) yf[i] = val<K>(i * 17 + 2);
  const std::vector<K> Ax = matvec(D, xf), Aty = matvec(trans(D), yf), Ahy = matvec(trans(D, true), yf);
  auto fwd = [&](const char* w, auto f, auto e) { putV(x, xf); putV(y, yf); f(); mc::step(); std::vector<K> want(N); for (int i = 0; i < N; ++i) want[i] = e(yf[i], Ax[i]); auto got = getV(y); CHECK(got == want, w, " pattern ", mask, ": ", show(got), " expected ", show(want)); CHECK(getV(x) == xf, w, " changed x"); };
  auto bwd = [&](const char* w, const std::vector<K>& P, auto f, auto e) { putV(x, xf); putV(y, yf); f(); mc::step(); std::vector<K> want(Mc); for (int i = 0; i < Mc; ++i) want[i] = e(xf[i], P[i]); auto got = getV(x); CHECK(got == want, w, " pattern ", mask, ": ", show(got), " expected ", show(want)); CHECK(getV(y) == yf, w, " changed y"); };
  const K al = num<K>(-3, 2);
  fwd("mv", [&] { A.mv(x, y); }, [](K, K b) { return b; });
  fwd("umv", [&] { A.umv(x, y); }, [](K a, K b) { return a + b; });
  fwd("mmv", [&] { A.mmv(x, y); }, [](K a, K b) { return a - b; });
  fwd("usmv", [&] { A.usmv(al, x, y); }, [&](K a, K b) { return a + al * b; });
  bwd("mtv", Aty, [&] { A.mtv(y, x); }, [](K, K b) { return b; });
  bwd("umtv", Aty, [&] { A.umtv(y, x); }, [](K a, K b) { return a + b; });
  bwd("mmtv", Aty, [&] { A.mmtv(y, x); }, [](K a, K b) { return a - b; });
  bwd("usmtv", Aty, [&] { A.usmtv(al, y, x); }, [&](K a, K b) { return a + al * b; });
  bwd("umhv", Ahy, [&] { A.umhv(y, x); }, [](K a, K b) { return a + b; });
  bwd("mmhv", Ahy, [&] { A.mmhv(y, x); }, [](K a, K b) { return a - b; });
  bwd("usmhv", Ahy, [&] { A.usmhv(al, y, x); }, [&](K a, K b) { return a + al * b; });
  { Dune::MatrixAdapter<M, X, Y> op(A); fwd("operator apply", [&] { op.apply(x, y); }, [](K, K b) { return b; }); fwd("operator applyscaleadd", [&] { op.applyscaleadd(al, x, y); }, [&](K a, K b) { return a + al * b; }); }
  CHECK(flatA(A) == D, "products changed the matrix");
  auto mat = [&](const char* w, auto f, auto e) { M Q(A); f(Q); mc::step(); Dense<K> want(N, Mc); for (size_t i = 0; i < want.a.size(); ++i) want.a[i] = e(D.a[i], D2.a[i]); auto got = flatA(Q); CHECK(got == want, w, " pattern ", mask, ": ", show(got), " expected ", show(want)); CHECK(flatA(A) == D && flatA(B) == D2, w, " changed an operand"); };
  mat("*=", [&](M& Q) { Q *= al; }, [&](K a, K) { return a * al; });
  mat("/=", [&](M& Q) { Q /= K(4); }, [&](K a, K) { return a / K(4); });
  mat("+=", [&](M& Q) { Q += B; }, [&](K a, K b) { return a + b; });
  mat("-=", [&](M& Q) { Q -= B; }, [&](K a, K b) { return a - b; });
  mat("copy", [&](M& Q) { M P(Q); Q *= K(0); Q = P; P *= K(0); }, [&](K a, K) { return a; });
  { M Q(A); Q = K(5); auto got = flatA(Q); for (size_t i = 0; i < got.a.size(); ++i) CHECK(got.a[i] == (D.a[i] == K(0) ? K(0) : K(5)), "= scalar"); }
  double fn = 0; for (auto& a : D.a) fn += abs2(a) * abs2(a);
  double in = 0, ir = 0; for (int i = 0; i < R; ++i) { double s = 0, r = 0; for (int j = 0; j < Cn; ++j) { s += NB(i, j); r += NBr(i, j); } in = std::max(in, s); ir = std::max(ir, r); }
  auto norms = [&](const M& Q, double a, double b, double d) { mc::step(4); CHECK(mc::close(Q.frobenius_norm2(), a, 1, 1e-12), "frobenius_norm2 ", Q.frobenius_norm2(), " expected ", a); CHECK(mc::close(Q.frobenius_norm(), std::sqrt(a), 1, 1e-12), "frobenius_norm"); CHECK(mc::close(Q.infinity_norm(), b, 1, 1e-12), "infinity_norm ", Q.infinity_norm(), " expected ", b); CHECK(mc::close(Q.infinity_norm_real(), d, 1, 1e-12), "infinity_norm_real ", Q.infinity_norm_real(), " expected ", d); };
  norms(A, fn, in, ir);
  // a NaN anywhere
  forEach(integralRange(index_constant<R>()), [&](auto i) { forEach(integralRange(index_constant<Cn>()), [&](auto j) {
    for (size_t r = 0; r < A[i][j].N(); ++r) for (auto q = A[i][j][r].begin(); q != A[i][j][r].end(); ++q) { M Q(A); Q[i][j][r][q.index()] = K(std::nan("")); double n = std::nan(""); norms(Q, n, n, n); } }); });
  mc::state(mc::Hash()(N)(Mc)((int)mask)(seed)); mc::outcome(mc::str(N, "x", Mc));
}
static const std::vector<std::vector<int>> rectShapes{{1, 1, 1, 1, 1}, {2, 1, 1, 1, 0}, {0, 2, 1, 1, 2}, {1, 2, 2, 0, 1}, {2, 1, 1, 1, 1}, {1, 1, 0, 0, 0}, {0, 0, 2, 1, 1}};
static const std::vector<std::vector<int>> squareShapes{{1, 1, 1, 1}, {2, 1, 2, 1}, {1, 2, 1, 2}, {0, 2, 0, 2}, {2, 0, 2, 0}, {1, 2, 2, 1}, {0, 0, 0, 0}, {3, 0, 2, 1}};
#ifdef PART1
UNIT(rect_double) { run<Rect<double>, double>(c, rectShapes, mc::thorough() ? 9 : 9); }
#endif
#ifdef PART2
UNIT(rect_complex) { run<Rect<C>, C>(c, rectShapes, mc::thorough() ? 9 : 6); }
#endif
#ifdef PART3
UNIT(square_double) { run<Square<double>, double>(c, squareShapes, 9); }
#endif
#ifdef PART4
UNIT(square_complex) { run<Square<C>, C>(c, squareShapes, 9); }
#endif
#ifdef PART4
// a matrix whose blocks are themselves heterogeneous
UNIT(nested) {
  using Row = Dune::MultiTypeBlockVector<BM<double, 1, 1>, BM<double, 1, 2>>; using Row2 = Dune::MultiTypeBlockVector<BM<double, 2, 1>, BM<double, 2, 2>>; using In = Dune::MultiTypeBlockMatrix<Row, Row2>;
  using M = Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<In>>; using V0 = Dune::MultiTypeBlockVector<BV<double, 1>, BV<double, 2>>; using V = Dune::MultiTypeBlockVector<V0>;
  unsigned m = c.mask(8, "pattern"); M A; Dense<double> D(6, 6); auto& I = A[_0][_0]; int off[] = {0, 2, 6}, sft = 0;
  forEach(integralRange(index_constant<2>()), [&](auto i) { forEach(integralRange(index_constant<2>()), [&](auto j) {
    auto p = patternOf(2, 2, (m >> sft & 3) | (m >> (sft + 1) & 3) << 2); sft += 2; buildPattern(I[i][j], 2, 2, p); auto E = fill(I[i][j], 2, 2, p, [&](int k, int l) { return val<double>(k * 5 + l * 3 + sft); });
    for (int k = 0; k < E.n; ++k) for (int l = 0; l < E.m; ++l) D(off[i] + k, off[j] + l) = E(k, l); }); });
  V x, y; x[_0][_0].resize(2); x[_0][_1].resize(2); y = x; std::vector<double> xf(6); for (int i = 0; i < 6; ++i) xf[i] = val<double>(i + 3); putV(x[_0], xf);
  A.mv(x, y); CHECK(getV(y[_0]) == matvec(D, xf), "nested mv"); A.mtv(x, y); CHECK(getV(y[_0]) == matvec(trans(D), xf), "nested mtv"); mc::step(2);
  double s = 0; for (auto a : D.a) s += a * a; CHECK(A.frobenius_norm2() == s, "nested norm");
  mc::state(mc::Hash()((int)m));
}
#endif
