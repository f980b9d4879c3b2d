// C06: sparse matrix products have exactly the structural pattern and the exact values.
#include "flat.hh"
#include <dune/istl/matrixmatrix.hh>
using namespace Dune; using namespace flat;
template <int a, int b, class K = double> using M = BCRSMatrix<FieldMatrix<K, a, b>>;
// kind 0: A B, 1: A^T B, 2: A B^T ; block sizes r x s times s x t
template <int kind, int r, int s, int t, class K = double> void product(mc::Chooser& c, int n, int k, int m, const Pattern& pa, const Pattern& pb, int hist) {
  // stored matrices
  using MA = std::conditional_t<kind == 1, M<s, r, K>, M<r, s, K>>; using MB = std::conditional_t<kind == 2, M<t, s, K>, M<s, t, K>>;
  MA A; MB B; int an = kind == 1 ? k : n, am = kind == 1 ? n : k, bn = kind == 2 ? m : k, bm = kind == 2 ? k : m;
  buildPattern(A, an, am, pa); buildPattern(B, bn, bm, pb);
  auto D = fill(A, an, am, pa, [](int i, int j) { return val<K>(i * 31 + j * 7 + 1); }); auto E = fill(B, bn, bm, pb, [](int i, int j) { return val<K>(i * 57 + j * 3 + 100); });
  NOTE("product ", kind, " A ", show(D), " B ", show(E)); mc::state(mc::Hash()(kind)(show(pa))(show(pb))(n)(k)(m)(r * 100 + s * 10 + t)((int)sizeof(K)));
  M<r, t, K> R;
  if (hist == 1) { buildPattern(R, 2, 3, patternOf(2, 3, 63)); R = 5.0; }
  auto check = [&] {
    mc::step(); auto X = kind == 1 ? trans(D) : D; auto Y = kind == 2 ? trans(E) : E; auto P = mul(X, Y);
    CHECK((int)R.N() == n && (int)R.M() == m, "result is ", R.N(), "x", R.M(), " expected ", n, "x", m);
    auto has = [](const Pattern& p, int i, int j) { for (int q : p[i]) if (q == j) return true; return false; };
    size_t nz = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { bool e = false; for (int l = 0; l < k; ++l) e |= (kind == 1 ? has(pa, l, i) : has(pa, i, l)) && (kind == 2 ? has(pb, j, l) : has(pb, l, j)); nz += e; CHECK(R.exists(i, j) == e, "entry ", i, ",", j, " exists: ", R.exists(i, j), " expected ", e); }
    CHECK(R.nonzeroes() == nz, "nonzeroes ", R.nonzeroes(), " expected ", nz);
    for (int i = 0; i < n; ++i) { int last = -1; for (auto e = R[i].begin(); e != R[i].end(); ++e) { CHECK((int)e.index() > last, "column order"); last = e.index(); } }
    CHECK(flatten(R) == P, "values ", show(flatten(R)), " expected ", show(P)); CHECK(flatten(A) == D && flatten(B) == E, "operands changed");
  };
  auto go = [&] { if constexpr (kind == 0) matMultMat(R, A, B); else if constexpr (kind == 1) transposeMatMultMat(R, A, B); else matMultTransposeMat(R, A, B); };
  go(); check(); if (hist == 2) { go(); check(); }
}
template <int kind, int r, int s, int t, class K = double> void small(mc::Chooser& c, int lim, int lo = 1) {
  int n = c.range(lo, 3, "n"), k = c.range(lo, 3, "k"), m = c.range(lo, 3, "m"); if (n * k + k * m > lim) throw mc::Skip{};
  int an = kind == 1 ? k : n, am = kind == 1 ? n : k, bn = kind == 2 ? m : k, bm = kind == 2 ? k : m;
  auto pa = patternOf(an, am, c.mask(an * am, "A")), pb = patternOf(bn, bm, c.mask(bn * bm, "B"));
  product<kind, r, s, t, K>(c, n, k, m, pa, pb, (nnz(pa) + nnz(pb)) % 3);
}
static int L() { return mc::thorough() ? 18 : 15; }
UNIT(ab) { small<0, 1, 1, 1>(c, L()); }
UNIT(atb) { small<1, 1, 1, 1>(c, L()); }
UNIT(abt) { small<2, 1, 1, 1>(c, L()); }
UNIT(ab_blocks) { small<0, 2, 3, 1>(c, 12); }
UNIT(atb_blocks) { small<1, 2, 3, 1>(c, 12); }
UNIT(abt_blocks) { small<2, 2, 3, 1>(c, 12); }
UNIT(atb_complex) { small<1, 1, 2, 2, std::complex<double>>(c, 8); }
UNIT(abt_complex) { small<2, 2, 1, 2, std::complex<double>>(c, 8); }
// one factor full 3x3 and the other arbitrary, larger shapes
template <int kind> void lad(mc::Chooser& c) {
  static const std::vector<int> sz{1, 2, 5, 8, 17, 32}; int n = c.of(sz), k = c.of(sz), m = c.of(sz), sa = c(4), sb = c(4);
  auto pat = [](int n, int m, int s) { Pattern p(n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (s == 0 ? i == j : s == 1 ? std::abs(i - j) <= 1 : s == 2 ? (i == 0 || j == 0) : (3 * i + 5 * j) % 7 == 0) p[i].push_back(j); return p; };
  product<kind, 1, 1, 1>(c, n, k, m, kind == 1 ? pat(k, n, sa) : pat(n, k, sa), kind == 2 ? pat(m, k, sb) : pat(k, m, sb), 0);
}
UNIT(ab_ladder) { lad<0>(c); }
UNIT(atb_ladder) { lad<1>(c); }
UNIT(abt_ladder) { lad<2>(c); }
UNIT(zero_sizes) { int kind = c(3), n = c(2), k = c(2), m = c(2); if (n * k * m) throw mc::Skip{}; Pattern pa(kind == 1 ? k : n), pb(kind == 2 ? m : k);
  if (kind == 0) product<0, 1, 1, 1>(c, n, k, m, pa, pb, 0); else if (kind == 1) product<1, 1, 1, 1>(c, n, k, m, pa, pb, 0); else product<2, 1, 1, 1>(c, n, k, m, pa, pb, 0); }
UNIT(mismatch) {
  int n = c.range(1, 3), k = c.range(1, 3), l = c.range(1, 3), m = c.range(1, 3), kind = c(3); if (k == l) throw mc::Skip{};
  M<1, 1> A, B, R; int an = kind == 1 ? k : n, am = kind == 1 ? n : k, bn = kind == 2 ? m : l, bm = kind == 2 ? l : m;
  buildPattern(A, an, am, patternOf(an, am, ~0ull)); buildPattern(B, bn, bm, patternOf(bn, bm, ~0ull)); A = 1; B = 1; bool ok = false; mc::step();
  try { if (kind == 0) matMultMat(R, A, B); else if (kind == 1) transposeMatMultMat(R, A, B); else matMultTransposeMat(R, A, B); } catch (ISTLError&) { ok = true; }
  CHECK(ok, "sizes that do not match were accepted"); mc::outcome("ISTLError");
}
