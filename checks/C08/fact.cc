// Incomplete factorizations: ILU(0), ILU(n), DILU, ILDL.
#include "mc.hh"
#include "itref.hh"
#include <dune/common/parametertree.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
using namespace flat; using itref::same;
using C = std::complex<double>;
template <class K> using FM1 = Dune::FieldMatrix<K, 1, 1>;
template <class K> using FM2 = Dune::FieldMatrix<K, 2, 2>;

// pattern with full diagonal; larger sizes come from a fixed family
static Pattern diagPattern(mc::Chooser& c, int n, int maxAll, bool sym = false) {
  Pattern p(n);
  if (n <= maxAll) {
    unsigned m = c.mask(sym ? n * (n - 1) / 2 : n * n - n, "pattern"); int b = 0;
    std::vector<char> on(n * n, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < (sym ? i : n); ++j) if (i != j && (m >> b++ & 1)) { on[i * n + j] = 1; if (sym) on[j * n + i] = 1; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || on[i * n + j]) p[i].push_back(j);
    return p;
  }
  int kind = c(6, "kind");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int d = std::abs(i - j); bool on = i == j;
    if (kind == 0) on |= d == 1;
    if (kind == 1) on |= i == 0 || j == 0;                 // arrow to the first unknown: full fill
    if (kind == 2) on |= i == n - 1 || j == n - 1;
    if (kind == 3) on |= d == 1 || d == 4;                 // a grid
    if (kind == 4) on |= sym ? (i * j + i + j) % 4 == 0 : (i * 7 + j * 3) % 4 == 0;
    if (kind == 5) on |= d == 2 || d == n - 1;
    if (on) p[i].push_back(j);
  }
  return p;
}
// values with large diagonal; some off-diagonal entries are stored zeros
template <class K> K entry(int i, int j, int seed, bool sym = false) {
  if (i == j) return num<K>(seed == 0 ? 41 + i : seed == 1 ? (i & 1 ? -47 : 53) + i : 31 + i, seed == 2 ? 19 : 0);
  if (sym && i < j) std::swap(i, j);
  if ((i * 5 + j * 3 + seed) % 7 == 0) return K(0);
  return val<K>((unsigned)(i * 37 + j * 11 + seed * 101 + 5));
}
template <class K> struct BlockDense {   // n x n blocks of size s
  int n, s; Dense<K> D;
  Dense<K> blk(int i, int j) const { Dense<K> B(s, s); for (int k = 0; k < s; ++k) for (int l = 0; l < s; ++l) B(k, l) = D(i * s + k, j * s + l); return B; }
  void set(int i, int j, const Dense<K>& B) { for (int k = 0; k < s; ++k) for (int l = 0; l < s; ++l) D(i * s + k, j * s + l) = B(k, l); }
};
template <class K> Dense<K> sub(Dense<K> a, const Dense<K>& b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] -= b.a[i]; return a; }
template <class K> Dense<K> inv(const Dense<K>& a) { bool ok; auto r = inverse(a, ok); if (!ok) throw mc::Skip{}; return r; }
using Bits = std::vector<std::vector<char>>;
static Bits bits(const Pattern& p) { int n = (int)p.size(); Bits b(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) for (int j : p[i]) b[i][j] = 1; return b; }
// reference: right-looking elimination restricted to the pattern; returns the product L U as operator M (dense)
template <class K> Dense<K> refILU(BlockDense<K> A, const Bits& P) {
  int n = A.n, s = A.s; BlockDense<K> L{n, s, Dense<K>(n * s, n * s)}, U = L; const auto A0 = A;
  for (int i = 0; i < n * s; ++i) L.D(i, i) = K(1);
  for (int k = 0; k < n; ++k) {
    auto pi = inv(A.blk(k, k));
    for (int i = k + 1; i < n; ++i) if (P[i][k]) {
      auto l = mul(A.blk(i, k), pi); L.set(i, k, l);
      for (int j = k + 1; j < n; ++j) if (P[k][j] && P[i][j]) A.set(i, j, sub(A.blk(i, j), mul(l, A.blk(k, j))));
    }
    for (int j = k; j < n; ++j) if (P[k][j]) U.set(k, j, A.blk(k, j));
  }
  auto M = mul(L.D, U.D);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (P[i][j]) for (int k = 0; k < s; ++k) for (int l = 0; l < s; ++l)   // the defining identity of the factorization
    if (!mc::close(M(i * s + k, j * s + l), A0.D(i * s + k, j * s + l), 100, 1e-9)) mc::fail("oracle inconsistent");
  return M;
}
template <class K> Dense<K> refDILU(const BlockDense<K>& A, const Bits& P) {
  int n = A.n, s = A.s; BlockDense<K> D{n, s, Dense<K>(n * s, n * s)}, Di = D, LD = D, DU = D;
  for (int i = 0; i < n; ++i) {
    auto d = A.blk(i, i);
    for (int j = 0; j < i; ++j) if (P[i][j] && P[j][i]) d = sub(d, mul(mul(A.blk(i, j), Di.blk(j, j)), A.blk(j, i)));
    D.set(i, i, d); Di.set(i, i, inv(d)); LD.set(i, i, d); DU.set(i, i, d);
    for (int j = 0; j < n; ++j) if (P[i][j]) { if (j < i) LD.set(i, j, A.blk(i, j)); if (j > i) DU.set(i, j, A.blk(i, j)); }
  }
  return mul(mul(LD.D, Di.D), DU.D);
}
template <class K> Dense<K> refILDL(BlockDense<K> A, const Bits& P) {   // only the lower half of A is used
  int n = A.n, s = A.s; BlockDense<K> L{n, s, Dense<K>(n * s, n * s)}, D = L;
  for (int i = 0; i < n * s; ++i) L.D(i, i) = K(1);
  for (int k = 0; k < n; ++k) {
    auto dk = A.blk(k, k), pi = inv(dk); D.set(k, k, dk);
    for (int i = k + 1; i < n; ++i) if (P[i][k]) L.set(i, k, mul(A.blk(i, k), pi));
    for (int i = k + 1; i < n; ++i) for (int j = k + 1; j <= i; ++j) if (P[i][j] && P[i][k] && P[j][k]) A.set(i, j, sub(A.blk(i, j), mul(mul(L.blk(i, k), dk), trans(L.blk(j, k)))));
  }
  return mul(mul(L.D, D.D), trans(L.D));
}
// M^{-1} d by dense solve
template <class K> std::vector<K> apply(const Dense<K>& M, const std::vector<K>& d, double w) { std::vector<K> x; if (!solve(M, d, x)) throw mc::Skip{}; for (auto& y : x) y *= K(w); return x; }
template <class K> void compare(const std::vector<K>& got, const std::vector<K>& ref, const char* what, const Pattern& p) { CHECK(same(got, ref, 1e-8), what, " pattern ", show(p), ": ", show(got), " expected ", show(ref)); }

template <class M> struct Setup {
  using B = typename M::block_type; using K = FieldOf<M>; using V = Dune::BlockVector<typename VecFor<B>::row>; static constexpr int R = Blk<B>::R;
  int n, seed; Pattern p; M A; BlockDense<K> D; V v, d; std::vector<K> df; double w; bool thr = false;
  Setup(mc::Chooser& c, int maxAll, int big, bool sym = false) {
    if (mc::thorough() && maxAll < (sym ? 5 : 4)) ++maxAll;
    n = c.range(1, maxAll + (big ? 1 : 0), "n"); if (n > maxAll) n = big;
    p = diagPattern(c, n, maxAll, sym); seed = c(isComplex<K>::value ? 3 : 2, "values"); w = c.flag("relaxed") ? 0.75 : 1.0;
    buildPattern(A, n, n, p); auto f = fill(A, n, n, p, [&](int i, int j) { return entry<K>(i, j, seed, sym); });
    D = BlockDense<K>{n, R, f};
    flat::make(v, n); flat::make(d, n); df.resize(n * R); for (int i = 0; i < n * R; ++i) df[i] = val<K>((unsigned)(i * 13 + 7 * seed + 1)); put(d, df);
    std::vector<K> junk(n * R, num<K>(3, 1)); put(v, junk);
    NOTE("pattern ", show(p), " A=", show(f), " w=", w);
  }
  void use(Dune::Preconditioner<V, V>& P, const Dense<K>& Mref, const char* what) {
    V x = v, dd = d; auto x0 = get(x);
    CHECK(P.category() == Dune::SolverCategory::sequential, "category");
    P.pre(x, dd); CHECK(get(x) == x0 && get(dd) == df, "pre() changed its arguments");
    V y = v; y = K(0); P.apply(y, d); mc::step(); compare(get(y), apply(Mref, df, w), what, p);
    put(dd, std::vector<K>(df.rbegin(), df.rend())); y = K(0); P.apply(y, dd); mc::step(); compare(get(y), apply(Mref, std::vector<K>(df.rbegin(), df.rend()), w), what, p);
    P.post(x); CHECK(get(x) == x0 && get(d) == df, "arguments changed");
    CHECK(flatten(A) == D.D, "the matrix was changed");
    mc::state(mc::Hash()(n)(itref::hash(get(y))));
  }
  template <class P> std::shared_ptr<P> make(int ctor, Dune::ParameterTree conf, auto direct) {
    if (ctor == 0) return direct();
    if (w != 1.0) conf["relaxation"] = mc::str(w);
    if (ctor == 1) return std::make_shared<P>(A, conf);
    std::shared_ptr<const Dune::AssembledLinearOperator<M, V, V>> op = std::make_shared<const Dune::MatrixAdapter<M, V, V>>(A);
    return std::make_shared<P>(op, conf);
  }
};
template <class M> void ilu(mc::Chooser& c, int maxAll, int big) {
  using B = typename M::block_type; Setup<M> s(c, maxAll, big); using K = typename Setup<M>::K; using V = typename Setup<M>::V;
  int order = c(5, "order"); if (order == 4) order = s.n; bool resort = c.flag("resort"); int ctor = s.n == 4 && !mc::thorough() ? (order + s.seed) % 3 : c(3, "constructor");
  if (order > 0 && order < 4 && order == s.n) throw mc::Skip{};
  // pattern of order n
  Bits P = bits(s.p), Q = P; int n = s.n;
  if (order >= 1) for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) if (P[i][k]) for (int j = k + 1; j < n; ++j) if (P[k][j]) Q[i][j] = 1;   // order one: fill caused by original entries
  Bits F = P; for (int k = 0; k < n; ++k) for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) if (F[i][k] && F[k][j]) F[i][j] = 1;          // all fill
  if (order >= n) Q = F;
  if (order >= 2) {   // obtain the pattern from the library, and check what it has to satisfy
    M I(n, n, M::row_wise), J(n, n, M::row_wise); Dune::ILU::blockILUDecomposition(s.A, order, I); Dune::ILU::blockILUDecomposition(s.A, order - 1, J);
    Bits R = Bits(n, std::vector<char>(n, 0)), RJ = R;
    for (auto r = I.begin(); r != I.end(); ++r) for (auto cc = r->begin(); cc != r->end(); ++cc) R[r.index()][cc.index()] = 1;
    for (auto r = J.begin(); r != J.end(); ++r) for (auto cc = r->begin(); cc != r->end(); ++cc) RJ[r.index()][cc.index()] = 1;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      CHECK(R[i][j] >= Q[i][j], "order ", order, " misses entry ", i, ",", j); CHECK(F[i][j] >= R[i][j], "order ", order, " has an entry ", i, ",", j, " that no elimination fills"); CHECK(R[i][j] >= RJ[i][j], "order ", order, " has less entries than the order below");
    }
    Q = R;
  } else if (order == 1 || n <= 3) {
    M I(n, n, M::row_wise); Dune::ILU::blockILUDecomposition(s.A, order, I); mc::step();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(I.exists(i, j) == (bool)Q[i][j], "ILU(", order, ") pattern at ", i, ",", j);
  }
  auto Mref = refILU(s.D, Q);
  if (order >= n) for (size_t i = 0; i < Mref.a.size(); ++i) CHECK(mc::close(Mref.a[i], s.D.D.a[i], 100, 1e-9), "the complete factorization is not exact");
  Dune::ParameterTree conf; if (order) conf["n"] = std::to_string(order); if (resort) conf["resort"] = "true";
  using P_ = Dune::SeqILU<M, V, V>;
  auto prec = s.template make<P_>(ctor, conf, [&] { return order == 0 && s.seed == 0 ? std::make_shared<P_>(s.A, s.w, resort) : std::make_shared<P_>(s.A, order, s.w, resort); });
  s.use(*prec, Mref, "ILU"); mc::outcome(mc::str("ILU(", order, ") resort=", resort, " ctor=", ctor));
}
template <class M> void dilu(mc::Chooser& c, int maxAll, int big) {
  Setup<M> s(c, maxAll, big); using V = typename Setup<M>::V; int ctor = c(3, "constructor");
  auto Mref = refDILU(s.D, bits(s.p)); const int R = Setup<M>::R;
  for (int i = 0; i < s.n; ++i) for (int k = 0; k < R; ++k) for (int l = 0; l < R; ++l) CHECK(mc::close(Mref(i * R + k, i * R + l), s.D.D(i * R + k, i * R + l), 100, 1e-9), "oracle: the diagonal is not reproduced");
  using P_ = Dune::SeqDILU<M, V, V>;
  auto prec = s.template make<P_>(ctor, Dune::ParameterTree(), [&] { return std::make_shared<P_>(s.A, s.w); });
  s.use(*prec, Mref, "DILU"); mc::outcome(mc::str("DILU ctor=", ctor));
}
template <class M> void ildl(mc::Chooser& c, int maxAll, int big) {
  Setup<M> s(c, maxAll, big, true); using K = typename Setup<M>::K; using V = typename Setup<M>::V; int ctor = c(4, "constructor"); const int R = Setup<M>::R;
  auto Mref = refILDL(s.D, bits(s.p));
  for (int i = 0; i < s.n; ++i) for (int j : s.p[i]) for (int k = 0; k < R; ++k) for (int l = 0; l < R; ++l) CHECK(mc::close(Mref(i * R + k, j * R + l), s.D.D(i * R + k, j * R + l), 100, 1e-9), "oracle: the pattern is not reproduced");
  if (ctor == 3) {   // the functions themselves, in place on the full pattern, with junk in the upper half
    for (auto r = s.A.begin(); r != s.A.end(); ++r) for (auto cc = r->begin(); cc != r->end(); ++cc) if (cc.index() > r.index()) *cc = num<K>(77, 5);
    Dune::bildl_decompose(s.A); mc::step(); V y = s.v; Dune::bildl_backsolve(s.A, y, s.d); compare(get(y), apply(Mref, s.df, 1.0), "ILDL in place", s.p); return;
  }
  using P_ = Dune::SeqILDL<M, V, V>;
  auto prec = s.template make<P_>(ctor, Dune::ParameterTree(), [&] { return std::make_shared<P_>(s.A, s.w); });
  s.use(*prec, Mref, "ILDL"); mc::outcome(mc::str("ILDL ctor=", ctor));
}
// no diagonal entry in some row: every factorization says so
template <class M> void noDiag(mc::Chooser& c, int maxn) {
  using V = Dune::BlockVector<typename VecFor<typename M::block_type>::row>;
  int n = c.range(1, maxn, "n"); auto p = patternOf(n, n, c.mask(n * n, "pattern")); int what = c(5, "factorization");
  M A; buildPattern(A, n, n, p); fill(A, n, n, p, [&](int i, int j) { return entry<FieldOf<M>>(i, j, 0); });
  bool diag = true; for (int i = 0; i < n; ++i) diag &= std::count(p[i].begin(), p[i].end(), i) == 1;
  bool threw = false;
  try {
    switch (what) {
    case 0: { Dune::SeqILU<M, V, V> q(A, 1.0); break; }
    case 1: { Dune::SeqILU<M, V, V> q(A, 1, 1.0, true); break; }
    case 2: { Dune::SeqILU<M, V, V> q(A, 2, 1.0); break; }
    case 3: { Dune::SeqILDL<M, V, V> q(A); break; }
    case 4: { M B(A); Dune::bildl_decompose(B); break; }
    }
  } catch (Dune::MatrixBlockError&) { throw mc::Skip{}; } catch (Dune::ISTLError&) { threw = true; }
  mc::step(); bool fills = what == 1 || what == 2;   // fill may provide a missing diagonal entry
  if (fills && !diag) { Bits F = bits(p); for (int k = 0; k < n; ++k) for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) if (F[i][k] && F[k][j]) F[i][j] = 1; for (int i = 0; i < n; ++i) if (!F[i][i]) { CHECK(threw, "pattern ", show(p), " accepted"); } }
  else CHECK(threw == !diag, "factorization ", what, " pattern ", show(p), threw ? " rejected" : " accepted");
  mc::outcome(threw ? "rejected" : "accepted");
}
using BD = Dune::BCRSMatrix<double>; using BC = Dune::BCRSMatrix<C>; using B1 = Dune::BCRSMatrix<FM1<double>>; using B2 = Dune::BCRSMatrix<FM2<double>>; using B2C = Dune::BCRSMatrix<FM2<C>>; using B3 = Dune::BCRSMatrix<Dune::FieldMatrix<double, 3, 3>>;
#if defined(PART1)
UNIT(ilu_double) { ilu<BD>(c, 4, 9); }
UNIT(ilu_fm2) { ilu<B2>(c, 3, 7); }
#endif
#if defined(PART2)
UNIT(ilu_complex) { ilu<BC>(c, 3, 6); }
UNIT(ilu_fm2c) { ilu<B2C>(c, 3, 6); }
UNIT(ilu_fm1) { ilu<B1>(c, 3, 12); }
UNIT(ilu_fm3) { ilu<B3>(c, 3, 6); }
// an empty matrix (a process without unknowns)
template <class M> void empty(bool resort) { using V = Dune::BlockVector<typename VecFor<typename M::block_type>::row>; M A(0, 0, M::random); A.endrowsizes(); A.endindices(); V v, d; Dune::SeqILU<M, V, V> p(A, 0, 1.0, resort); if (!resort) return; p.apply(v, d); mc::step(); }
UNIT(ilu_empty) { bool r = c.flag("resort"); if (c.flag("block")) empty<B2>(r); else empty<BD>(r); }
#endif
#if defined(PART3)
UNIT(dilu_double) { dilu<BD>(c, 4, 9); }
UNIT(dilu_complex) { dilu<BC>(c, 3, 6); }
UNIT(dilu_fm1) { dilu<B1>(c, 3, 12); }
UNIT(dilu_fm2) { dilu<B2>(c, 3, 8); }
UNIT(dilu_fm2c) { dilu<B2C>(c, 3, 0); }
#endif
#if defined(PART4)
UNIT(ildl_double) { ildl<BD>(c, 5, 9); }
UNIT(ildl_complex) { ildl<BC>(c, 4, 6); }
UNIT(ildl_fm1) { ildl<B1>(c, 4, 12); }
UNIT(ildl_fm2) { ildl<B2>(c, 4, 8); }
UNIT(ildl_fm2c) { ildl<B2C>(c, 4, 6); }
UNIT(nodiag_double) { noDiag<BD>(c, 3); }
UNIT(nodiag_fm2) { noDiag<B2>(c, 3); }
#endif
