// Stationary iterations: kernels (gsetc.hh) and preconditioners Jacobi, Gauss-Seidel, SOR, SSOR, Richardson.
#include "mc.hh"
#include "itref.hh"
#include <dune/common/parametertree.hh>
#include <dune/istl/gsetc.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
template <class T> struct mc_id { using type = T; };
using namespace flat; using namespace itref;
template <class K> using FM1 = Dune::FieldMatrix<K, 1, 1>;
template <class K> using FM2 = Dune::FieldMatrix<K, 2, 2>;
using C = std::complex<double>;

template <class B> struct Sub { static Part part(int lo) { return Part{lo, lo + Blk<B>::R, {}}; } };
template <class B, class A> struct Sub<Dune::BCRSMatrix<B, A>> { static Part part(int lo) { Part p{lo, lo + 2 * Blk<B>::R, {}}; for (int i = 0; i < 2; ++i) p.sub.push_back(Sub<B>::part(lo + i * Blk<B>::R)); return p; } };
template <class B> Part partOf(int n) { Part p{0, n * Blk<B>::R, {}}; for (int i = 0; i < n; ++i) p.sub.push_back(Sub<B>::part(i * Blk<B>::R)); return p; }

// pattern with a full diagonal, off-diagonals from the choice
static Pattern diagPattern(mc::Chooser& c, int n) {
  if (n <= 4) { unsigned m = c.mask(n * n - n, "pattern"); Pattern p(n); int b = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || (m >> b++ & 1)) p[i].push_back(j); return p; }
  int kind = c(3, "kind"); Pattern p(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || (kind == 0 && std::abs(i - j) == 1) || (kind == 1 && (i == 0 || j == 0)) || (kind == 2 && (i * 7 + j * 3) % 4 == 0)) p[i].push_back(j);
  return p;
}
// off-diagonal values may be zero; diagonal entries are large enough to keep every diagonal block regular
template <class K> K entry(int i, int j, int seed) {
  if (i == j) return num<K>(seed & 1 ? 23 + i : -29 + 2 * i, seed & 1 ? 3 : 0);
  if ((i * 5 + j * 3 + seed) % 6 == 0) return K(0);
  return val<K>((unsigned)(i * 37 + j * 11 + seed * 101 + 5));
}
template <class K> std::vector<K> rhs(int n, int seed) { std::vector<K> b(n); for (int i = 0; i < n; ++i) b[i] = val<K>((unsigned)(i * 13 + 7 * seed + 1)); return b; }
static const std::vector<double> W{1.0, 0.5, 1.25};

template <class M, int L, bool TRI = true> void kernels(mc::Chooser& c, int maxn, int bigN) {
  using B = typename M::block_type; using K = FieldOf<M>; using V = Dune::BlockVector<typename VecFor<B>::row>;
  if (mc::thorough() && maxn < 4) ++maxn;
  int n = c.range(0, maxn + (bigN ? 1 : 0), "n"); if (n == maxn + 1) n = bigN;
  auto p = diagPattern(c, n); int seed = c(2, "values");
  double w = c.of(W, "w"); int what = c(TRI ? 10 : 4, "kernel");
  M A; buildPattern(A, n, n, p); auto D = fill(A, n, n, p, [&](int i, int j) { return entry<K>(i, j, seed); });
  if (n == 0 && what >= 4) throw mc::Skip{};   // reverse iteration over no rows at all
  if (n == 0 && what == 3) throw mc::Skip{};
  Part P = partOf<B>(n);
  V x, b; make(x, n); make(b, n);
  auto bf = rhs<K>(P.hi, seed), xf = rhs<K>(P.hi, seed + 5); put(b, bf); put(x, xf);
  NOTE("pattern ", show(p), " w=", w, " kernel ", what, " A=", show(D));
  auto ref = xf;
  using BLL = Dune::BL<L>;
  if (what < 4) step((Kind)what, D, P, L, ref, bf, w);
  switch (what) {
  case Jac: Dune::dbjac(A, x, b, w, BLL()); break;
  case GS: Dune::dbgs(A, x, b, w, BLL()); break;
  case Fwd: Dune::bsorf(A, x, b, w, BLL()); break;
  case Bwd: Dune::bsorb(A, x, b, w, BLL()); break;
  default: if constexpr (TRI) switch (what) {
  case 4: Dune::bltsolve(A, x, b, w, BLL()); tri(false, true, D, P, L, ref, bf, w); break;
  case 5: Dune::butsolve(A, x, b, w, BLL()); tri(true, true, D, P, L, ref, bf, w); break;
  case 6: Dune::ubltsolve(A, x, b, w, BLL()); tri(false, false, D, P, L, ref, bf, w); break;
  case 7: Dune::ubutsolve(A, x, b, w, BLL()); tri(true, false, D, P, L, ref, bf, w); break;
  case 8: Dune::bdsolve(A, x, b, w, BLL()); bd(D, P, L, ref, bf, w); break;
  case 9: {
    V y = x;
    Dune::bltsolve(A, x, b, BLL()); tri(false, true, D, P, L, ref, bf, 1.0);
    CHECK(same(get(x), ref), "bltsolve ", show(get(x)), " expected ", show(ref));
    if constexpr (L == 1) {
      V z = y; Dune::bltsolve(A, z, b); CHECK(get(z) == get(x), "default level");
      z = y; Dune::bltsolve(A, z, b, w); x = y; Dune::bltsolve(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::butsolve(A, z, b); x = y; Dune::butsolve(A, x, b, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::butsolve(A, z, b, w); x = y; Dune::butsolve(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::ubltsolve(A, z, b); x = y; Dune::ubltsolve(A, x, b, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::ubltsolve(A, z, b, w); x = y; Dune::ubltsolve(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::ubutsolve(A, z, b); x = y; Dune::ubutsolve(A, x, b, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::ubutsolve(A, z, b, w); x = y; Dune::ubutsolve(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::bdsolve(A, z, b); x = y; Dune::bdsolve(A, x, b, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::bdsolve(A, z, b, w); x = y; Dune::bdsolve(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::dbjac(A, z, b, w); x = y; Dune::dbjac(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::dbgs(A, z, b, w); x = y; Dune::dbgs(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::bsorf(A, z, b, w); x = y; Dune::bsorf(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
      z = y; Dune::bsorb(A, z, b, w); x = y; Dune::bsorb(A, x, b, w, BLL()); CHECK(get(z) == get(x), "default level");
    }
    x = y; ref = xf; Dune::butsolve(A, x, b, BLL()); tri(true, true, D, P, L, ref, bf, 1.0);
    CHECK(same(get(x), ref), "butsolve ", show(get(x)), " expected ", show(ref));
    x = y; ref = xf; Dune::ubltsolve(A, x, b, BLL()); tri(false, false, D, P, L, ref, bf, 1.0);
    CHECK(same(get(x), ref), "ubltsolve ", show(get(x)), " expected ", show(ref));
    x = y; ref = xf; Dune::ubutsolve(A, x, b, BLL()); tri(true, false, D, P, L, ref, bf, 1.0);
    CHECK(same(get(x), ref), "ubutsolve ", show(get(x)), " expected ", show(ref));
    x = y; ref = xf; Dune::bdsolve(A, x, b, BLL()); bd(D, P, L, ref, bf, 1.0);
    break; }
  } }
  mc::step();
  CHECK(same(get(x), ref), "result ", show(get(x)), " expected ", show(ref));
  CHECK(flatten(A) == D, "the matrix was changed"); CHECK(get(b) == bf, "the right hand side was changed");
  if (what < 4 && n) {   // the solution is a fixed point
    std::vector<K> sol = rhs<K>(P.hi, 3), bs = matvec(D, sol);
    put(b, bs); put(x, sol);
    switch (what) { case Jac: Dune::dbjac(A, x, b, w, BLL()); break; case GS: Dune::dbgs(A, x, b, w, BLL()); break; case Fwd: Dune::bsorf(A, x, b, w, BLL()); break; default: Dune::bsorb(A, x, b, w, BLL()); }
    CHECK(same(get(x), sol), "the solution is no fixed point: ", show(get(x)), " expected ", show(sol));
  }
  mc::state(mc::Hash()(n)(what)(itref::hash(ref)));
  mc::outcome(mc::str("n=", n, " kernel=", what));
}
#define KERN(name, M, L, TRI, N, BIG) UNIT(name) { kernels<M, L, TRI>(c, N, BIG); }
using BD = Dune::BCRSMatrix<double>; using BC = Dune::BCRSMatrix<C>; using B1 = Dune::BCRSMatrix<FM1<double>>; using B2 = Dune::BCRSMatrix<FM2<double>>; using B2C = Dune::BCRSMatrix<FM2<C>>;
using BS = Dune::BCRSMatrix<Dune::ScaledIdentityMatrix<double, 2>>; using BG = Dune::BCRSMatrix<Dune::DiagonalMatrix<double, 2>>;
using BB = Dune::BCRSMatrix<BD>; using BBB = Dune::BCRSMatrix<BB>; using BB2 = Dune::BCRSMatrix<B2>; using BB1 = Dune::BCRSMatrix<B1>;
#if defined(PART1)
KERN(kern_double, BD, 1, false, 3, 7)
KERN(kern_complex, BC, 1, false, 3, 6)
KERN(kern_fm1, B1, 1, true, 3, 9)
KERN(kern_fm2, B2, 1, true, 3, 5)
#endif
#if defined(PART2)
KERN(kern_fm2c, B2C, 1, true, 3, 0)
KERN(kern_sid, BS, 1, true, 3, 0)
KERN(kern_diag, BG, 1, true, 3, 0)
#endif
#if defined(PART3)
KERN(kern_nested, BB, 2, false, 3, 5)
KERN(kern_nested1, BB1, 2, true, 3, 0)
KERN(kern_nested2, BB2, 2, true, 2, 5)
KERN(kern_nested3, BBB, 3, false, 2, 0)
// blocks of different sizes
UNIT(kern_varsize) {
  static const std::vector<std::vector<int>> sizes{{1, 2}, {2, 1}, {3, 1, 2}, {1, 2, 3}, {2, 2, 1}};
  auto& sz = c.of(sizes, "sizes"); int n = (int)sz.size(); auto p = diagPattern(c, n); int seed = c(2, "values"); double w = c.of(W, "w"); int what = c(4, "kernel");
  std::vector<int> off{0}; for (int s : sz) off.push_back(off.back() + s);
  BB A; { BB t(n, n, nnz(p), BB::random); for (int i = 0; i < n; ++i) t.setrowsize(i, p[i].size()); t.endrowsizes(); for (int i = 0; i < n; ++i) for (int j : p[i]) t.addindex(i, j); t.endindices(); A = t; }
  Dense<double> D(off[n], off[n]);
  for (int i = 0; i < n; ++i) for (int j : p[i]) {
    Pattern q(sz[i]); for (int k = 0; k < sz[i]; ++k) for (int l = 0; l < sz[j]; ++l) if ((i == j && k == l) || (k + 2 * l + i + j) % 3) q[k].push_back(l);
    buildPattern(A[i][j], sz[i], sz[j], q); for (int k = 0; k < sz[i]; ++k) for (int l : q[k]) D(off[i] + k, off[j] + l) = A[i][j][k][l] = entry<double>(off[i] + k, off[j] + l, seed);
  }
  Dune::BlockVector<Dune::BlockVector<double>> x(n), b(n); Part P{0, off[n], {}};
  auto bf = rhs<double>(off[n], seed), ref = rhs<double>(off[n], seed + 5);
  for (int i = 0; i < n; ++i) { x[i].resize(sz[i]); b[i].resize(sz[i]); for (int k = 0; k < sz[i]; ++k) { x[i][k] = ref[off[i] + k]; b[i][k] = bf[off[i] + k]; } P.sub.push_back(uniform(off[i], sz[i], 1)); }
  step((Kind)what, D, P, 2, ref, bf, w);
  using L2 = Dune::BL<2>;
  switch (what) { case Jac: Dune::dbjac(A, x, b, w, L2()); break; case GS: Dune::dbgs(A, x, b, w, L2()); break; case Fwd: Dune::bsorf(A, x, b, w, L2()); break; default: Dune::bsorb(A, x, b, w, L2()); }
  std::vector<double> got; for (int i = 0; i < n; ++i) for (double y : x[i]) got.push_back(y);
  mc::step(); CHECK(same(got, ref), "result ", show(got), " expected ", show(ref));
  mc::state(mc::Hash()(n)(what)(itref::hash(ref)));
}
#endif

// ---- preconditioner classes ----
template <class M, int L> void precs(mc::Chooser& c, int maxn) {
  using B = typename M::block_type; using K = FieldOf<M>; using V = Dune::BlockVector<typename VecFor<B>::row>;
  int n = c.range(1, maxn, "n"); auto p = diagPattern(c, n); int seed = c(2, "values"); double w = c.of(W, "w");
  int it = c.range(1, 3, "iterations"), what = c(6, "preconditioner"), ctor = c(3, "constructor");
  M A; buildPattern(A, n, n, p); auto D = fill(A, n, n, p, [&](int i, int j) { return entry<K>(i, j, seed); });
  Part P = partOf<B>(n);
  V v, d; make(v, n); make(d, n); auto df = rhs<K>(P.hi, seed); put(d, df); v = K(0);
  std::vector<K> ref(P.hi, K(0));
  Dune::ParameterTree conf; bool defaults = ctor && it == 1 && w == 1.0;
  if (!defaults) { conf["iterations"] = std::to_string(it); conf["relaxation"] = mc::str(w); }
  auto op = std::make_shared<const Dune::MatrixAdapter<M, V, V>>(A);
  std::shared_ptr<const Dune::AssembledLinearOperator<M, V, V>> aop = op;
  auto mk = [&](auto id) { using T = typename decltype(id)::type; return ctor == 0 ? std::make_shared<T>(A, it, w) : ctor == 1 ? std::make_shared<T>(A, conf) : std::make_shared<T>(aop, conf); };
  std::shared_ptr<Dune::Preconditioner<V, V>> prec;
  switch (what) {
  case 0: prec = mk(mc_id<Dune::SeqJac<M, V, V, L>>()); for (int k = 0; k < it; ++k) step(Jac, D, P, L, ref, df, w); break;
  case 1: prec = mk(mc_id<Dune::SeqSOR<M, V, V, L>>()); for (int k = 0; k < it; ++k) step(Fwd, D, P, L, ref, df, w); break;
  case 2: prec = mk(mc_id<Dune::SeqSSOR<M, V, V, L>>()); for (int k = 0; k < it; ++k) { step(Fwd, D, P, L, ref, df, w); step(Bwd, D, P, L, ref, df, w); } break;
  case 3: prec = mk(mc_id<Dune::SeqGS<M, V, V, L>>()); for (int k = 0; k < it; ++k) step(Fwd, D, P, L, ref, df, w); break;
  case 4: { auto s = mk(mc_id<Dune::SeqSOR<M, V, V, L>>()); if (ctor) { s->template apply<false>(v, d); for (int k = 0; k < it; ++k) step(Bwd, D, P, L, ref, df, w); } else { s->template apply<true>(v, d); for (int k = 0; k < it; ++k) step(Fwd, D, P, L, ref, df, w); } break; }
  case 5: if (it > 1) throw mc::Skip{}; prec = ctor ? std::make_shared<Dune::Richardson<V, V>>(conf) : std::make_shared<Dune::Richardson<V, V>>(w); for (int i = 0; i < P.hi; ++i) ref[i] = K(w) * df[i]; break;
  }
  if (prec) {
    CHECK(prec->category() == Dune::SolverCategory::sequential, "category");
    V x; make(x, n); auto xs = rhs<K>(P.hi, 9); put(x, xs); V dd = d;
    prec->pre(x, dd); CHECK(get(x) == xs && get(dd) == df, "pre() changed its arguments");
    prec->apply(v, d); prec->post(x); CHECK(get(x) == xs, "post() changed the solution");
    auto first = get(v); v = K(0); prec->apply(v, d); CHECK(get(v) == first, "a second application differs");
  }
  mc::step(); CHECK(same(get(v), ref), "what ", what, ": ", show(get(v)), " expected ", show(ref));
  CHECK(flatten(A) == D && get(d) == df, "operands changed");
  mc::state(mc::Hash()(n)(what)(itref::hash(ref))); mc::outcome(mc::str("prec=", what, " ctor=", ctor));
}
// missing diagonal entries are rejected by the constructors
template <class M, int L = 1> void noDiag(mc::Chooser& c, int maxn) {
  using B = typename M::block_type; using V = Dune::BlockVector<typename VecFor<B>::row>;
  int n = c.range(1, maxn, "n"); auto p = patternOf(n, n, c.mask(n * n, "pattern")); int what = c(3, "preconditioner");
  M A; buildPattern(A, n, n, p); fill(A, n, n, p, [&](int i, int j) { return entry<FieldOf<M>>(i, j, 1); });
  bool diag = true; for (int i = 0; i < n; ++i) diag &= std::count(p[i].begin(), p[i].end(), i) == 1;
  bool threw = false;
  try { if (what == 0) Dune::SeqJac<M, V, V, L>(A, 1, 1.0); else if (what == 1) Dune::SeqSOR<M, V, V, L>(A, 1, 1.0); else Dune::SeqSSOR<M, V, V, L>(A, 1, 1.0); } catch (Dune::ISTLError&) { threw = true; }
  mc::step(); CHECK(threw == !diag, "pattern ", show(p), threw ? " rejected" : " accepted");
  mc::outcome(threw ? "rejected" : "accepted");
}
#if defined(PART4)
UNIT(prec_double) { precs<BD, 1>(c, 3); }
UNIT(prec_complex) { precs<BC, 1>(c, 2); }
UNIT(prec_fm2) { precs<B2, 1>(c, 3); }
UNIT(prec_nested) { precs<BB, 2>(c, 2); }
#endif
#if defined(PART5)   // the constructors look for the diagonal only with DUNE_ISTL_WITH_CHECKING
UNIT(nodiag_double) { noDiag<BD>(c, 3); }
UNIT(nodiag_fm2) { noDiag<B2>(c, 3); }
UNIT(nodiag_nested) { noDiag<BB, 2>(c, 2); }
UNIT(nodiag_complex) { noDiag<BC>(c, 2); }
#endif
