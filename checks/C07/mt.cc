// Stationary iterations on heterogeneous block matrices.
#include "mc.hh"
#include "itref.hh"
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/gsetc.hh>
#include <dune/istl/preconditioners.hh>
using namespace flat; using namespace itref; using namespace Dune::Indices;
template <int r, int s> using FM = Dune::FieldMatrix<double, r, s>;
template <int r, int s> using BM = Dune::BCRSMatrix<FM<r, s>>;
template <int r> using BV = Dune::BlockVector<Dune::FieldVector<double, r>>;
static double ent(int i, int j, int seed) { if (i == j) return seed & 1 ? 31 + i : -37 + 2 * i; if ((i * 5 + j * 3 + seed) % 6 == 0) return 0; return val<double>((unsigned)(i * 37 + j * 11 + seed * 101 + 5)); }
static const std::vector<double> W{1.0, 0.5, 1.25};
template <class MT, class VT> void run(mc::Chooser& c, const MT& A, VT& x, const VT& b, std::vector<double> ref, std::vector<double> bf, const Dense<double>& D, const Part& P, auto level, auto getv, auto putv) {
  constexpr int L = decltype(level)::value; double w = c.of(W, "w"); int what = c(4, "kernel");
  auto doit = [&](VT& y, const VT& r) { switch (what) { case Jac: Dune::dbjac(A, y, r, w, Dune::BL<L>()); break; case GS: Dune::dbgs(A, y, r, w, Dune::BL<L>()); break; case Fwd: Dune::bsorf(A, y, r, w, Dune::BL<L>()); break; default: Dune::bsorb(A, y, r, w, Dune::BL<L>()); } };
  step((Kind)what, D, P, L, ref, bf, w);
  doit(x, b); mc::step();
  CHECK(same(getv(x), ref), "kernel ", what, " level ", L, ": ", show(getv(x)), " expected ", show(ref));
  CHECK(getv(b) == bf, "right hand side changed");
  std::vector<double> sol(bf.size()); for (size_t i = 0; i < sol.size(); ++i) sol[i] = val<double>(i * 3 + 2);
  VT y = x, r = b; putv(y, sol); putv(r, matvec(D, sol)); doit(y, r);
  CHECK(same(getv(y), sol), "the solution is no fixed point: ", show(getv(y)), " expected ", show(sol));
  mc::state(mc::Hash()(what)(L)(itref::hash(ref))); mc::outcome(mc::str("kernel=", what));
}
// blocks are sparse matrices
UNIT(sparse_blocks) {
  int n0 = c.range(1, 2, "n0"), n1 = c.range(1, 2, "n1"), seed = c(2, "values");
  using MT = Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<BM<1, 1>, BM<1, 2>>, Dune::MultiTypeBlockVector<BM<2, 1>, BM<2, 2>>>; using VT = Dune::MultiTypeBlockVector<BV<1>, BV<2>>;
  MT A; int N = n0 + 2 * n1; Dense<double> D(N, N);
  auto diag = [&](int n, const char* l) { Pattern p(n); unsigned m = c.mask(n * n - n, l); int k = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || (m >> k++ & 1)) p[i].push_back(j); return p; };
  auto put1 = [&](auto& M, int n, int m, const Pattern& p, int ro, int co, int R, int Cc) { buildPattern(M, n, m, p); auto E = fill(M, n, m, p, [&](int i, int j) { return ent(ro + i, co + j, seed); }); for (int i = 0; i < n * R; ++i) for (int j = 0; j < m * Cc; ++j) D(ro + i, co + j) = E(i, j); };
  put1(A[_0][_0], n0, n0, diag(n0, "p00"), 0, 0, 1, 1);
  put1(A[_0][_1], n0, n1, patternOf(n0, n1, c.mask(n0 * n1, "p01")), 0, n0, 1, 2);
  put1(A[_1][_0], n1, n0, patternOf(n1, n0, c.mask(n0 * n1, "p10")), n0, 0, 2, 1);
  put1(A[_1][_1], n1, n1, diag(n1, "p11"), n0, n0, 2, 2);
  VT x, b; x[_0].resize(n0); x[_1].resize(n1); b = x;
  auto getv = [](const VT& v) { auto r = get(v[_0]); auto s = get(v[_1]); r.insert(r.end(), s.begin(), s.end()); return r; };
  auto putv = [n0](VT& v, const std::vector<double>& w) { put(v[_0], w); put(v[_1], std::vector<double>(w.begin() + n0, w.end())); };
  std::vector<double> bf(N), xf(N); for (int i = 0; i < N; ++i) { bf[i] = val<double>(i * 13 + 1); xf[i] = val<double>(i * 7 + 3); }
  putv(b, bf); putv(x, xf);
  Part P{0, N, {uniform(0, n0, 1), uniform(n0, n1, 2)}};
  run(c, A, x, b, xf, bf, D, P, std::integral_constant<int, 2>(), getv, putv);
}
// dense blocks, solved directly
UNIT(dense_blocks) {
  using MT = Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<FM<1, 1>, FM<1, 2>, FM<1, 3>>, Dune::MultiTypeBlockVector<FM<2, 1>, FM<2, 2>, FM<2, 3>>, Dune::MultiTypeBlockVector<FM<3, 1>, FM<3, 2>, FM<3, 3>>>;
  using VT = Dune::MultiTypeBlockVector<Dune::FieldVector<double, 1>, Dune::FieldVector<double, 2>, Dune::FieldVector<double, 3>>;
  static const int off[] = {0, 1, 3, 6};
  unsigned zero = c.mask(6, "zero blocks"); int seed = c(3, "values"), k = 0;
  MT A; Dense<double> D(6, 6);
  Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::index_constant<3>()), [&](auto&& i) { Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::index_constant<3>()), [&](auto&& j) {
    bool z = i != j && (zero >> k++ & 1); auto& B = A[i][j];
    for (int r = 0; r < off[i + 1] - off[i]; ++r) for (int s = 0; s < off[j + 1] - off[j]; ++s) D(off[i] + r, off[j] + s) = B[r][s] = z ? 0 : ent(off[i] + r, off[j] + s, seed);
  }); });
  auto getv = [](const VT& v) { std::vector<double> r; Dune::Hybrid::forEach(v, [&](auto& b) { for (double y : b) r.push_back(y); }); return r; };
  auto putv = [](VT& v, const std::vector<double>& w) { int q = 0; Dune::Hybrid::forEach(v, [&](auto& b) { for (double& y : b) y = w[q++]; }); };
  VT x, b; std::vector<double> bf(6), xf(6); for (int i = 0; i < 6; ++i) { bf[i] = val<double>(i * 13 + 1); xf[i] = val<double>(i * 7 + 3); }
  putv(b, bf); putv(x, xf);
  Part P{0, 6, {{0, 1, {}}, {1, 3, {}}, {3, 6, {}}}};
  run(c, A, x, b, xf, bf, D, P, std::integral_constant<int, 1>(), getv, putv);
}
// preconditioner classes on heterogeneous matrices
UNIT(precs) {
  using MT = Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<FM<1, 1>, FM<1, 2>>, Dune::MultiTypeBlockVector<FM<2, 1>, FM<2, 2>>>; using VT = Dune::MultiTypeBlockVector<Dune::FieldVector<double, 1>, Dune::FieldVector<double, 2>>;
  int seed = c(3, "values"), it = c.range(1, 3, "iterations"), what = c(3, "preconditioner"); double w = c.of(W, "w");
  MT A; Dense<double> D(3, 3); static const int off[] = {0, 1, 3};
  Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::index_constant<2>()), [&](auto&& i) { Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::index_constant<2>()), [&](auto&& j) {
    for (int r = 0; r < off[i + 1] - off[i]; ++r) for (int s = 0; s < off[j + 1] - off[j]; ++s) D(off[i] + r, off[j] + s) = A[i][j][r][s] = ent(off[i] + r, off[j] + s, seed); }); });
  VT v, d; std::vector<double> df(3), ref(3, 0.0); for (int i = 0; i < 3; ++i) df[i] = val<double>(i * 13 + seed);
  d[_0][0] = df[0]; d[_1][0] = df[1]; d[_1][1] = df[2]; v = 0;
  Part P{0, 3, {{0, 1, {}}, {1, 3, {}}}};
  if (what == 0) { Dune::SeqJac<MT, VT, VT> s(A, it, w); s.apply(v, d); for (int k = 0; k < it; ++k) step(Jac, D, P, 1, ref, df, w); }
  if (what == 1) { Dune::SeqSOR<MT, VT, VT> s(A, it, w); s.apply(v, d); for (int k = 0; k < it; ++k) step(Fwd, D, P, 1, ref, df, w); }
  if (what == 2) { Dune::SeqSSOR<MT, VT, VT> s(A, it, w); s.apply(v, d); for (int k = 0; k < it; ++k) { step(Fwd, D, P, 1, ref, df, w); step(Bwd, D, P, 1, ref, df, w); } }
  std::vector<double> got{v[_0][0], v[_1][0], v[_1][1]};
  mc::step(); CHECK(same(got, ref), "prec ", what, ": ", show(got), " expected ", show(ref));
  mc::state(itref::hash(ref));
}
