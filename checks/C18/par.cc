// C18: parallel operators, preconditioners and solvers against the sequential ones on the global problem.
#include "par.hh"
#include "itref.hh"
#include <dune/istl/preconditioners.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solvers.hh>
using namespace flat; using namespace par;
using Cx = std::complex<double>; using Cat = Dune::SolverCategory;
template <class M> using VecOf = Dune::BlockVector<typename VecFor<typename M::block_type>::row>;
template <class K> K bad(int r, int l) { return num<K>(1000 + 10 * r + l, r - l); }
// the global matrix: pattern plus diagonal, small exact values; spd: symmetric and diagonally dominant
template <class M> struct Global {
  using K = FieldOf<M>; static constexpr int N = Blk<typename M::block_type>::R; int G; std::vector<std::set<int>> cols; Dense<K> A;
  Global(int G_, const std::vector<std::set<int>>& c_, int kind) : G(G_), cols(c_), A(G_ * N, G_ * N) {
    for (int i = 0; i < G; ++i) cols[i].insert(i);
    for (int i = 0; i < G; ++i) for (int j : cols[i]) for (int k = 0; k < N; ++k) for (int l = 0; l < N; ++l) { if (Blk<typename M::block_type>::off(k, l)) continue; int a = i * N + k, b = j * N + l; if (N > 1 && Blk<typename M::block_type>::off(0, N - 1)) { A(a, b) = val<K>(17 * i + j + 3); continue; } A(a, b) = kind == 0 ? val<K>(17 * a + b + 3) : a == b ? num<K>(12 + 3 * a + (a % 2), 0) : kind == 1 || a > b ? num<K>(-1 - (a + b) % 2, a > b ? 1 : -1) : num<K>(1 + (a * b) % 2, 1); }
  }
  K at(int i, int j, int k, int l) const { return A(i * N + k, j * N + l); }
};
// local matrix of rank r: entry(i, j) decides which columns of a local row exist; bogus: rows whose values are not those of the global matrix
template <class M, class Has, class Bogus> void local(M& L, const Global<M>& g, const Decomp& d, int r, Has has, Bogus bogus) {
  using K = FieldOf<M>; constexpr int N = Global<M>::N; int n = d.size[r]; Pattern p(n); for (int l = 0; l < n; ++l) { int i = d.global(r, l); std::set<int> s; s.insert(l); if (i >= 0) for (int j : g.cols[i]) if (d.attr[r][j] && has(i, j)) s.insert(d.loc[r][j]); p[l].assign(s.begin(), s.end()); }
  buildPattern(L, n, n, p); fill(L, n, n, p, [&](int a, int b) -> K { int i = d.global(r, a / N), j = d.global(r, b / N); if (i < 0 || bogus(i, j)) return a == b ? num<K>(3, 0) : num<K>(a % N == b % N ? 1 : 0, 0); return g.at(i, j, a % N, b % N); });
}
template <class K> std::vector<K> localVec(const Decomp& d, int r, int N, const std::vector<K>& x, int goodMask) {   // entries whose attribute is in goodMask hold the global value, others something else
  std::vector<K> v; for (int l = 0; l < d.size[r]; ++l) for (int k = 0; k < N; ++k) { int g = d.global(r, l); v.push_back(g < 0 ? num<K>(0, 0) : goodMask >> d.attr[r][g] & 1 ? x[g * N + k] : bad<K>(r, l)); } return v;
}
template <class V, class X> V vec(const X& x, int n) { V v; flat::make(v, n); put(v, x); return v; }
// directed (rows of owned indices complete) graph and a decomposition that has the columns of every owned row
inline std::vector<std::set<int>> graph(mc::Chooser& c, int G, int style) {   // 0 any symmetric graph, 1 any pattern, 2 path or ring
  std::vector<std::set<int>> a(G);
  if (style == 2) { bool ring = c.flag("ring"); for (int i = 0; i < G; ++i) { int j = i + 1; if (j == G) { if (!ring || G < 3) continue; j = 0; } a[i].insert(j); a[j].insert(i); } return a; }
  for (int i = 0; i < G; ++i) for (int j = 0; j < (style ? G : i); ++j) if (i != j && c.flag("edge")) { a[i].insert(j); if (!style) a[j].insert(i); } return a;
}
inline Decomp overlapping(mc::Chooser& c, int P, const std::vector<std::set<int>>& gr, bool more) {
  int G = (int)gr.size(); Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, NONE)); std::vector<int> ow(G); for (int g = 0; g < G; ++g) { ow[g] = c(P, "owner"); d.attr[ow[g]][g] = OWNER; }
  for (int r = 0; r < P; ++r) for (int g = 0; g < G; ++g) if (ow[g] != r) { bool need = false; for (int i = 0; i < G; ++i) need |= ow[i] == r && gr[i].count(g); if (need) d.attr[r][g] = c.flag("copy") ? COPY : OVERLAP; else if (more) d.attr[r][g] = c(3, "other") == 0 ? NONE : c.flag("copy") ? COPY : OVERLAP; }
  return d;
}
#ifdef PART1
template <class M> void ovlp(mc::Chooser& c, int P, int G, int style, bool more) {
  using K = FieldOf<M>; using V = VecOf<M>; constexpr int N = Global<M>::N; auto gr = graph(c, G, style); auto d = overlapping(c, P, gr, more); int setup = c(2, "setup") ? 3 : 0; d.number((setup + d.attr[0][0]) % 4, setup ? 1 : 0); Global<M> g(G, gr, 0);
  bool add = c.flag("applyscaleadd"); K alpha = num<K>(-2, 1); fmpi::maxDeviations() = 0;
  std::vector<K> x, y0; for (int i = 0; i < G * N; ++i) { x.push_back(val<K>(5 * i + 1)); y0.push_back(val<K>(3 * i + 2)); } auto ax = matvec(g.A, x); if (add) for (int i = 0; i < G * N; ++i) ax[i] = y0[i] + alpha * ax[i]; NOTE(d.show(), " pattern ", [&] { std::string s; for (auto& r : g.cols) { s += "["; for (int j : r) s += mc::str(j, " "); s += "]"; } return s; }(), add ? " applyscaleadd" : " apply");
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<int>(d, r, setup); M L; local(L, g, d, r, [](int, int) { return true; }, [&](int i, int) { return d.attr[r][i] == COPY; }); auto lx = vec<V>(localVec<K>(d, r, N, x, 0xe), d.size[r]), ly = vec<V>(localVec<K>(d, r, N, y0, 0xe), d.size[r]); auto keep = get(lx);
    Dune::OverlappingSchwarzOperator<M, V, V, CommOf<>> op(L, *cm); const Dune::LinearOperator<V, V>& lo = op; CHECK(lo.category() == Cat::overlapping && &op.getmat() == &L && &op.getCommunication() == cm.get(), "category, matrix, communication");
    for (int rep = 0; rep < 2; ++rep) { if (add) { if (rep) ly = vec<V>(localVec<K>(d, r, N, y0, 0xe), d.size[r]); lo.applyscaleadd(alpha, lx, ly); } else lo.apply(lx, ly); CHECK(get(lx) == keep, "the argument was changed"); auto v = get(ly);
      for (int i = 0; i < G; ++i) if (d.attr[r][i]) { bool full = true; for (int j : g.cols[i]) full &= d.attr[r][j] != NONE; for (int k = 0; k < N; ++k) { K got = v[d.loc[r][i] * N + k]; if (d.attr[r][i] == COPY) CHECK(got == K(0), "copy entry ", i, " of rank ", r, " is ", got, " :: ", d.show()); else if (full) CHECK(got == ax[i * N + k], "entry ", i, " of rank ", r, " is ", got, ", the global product has ", ax[i * N + k], " :: ", d.show()); } } }
  });
  mc::state(mc::Hash()(d.hash())(setup)(add)(N));
}
UNIT(overlapping_any_pattern) { ovlp<Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>>>(c, 2, 3, 1, false); }
UNIT(overlapping_more) { ovlp<Dune::BCRSMatrix<double>>(c, 2, mc::thorough() ? 3 : 2, 0, true); }
UNIT(overlapping_three_ranks) { ovlp<Dune::BCRSMatrix<Dune::FieldMatrix<double, 2, 2>>>(c, 3, mc::thorough() ? 4 : 3, mc::thorough() ? 2 : 0, false); }
UNIT(overlapping_complex) { ovlp<Dune::BCRSMatrix<Dune::FieldMatrix<Cx, 2, 2>>>(c, 2, 3, 0, false); }
UNIT(overlapping_ring) { ovlp<Dune::BCRSMatrix<Dune::ScaledIdentityMatrix<double, 2>>>(c, 2, mc::thorough() ? 7 : 5, 2, false); }
// nonoverlapping: elements are distributed, every rank knows the vertices of its elements, a shared vertex belongs to the first rank of a fixed ranking that has it
inline Decomp nonoverlapping(mc::Chooser& c, int P, int G, bool ghosts) {
  Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, NONE)); std::vector<int> rank(P); for (int r = 0; r < P; ++r) rank[r] = r; for (int k = c([&] { int f = 1; for (int i = 2; i <= P; ++i) f *= i; return f; }(), "ranking"); k-- > 0;) std::next_permutation(rank.begin(), rank.end());
  for (int g = 0; g < G; ++g) { int m = c((1 << P) - 1, "knowers") + 1; bool first = true; for (int r : rank) if (m >> r & 1) { d.attr[r][g] = first ? OWNER : COPY; first = false; } else if (ghosts && c.flag("ghost")) d.attr[r][g] = OVERLAP; }
  return d;
}
template <class M> void novlp(mc::Chooser& c, int P, int G, bool ghosts, bool allEdges) {
  using K = FieldOf<M>; using V = VecOf<M>; constexpr int N = Global<M>::N; auto d = nonoverlapping(c, P, G, ghosts); int setup = c(2, "setup") ? 3 : 0; d.number((setup + d.attr[0][0]) % 4, setup ? 1 : 0);
  std::vector<std::set<int>> gr(G); int k = 0, drop = allEdges ? 0 : c(G + 1, "missing edge"); for (int i = 0; i < G; ++i) for (int j = 0; j < i; ++j) { bool e = false; for (int r = 0; r < P; ++r) { auto real = [&](int v) { return d.attr[r][v] == OWNER || d.attr[r][v] == COPY; }; e |= real(i) && real(j); } if (e && ++k != drop) { gr[i].insert(j); gr[j].insert(i); } }
  Global<M> g(G, gr, 0); bool add = c.flag("applyscaleadd"); K alpha = num<K>(3, -1); fmpi::maxDeviations() = 0; std::vector<K> x, y0; for (int i = 0; i < G * N; ++i) { x.push_back(val<K>(5 * i + 1)); y0.push_back(val<K>(3 * i + 2)); } auto ax = matvec(g.A, x); if (add) for (int i = 0; i < G * N; ++i) ax[i] = y0[i] + alpha * ax[i]; NOTE(d.show(), add ? " applyscaleadd" : " apply");
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<int>(d, r, setup, Cat::nonoverlapping); M L; local(L, g, d, r, [](int, int) { return true; }, [&](int i, int) { return d.attr[r][i] == OVERLAP; }); auto lx = vec<V>(localVec<K>(d, r, N, x, 0xa), d.size[r]), ly = vec<V>(localVec<K>(d, r, N, y0, 0xa), d.size[r]); auto keep = get(lx);
    Dune::NonoverlappingSchwarzOperator<M, V, V, CommOf<>> op(L, *cm); const Dune::LinearOperator<V, V>& lo = op; CHECK(lo.category() == Cat::nonoverlapping && &op.getmat() == &L && &op.getCommunication() == cm.get(), "category, matrix, communication");
    for (int rep = 0; rep < 2; ++rep) { if (add) { if (rep) ly = vec<V>(localVec<K>(d, r, N, y0, 0xa), d.size[r]); lo.applyscaleadd(alpha, lx, ly); } else lo.apply(lx, ly); CHECK(get(lx) == keep, "the argument was changed"); auto v = get(ly);
      for (int i = 0; i < G; ++i) if (d.attr[r][i] == OWNER || d.attr[r][i] == COPY) for (int k = 0; k < N; ++k) { K got = v[d.loc[r][i] * N + k]; CHECK(got == ax[i * N + k], "entry ", i, " of rank ", r, " is ", got, ", the global product has ", ax[i * N + k], " :: ", d.show()); } }
  });
  mc::state(mc::Hash()(d.hash())(setup)(add)(N)(drop));
}
UNIT(nonoverlapping_two_ranks) { novlp<Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>>>(c, 2, mc::thorough() ? 5 : 4, false, false); }
UNIT(nonoverlapping_ghosts) { novlp<Dune::BCRSMatrix<Dune::FieldMatrix<double, 2, 2>>>(c, 2, mc::thorough() ? 4 : 3, true, false); }
UNIT(nonoverlapping_three_ranks) { novlp<Dune::BCRSMatrix<double>>(c, 3, mc::thorough() ? 4 : 3, false, !mc::thorough()); }
UNIT(nonoverlapping_four_ranks) { novlp<Dune::BCRSMatrix<double>>(c, 4, 2, false, true); }
UNIT(nonoverlapping_complex) { novlp<Dune::BCRSMatrix<Dune::FieldMatrix<Cx, 2, 2>>>(c, 2, 3, false, true); }
#endif
#ifdef PART2
// preconditioners: the sequential one on the local matrix, then the prescribed exchange
enum { SSOR, JAC, ILU, RICH, GS, NPREC };
template <class M> std::shared_ptr<Dune::Preconditioner<VecOf<M>, VecOf<M>>> seqPrec(int w, const M& A, double om) { using V = VecOf<M>; switch (w) { case SSOR: return std::make_shared<Dune::SeqSSOR<M, V, V>>(A, 2, om); case JAC: return std::make_shared<Dune::SeqJac<M, V, V>>(A, 1, om); case ILU: return std::make_shared<Dune::SeqILU<M, V, V>>(A, om); case GS: return std::make_shared<Dune::SeqGS<M, V, V>>(A, 1, om); } return std::make_shared<Dune::Richardson<V, V>>(om); }
template <class M> void prec(mc::Chooser& c, int P, int G, bool novl, bool ssorPar) {
  using K = FieldOf<M>; using V = VecOf<M>; constexpr int N = Global<M>::N; auto d = decomp(c, P, G); int setup = c(2, "setup") ? 3 : 1; int order = (setup + d.attr[0][0]) % 4; d.number(order, 0); std::vector<std::set<int>> gr(G); for (int i = 0; i < G; ++i) for (int j = 0; j < G; ++j) if (i != j && (i + j != 2 || G != 4)) gr[i].insert(j); Global<M> g(G, gr, 1); int w = ssorPar ? SSOR : c(NPREC, "preconditioner"); double om = order % 2 ? 0.75 : 1.; fmpi::maxDeviations() = P > 2 ? 0 : 1; int steps = ssorPar ? c.range(0, 2, "steps") : 1;
  // expected: sequential preconditioner per rank, then the exchange
  std::vector<std::vector<K>> X(P), D(P), want(P), Xpre(P);
  for (int r = 0; r < P; ++r) for (int l = 0; l < d.size[r]; ++l) for (int k = 0; k < N; ++k) { X[r].push_back(val<K>(7 * r + 3 * l + k)); D[r].push_back(val<K>(5 * r + 2 * l + k + 40)); }
  auto exchange = [&](std::vector<std::vector<K>>& v, bool add) { auto o = v; for (int gI = 0; gI < G; ++gI) for (int r = 0; r < P; ++r) if (d.attr[r][gI]) for (int s = 0; s < P; ++s) if (s != r && d.attr[s][gI]) for (int k = 0; k < N; ++k) { auto& t = v[r][d.loc[r][gI] * N + k]; K u = o[s][d.loc[s][gI] * N + k]; if (!add && d.attr[s][gI] == OWNER) t = u; auto oc = [](int a) { return a == OWNER || a == COPY; }; if (add && oc(d.attr[s][gI]) && oc(d.attr[r][gI])) t += u; } };
  Xpre = X; if (!novl) exchange(Xpre, false); want = X; std::vector<M> L(P); if (ssorPar) want = Xpre;
  for (int r = 0; r < P; ++r) { local(L[r], g, d, r, [](int, int) { return true; }, [](int, int) { return false; }); auto v = vec<V>(want[r], d.size[r]), dd = vec<V>(D[r], d.size[r]); if (ssorPar) { Dune::SeqSSOR<M, V, V> s(L[r], steps, om); if (steps) s.apply(v, dd); } else { auto s = seqPrec<M>(w, L[r], om); s->pre(v, dd); for (auto& b : v) b = typename M::field_type(0); s->apply(v, dd); } want[r] = get(v); }
  exchange(want, novl); NOTE(d.show(), " preconditioner ", w, novl ? " nonoverlapping" : "");
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<int>(d, r, setup, novl ? Cat::nonoverlapping : Cat::overlapping); auto v = vec<V>(X[r], d.size[r]), dd = vec<V>(D[r], d.size[r]); auto s = seqPrec<M>(w, L[r], om); std::shared_ptr<Dune::Preconditioner<V, V>> p; using SP = Dune::Preconditioner<V, V>;
    if (ssorPar) p = std::make_shared<Dune::ParSSOR<M, V, V, CommOf<>>>(L[r], steps, om, *cm); else if (novl) { if (order % 2) p = std::make_shared<Dune::NonoverlappingBlockPreconditioner<CommOf<>, SP>>(s, *cm); else p = std::make_shared<Dune::NonoverlappingBlockPreconditioner<CommOf<>, SP>>(*s, *cm); } else if (order % 2) p = std::make_shared<Dune::BlockPreconditioner<V, V, CommOf<>>>(s, *cm); else p = std::make_shared<Dune::BlockPreconditioner<V, V, CommOf<>>>(*s, *cm);
    CHECK(p->category() == (novl ? Cat::nonoverlapping : Cat::overlapping), "category"); p->pre(v, dd); CHECK(get(dd) == D[r], "pre changed the right hand side"); CHECK(get(v) == Xpre[r], "pre: solution on rank ", r, " :: ", d.show(), flat::show(get(v)), flat::show(Xpre[r]));
    if (!ssorPar) for (auto& b : v) b = typename M::field_type(0); p->apply(v, dd); CHECK(get(dd) == D[r], "apply changed the defect"); auto gv = get(v); for (size_t i = 0; i < gv.size(); ++i) CHECK(mc::close(gv[i], want[r][i], 10., 1e-12), "entry ", i, " of rank ", r, " is ", gv[i], " expected ", want[r][i], " :: ", d.show()); p->post(v); CHECK(get(v) == gv, "post changed the vector");
  });
  mc::state(mc::Hash()(d.hash())(setup)(w)(novl)(steps));
}
using M1 = Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>>; using M2 = Dune::BCRSMatrix<Dune::FieldMatrix<double, 2, 2>>;
UNIT(block_preconditioner) { prec<M1>(c, 2, 3, false, false); }
UNIT(block_preconditioner_three_ranks) { prec<M2>(c, 3, 2, false, false); }
UNIT(nonoverlapping_block_preconditioner) { prec<M1>(c, 2, 3, true, false); }
UNIT(nonoverlapping_block_three_ranks) { prec<M2>(c, 3, 2, true, false); }
UNIT(parssor) { prec<M2>(c, 2, 3, false, true); }
UNIT(parssor_three_ranks) { prec<M1>(c, 3, 2, false, true); }
#endif
#ifdef PART3
// whole solvers: the parallel run follows the sequential run on the global problem
template <class V> struct Scale : Dune::Preconditioner<V, V> { double w; Cat::Category cat; Scale(double w_, Cat::Category c_) : w(w_), cat(c_) {} void pre(V&, V&) override {} void apply(V& v, const V& d) override { v = d; v *= w; } void post(V&) override {} Cat::Category category() const override { return cat; } };
enum { CG, BICG, MINRES, GMRES, FGMRES, LOOP, GRAD, GPCG, RFCG, CFCG, NS };
template <class V> std::unique_ptr<Dune::IterativeSolver<V, V>> solver(int s, std::shared_ptr<const Dune::LinearOperator<V, V>> op, std::shared_ptr<const Dune::ScalarProduct<V>> sp, std::shared_ptr<Dune::Preconditioner<V, V>> p, double red, int it) {
  switch (s) { case CG: return std::make_unique<Dune::CGSolver<V>>(op, sp, p, red, it, 0); case BICG: return std::make_unique<Dune::BiCGSTABSolver<V>>(op, sp, p, red, it, 0); case MINRES: return std::make_unique<Dune::MINRESSolver<V>>(op, sp, p, red, it, 0); case GMRES: return std::make_unique<Dune::RestartedGMResSolver<V>>(op, sp, p, red, 3, it, 0); case FGMRES: return std::make_unique<Dune::RestartedFlexibleGMResSolver<V>>(op, sp, p, red, 3, it, 0); case LOOP: return std::make_unique<Dune::LoopSolver<V>>(op, sp, p, red, it, 0); case GRAD: return std::make_unique<Dune::GradientSolver<V>>(op, sp, p, red, it, 0); case GPCG: return std::make_unique<Dune::GeneralizedPCGSolver<V>>(op, sp, p, red, it, 0, 3); case RFCG: return std::make_unique<Dune::RestartedFCGSolver<V>>(op, sp, p, red, it, 0, 3); } return std::make_unique<Dune::CompleteFCGSolver<V>>(op, sp, p, red, it, 0, 3);
}
template <class M> void solve(mc::Chooser& c, int P, int G, int style, bool novl, int s) {
  using K = FieldOf<M>; using V = VecOf<M>; constexpr int N = Global<M>::N; Decomp d; std::vector<std::set<int>> gr;
  if (novl) { gr = graph(c, G, style); d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, NONE)); std::vector<int> m(G, 0); for (int i = 0; i < G; ++i) { int r = c(P, "vertex"); m[i] |= 1 << r; for (int j : gr[i]) if (j < i) { int e = c(P, "element"); m[i] |= 1 << e; m[j] |= 1 << e; } } for (int g = 0; g < G; ++g) { bool first = true; for (int r = 0; r < P; ++r) if (m[g] >> r & 1) { d.attr[r][g] = first ? OWNER : COPY; first = false; } } }
  else { gr = graph(c, G, style); d = overlapping(c, P, gr, false); }
  int setup = d.attr[0][0] == OWNER ? 3 : 0; d.number((d.attr[0][G - 1] + G) % 4, 0); Global<M> g(G, gr, s == CG || s == MINRES || s == GRAD || s == GPCG || s == RFCG || s == CFCG ? 1 : 2); int pk = novl ? 0 : c(2, "preconditioner"); int it = s == LOOP ? 3 : 2 + (d.attr[P - 1][0] == OWNER ? 40 : 0); double red = 1e-8; fmpi::maxDeviations() = 0;
  std::vector<K> x0, b; for (int i = 0; i < G * N; ++i) { x0.push_back(val<K>(5 * i + 1) / 4.); b.push_back(val<K>(3 * i + 2)); }
  // sequential run on the global problem
  M A; Pattern p(G); for (int i = 0; i < G; ++i) p[i].assign(g.cols[i].begin(), g.cols[i].end()); buildPattern(A, G, G, p); fill(A, G, G, p, [&](int a, int bb) -> K { return g.A(a, bb); });
  auto sx = vec<V>(x0, G), sb = vec<V>(b, G); Dune::InverseOperatorResult sres; { auto op = std::make_shared<Dune::MatrixAdapter<M, V, V>>(A); std::shared_ptr<Dune::Preconditioner<V, V>> pr; if (pk) pr = std::make_shared<Dune::SeqJac<M, V, V>>(A, 1, 1.); else pr = std::make_shared<Scale<V>>(0.0625, Cat::sequential); solver<V>(s, op, std::make_shared<Dune::SeqScalarProduct<V>>(), pr, red, it)->apply(sx, sb, sres); }
  auto want = get(sx); std::vector<Dune::InverseOperatorResult> res(P); auto cat = novl ? Cat::nonoverlapping : Cat::overlapping; NOTE(d.show(), " solver ", s, " preconditioner ", pk, " sequential: ", sres.iterations, " iterations, converged ", sres.converged);
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<int>(d, r, setup, cat); M L; local(L, g, d, r, [](int, int) { return true; }, [&](int i, int) { return !novl && d.attr[r][i] == COPY; }); auto lx = vec<V>(localVec<K>(d, r, N, x0, novl ? 0xa : 0x2), d.size[r]), lb = vec<V>(localVec<K>(d, r, N, b, novl ? 0xa : 0x2), d.size[r]);
    std::shared_ptr<Dune::LinearOperator<V, V>> op; std::shared_ptr<Dune::Preconditioner<V, V>> pr; if (novl) { op = std::make_shared<Dune::NonoverlappingSchwarzOperator<M, V, V, CommOf<>>>(L, *cm); pr = std::make_shared<Scale<V>>(0.0625, cat); } else { op = std::make_shared<Dune::OverlappingSchwarzOperator<M, V, V, CommOf<>>>(L, *cm); std::shared_ptr<Dune::Preconditioner<V, V>> sq; if (pk) sq = std::make_shared<Dune::SeqJac<M, V, V>>(L, 1, 1.); else sq = std::make_shared<Scale<V>>(0.0625, Cat::sequential); pr = std::make_shared<Dune::BlockPreconditioner<V, V, CommOf<>>>(sq, *cm); }
    solver<V>(s, op, Dune::createScalarProduct<V>(*cm, cat), pr, red, it)->apply(lx, lb, res[r]);
    auto v = get(lx); for (int i = 0; i < G; ++i) if (d.attr[r][i] && !(novl && d.attr[r][i] == OVERLAP)) for (int k = 0; k < N; ++k) CHECK(mc::close(v[d.loc[r][i] * N + k], want[i * N + k], 1., sres.converged ? 1e-6 : 1e-8), "solver ", s, ": x[", i, "] on rank ", r, " is ", v[d.loc[r][i] * N + k], " instead of ", want[i * N + k], " :: ", d.show());
  });
  for (int r = 0; r < P; ++r) { CHECK(res[r].iterations == res[0].iterations && res[r].converged == res[0].converged && res[r].reduction == res[0].reduction, "solver ", s, ": the ranks report different results"); CHECK(std::abs(res[r].iterations - sres.iterations) <= (sres.converged ? 1 : 0) && (res[r].converged == sres.converged || std::abs(sres.reduction - red) < .5 * red), "solver ", s, ": ", res[r].iterations, " iterations, converged ", res[r].converged, ", reduction ", res[r].reduction, "; sequentially ", sres.iterations, " ", sres.converged, " ", sres.reduction); }
  mc::state(mc::Hash()(d.hash())(s)(pk)(novl));
}
using M1 = Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>>; using M2 = Dune::BCRSMatrix<Dune::FieldMatrix<double, 2, 2>>; using MC = Dune::BCRSMatrix<Dune::FieldMatrix<Cx, 1, 1>>;
UNIT(solve_overlapping) { solve<M1>(c, 2, mc::thorough() ? 5 : 4, 2, false, c(NS, "solver")); }
UNIT(solve_overlapping_three_ranks) { solve<M2>(c, 3, 3, 2, false, c(NS, "solver")); }
UNIT(solve_nonoverlapping) { solve<M1>(c, 2, mc::thorough() ? 5 : 4, 2, true, c(NS, "solver")); }
UNIT(solve_nonoverlapping_three_ranks) { solve<M2>(c, 3, 3, 2, true, c(NS, "solver")); }
UNIT(solve_complex) { static const int cs[] = {CG, BICG, GMRES, FGMRES}; solve<MC>(c, 2, 4, 2, false, cs[c(4, "solver")]); }
#endif
