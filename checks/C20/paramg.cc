// C20: algebraic multigrid on distributed matrices: hierarchy and cycle are those of the global matrix.
#include "par.hh"
#ifdef PARMETIS
#include <parmetis.h>
#define HAVE_PARMETIS 1
#endif
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <iostream>
#include <sstream>
using namespace flat; using namespace par; using Cat = Dune::SolverCategory; using Graph = std::vector<std::set<int>>;
#ifdef PARMETIS
// the partitioner answers with a partition given by the explored choice
static int partStyle;
static int partOf(int v, int n, int k) { switch (partStyle) { case 0: return v * k / n; case 1: return v % k; default: return (n - 1 - v) * k / n; } }
extern "C" int ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t* nparts, real_t*, real_t*, idx_t*, idx_t*, idx_t* part, MPI_Comm* comm) { int r, P; MPI_Comm_rank(*comm, &r); MPI_Comm_size(*comm, &P); for (idx_t v = vtxdist[r]; v < vtxdist[r + 1]; ++v) part[v - vtxdist[r]] = partOf((int)v, (int)vtxdist[P], (int)*nparts); return METIS_OK; }
extern "C" int METIS_SetDefaultOptions(idx_t* o) { for (int i = 0; i < METIS_NOPTIONS; ++i) o[i] = -1; return METIS_OK; }
extern "C" int METIS_PartGraphRecursive(idx_t* nvtxs, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t* nparts, real_t*, real_t*, idx_t*, idx_t*, idx_t* part) { for (int v = 0; v < *nvtxs; ++v) part[v] = partOf(v, (int)*nvtxs, (int)*nparts); return METIS_OK; }
#endif
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
template <int N> struct Types {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double, N, N>>; using V = Dune::BlockVector<Dune::FieldVector<double, N>>; using Comm = CommOf<>;
  using Op = Dune::OverlappingSchwarzOperator<M, V, V, Comm>; using Hier = Dune::Amg::MatrixHierarchy<Op, Comm>;
  using Crit = Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<M, Dune::Amg::FirstDiagonal>>;
};
using Excl = Dune::NegateSet<CommOf<>::OwnerSet>;
template <int N> using Blk_ = std::array<double, N * N>;
template <int N> double entry(int i, int j, int k, int l, int kind) {
  if (i == j) return k == l ? (kind == 1 ? 8. : 12. + 3 * ((i * 5 + kind) % 4) + k) : .25;
  double s = kind == 1 ? -1. : -1. - ((i + j + kind) % 2) - ((i * j) % 3 == 1 ? .5 : 0.); return k == l ? s : .125 * s;
}
// the local matrix: complete rows of the owned vertices, Dirichlet rows for the others
template <int N> void localMatrix(typename Types<N>::M& A, const Decomp& d, int r, const Graph& gr, int kind, bool fresh = true) {
  int n = d.size[r]; Pattern p(n); for (int i = 0; i < d.G; ++i) if (d.attr[r][i]) { std::set<int> s{d.loc[r][i]}; for (int j : gr[i]) if (d.attr[r][j]) s.insert(d.loc[r][j]); p[d.loc[r][i]].assign(s.begin(), s.end()); }
  if (fresh) buildPattern(A, n, n, p); fill(A, n, n, p, [&](int a, int b) -> double { int i = d.global(r, a / N), j = d.global(r, b / N); return d.attr[r][i] == OWNER ? entry<N>(i, j, a % N, b % N, kind) : double(a == b); });
}
// what a rank has on one level
template <int N> struct Dist { bool valid = false; std::map<int, std::pair<int, int>> idx; std::map<int, std::map<int, int>> remote; std::vector<int> members; std::map<std::pair<int, int>, Blk_<N>> mat; int n = 0, rank = -1, cat = 0;
  int global(int l) const { for (auto& [g, p] : idx) if (p.first == l) return g; return -1; } };
template <int N> struct Level { Dist<N> a, b; std::vector<size_t> agg; bool hasAgg = false; };
template <int N> struct RankView { std::vector<Level<N>> lev; size_t levels = 0, maxlevels = 0; bool coarsest = false, built = false; };
template <int N> void collectMatrix(Dist<N>& d, const typename Types<N>::M& A) { d.n = (int)A.N(); CHECK(A.N() == A.M(), "level matrix not square"); d.mat.clear(); for (auto i = A.begin(); i != A.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) { Blk_<N> b; for (int k = 0; k < N; ++k) for (int l = 0; l < N; ++l) b[k * N + l] = (*j)[k][l]; d.mat[{(int)i.index(), (int)j.index()}] = b; } }
template <int N> void collect(Dist<N>& d, const typename Types<N>::Op& op, const CommOf<>& cm) {
  d.valid = true; collectMatrix(d, op.getmat()); for (auto& p : cm.indexSet()) CHECK(d.idx.emplace(p.global(), std::make_pair((int)p.local().local(), (int)p.local().attribute())).second, "global index ", p.global(), " twice");
  CHECK(cm.remoteIndices().isSynced(), "remote indices are out of date");
  for (auto& nb : cm.remoteIndices()) { CHECK(nb.second.first == nb.second.second, "different send and receive lists"); for (auto& ri : *nb.second.first) CHECK(d.remote[nb.first].emplace(ri.localIndexPair().global(), (int)ri.attribute()).second, "remote index twice"); }
  d.rank = cm.communicator().rank(); int me; MPI_Comm_rank(MPI_COMM_WORLD, &me); d.members.resize(cm.communicator().size()); cm.communicator().allgather(&me, 1, d.members.data()); d.cat = (int)Cat::category(cm); CHECK(&op.getCommunication() == &cm, "the operator uses another communication");
}
template <int N> void collect(RankView<N>& v, const typename Types<N>::Hier& h) {
  v = {}; v.levels = h.levels(); v.maxlevels = h.maxlevels(); v.coarsest = h.hasCoarsest(); v.built = h.isBuilt(); auto m = h.matrices().finest(); auto pi = h.parallelInformation().finest(); auto ri = h.redistributeInformation().begin(); auto ag = h.aggregatesMaps().begin();
  for (size_t l = 0; l < v.levels; ++l) { Level<N> L; collect<N>(L.a, *m, *pi); CHECK(m.isRedistributed() == ri->isSetup() && m.isRedistributed() == pi.isRedistributed(), "redistribution flags of level ", l);
    if (ri->isSetup()) { auto& cm = pi.getRedistributed(); if (cm.communicator().size() > 0) collect<N>(L.b, m.getRedistributed(), cm); }
    if (l + 1 < v.levels) { L.hasAgg = true; L.agg.assign((*ag)->begin(), (*ag)->end()); } v.lev.push_back(L); if (l + 1 < v.levels) { ++m; ++pi; ++ri; ++ag; } }
  CHECK(m == h.matrices().coarsest(), "levels() is not the number of matrices");
}
// the global view of a level: owners, matrix, aggregates.  Checks that the ranks agree.
template <int N> struct GlobalLevel { std::map<int, int> owner; std::map<std::pair<int, int>, Blk_<N>> mat; std::map<int, int> agg; };   // agg: global index -> coarse global index or -1
template <int N> GlobalLevel<N> global(const std::vector<const Dist<N>*>& ds, const std::string& what) {
  GlobalLevel<N> g; int P = (int)ds.size();
  for (int r = 0; r < P; ++r) if (ds[r]) { auto& d = *ds[r]; std::set<int> ls; for (auto& [id, p] : d.idx) { CHECK(p.first >= 0 && p.first < d.n && ls.insert(p.first).second, what, ": local index ", p.first, " of ", id, " on rank ", r); CHECK(p.second == OWNER || p.second == OVERLAP || p.second == COPY, what, ": attribute"); if (p.second == OWNER) CHECK(g.owner.emplace(id, r).second, what, ": index ", id, " has two owners"); } CHECK((int)ls.size() == d.n, what, ": the matrix of rank ", r, " has ", d.n, " rows, the index set ", ls.size()); CHECK(d.cat == (int)Cat::overlapping, what, ": category"); }
  for (int r = 0; r < P; ++r) if (ds[r]) { auto& d = *ds[r]; for (auto& e : d.idx) CHECK(g.owner.count(e.first), what, ": index ", e.first, " has no owner"); CHECK(d.members.size() > (size_t)d.rank && d.members[d.rank] == r, what, ": communicator");
    for (int s = 0; s < P; ++s) if (s != r && ds[s]) { int q = -1; for (size_t k = 0; k < d.members.size(); ++k) if (d.members[k] == s) q = (int)k; CHECK(q >= 0, what, ": rank ", s, " not in the communicator of rank ", r); std::map<int, int> want; for (auto& [id, p] : ds[s]->idx) if (d.idx.count(id)) want[id] = p.second; auto it = d.remote.find(q); std::map<int, int> got = it == d.remote.end() ? std::map<int, int>() : it->second; for (auto& [id, a] : want) CHECK(got.count(id) && got[id] == a, what, ": rank ", r, " does not know that rank ", s, " has index ", id, " with attribute ", a); CHECK(got.size() == want.size(), what, ": rank ", r, " believes that rank ", s, " has more indices than it has"); }
    for (auto& [rc, b] : d.mat) { int i = d.global(rc.first), j = d.global(rc.second); if (g.owner[i] == r) g.mat[{i, j}] = b; }
    for (auto& [id, p] : d.idx) CHECK(d.mat.count({p.first, p.first}), what, ": row of ", id, " on rank ", r, " has no diagonal"); }
  // a row that the rank does not own is decoupled: only a diagonal entry, either one or that of the owner
  for (int r = 0; r < P; ++r) if (ds[r]) for (auto& [rc, b] : ds[r]->mat) { int i = ds[r]->global(rc.first), j = ds[r]->global(rc.second); if (g.owner[i] == r) continue; Blk_<N> one{}; for (int k = 0; k < N; ++k) one[k * N + k] = 1; bool ok = i == j ? b == one || b == g.mat[std::make_pair(i, i)] : b == Blk_<N>{}; CHECK(ok, what, ": the row of index ", i, " that rank ", r, " does not own couples: entry ", j, " is ", b[0]); }
  return g;
}
template <int N> void sameGlobal(const GlobalLevel<N>& a, const std::map<std::pair<int, int>, Blk_<N>>& m, const std::string& what) {
  for (auto& [ij, b] : m) { auto it = a.mat.find(ij); CHECK(it != a.mat.end(), what, ": entry ", ij.first, ",", ij.second, " missing"); for (int k = 0; k < N * N; ++k) CHECK(mc::close(it->second[k], b[k], 10., 1e-12), what, ": entry ", ij.first, ",", ij.second, " is ", it->second[k], " instead of ", b[k]); }
  for (auto& e : a.mat) CHECK(m.count(e.first), what, ": entry ", e.first.first, ",", e.first.second, " should not exist");
}
struct Stats { int depth = 0, redist = 0, iso = 0; };
// all levels; returns the global hierarchy
template <int N> std::vector<GlobalLevel<N>> check(const std::vector<RankView<N>>& v, const Graph& gr, int kind, int gstyle, Stats& st) {
  int P = (int)v.size(); std::vector<GlobalLevel<N>> out; size_t L = 0; for (auto& x : v) L = std::max(L, x.levels); for (int r = 0; r < P; ++r) CHECK(v[r].maxlevels == L && v[r].built, "rank ", r, " reports ", v[r].maxlevels, " levels instead of ", L);
  std::map<std::pair<int, int>, Blk_<N>> want; for (int i = 0; i < (int)gr.size(); ++i) for (int j = 0; j < (int)gr.size(); ++j) if (i == j || gr[i].count(j)) { Blk_<N> b; for (int k = 0; k < N; ++k) for (int l = 0; l < N; ++l) b[k * N + l] = entry<N>(i, j, k, l, kind); want[{gid<int>(i, gstyle), gid<int>(j, gstyle)}] = b; }
  for (size_t l = 0; l < L; ++l) {
    auto what = mc::str("level ", l); std::vector<const Dist<N>*> ds(P, nullptr); for (int r = 0; r < P; ++r) if (v[r].levels > l) ds[r] = &v[r].lev[l].a; auto g = global<N>(ds, what); sameGlobal<N>(g, want, what); bool redist = false; auto work = ds; int active = 0; for (auto* d : ds) active += d != nullptr; for (auto* d : ds) if (d) CHECK((int)d->members.size() == active, what, ": size of the communicator");
    for (int r = 0; r < P; ++r) if (v[r].levels > l) redist |= v[r].lev[l].b.valid;
    if (redist) { ++st.redist; for (int r = 0; r < P; ++r) work[r] = v[r].levels > l && v[r].lev[l].b.valid ? &v[r].lev[l].b : nullptr; auto h = global<N>(work, what + " redistributed"); sameGlobal<N>(h, want, what + " redistributed"); g.owner = h.owner; }
    if (l + 1 < L) {
      // aggregates
      for (int r = 0; r < P; ++r) if (work[r]) CHECK(v[r].levels > l + 1, what, ": rank ", r, " takes no part in the next level");  else CHECK(v[r].levels <= l + 1, what, ": rank ", r, " takes part in the next level");
      std::vector<std::map<int, int>> coarse(P); for (int r = 0; r < P; ++r) if (work[r]) { auto& ag = v[r].lev[l].agg; auto& ca = v[r].lev[l + 1].a; CHECK((int)ag.size() == work[r]->n, what, ": the aggregates of rank ", r, " cover ", ag.size(), " of ", work[r]->n, " vertices"); std::set<int> used; for (auto& [id, p] : work[r]->idx) { size_t a = ag[p.first]; if (a == Dune::Amg::AggregatesMap<size_t>::ISOLATED) { coarse[r][id] = -1; continue; } CHECK(a < (size_t)ca.n, what, ": aggregate ", a, " of vertex ", id, " on rank ", r); int cg = ca.global((int)a); coarse[r][id] = cg; used.insert(cg); } for (auto& e : ca.idx) CHECK(used.count(e.first), what, ": rank ", r, " knows the aggregate ", e.first, " without a vertex of it"); }
      for (auto& [id, o] : g.owner) { g.agg[id] = coarse[o][id]; st.iso += coarse[o][id] < 0; for (int r = 0; r < P; ++r) if (work[r] && work[r]->idx.count(id)) CHECK(coarse[r][id] == coarse[o][id], what, ": vertex ", id, " is in aggregate ", coarse[r][id], " on rank ", r, " and in ", coarse[o][id], " on its owner ", o); if (coarse[o][id] >= 0) { auto& ca = v[o].lev[l + 1].a; CHECK(ca.idx.at(coarse[o][id]).second == OWNER, what, ": rank ", o, " owns vertex ", id, " but not its aggregate"); } }
      want.clear(); for (auto& [ij, b] : g.mat) { int I = g.agg[ij.first], J = g.agg[ij.second]; if (I < 0 || J < 0) continue; auto& t = want.emplace(std::make_pair(I, J), Blk_<N>{}).first->second; for (int k = 0; k < N * N; ++k) t[k] += b[k]; }
      for (auto& e : g.agg) if (e.second >= 0) want.emplace(std::make_pair(e.second, e.second), Blk_<N>{});
    } else for (int r = 0; r < P; ++r) CHECK(v[r].coarsest == (v[r].levels == L && (!redist || v[r].lev[l].a.n > 0)), "rank ", r, " reports hasCoarsest() ", v[r].coarsest);
    out.push_back(g);
  }
  st.depth = (int)L; return out;
}
inline std::string showGraph(const Graph& g) { std::string s; for (auto& r : g) { s += "["; for (int j : r) s += mc::str(j, " "); s += "]"; } return s; }
// families of graphs: every graph, or paths, rings and grids
inline Graph anyGraph(mc::Chooser& c, int G) { Graph a(G); for (int i = 0; i < G; ++i) for (int j = 0; j < i; ++j) if (c.flag("edge")) { a[i].insert(j); a[j].insert(i); } return a; }
inline Graph structured(int style, int G) { Graph a(G); auto e = [&](int i, int j) { a[i].insert(j); a[j].insert(i); }; if (style < 2) { for (int i = 0; i + 1 < G; ++i) e(i, i + 1); if (style == 1 && G > 2) e(0, G - 1); } else { int w = style; for (int i = 0; i < G; ++i) { if (i % w + 1 < w && i + 1 < G) e(i, i + 1); if (i + w < G) e(i, i + w); } } return a; }
// owner of every vertex is given; needed neighbours are known; more: other vertices may be known as well
inline Decomp decompose(mc::Chooser& c, int P, const Graph& gr, const std::vector<int>& ow, int attrMode) {   // attrMode 0 copies, 1 overlap, 2 chosen per vertex, 3 everything known
  int G = (int)gr.size(); Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, NONE)); for (int g = 0; g < G; ++g) d.attr[ow[g]][g] = OWNER;
  for (int r = 0; r < P; ++r) for (int g = 0; g < G; ++g) if (ow[g] != r) { bool need = attrMode == 3; for (int j : gr[g]) need |= ow[j] == r; if (need) d.attr[r][g] = attrMode == 2 ? (c.flag("copy") ? COPY : OVERLAP) : attrMode == 1 ? OVERLAP : COPY; }
  return d;
}
inline int setupOf(int k) { return k % 3 == 0 ? 0 : k % 3 == 1 ? 3 : 4; }   // 4: indices of one rank are private
struct Setting { int target, maxLevel, accu, minAgg, maxAgg; double rate; bool skipIso, fixed; };
template <int N> typename Types<N>::Crit criterion(const Setting& s) { typename Types<N>::Crit cr(s.maxLevel, s.target, s.rate, 1.6, (Dune::Amg::AccumulationMode)s.accu, s.fixed); cr.setMinAggregateSize(s.minAgg); cr.setMaxAggregateSize(s.maxAgg); cr.setMaxDistance(2); cr.setSkipIsolated(s.skipIso); cr.setDebugLevel(0); return cr; }
#ifdef PART1
template <int N> void hierarchy(mc::Chooser& c, const Decomp& d, const Graph& gr, const Setting& s, int setup, int gstyle, bool again, int kind) {
  using T = Types<N>; int P = d.P; std::vector<RankView<N>> v(P), w(P); NOTE(d.show(), " graph ", showGraph(gr), " target ", s.target, " accumulation ", s.accu, " setup ", setup); Quiet quiet;
  fmpi::run(c, P, [&](int r) {
    auto cm = std::shared_ptr<CommOf<>>(makeComm<int>(d, r, setup, Cat::overlapping, gstyle)); typename T::M A; localMatrix<N>(A, d, r, gr, kind); auto op = std::make_shared<typename T::Op>(A, *cm); typename T::Hier h(op, cm); h.template build<Excl>(criterion<N>(s)); collect<N>(v[r], h);
    if (again) { localMatrix<N>(A, d, r, gr, kind + 2, false); h.recalculateGalerkin(Excl()); collect<N>(w[r], h); }
  });
  Stats st; auto g = check<N>(v, gr, kind, gstyle, st); if (again) check<N>(w, gr, kind + 2, gstyle, st); mc::state(mc::Hash()(d.hash())(s.target)(s.accu)(s.skipIso)(setup)(kind)); mc::outcome(mc::str("levels ", st.depth, " redistributions ", st.redist > 0, " isolated ", st.iso > 0));
}
inline Setting setting(mc::Chooser& c, int k) { static const Setting all[] = {{1, 4, 0, 2, 3, 1.0, false, false}, {1, 4, 1, 2, 3, 1.0, true, true}, {3, 3, 1, 2, 2, 1.0, false, false}, {2, 4, 2, 2, 4, 1.2, false, true}, {1, 3, 2, 4, 6, 1.0, true, false}, {1, 1, 0, 2, 3, 1.0, true, false}, {6, 4, 1, 2, 3, 1., false, true}, {2, 3, 0, 3, 4, 1.5, false, true}}; return all[c(k, "setting")]; }
inline std::vector<int> owners(mc::Chooser& c, int P, int G) { std::vector<int> o(G); for (auto& x : o) x = c(P, "owner"); return o; }
UNIT(not_built) { int G = 1 + c(3, "vertices"); auto gr = structured(0, G); std::vector<int> ow(G, 0); ow[G - 1] = 1; auto d = decompose(c, 2, gr, ow, 0); d.number(0); fmpi::maxDeviations() = 0; fmpi::run(c, 2, [&](int r) { auto cm = std::shared_ptr<CommOf<>>(makeComm<int>(d, r, 0, Cat::overlapping, 0)); Types<1>::M A; localMatrix<1>(A, d, r, gr, 0); auto op = std::make_shared<Types<1>::Op>(A, *cm); Types<1>::Hier h(op, cm); CHECK(!h.isBuilt() && h.levels() == 1, "a new hierarchy"); }); mc::state(mc::Hash()(G).h); }
UNIT(any_graph) { int G = 1 + c(mc::thorough() ? 5 : 4, "vertices"); auto gr = anyGraph(c, G); auto ow = owners(c, 2, G); auto s = setting(c, 8); fmpi::maxDeviations() = 0; int k = G + ow[0]; auto d = decompose(c, 2, gr, ow, s.accu && !mc::thorough() ? k % 4 : c(4, "attributes")); d.number(k % 4); hierarchy<1>(c, d, gr, s, setupOf(k + ow[G - 1]), 0, true, k % 2); }
UNIT(orders) { int G = 4; auto gr = structured(c(3, "graph"), G); auto ow = owners(c, 2, G); auto s = setting(c, 4); fmpi::maxDeviations() = mc::thorough() ? 3 : 2; auto d = decompose(c, 2, gr, ow, 0); d.number(c(4, "order")); hierarchy<1>(c, d, gr, s, 0, 1, false, 0); }
UNIT(three_ranks) { int G = mc::thorough() ? 5 : 4; auto gr = structured(c(3, "graph"), G); auto ow = owners(c, 3, G); auto s = setting(c, 8); fmpi::maxDeviations() = 0; int k = ow[0] + ow[1]; auto d = decompose(c, 3, gr, ow, mc::thorough() ? c(4, "attributes") : (k + ow[2] + s.accu) % 4); d.number(k % 4); hierarchy<2>(c, d, gr, s, k % 2 ? 3 : ow[2] ? 1 : 4, 1, true, 0); }
UNIT(three_ranks_orders) { int G = 3; auto gr = structured(c(2, "graph"), G); auto ow = owners(c, 3, G); auto s = setting(c, 4); fmpi::maxDeviations() = mc::thorough() ? 3 : 1; auto d = decompose(c, 3, gr, ow, 0); d.number(ow[0]); hierarchy<1>(c, d, gr, s, 0, 0, false, 0); }
// bigger graphs, owners in stripes, blocks, alternating
inline std::vector<int> ownerFamily(int k, int P, int G) { std::vector<int> o(G); for (int i = 0; i < G; ++i) o[i] = k == 0 ? i * P / G : k == 1 ? i % P : k == 2 ? (i / 2) % P : k == 3 ? (i == 0 ? 0 : P - 1) : k == 4 ? (i * P / G + 1) % P : (i % 3 == 0 ? 0 : i % P); return o; }
UNIT(bigger) { static const int sizes[] = {6, 9, 12, 16, 25}; int G = sizes[c(mc::thorough() ? 5 : 4, "vertices")], P = 2 + c(mc::thorough() ? 4 : 3, "ranks"); static const int styles[] = {0, 1, 3, 4}; auto gr = structured(styles[c(4, "graph")], G); auto s = setting(c, 8); auto ow = ownerFamily(c(6, "owners"), P, G); fmpi::maxDeviations() = 0; auto d = decompose(c, P, gr, ow, s.accu ? c(4, "attributes") % 3 == 2 ? 3 : 0 : c(2, "overlap")); d.number((G + P) % 4); if ((G + P) % 2) hierarchy<1>(c, d, gr, s, G % 4 ? 4 : 0, 1, true, 1); else hierarchy<2>(c, d, gr, s, 3, 0, true, 0); }
#endif
#ifdef PART2
// the cycle on the global hierarchy
struct Method { int pre, post, gamma; bool additive; double relax, damp; bool direct; };
template <int N> struct Ref {
  using X = std::vector<double>; using T = Types<N>; std::vector<Dense<double>> A; std::vector<std::vector<int>> agg; std::vector<std::map<int, int>> no; Method m;
  Ref(const std::vector<GlobalLevel<N>>& g, const Method& m_) : m(m_) {
    for (auto& l : g) { std::map<int, int> n; for (auto& e : l.owner) n.emplace(e.first, (int)n.size()); Dense<double> D((int)n.size() * N, (int)n.size() * N); for (auto& [ij, b] : l.mat) for (int k = 0; k < N; ++k) for (int q = 0; q < N; ++q) D(n[ij.first] * N + k, n[ij.second] * N + q) = b[k * N + q]; no.push_back(n); A.push_back(D); }
    for (size_t l = 0; l + 1 < g.size(); ++l) { std::vector<int> a(no[l].size()); for (auto& [id, i] : no[l]) { int cg = g[l].agg.at(id); a[i] = cg < 0 ? -1 : no[l + 1].at(cg); } agg.push_back(a); }
  }
  X mul(int l, const X& x) const { return matvec(A[l], x); }
  X jac(int l, const X& r) const { int n = (int)r.size() / N; X v(r.size()); for (int i = 0; i < n; ++i) { Dense<double> D(N, N); X b(N), y(N); for (int k = 0; k < N; ++k) { b[k] = r[i * N + k]; for (int q = 0; q < N; ++q) D(k, q) = A[l](i * N + k, i * N + q); } CHECK(flat::solve(D, b, y), "reference: singular diagonal block"); for (int k = 0; k < N; ++k) v[i * N + k] = m.relax * y[k]; } return v; }
  X restrict_(int l, const X& r) const { X c(no[l + 1].size() * N, 0.); for (size_t i = 0; i < agg[l].size(); ++i) if (agg[l][i] >= 0) for (int k = 0; k < N; ++k) c[agg[l][i] * N + k] += r[i * N + k]; return c; }
  X prolong(int l, const X& c) const { X f(agg[l].size() * N, 0.); for (size_t i = 0; i < agg[l].size(); ++i) if (agg[l][i] >= 0) for (int k = 0; k < N; ++k) f[i * N + k] = c[agg[l][i] * N + k]; return f; }
  X coarse(int l, const X& r) const {
    int n = (int)r.size() / N; X x; if (m.direct) { if (!flat::solve(A[l], r, x)) throw mc::Skip{}; return x; }
    typename T::M M_; Pattern p(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool nz = i == j; for (int k = 0; k < N; ++k) for (int q = 0; q < N; ++q) nz |= A[l](i * N + k, j * N + q) != 0; if (nz) p[i].push_back(j); } buildPattern(M_, n, n, p); fill(M_, n, n, p, [&](int a, int b) { return A[l](a, b); });
    typename T::V v(n), d(n); v = 0; put(d, r); Dune::MatrixAdapter<typename T::M, typename T::V, typename T::V> op(M_); Dune::SeqJac<typename T::M, typename T::V, typename T::V> pr(M_, 1, m.relax); Dune::InverseOperatorResult res; Dune::BiCGSTABSolver<typename T::V>(op, pr, 1e-2, 1000, 0).apply(v, d, res); return get(v);
  }
  static void add(X& a, const X& b, double w = 1) { for (size_t i = 0; i < a.size(); ++i) a[i] += w * b[i]; }
  X cycle(int l, X r) const {
    if (l + 1 == (int)A.size()) return coarse(l, r); X u(r.size(), 0.), last; auto smooth = [&] { last = jac(l, r); add(u, last); };
    for (int k = 0; k < m.pre; ++k) { smooth(); add(r, mul(l, last), -1); }
    X cr = restrict_(l, r), cu(cr.size(), 0.); for (int k = 0; k < m.gamma; ++k) { X t = cr; add(t, mul(l + 1, cu), -1); add(cu, cycle(l + 1, t)); if (l + 2 == (int)A.size()) break; }
    last = prolong(l, cu); for (auto& x : last) x *= m.damp; add(u, last); for (int k = 0; k < m.post; ++k) { add(r, mul(l, last), -1); smooth(); } return u;
  }
  X additive(const X& r0) const { std::vector<X> r{r0}; int L = (int)A.size(); for (int l = 0; l + 1 < L; ++l) r.push_back(restrict_(l, r.back())); X u = coarse(L - 1, r[L - 1]); for (int l = L - 2; l >= 0; --l) { X v = jac(l, r[l]); add(v, prolong(l, u)); u = v; } return u; }
};
template <int N> void cycles(mc::Chooser& c, const Decomp& d, const Graph& gr, const Setting& s, const Method& m0, int setup, int kind) {
  using T = Types<N>; using M = typename T::M; using V = typename T::V; using Sm = Dune::BlockPreconditioner<V, V, CommOf<>, Dune::SeqJac<M, V, V>>; using AMG = Dune::Amg::AMG<typename T::Op, V, Sm, CommOf<>>; int P = d.P, G = d.G; std::vector<RankView<N>> v(P), w(P); Method m = m0; Quiet quiet;
  NOTE(d.show(), " graph ", showGraph(gr), " target ", s.target, " accumulation ", s.accu, " pre ", m.pre, " post ", m.post, " gamma ", m.gamma, m.additive ? " additive" : "");
  std::vector<std::vector<double>> rhs; for (int k = 0; k < 2; ++k) { std::vector<double> b; for (int i = 0; i < G * N; ++i) b.push_back(val<double>(3 * i + 2 + 5 * k)); rhs.push_back(b); }
  std::vector<std::vector<std::vector<double>>> res(P); std::vector<std::vector<double>> xpre(P); std::vector<int> direct(P, 0), lev(P, 0), maxlev(P, 0); std::vector<std::string> thrown(P);
  fmpi::run(c, P, [&](int r) {
    auto cm = std::shared_ptr<CommOf<>>(makeComm<int>(d, r, setup, Cat::overlapping, 0)); M A; localMatrix<N>(A, d, r, gr, kind); auto op = std::make_shared<typename T::Op>(A, *cm); auto cr = criterion<N>(s); cr.setProlongationDampingFactor(m.damp); cr.setNoPreSmoothSteps(m.pre); cr.setNoPostSmoothSteps(m.post); cr.setGamma(m.gamma); cr.setAdditive(m.additive);
    { typename T::Hier h(op, cm); h.template build<Excl>(cr); collect<N>(v[r], h); }
    typename Dune::Amg::SmootherTraits<Sm>::Arguments sa; sa.iterations = 1; sa.relaxationFactor = m.relax; AMG amg(*op, cr, sa, *cm); CHECK(amg.category() == Cat::overlapping, "category"); direct[r] = amg.usesDirectCoarseLevelSolver(); lev[r] = (int)amg.levels(); maxlev[r] = (int)amg.maxlevels();
    int n = d.size[r]; V x(n), b(n); auto set = [&](V& y, const std::vector<double>& g, int copyMode) { for (int i = 0; i < G; ++i) if (d.attr[r][i]) for (int k = 0; k < N; ++k) y[d.loc[r][i]][k] = d.attr[r][i] == OWNER || (copyMode == 1) ? g[i * N + k] : 0; };
    std::vector<double> x0; for (int i = 0; i < G * N; ++i) x0.push_back(val<double>(7 * i + 1)); set(x, x0, 0); set(b, rhs[0], 1); amg.pre(x, b); xpre[r] = get(x); for (int i = 0; i < G; ++i) if (d.attr[r][i] == OWNER) for (int k = 0; k < N; ++k) CHECK(b[d.loc[r][i]][k] == rhs[0][i * N + k], "pre() changed the right hand side");
    for (int k = 0; k < 2; ++k) { V y(n), dd(n); y = 0; set(dd, rhs[k], k ? 0 : 1); V keep = dd; try { amg.apply(y, dd); } catch (const Dune::MathError& e) { thrown[r] = e.what(); } CHECK(get(dd) == get(keep), "apply() changed the defect"); res[r].push_back(get(y)); if (thrown[r].size()) break; }
    amg.post(x); CHECK(get(x) == xpre[r], "post() changed the solution");
  });
  Stats st; auto g = check<N>(v, gr, kind, 0, st); bool anyThrown = false; for (auto& t : thrown) anyThrown |= t.size(); for (int r = 0; r < P; ++r) { CHECK(thrown[r].empty() != anyThrown, "only some ranks report a failed coarse solver: ", thrown[r]); CHECK(lev[r] == (int)v[r].levels && maxlev[r] == (int)v[r].maxlevels, "levels of the preconditioner"); }
  m.direct = false; for (int r = 0; r < P; ++r) m.direct |= direct[r]; bool one = false; for (int r = 0; r < P; ++r) { auto& L = v[r].lev.back(); if (v[r].levels == v[r].maxlevels) one |= (L.b.valid ? L.b.members.size() : L.a.members.size()) == 1; }
#ifdef ITERATIVE
  CHECK(!m.direct, "a direct solver although it is switched off");
#else
  CHECK(m.direct == one, "direct coarse solver: ", m.direct, ", the coarsest level is on one process: ", one);
#endif
  Ref<N> ref(g, m); std::vector<double> px; for (int i = 0; i < G; ++i) { bool iso = true; for (int j : gr[i]) iso &= j == i; Dense<double> D(N, N); std::vector<double> b(N), y(N); for (int k = 0; k < N; ++k) { b[k] = rhs[0][i * N + k]; for (int q = 0; q < N; ++q) D(k, q) = entry<N>(i, i, k, q, kind); } flat::solve(D, b, y); for (int k = 0; k < N; ++k) px.push_back(iso ? y[k] : val<double>(7 * (i * N + k) + 1)); }
  for (int r = 0; r < P; ++r) for (int i = 0; i < G; ++i) if (d.attr[r][i]) for (int k = 0; k < N; ++k) CHECK(mc::close(xpre[r][d.loc[r][i] * N + k], px[i * N + k], 1., 1e-12), "pre(): x[", i, "] on rank ", r, " is ", xpre[r][d.loc[r][i] * N + k], " instead of ", px[i * N + k]);
  if (!anyThrown) for (int k = 0; k < 2; ++k) { auto want = m.additive ? ref.additive(rhs[k]) : ref.cycle(0, rhs[k]); for (int r = 0; r < P; ++r) for (int i = 0; i < G; ++i) if (d.attr[r][i]) for (int q = 0; q < N; ++q) CHECK(mc::close(res[r][k][d.loc[r][i] * N + q], want[i * N + q], 10., m.direct ? 1e-9 : 1e-6), "application ", k, ": update[", i, "] on rank ", r, " is ", res[r][k][d.loc[r][i] * N + q], " instead of ", want[i * N + q], d.attr[r][i] == OWNER ? "" : " (not owned)"); }
  mc::state(mc::Hash()(d.hash())(s.target)(s.accu)(m.pre)(m.post)(m.gamma)(m.additive)); mc::outcome(mc::str("levels ", st.depth, " redistributions ", st.redist, " direct ", m.direct, anyThrown ? " failed" : ""));
}
inline Setting csetting(mc::Chooser& c, int few) { static const Setting all[] = {{1, 4, 0, 2, 3, 1.2, false, true}, {1, 4, 1, 2, 3, 1.2, false, true}, {3, 3, 1, 2, 2, 1.2, false, true}, {2, 4, 2, 2, 4, 1.2, false, true}, {2, 4, 1, 2, 3, 1.2, true, true}, {4, 4, 1, 2, 3, 1.2, false, true}}; return all[mc::thorough() || few < 0 ? c(6, "setting") : (few % 6 + 2 * c(3, "setting")) % 6]; }
inline Method method(mc::Chooser& c, bool additive, int few) { static const Method all[] = {{1, 1, 1, false, 1, 1.6, true}, {2, 1, 1, false, .75, 1, true}, {0, 1, 1, false, 1, 1.6, true}, {1, 0, 1, false, 1, 1, true}, {1, 2, 2, false, 1, 1.25, true}, {0, 0, 1, false, 1, 1.6, true}, {1, 1, 3, false, .75, 1, true}, {1, 1, 1, true, 1, 1, true}}; int n = additive ? 8 : 7; return all[mc::thorough() ? c(n, "method") : (few + 3 * c(2, "method")) % n]; }
inline std::vector<int> ownerFamily(int k, int P, int G) { std::vector<int> o(G); for (int i = 0; i < G; ++i) o[i] = k == 0 ? i * P / G : k == 1 ? i % P : k == 2 ? (i / 2) % P : k == 3 ? (i == 0 ? 0 : P - 1) : k == 4 ? (i * P / G + 1) % P : (i % 3 == 0 ? 0 : i % P); return o; }
UNIT(any_owner) { int G = mc::thorough() ? 6 : 5; auto gr = structured(c(3, "graph"), G); std::vector<int> ow(G); for (auto& x : ow) x = c(2, "owner"); auto s = csetting(c, -1); auto m = method(c, s.accu == 0, s.target + ow[0] + 2 * ow[1] + 3 * ow[2] + ow[3] + 5 * ow[4]); fmpi::maxDeviations() = 0; auto d = decompose(c, 2, gr, ow, (ow[0] + ow[1] * 2 + ow[2]) % 4); d.number(ow[1] + 2 * ow[3]); cycles<1>(c, d, gr, s, m, setupOf(ow[2] + 2 * ow[3]), ow[0]); }
UNIT(any_graph) { int G = mc::thorough() ? 5 : 4; auto gr = anyGraph(c, G); std::vector<int> ow(G); for (auto& x : ow) x = c(2, "owner"); int few = 0; for (int i = 0; i < G; ++i) few += (int)gr[i].size() * (i + 1) + ow[i] * (3 * i + 1); auto s = csetting(c, few); Method m{1, 1, 1, false, 1, 1.6, true}; fmpi::maxDeviations() = 0; auto d = decompose(c, 2, gr, ow, (ow[0] + ow[1] * 2 + ow[2]) % 4); d.number(ow[1] + 2 * ow[3]); cycles<2>(c, d, gr, s, m, setupOf(ow[2] + 2 * ow[1]), ow[0]); }
UNIT(bigger) { static const int sizes[] = {6, 9, 12, 16, 25}; int G = sizes[c(mc::thorough() ? 5 : 4, "vertices")], P = 2 + c(mc::thorough() ? 3 : 2, "ranks"); static const int styles[] = {0, 1, 3, 4}; auto gr = structured(styles[c(4, "graph")], G); auto s = csetting(c, -1); int fam = c(6, "owners"); auto m = method(c, s.accu == 0, G + P + fam + s.target); auto ow = ownerFamily(fam, P, G); fmpi::maxDeviations() = 0; auto d = decompose(c, P, gr, ow, (G + ow[0]) % 4 == 2 ? 0 : (G + ow[0]) % 4); d.number((G + P) % 4); if ((G + P) % 2) cycles<1>(c, d, gr, s, m, G % 4 ? 4 : 0, 1); else cycles<2>(c, d, gr, s, m, 3, 0); }
UNIT(orders) { int G = 4; auto gr = structured(c(2, "graph"), G); std::vector<int> ow(G); for (auto& x : ow) x = c(2, "owner"); auto s = csetting(c, -1); Method m{1, 1, 1, false, 1, 1.6, true}; fmpi::maxDeviations() = mc::thorough() ? 2 : 1; auto d = decompose(c, 2, gr, ow, 0); d.number(ow[0]); cycles<1>(c, d, gr, s, m, 0, 0); }
#endif
