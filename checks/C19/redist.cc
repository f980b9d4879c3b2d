// C19: repartitioning and redistribution of vectors and matrices.  The graph partitioner is a stand-in that returns any partition.
#include "par.hh"
#include <mpi.h>
#ifndef NO_PARMETIS
#include <parmetis.h>
#define HAVE_PARMETIS 1
#endif
#include <dune/istl/bvector.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/matrixredistribute.hh>
using namespace flat; using namespace par; using Cat = Dune::SolverCategory;
#ifndef NO_PARMETIS
struct Partitioner { std::vector<int> part; int nparts = 0; std::vector<std::vector<int>> adj; int calls = 0; };
static Partitioner pt;
extern "C" int ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t* xadj, idx_t* adjncy, idx_t*, idx_t* adjwgt, idx_t* wgtflag, idx_t* numflag, idx_t* ncon, idx_t* nparts, real_t* tpwgts, real_t* ubvec, idx_t*, idx_t*, idx_t* part, MPI_Comm* comm) {
  int r, P; MPI_Comm_rank(*comm, &r); MPI_Comm_size(*comm, &P); int N = (int)vtxdist[P]; CHECK(vtxdist[0] == 0 && *numflag == 0 && *ncon == 1 && (int)*nparts == pt.nparts && ubvec[0] > 1, "ParMETIS arguments"); double s = 0; for (int i = 0; i < *nparts; ++i) s += tpwgts[i]; CHECK(std::fabs(s - 1) < 1e-5, "target weights"); CHECK((*wgtflag == 1) == (adjwgt != nullptr), "edge weights"); CHECK((int)pt.part.size() == N, "the partitioner sees ", N, " vertices instead of ", pt.part.size()); pt.adj.resize(N);
  CHECK(xadj[0] == 0, "xadj"); for (idx_t v = vtxdist[r]; v < vtxdist[r + 1]; ++v) { idx_t i = v - vtxdist[r]; pt.adj[v].clear(); for (idx_t k = xadj[i]; k < xadj[i + 1]; ++k) { CHECK(adjncy[k] >= 0 && adjncy[k] < N && adjncy[k] != v, "edge to ", adjncy[k]); pt.adj[v].push_back((int)adjncy[k]); if (adjwgt) CHECK(adjwgt[k] > 0, "edge weight"); } part[i] = pt.part[v]; } ++pt.calls; return METIS_OK;
}
extern "C" int METIS_SetDefaultOptions(idx_t* o) { for (int i = 0; i < METIS_NOPTIONS; ++i) o[i] = -1; return METIS_OK; }
extern "C" int METIS_PartGraphRecursive(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t*, idx_t*, idx_t*, idx_t* nparts, real_t*, real_t*, idx_t*, idx_t*, idx_t* part) {
  int N = (int)*nvtxs; CHECK((int)pt.part.size() == N && *ncon == 1 && (int)*nparts == pt.nparts, "METIS arguments"); pt.adj.assign(N, {}); CHECK(xadj[0] == 0, "xadj"); for (int v = 0; v < N; ++v) { for (idx_t k = xadj[v]; k < xadj[v + 1]; ++k) { CHECK(adjncy[k] >= 0 && adjncy[k] < N && adjncy[k] != v, "edge to ", adjncy[k]); pt.adj[v].push_back((int)adjncy[k]); } part[v] = pt.part[v]; } ++pt.calls; return METIS_OK;
}
#endif
using Graph = std::vector<std::set<int>>;
template <int N> struct Redist {
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double, N, N>>; using V = Dune::BlockVector<Dune::FieldVector<double, N>>; using Comm = CommOf<int>;
  static double entry(int i, int j, int k, int l) { return small(131 * i + 17 * j + 3 * k + l + 5) + .25 * k; }
  static double vec(int g, int k) { return 10 * g + k + 1; }
  static M localMatrix(const Decomp& d, int r, const Graph& gr, bool novl) {
    int n = d.size[r]; Pattern p(n); for (int i = 0; i < d.G; ++i) if (d.attr[r][i]) { std::set<int> s{d.loc[r][i]}; for (int j : gr[i]) if (d.attr[r][j]) s.insert(d.loc[r][j]); p[d.loc[r][i]].assign(s.begin(), s.end()); }
    M A; buildPattern(A, n, n, p); fill(A, n, n, p, [&](int a, int b) { int i = d.global(r, a / N), j = d.global(r, b / N); bool own = d.attr[r][i] == OWNER || (novl && d.attr[r][i] == COPY); bool ghost = novl && d.attr[r][j] == OVERLAP; return own && !ghost ? entry(i, j, a % N, b % N) : 7777.; }); return A;
  }
};
// results of all ranks, compared after the run
struct Result { bool ret = false; int size = 0, rank = -1; std::map<int, int> own, copy; };
#ifndef NO_PARMETIS
inline bool isomorphic(int G, const std::vector<std::vector<int>>& adj, const std::vector<int>& part, const Graph& gr, const std::vector<int>& result) {   // result: new rank of every global index; the parts may be mapped to ranks one to one
  std::vector<int> pi(G); for (int i = 0; i < G; ++i) pi[i] = i;
  do { bool ok = true; std::map<int, int> to, from; for (int v = 0; v < G && ok; ++v) { std::multiset<int> a; for (int w : adj[v]) a.insert(pi[w]); std::multiset<int> b(gr[pi[v]].begin(), gr[pi[v]].end()); ok = a == b; auto x = to.emplace(part[v], result[pi[v]]); auto y = from.emplace(result[pi[v]], part[v]); ok = ok && x.first->second == result[pi[v]] && y.first->second == part[v]; } if (ok) return true; } while (std::next_permutation(pi.begin(), pi.end()));
  return false;
}
#endif
// mode 0: graphRepartition, 1: commGraphRepartition
template <int N> void redist(mc::Chooser& c, const Decomp& full, const Graph& gr, bool novl, int mode, int nparts, const std::vector<int>& part, int setup, bool holes, bool twice) {
  using R = Redist<N>; using M = typename R::M; using V = typename R::V; using Comm = typename R::Comm; int P = full.P, G = full.G; Decomp d = full; bool anyHole = false;
  if (holes) for (int g = 0; g < G; ++g) { int n = 0; for (int r = 0; r < P; ++r) n += d.attr[r][g] != NONE; if (n == 1) { anyHole = true; for (int r = 0; r < P; ++r) d.attr[r][g] = NONE; } }
  if (holes && !anyHole) throw mc::Skip{};
  auto cat = novl ? Cat::nonoverlapping : Cat::overlapping; std::vector<Result> res(P); std::vector<std::map<int, int>> gidOf(P); std::vector<std::map<int, int>> back(P);
#ifndef NO_PARMETIS
  pt = {part, nparts, {}, 0};
#endif
  NOTE(full.show(), " graph ", [&] { std::string s; for (auto& r : gr) { s += "["; for (int j : r) s += mc::str(j, " "); s += "]"; } return s; }(), " parts ", nparts, " ", flat::show(part), novl ? " nonoverlapping" : "");
  std::vector<int> newGid(G, -1); std::map<int, int> glob;   // global id (after the holes are filled) of the indices, and back
  struct Row { int rank, i; std::vector<std::pair<int, std::array<double, N * N>>> e; }; std::vector<std::vector<Row>> rows(P); std::vector<std::vector<std::pair<int, std::array<double, N>>>> vals(P);
  auto work = [&](int r) {
    auto cm = makeComm<int>(d, r, setup, cat, 1); M A = R::localMatrix(full, r, gr, novl); std::shared_ptr<Comm> out; Dune::RedistributeInformation<Comm> ri;
    if (mode == 0) { Dune::Amg::MatrixGraph<M> mg(A); res[r].ret = Dune::graphRepartition(mg, *cm, nparts, out, ri.getInterface()); } else res[r].ret = Dune::commGraphRepartition(A, *cm, nparts, out, ri.getInterface());
    CHECK(out, "no communication"); ri.setSetup(); CHECK(ri.isSetup(), "setup flag");
    // the indices of this rank are unchanged; holes got fresh ids
    CHECK((int)cm->indexSet().size() == full.size[r], "rank ", r, " has ", cm->indexSet().size(), " indices instead of ", full.size[r]); for (auto& p : cm->indexSet()) { int g = full.global(r, (int)p.local().local()); CHECK(g >= 0, "local index ", p.local().local()); if (d.attr[r][g]) CHECK(p.global() == gid<int>(g, 1) && (int)p.local().attribute() == d.attr[r][g], "index ", g, " changed"); else CHECK(p.local().attribute() == AS::owner, "a hole is not owned"); if (full.attr[r][g] == OWNER) newGid[g] = p.global(); }
    cm->communicator().barrier(); if (r == 0) { glob.clear(); for (int g = 0; g < G; ++g) { CHECK(newGid[g] >= 0 && glob.emplace(newGid[g], g).second, "global id of index ", g); } } cm->communicator().barrier();
    auto& rs = res[r]; rs.size = out->communicator().size(); rs.rank = out->communicator().rank(); CHECK(!rs.ret || Cat::category(*out) == cat, "category");
    int nn = 0; for (auto& p : out->indexSet()) { ++nn; CHECK(glob.count(p.global()), "unknown global index"); CHECK(p.local().attribute() == AS::owner || p.local().attribute() == AS::copy, "attribute"); CHECK(p.local().local() < out->indexSet().size(), "local index out of range"); (p.local().attribute() == AS::owner ? rs.own : rs.copy)[glob[p.global()]] = (int)p.local().local(); } std::set<int> ls; for (auto* m : {&rs.own, &rs.copy}) for (auto& [g, l] : *m) ls.insert(l); CHECK((int)ls.size() == nn, "local indices not distinct"); if (!rs.ret) CHECK(nn == 0, "indices on a rank without part");
    // vectors there and back
    V x(full.size[r]), y(nn), z(full.size[r]); for (int g = 0; g < G; ++g) if (full.attr[r][g]) for (int k = 0; k < N; ++k) { x[full.loc[r][g]][k] = full.attr[r][g] == OWNER ? R::vec(g, k) : -5; z[full.loc[r][g]][k] = -7; } y = -3;
    for (int rep = 0; rep < 1 + twice; ++rep) { ri.redistribute(x, y); for (auto& [g, l] : rs.own) for (int k = 0; k < N; ++k) CHECK(y[l][k] == R::vec(g, k), "redistributed vector: index ", g, " on rank ", r, " is ", y[l][k]); for (auto& [g, l] : rs.copy) for (int k = 0; k < N; ++k) CHECK(y[l][k] == -3, "redistributed vector: copy ", g, " changed"); }
    ri.redistributeBackward(z, y); for (int g = 0; g < G; ++g) if (full.attr[r][g]) for (int k = 0; k < N; ++k) CHECK(z[full.loc[r][g]][k] == (full.attr[r][g] == OWNER ? R::vec(g, k) : -7), "redistributed back: index ", g, " on rank ", r, " is ", z[full.loc[r][g]][k]);
    if (rs.ret) { out->copyOwnerToAll(y, y); for (auto* m : {&rs.own, &rs.copy}) for (auto& [g, l] : *m) for (int k = 0; k < N; ++k) CHECK(y[l][k] == R::vec(g, k), "copyOwnerToAll on the new distribution: index ", g, " on rank ", r, " is ", y[l][k]); double nrm = out->norm(y), want = 0; for (int g = 0; g < G; ++g) for (int k = 0; k < N; ++k) want += R::vec(g, k) * R::vec(g, k); CHECK(mc::close(nrm, std::sqrt(want), 1., 1e-12), "norm on the new distribution"); }
    // the matrix
    M B; Dune::redistributeMatrix(A, B, *cm, *out, ri); if (nn) CHECK((int)B.N() == nn && (int)B.M() == nn, "size of the redistributed matrix");
    if (nn) for (auto* m : {&rs.own, &rs.copy}) for (auto& [g, l] : *m) { std::map<int, Dune::FieldMatrix<double, N, N>> row; for (auto it = B[l].begin(); it != B[l].end(); ++it) { int gg = -1; for (auto* q : {&rs.own, &rs.copy}) for (auto& [a, b] : *q) if (b == (int)it.index()) gg = a; row[gg] = *it; }
      if (m == &rs.own) { std::set<int> want(gr[g].begin(), gr[g].end()); want.insert(g); std::set<int> got; for (auto& e : row) got.insert(e.first); CHECK(got == want, "row ", g, " on rank ", r, " has the wrong columns ", [&] { std::string t; for (int a : got) t += mc::str(a, " "); return t; }()); for (auto& [j, b] : row) for (int k = 0; k < N; ++k) for (int q = 0; q < N; ++q) CHECK(b[k][q] == R::entry(g, j, k, q), "entry ", g, ",", j, " on rank ", r, " is ", b[k][q], " instead of ", R::entry(g, j, k, q)); }
      else { CHECK(row.count(g), "copy row ", g, " has no diagonal"); if (!novl) for (auto& [j, b] : row) for (int k = 0; k < N; ++k) for (int q = 0; q < N; ++q) CHECK(b[k][q] == (j == g && k == q), "copy row ", g, " is not a Dirichlet row"); } }
    // afterwards the information still moves owned values
    y = -3; ri.redistribute(x, y); for (auto& [g, l] : rs.own) for (int k = 0; k < N; ++k) CHECK(y[l][k] == R::vec(g, k), "vector redistributed after the matrix: index ", g, " on rank ", r, " is ", y[l][k]);
    ri.resetSetup(); CHECK(!ri.isSetup(), "reset");
  };
  fmpi::run(c, P, work);
  // globally: one owner per index, copies of exactly the neighbours, ranks with a part are in the new communicator
  std::vector<int> owner(G, -1); int active = 0; for (int r = 0; r < P; ++r) { active += res[r].ret; for (auto& [g, l] : res[r].own) { CHECK(owner[g] < 0, "index ", g, " has two owners"); owner[g] = r; } } for (int g = 0; g < G; ++g) CHECK(owner[g] >= 0, "index ", g, " has no owner");
  int next = 0; for (int r = 0; r < P; ++r) if (res[r].ret) CHECK(res[r].size == active && res[r].rank == next++, "size or rank of the new communicator");
  for (int r = 0; r < P; ++r) { std::set<int> want, got; for (int g = 0; g < G; ++g) if (owner[g] == r) for (int j : gr[g]) if (owner[j] != r) want.insert(j); for (auto& e : res[r].copy) got.insert(e.first); CHECK(got == want, "rank ", r, " has the wrong copies"); }
#ifndef NO_PARMETIS
  if (mode == 0 && nparts > 1) { CHECK(pt.calls == P, "every rank calls the partitioner once"); CHECK(isomorphic(G, pt.adj, part, gr, owner), "the new owners are not the partition that the partitioner computed: owners ", flat::show(owner), " partition ", flat::show(part)); }
  if (mode == 1 && nparts > 1) { std::vector<std::set<int>> a(P), b(P); for (int r = 0; r < P; ++r) { for (int s = 0; s < P; ++s) if (s != r && d.shared(r, s)) a[r].insert(s); b[r].insert(pt.adj[r].begin(), pt.adj[r].end()); CHECK(b[r].size() == pt.adj[r].size(), "double edge"); } CHECK(a == b, "the partitioner did not see the communication graph"); for (int g = 0; g < G; ++g) CHECK(owner[g] == part[full.owner(g)], "index ", g, " of rank ", full.owner(g), " went to rank ", owner[g], ", the partitioner said ", part[full.owner(g)]); }
#endif
#ifdef NO_PARMETIS
  nparts = 1;   // without ParMETIS everything goes to one rank
#endif
  if (nparts == 1) for (int g = 0; g < G; ++g) CHECK(owner[g] == 0, "one part: index ", g, " is on rank ", owner[g]);
  mc::state(mc::Hash()(full.hash())(d.hash())(setup)(mode)(nparts)(novl)); for (int o : owner) mc::state(mc::Hash()(full.hash())(o));
}
inline Graph symmetric(mc::Chooser& c, int G, int style) { Graph a(G); for (int i = 0; i < G; ++i) for (int j = 0; j < i; ++j) { bool e = style == 0 ? c.flag("edge") : style == 1 ? j + 1 == i : style == 2 ? j + 1 == i || (i == G - 1 && j == 0) : style == 3 ? i == 1 && j == 0 : style == 4 ? (i == 1 && j == 0) || (i == 3 && j == 2) : (i == 3 && j == 0); if (e) { a[i].insert(j); a[j].insert(i); } } return a; }
inline Decomp ovl(mc::Chooser& c, int P, const Graph& gr, bool more) { int G = (int)gr.size(); Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, NONE)); std::vector<int> ow(G); for (int g = 0; g < G; ++g) { ow[g] = c(P, "owner"); d.attr[ow[g]][g] = OWNER; } for (int r = 0; r < P; ++r) for (int g = 0; g < G; ++g) if (ow[g] != r) { bool need = false; for (int i = 0; i < G; ++i) need |= ow[i] == r && gr[i].count(g); if (need || (more && c.flag("additional"))) d.attr[r][g] = (r + g + ow[0]) % 2 ? COPY : OVERLAP; } return d; }
inline std::vector<int> parts(mc::Chooser& c, int n, int nparts) { std::vector<int> p(n, 0); if (nparts > 1) for (int& x : p) x = c(nparts, "part"); return p; }
// nonoverlapping: every edge is known to some rank; the owner of a vertex knows the other neighbours as ghosts
inline Decomp novl(mc::Chooser& c, int P, const Graph& gr) {
  int G = (int)gr.size(); Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, NONE)); std::vector<int> m(G, 0); for (int i = 0; i < G; ++i) { for (int j : gr[i]) if (j < i) { int e = c(P, "element"); m[i] |= 1 << e; m[j] |= 1 << e; } if (gr[i].empty()) m[i] |= 1 << c(P, "vertex"); }
  std::vector<int> rank(P); bool rev = c.flag("last rank owns"); for (int r = 0; r < P; ++r) rank[r] = rev ? P - 1 - r : r; for (int g = 0; g < G; ++g) { bool first = true; for (int r : rank) if (m[g] >> r & 1) { d.attr[r][g] = first ? OWNER : COPY; first = false; } }
  for (int g = 0; g < G; ++g) { int o = d.owner(g); for (int j : gr[g]) if (d.attr[o][j] == NONE) d.attr[o][j] = OVERLAP; } return d;
}
template <int N> void one(mc::Chooser& c, int P, int G, int style, bool more, bool novlp, int mode, int setups_, bool holes = false) {
  auto gr = symmetric(c, G, style); auto d = novlp ? novl(c, P, gr) : ovl(c, P, gr, more); int nparts = c.range(1, P, "nparts"); 
#ifdef NO_PARMETIS
  std::vector<int> p;
#else
  auto p = parts(c, mode ? P : G, nparts);
#endif
  int setup = setups_ == 1 ? ((d.attr[0][0] + nparts) % 2 ? 3 : 0) : c(setups_, "setup"); d.number((d.attr[0][G - 1] + nparts + setup) % 4, 0);
#ifdef NO_PARMETIS
  std::cerr.setstate(std::ios::failbit);
#endif
  redist<N>(c, d, gr, novlp, mode, nparts, p, setup, holes, c.flag("twice"));
}
#ifdef PART1
UNIT(graph_two_ranks) { fmpi::maxDeviations() = 0; one<1>(c, 2, mc::thorough() ? 4 : 3, 0, false, false, 0, 1); }
UNIT(graph_more_copies) { fmpi::maxDeviations() = 0; one<1>(c, 2, mc::thorough() ? 4 : 3, 1, true, false, 0, setupsPrivate); }
UNIT(graph_three_ranks) { fmpi::maxDeviations() = 0; one<2>(c, 3, mc::thorough() ? 4 : 3, mc::thorough() ? 1 : 2, false, false, 0, 1); }
UNIT(graph_disconnected) { fmpi::maxDeviations() = 0; one<1>(c, 3, 4, 3 + c(3, "pairs"), false, false, 0, 1); }
UNIT(graph_holes) { fmpi::maxDeviations() = 0; one<1>(c, 2, mc::thorough() ? 5 : 4, 1, false, false, 0, 2, true); }
UNIT(graph_holes_three_ranks) { fmpi::maxDeviations() = 0; one<1>(c, 3, 4, 1, false, false, 0, 1, true); }
UNIT(graph_orders) { fmpi::maxDeviations() = mc::thorough() ? 3 : 1; one<1>(c, 3, 3, 1, false, false, 0, 1); }
#endif
#ifdef PART2
UNIT(comm_two_ranks) { fmpi::maxDeviations() = 1; one<1>(c, 2, mc::thorough() ? 4 : 3, 0, false, false, 1, 2); }
UNIT(comm_three_ranks) { fmpi::maxDeviations() = 0; one<2>(c, 3, mc::thorough() ? 4 : 3, 1, false, false, 1, setupsPrivate); }
UNIT(comm_four_ranks) { fmpi::maxDeviations() = 0; one<1>(c, 4, mc::thorough() ? 4 : 2, 1, false, false, 1, 1); }
UNIT(comm_holes) { fmpi::maxDeviations() = 0; one<1>(c, 2, mc::thorough() ? 5 : 4, 1, false, false, 1, 2, true); }
UNIT(nonoverlapping_two_ranks) { fmpi::maxDeviations() = 0; one<1>(c, 2, mc::thorough() ? 4 : 3, 0, false, true, 0, 1); }
UNIT(nonoverlapping_three_ranks) { fmpi::maxDeviations() = 0; one<2>(c, 3, mc::thorough() ? 4 : 3, 2, false, true, 0, 1); }
template <int N> void fewParts(mc::Chooser& c, int P, const Graph& gr) { int G = (int)gr.size(); auto d = novl(c, P, gr); static const std::vector<std::vector<int>> ps = {{0, 1, 2, 0, 1}, {2, 1, 0, 0, 1}, {1, 1, 1, 2, 0}, {0, 0, 1, 1, 0}, {1, 0, 0, 0, 0}, {2, 2, 1, 2, 2}}; auto p = ps[c(mc::thorough() ? 6 : 3, "parts")]; p.resize(G); d.number((d.attr[0][G - 1] + p[0]) % 4, 0); redist<N>(c, d, gr, true, 0, P, p, p[0] % 2 ? 3 : 0, false, false); }
UNIT(nonoverlapping_complete) { fmpi::maxDeviations() = 0; Graph g(4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) g[i].insert(j); fewParts<1>(c, 3, g); }
UNIT(nonoverlapping_star) { fmpi::maxDeviations() = 0; Graph g(5); int m = c(5, "center"); for (int i = 0; i < 5; ++i) if (i != m) { g[i].insert(m); g[m].insert(i); } fewParts<1>(c, 3, g); }
UNIT(nonoverlapping_comm) { fmpi::maxDeviations() = 0; one<1>(c, 3, 4, 1, false, true, 1, 1); }
#endif
#ifdef PART3
UNIT(fallback_graph) { fmpi::maxDeviations() = 0; one<1>(c, 2, mc::thorough() ? 4 : 3, 0, false, false, 0, 1); }
UNIT(fallback_comm) { fmpi::maxDeviations() = 0; one<2>(c, 3, 3, 2, false, false, 1, 1); }
UNIT(fallback_nonoverlapping) { fmpi::maxDeviations() = 0; one<1>(c, 2, 4, 2, false, true, 0, 1); }
#endif
