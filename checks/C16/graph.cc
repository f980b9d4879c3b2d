// C16: graphs of matrices, sub graphs and attached properties (paamg/graph.hh, dependency.hh, combinedfunctor.hh,
// AggregatesMap::breadthFirstSearch)
#include "mc.hh"
#include "flat.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/combinedfunctor.hh>
#include <list>
#include <set>
using namespace Dune::Amg;
using Pat = std::vector<std::vector<char>>;
typedef Dune::FieldMatrix<double,1,1> Blk11;
typedef Dune::BCRSMatrix<Blk11> Mat;
typedef unsigned long UL;

static Pat pat(mc::Chooser& c, int n, bool sym, bool fulldiag = true)
{
  Pat p(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (i == j) p[i][j] = 1;
    else if (sym && j < i) p[i][j] = p[j][i];
    else p[i][j] = c.flag("edge");
  }
  return p;
}
template<class M> static void make(M& A, const Pat& p)
{
  int n = p.size();
  M B; 
  B.setBuildMode(M::random);
  B.setSize(n, n);
  for (int i = 0; i < n; ++i) { int s = 0; for (int j = 0; j < n; ++j) s += p[i][j]; B.setrowsize(i, s); }
  B.endrowsizes();
  for (int i = 0; i < n; ++i) for (int j = n-1; j >= 0; --j) if (p[i][j]) B.addindex(i, j);
  B.endindices();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p[i][j]) B[i][j] = 10*i+j+1;
  A = B;
}
static UL hashPattern(const Pat& p) { mc::Hash h; h((uint64_t)p.size()); for (auto& r : p) for (char x : r) h((uint64_t)x); return h.h; }

// walks any graph and compares with the reference edges
template<class G> static void checkGraph(const char* what, G& g, const std::vector<std::set<int>>& edges, const std::vector<char>& present, bool edgeIds)
{
  int n = present.size();
  std::vector<int> vs;
  for (auto v = g.begin(); v != g.end(); ++v) {
    vs.push_back(*v);
    std::vector<int> t;
    CHECK(*v < (UL)n, what, "vertex", *v);
    for (auto e = v.begin(); e != v.end(); ++e) {
      t.push_back(e.target());
      CHECK((int)e.source() == (int)*v, what, "source of an edge of", *v, "is", e.source());
    }
    CHECK(std::vector<int>(edges[*v].begin(), edges[*v].end()) == t, what, "edges of vertex", *v);
    // the same through beginEdges/endEdges
    std::vector<int> t2;
    for (auto e = g.beginEdges(*v); e != g.endEdges(*v); ++e) { t2.push_back(e.target()); CHECK((int)e.source() == (int)*v, what, "source"); }
    CHECK(t == t2, what, "beginEdges differs from begin of", *v);
    mc::step();
  }
  std::vector<int> ref;
  for (int i = 0; i < n; ++i) if (present[i]) ref.push_back(i);
  CHECK(vs == ref, what, "vertices");
}

template<class M> static void matrixGraph(mc::Chooser& c, M& A, const Pat& p)
{
  int n = p.size();
  typedef MatrixGraph<M> G;
  G g(A);
  const G& cg = g;
  std::vector<std::set<int>> edges(n); std::vector<char> present(n, 1);
  int nnz = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { nnz += p[i][j]; if (i != j && p[i][j]) edges[i].insert(j); }
  checkGraph("MatrixGraph", g, edges, present, true);
  checkGraph("const MatrixGraph", cg, edges, present, true);
  CHECK((int)g.noVertices() == n, "noVertices", g.noVertices());
  CHECK(&g.matrix() == &A && &cg.matrix() == &A, "matrix()");
  if (n) CHECK((int)g.maxVertex() == n-1, "maxVertex", g.maxVertex());
  std::set<long> ids;
  for (auto v = cg.begin(); v != cg.end(); ++v) {
    CHECK(&v.weight() == &A[*v][*v], "weight of vertex", *v);
    for (auto e = v.begin(); e != v.end(); ++e) {
      CHECK(&e.weight() == &A[*v][e.target()], "weight of edge", *v, e.target());
      CHECK(ids.insert(*e).second, "edge descriptor used twice", *e);
      CHECK(*e >= 0 && (UL)*e < g.noEdges(), "edge descriptor", *e, "of", g.noEdges());
      CHECK(cg.findEdge(*v, e.target()) == *e, "findEdge", *v, e.target(), cg.findEdge(*v, e.target()), *e);
    }
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!p[i][j])
    CHECK(g.findEdge(i, j) == std::numeric_limits<typename G::EdgeDescriptor>::max(), "findEdge of an absent edge", i, j, g.findEdge(i, j));
  if constexpr (!std::is_const_v<M>) {
    // weights of the mutable graph are the entries of the matrix
    for (auto v = g.begin(); v != g.end(); ++v) { v.weight() = 100+*v; for (auto e = v.begin(); e != v.end(); ++e) e.weight() = 7*e.source()+e.target(); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p[i][j]) CHECK(A[i][j][0][0] == (i == j ? 100+i : 7*i+j), "weight written through the graph", i, j);
  }
  // conversion of mutable iterators
  typename G::ConstVertexIterator cv = g.begin();
  CHECK(cv == cg.begin(), "converted iterator");
  mc::outcome("graph");
}

// properties attached to a graph g whose reference edges are given
template<class PG> static void checkProps(const char* what, PG& pg, const std::vector<std::set<int>>& edges, const std::vector<char>& present)
{
  const PG& cpg = pg;
  checkGraph(what, pg, edges, present, false);
  checkGraph(what, cpg, edges, present, false);
  int n = present.size();
  typedef VertexProperties VP; typedef EdgeProperties EP;
  // every property has its own storage and starts empty
  std::set<const void*> va, ea;
  for (auto v = pg.begin(); v != pg.end(); ++v) {
    VP& x = v.properties();
    CHECK(&x == &pg.getVertexProperties(*v) && &x == &cpg.getVertexProperties(*v), what, "properties of vertex", *v);
    CHECK(!x.isolated() && !x.visited() && !x.front() && !x.excludedBorder(), what, "fresh vertex property");
    CHECK(va.insert(&x).second, what, "vertex property shared", *v);
    for (auto e = v.begin(); e != v.end(); ++e) {
      EP& y = e.properties();
      CHECK(&y == &pg.getEdgeProperties(e.source(), e.target()), what, "edge properties by vertices", e.source(), e.target());
      CHECK(&y == &cpg.getEdgeProperties(e.source(), e.target()), what, "const edge properties by vertices", e.source(), e.target());
      CHECK(&y == &pg.getEdgeProperties(pg.findEdge(e.source(), e.target())), what, "edge properties by descriptor");
      CHECK(!y.depends() && !y.influences(), what, "fresh edge property");
      CHECK(ea.insert(&y).second, what, "edge property shared", e.source(), e.target());
    }
  }
  // the selectors access the same storage
  GraphVertexPropertiesSelector<PG> vsel(pg), vsel2; GraphEdgePropertiesSelector<PG> esel(pg), esel2;
  vsel2 = vsel; esel2 = esel;
  for (auto v = pg.begin(); v != pg.end(); ++v) {
    CHECK(&vsel[*v] == &v.properties() && &vsel2[*v] == &v.properties(), what, "vertex selector", *v);
    for (auto e = v.begin(); e != v.end(); ++e) CHECK(&esel[*e] == &e.properties() && &esel2[*e] == &e.properties(), what, "edge selector");
  }
  // mark everything differently, then read back
  for (auto v = pg.begin(); v != pg.end(); ++v) {
    if (*v & 1) v.properties().setIsolated();
    if (*v & 2) v.properties().setExcludedBorder();
    for (auto e = v.begin(); e != v.end(); ++e) { if ((e.source()+e.target())&1) e.properties().setDepends(); if (e.source() < e.target()) e.properties().setInfluences(); }
    mc::step();
  }
  for (auto v = cpg.begin(); v != cpg.end(); ++v) {
    CHECK(v.properties().isolated() == bool(*v & 1) && v.properties().excludedBorder() == bool(*v & 2), what, "vertex property", *v);
    for (auto e = v.begin(); e != v.end(); ++e)
      CHECK(e.properties().depends() == bool((e.source()+e.target())&1) && e.properties().influences() == (e.source() < e.target()), what, "edge property", e.source(), e.target());
  }
  for (int i = 0; i < n; ++i) if (present[i]) for (int j = 0; j < n; ++j) if (j != i && present[j] && !edges[i].count(j))
    CHECK(pg.findEdge(i, j) == std::numeric_limits<typename PG::EdgeDescriptor>::max(), what, "findEdge of an absent edge", i, j);
  // visited map of breadth first searches
  auto vm = get(VertexVisitedTag(), pg);
  for (int i = 0; i < n; ++i) if (present[i] && i % 3 == 0) put(vm, i, true);
  for (int i = 0; i < n; ++i) if (present[i]) CHECK(pg.getVertexProperties(i).visited() == (i % 3 == 0) && bool(get(vm, i)) == (i % 3 == 0), what, "visited map", i);
  CHECK(cpg.noVertices() == pg.graph().noVertices() && cpg.noEdges() == pg.graph().noEdges() && cpg.maxVertex() == pg.graph().maxVertex(), what, "sizes");
}

UNIT(matrix_graph)
{
  int n = c.range(0, 4, "n");
  bool konst = c.flag("const");
  Pat p = pat(c, n, false);
  Mat A; make(A, p);
  mc::state(hashPattern(p));
  if (konst) matrixGraph<const Mat>(c, A, p); else matrixGraph<Mat>(c, A, p);
  typedef PropertiesGraph<MatrixGraph<const Mat>, VertexProperties, EdgeProperties> PG;
  if (n == 0) return;
  std::vector<std::set<int>> edges(n); std::vector<char> present(n, 1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && p[i][j]) edges[i].insert(j);
  MatrixGraph<const Mat> g(A);
  PG pg(g);
  checkProps("PropertiesGraph", pg, edges, present);
  // vertex properties only
  typedef VertexPropertiesGraph<MatrixGraph<const Mat>, int> VG;
  VG vg(g);
  const VG& cvg = vg;
  checkGraph("VertexPropertiesGraph", vg, edges, present, false);
  checkGraph("const VertexPropertiesGraph", cvg, edges, present, false);
  for (auto v = vg.begin(); v != vg.end(); ++v) { CHECK(v.properties() == 0, "fresh vertex property"); v.properties() = 5+*v; }
  for (auto v = cvg.begin(); v != cvg.end(); ++v) CHECK(v.properties() == 5+(int)*v && cvg.getVertexProperties(*v) == 5+(int)*v && vg.getVertexProperties(*v) == 5+(int)*v, "vertex property", *v);
  CHECK(cvg.noVertices() == g.noVertices() && cvg.noEdges() == g.noEdges() && cvg.maxVertex() == g.maxVertex(), "sizes of VertexPropertiesGraph");
}

UNIT(sub_graph)
{
  int n = c.range(0, 4, "n");
  std::vector<bool> excluded(n);
  for (int i = 0; i < n; ++i) excluded[i] = c.flag("excluded");
  Pat p = pat(c, n, n == 4 && !mc::thorough());
  Mat A; make(A, p);
  MatrixGraph<const Mat> g(A);
  typedef SubGraph<MatrixGraph<const Mat>, std::vector<bool>> SG;
  alignas(SG) char store[sizeof(SG)]; std::fill(store, store+sizeof(SG), char(0x5a));
  struct Destroy { SG* s; ~Destroy() { s->~SG(); } };
  Destroy hold{new (store) SG(g, excluded)};
  SG& sg = *hold.s;
  std::vector<std::set<int>> edges(n); std::vector<char> present(n);
  int nv = 0, ne = 0;
  for (int i = 0; i < n; ++i) present[i] = !excluded[i], nv += present[i];
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && p[i][j] && present[i] && present[j]) { edges[i].insert(j); ++ne; }
  checkGraph("SubGraph", sg, edges, present, false);
  CHECK((int)sg.noVertices() == nv, "vertices of the sub graph", sg.noVertices(), nv);
  CHECK((int)sg.noEdges() == ne, "edges of the sub graph", sg.noEdges(), ne);
  if (n) CHECK((int)sg.maxVertex() == n-1, "maxVertex of the sub graph");
  auto map = sg.getEdgeIndexMap();
  std::set<UL> idx;
  for (auto v = sg.begin(); v != sg.end(); ++v) for (auto e = v.begin(); e != v.end(); ++e) {
    CHECK(map[*e] < (UL)ne && idx.insert(map[*e]).second, "index of an edge", map[*e]);
    CHECK(sg.findEdge(e.source(), e.target()) == *e, "findEdge", e.source(), e.target());
  }
  for (int i = 0; i < n; ++i) if (present[i]) {
    for (int j = 0; j < n; ++j) if (!edges[i].count(j)) CHECK(sg.findEdge(i, j) == std::numeric_limits<SG::EdgeDescriptor>::max(), "findEdge of an absent edge", i, j);
    CHECK(sg.endEdges(i) - sg.beginEdges(i) == (long)edges[i].size(), "number of edges of", i);
  }
  typedef PropertiesGraph<SG, VertexProperties, EdgeProperties, Dune::IdentityMap, SG::EdgeIndexMap> PG;
  PG pg(sg, Dune::IdentityMap(), map);
  checkProps("PropertiesGraph of a SubGraph", pg, edges, present);
  mc::state(mc::Hash()((uint64_t)hashPattern(p))((uint64_t)nv)((uint64_t)ne).h);
  mc::outcome(mc::str("sub", nv));
}

// all sequences of set/reset on the flags
UNIT(flags)
{
  int len = mc::thorough() ? 5 : 4;
  if (c.flag("edge flags")) {
    EdgeProperties e; bool d = false, f = false;
    for (int k = 0; k < len; ++k) {
      switch (c(5, "op")) {
      case 0: e.setDepends(); d = true; break;
      case 1: e.setInfluences(); f = true; break;
      case 2: e.resetDepends(); d = false; break;
      case 3: e.resetInfluences(); f = false; break;
      case 4: e.reset(); d = f = false; break;
      }
      mc::step();
      CHECK(e.depends() == d && e.influences() == f, "edge flags", d, f);
      CHECK(e.isOneWay() == (d && !f) && e.isTwoWay() == (d && f) && e.isStrong() == (d || f), "derived edge flags", d, f);
      CHECK(e[EdgeProperties::DEPEND] == d && e[EdgeProperties::INFLUENCE] == f, "edge flags by index");
      mc::state(d+2*f);
    }
  } else {
    VertexProperties v; bool r[4] = {};
    for (int k = 0; k < len; ++k) {
      int op = c(9, "op");
      switch (op) {
      case 0: v.setIsolated(); break; case 1: v.setVisited(); break; case 2: v.setFront(); break; case 3: v.setExcludedBorder(); break;
      case 4: v.resetIsolated(); break; case 5: v.resetVisited(); break; case 6: v.resetFront(); break; case 7: v.resetExcludedBorder(); break;
      case 8: v.reset(); break;
      }
      if (op < 4) r[op] = true; else if (op < 8) r[op-4] = false; else for (bool& x : r) x = false;
      mc::step();
      CHECK(v.isolated() == r[0] && v.visited() == r[1] && v.front() == r[2] && v.excludedBorder() == r[3], "vertex flags after", op);
      mc::state(r[0]+2*r[1]+4*r[2]+8*r[3]);
    }
  }
  mc::outcome("flags");
}

struct Rec {
  std::multiset<std::pair<int,int>> e;
  template<class E> void operator()(const E& edge) { e.insert({(int)edge.source(), (int)edge.target()}); }
};
// list with the interface breadthFirstSearch needs
UNIT(breadth_first)
{
  int n = c.range(1, mc::thorough() ? 5 : 4, "n");
  Pat p = pat(c, n, n >= 4);
  std::vector<int> agg(n);
  for (int i = 0; i < n; ++i) agg[i] = c(i == 0 ? 1 : std::min(i+1, 3), "aggregate") ;
  Mat A; make(A, p);
  typedef MatrixGraph<const Mat> MG; MG g(A);
  typedef PropertiesGraph<MG, VertexProperties, EdgeProperties> PG; PG pg(g);
  typedef AggregatesMap<UL> AM;
  AM map(n);
  CHECK((int)map.noVertices() == n, "noVertices");
  for (int i = 0; i < n; ++i) CHECK(map[i] == AM::UNAGGREGATED, "fresh map");
  for (int i = 0; i < n; ++i) map[i] = agg[i] == 2 ? AM::ISOLATED : (UL)agg[i];
  int start = c(n, "start");
  UL a = map[start];
  if (c.flag("other aggregate")) a = map[c(n, "of")];       // "start does not need to belong to the aggregate"
  // reference
  std::vector<int> dist(n, -1); dist[start] = 0; std::vector<int> q{start};
  std::multiset<std::pair<int,int>> leaving;
  int depth = 0;
  for (size_t k = 0; k < q.size(); ++k) for (int j = 0; j < n; ++j) if (j != q[k] && p[q[k]][j]) {
    if (map[j] == a) { if (dist[j] < 0) { dist[j] = dist[q[k]]+1; depth = dist[j]; q.push_back(j); } }
    else leaving.insert({q[k], j});
  }
  int style = c(4, "remove/reset");
  auto vm = get(VertexVisitedTag(), pg);
  Rec in, out;
  AM::VertexList list;
  std::size_t d;
  if (style == 0) d = map.breadthFirstSearch<true,true>((UL)start, a, pg, list, in, out, vm);
  else if (style == 1) d = map.breadthFirstSearch<false,true>((UL)start, a, pg, list, in, out, vm);
  else if (style == 2) d = map.breadthFirstSearch<false,false>((UL)start, a, pg, list, in, out, vm);
  else d = map.breadthFirstSearch<false>((UL)start, a, pg, in, vm);
  mc::step();
  CHECK((int)d == depth, "number of spheres", d, depth);
  std::set<int> targets; for (auto& e : in.e) CHECK(targets.insert(e.second).second, "vertex visited twice", e.second);
  std::set<int> ref(q.begin()+1, q.end());
  CHECK(targets == ref, "visited vertices of the aggregate");
  for (auto& e : in.e) CHECK(p[e.first][e.second] && dist[e.second] == dist[e.first]+1, "vertex visited along", e.first, e.second);
  if (style < 3) CHECK(out.e == leaving, "edges leaving the aggregate");
  std::vector<int> l; for (auto v = list.begin(); v != list.end(); ++v) l.push_back(*v);
  if (style == 0 || style == 3) CHECK(l.empty(), "list must be cleared");
  else { CHECK(std::set<int>(l.begin(), l.end()) == std::set<int>(q.begin(), q.end()) && l.size() == q.size(), "visited list"); for (size_t k = 1; k < l.size(); ++k) CHECK(dist[l[k-1]] <= dist[l[k]], "order of the visited list"); }
  for (int i = 0; i < n; ++i) CHECK(pg.getVertexProperties(i).visited() == (style >= 2 && dist[i] >= 0), "visited flag of", i);
  mc::state(mc::Hash()((uint64_t)hashPattern(p))((uint64_t)depth)((uint64_t)q.size()).h);
  mc::outcome(mc::str("spheres", depth));
}

// neighbours visited, combined functors
UNIT(neighbours)
{
  int n = c.range(1, 4, "n");
  Pat p = pat(c, n, n == 4);
  Mat A; make(A, p);
  MatrixGraph<const Mat> g(A);
  struct F { std::vector<int>* v; int k; void operator()(const MatrixGraph<const Mat>::ConstEdgeIterator& e) { v->push_back(k*int(e.target()+1)); } };
  for (int i = 0; i < n; ++i) {
    std::vector<int> v, ref, ref2;
    F f{&v, 1};
    int k = visitNeighbours(g, i, f);
    for (int j = 0; j < n; ++j) if (j != i && p[i][j]) { ref.push_back(j+1); ref2.push_back(j+1); ref2.push_back(-j-1); ref2.push_back(2*j+2); }
    CHECK(v == ref && k == (int)ref.size(), "neighbours of", i);
    v.clear();
    typedef std::tuple<F,F,F> T;
    CombinedFunctor<T> cf(T(F{&v,1}, F{&v,-1}, F{&v,2}));
    CHECK(visitNeighbours(g, i, cf) == (int)ref.size() && (std::sort(v.begin(), v.end()), std::sort(ref2.begin(), ref2.end()), v == ref2), "combined functors at", i);
    mc::step();
  }
  mc::state(hashPattern(p));
  mc::outcome("neighbours");
}

// larger families
UNIT(ladder)
{
  int n = c.of(std::vector<int>{5, 8, 13, 40}, "n");
  int fam = c(4, "family");
  Pat p(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    bool e = fam == 0 ? std::abs(i-j) <= 1 : fam == 1 ? (i == 0 || j == 0) : fam == 2 ? (i*7+j*3) % 5 == 0 : true;
    p[i][j] = i == j || e;
  }
  int ex = c(4, "excluded");
  std::vector<bool> excluded(n);
  for (int i = 0; i < n; ++i) excluded[i] = ex == 1 ? i < n/2 : ex == 2 ? i % 2 == 0 : ex == 3 ? i != n-1 : false;
  Mat A; make(A, p);
  { Mat B; make(B, p); matrixGraph<Mat>(c, B, p); }
  std::vector<std::set<int>> edges(n); std::vector<char> present(n);
  for (int i = 0; i < n; ++i) present[i] = !excluded[i];
  int ne = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && p[i][j] && present[i] && present[j]) edges[i].insert(j), ++ne;
  MatrixGraph<const Mat> g(A);
  typedef SubGraph<MatrixGraph<const Mat>, std::vector<bool>> SG;
  SG sg(g, excluded);
  CHECK((int)sg.noEdges() == ne, "edges of the sub graph");
  typedef PropertiesGraph<SG, VertexProperties, EdgeProperties, Dune::IdentityMap, SG::EdgeIndexMap> PG;
  PG pg(sg, Dune::IdentityMap(), sg.getEdgeIndexMap());
  checkProps("ladder", pg, edges, present);
  mc::state(hashPattern(p)+ex);
}
// a matrix that is not square has no graph
UNIT(rectangular)
{
  int n = c.range(0, 3, "n"), m = c.range(0, 3, "m");
  Mat A(n, m, 0, Mat::random);
  for (int i = 0; i < n; ++i) A.setrowsize(i, 0);
  A.endrowsizes(); A.endindices();
  bool threw = false;
  try { MatrixGraph<const Mat> g(A); } catch (Dune::ISTLError&) { threw = true; }
  CHECK(threw == (n != m), "graph of a matrix", n, m);
  mc::outcome(threw ? "rejected" : "accepted");
}
