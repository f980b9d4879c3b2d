// C15: the multigrid preconditioners apply the documented cycle on the Galerkin hierarchy
#include "mc.hh"
#include "flat.hh"
#include "track.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <set>
#include <map>
#include <iostream>
#include <atomic>
#include <cstdlib>
#include <sstream>
using namespace Dune::Amg;
using namespace Dune;
struct Quiet {            // the library reports to cout/cerr while coarsening
  std::ostringstream s; std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// every object the library allocates is freed again
static std::atomic<long> live{0};
void* operator new(size_t n) { ++live; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; std::free(p); }
template <class F> void noLeak(F f)
{
  long left = 0;
  for (int k = 0; k < 3; ++k) { long a = live; f(); left = live - a; if (left == 0) return; }
  CHECK(left == 0, "objects left behind:", left);
}
static uint64_t levelsSeen;
template <int B> struct MT { using Block = FieldMatrix<double, B, B>; using VB = FieldVector<double, B>; };
template <> struct MT<0> { using Block = double; using VB = double; };
template <int B> using Mat = BCRSMatrix<typename MT<B>::Block>;
template <int B> using Vec = BlockVector<typename MT<B>::VB>;
static double& ent(double& b, int, int) { return b; }
template <int B> double& ent(FieldMatrix<double, B, B>& b, int r, int s) { return b[r][s]; }
static double& ent(double& b, int) { return b; }
template <int B> double& ent(FieldVector<double, B>& b, int r) { return b[r]; }
template <class T> auto cent(const T& b, int r, int s) { return ent(const_cast<T&>(b), r, s); }
using Pat = std::vector<std::vector<char>>;
using Val = std::vector<std::vector<double>>;
struct Prob { int n; Pat p; Val v; };

template <int B, bool SymBlocks = false> std::shared_ptr<Mat<B>> matrix(const Prob& q, double scale = 1)
{
  auto A = std::make_shared<Mat<B>>(); A->setBuildMode(Mat<B>::random); A->setSize(q.n, q.n);
  for (int i = 0; i < q.n; ++i) { int s = 0; for (char x : q.p[i]) s += x != 0; A->setrowsize(i, s); }
  A->endrowsizes();
  for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) if (q.p[i][j]) A->addindex(i, j);
  A->endindices();
  static const double f[2][2] = {{1, 0.25}, {-0.125, 0.5}};
  constexpr int b = B ? B : 1;
  for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) if (q.p[i][j]) for (int r = 0; r < b; ++r) for (int s = 0; s < b; ++s) {
    double x = q.v[i][j] * scale;
    if (b > 1) {
      if (i == j) x *= r == s ? 1 << r : (SymBlocks ? 0.25 : (r ? 0.125 : 0.25));
      else x *= SymBlocks && i > j ? f[s][r] : f[r][s];
    }
    ent((*A)[i][j], r, s) = x;
  }
  return A;
}
template <class M> flat::Dense<double> dense(const M& A) { return flat::flatten(A); }
template <class V> void setv(V& x, int salt) { int k = 0; for (auto& b : x) for (int r = 0; r < (int)(sizeof(b) / sizeof(double)); ++r) { ent(b, r) = ((k * 7 + salt * 3) % 11 - 5) * 0.5; ++k; } }
template <class V> std::vector<double> nums(const V& x) { std::vector<double> r; for (auto& b : x) for (int k = 0; k < (int)(sizeof(b) / sizeof(double)); ++k) r.push_back(ent(const_cast<std::decay_t<decltype(b)>&>(b), k)); return r; }
template <class V> void fromNums(V& x, const std::vector<double>& r) { int i = 0; for (auto& b : x) for (int k = 0; k < (int)(sizeof(b) / sizeof(double)); ++k) ent(b, k) = r[i++]; }
template <class V> void same(const V& a, const V& b, const char* what, double tol = 1e-9)
{
  CHECK(a.size() == b.size(), what, "size", a.size(), "expected", b.size());
  double m = 1; for (double x : nums(b)) m = std::max(m, std::abs(x));
  auto x = nums(a), y = nums(b);
  for (size_t i = 0; i < x.size(); ++i) CHECK(std::abs(x[i] - y[i]) <= tol * m, what, "component", i, "is", x[i], "expected", y[i]);
}

// ---- the reference hierarchy ----
template <class M> struct Ref { std::vector<std::shared_ptr<M>> A; std::vector<std::vector<size_t>> agg; };
constexpr size_t ISO = AggregatesMap<size_t>::ISOLATED;
template <class M> std::shared_ptr<M> galerkin(const M& A, const std::vector<size_t>& agg, int k)
{
  std::map<std::pair<size_t, size_t>, typename M::block_type> s;
  for (int i = 0; i < k; ++i) s[{(size_t)i, (size_t)i}] = typename M::block_type(0);
  for (size_t i = 0; i < A.N(); ++i) for (size_t j = 0; j < A.N(); ++j) if (A.exists(i, j) && agg[i] != ISO && agg[j] != ISO) {
    auto it = s.emplace(std::make_pair(agg[i], agg[j]), typename M::block_type(0)).first;
    it->second += A[i][j];
  }
  auto C = std::make_shared<M>(); C->setBuildMode(M::random); C->setSize(k, k, s.size());
  std::vector<int> cnt(k, 0); for (auto& e : s) ++cnt[e.first.first];
  for (int i = 0; i < k; ++i) C->setrowsize(i, cnt[i]);
  C->endrowsizes(); for (auto& e : s) C->addindex(e.first.first, e.first.second); C->endindices();
  for (auto& e : s) (*C)[e.first.first][e.first.second] = e.second;
  return C;
}
template <class M, class C> Ref<M> reference(std::shared_ptr<M> A, const C& crit)
{
  Ref<M> r; r.A.push_back(A);
  for (int l = 0; l < crit.maxLevel(); ++l) {
    const M& F = *r.A.back();
    if ((double)F.N() <= crit.coarsenTarget()) break;
    typedef MatrixGraph<const M> MG; MG mg(F);
    typedef PropertiesGraph<MG, VertexProperties, EdgeProperties> PG; PG pg(mg);
    AggregatesMap<size_t> map(F.N());
    int k = std::get<0>(map.buildAggregates(F, pg, crit, l == 0));
    std::vector<size_t> agg(map.begin(), map.end()); map.free();
    if (k == 0 || (double)F.N() / k < crit.minCoarsenRate()) break;
    r.A.push_back(galerkin(F, agg, k)); r.agg.push_back(agg);
  }
  return r;
}
template <class M> void sameMatrix(const M& a, const M& b, const std::string& what)
{
  CHECK(a.N() == b.N() && a.M() == b.M(), what, "size", a.N(), a.M(), "expected", b.N(), b.M());
  for (size_t i = 0; i < a.N(); ++i) for (size_t j = 0; j < a.M(); ++j) {
    CHECK(a.exists(i, j) == b.exists(i, j), what, "entry", i, j, "stored", a.exists(i, j), "expected", b.exists(i, j));
    if (a.exists(i, j)) CHECK(a[i][j] == b[i][j], what, "entry", i, j, "is", mc::str(a[i][j]), "expected", mc::str(b[i][j]));
  }
}
template <class M, class H> void sameHierarchy(const H& h, const Ref<M>& r, bool maps = true)
{
  CHECK(h.levels() == r.A.size() && h.maxlevels() == r.A.size(), "hierarchy has", h.levels(), "levels, expected", r.A.size());
  CHECK(h.isBuilt() && h.hasCoarsest(), "hierarchy not complete");
  auto m = h.matrices().finest(); auto g = h.aggregatesMaps().begin();
  for (size_t l = 0; l < r.A.size(); ++l, ++m) {
    sameMatrix(m->getmat(), *r.A[l], mc::str("matrix of level", l));
    if (maps && l + 1 < r.A.size()) {
      CHECK((*g)->noVertices() == r.agg[l].size(), "aggregates of level", l, "cover", (*g)->noVertices(), "rows");
      for (size_t i = 0; i < r.agg[l].size(); ++i) CHECK((**g)[i] == r.agg[l][i], "aggregate of row", i, "on level", l, "is", (**g)[i], "expected", r.agg[l][i]);
      ++g;
    }
  }
}

// ---- problems ----
static Pat pattern(mc::Chooser& c, int n, bool directed)
{
  Pat p(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) p[i][i] = 1;
  int e = n * (n - 1) / 2; unsigned long m = c.mask(directed ? 2 * e : e), k = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { p[i][j] = (m >> k++) & 1; p[j][i] = directed ? (m >> k++) & 1 : p[i][j]; }
  return p;
}
static void values(Prob& q, int kind)
{
  int n = q.n; q.v.assign(n, std::vector<double>(n, 0));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (q.p[i][j] && i != j) {
    int lo = std::min(i, j), hi = std::max(i, j);
    double x = -1;
    if (kind == 1) x = -1.0 / (1 << ((lo * 3 + hi * 2) % 4));
    if (kind == 2) x = -1.0 / (1 << ((i * 3 + j) % 4));              // not symmetric
    if (kind == 3) x = (lo == 0) ? 0 : -1;                           // decoupled first row, entries stored as zeros
    if (kind == 4) x = (lo + hi) % 3 == 0 ? 0.25 : -1;               // some positive couplings
    q.v[i][j] = x;
  }
  for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int j = 0; j < n; ++j) { s += std::abs(q.v[i][j]); t += std::abs(q.v[j][i]); } q.v[i][i] = std::max(s, t) + (i % 2 ? 1 : 0.5); }
}
static Prob structured(int fam, int size)
{
  Prob q; std::vector<std::pair<int, int>> e; int n = size;
  if (fam == 0) for (int i = 0; i + 1 < n; ++i) e.push_back({i, i + 1});
  else if (fam == 1) { int k = size; n = k * k; for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { if (i + 1 < k) e.push_back({i * k + j, i * k + j + k}); if (j + 1 < k) e.push_back({i * k + j, i * k + j + 1}); } }
  else if (fam == 2) { for (int i = 1; i < n; ++i) e.push_back({0, i}); for (int i = 1; i + 1 < n; i += 2) e.push_back({i, i + 1}); }
  else for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if ((i * 5 + j * 3) % 4 == 0) e.push_back({i, j});
  q.n = n; q.p.assign(n, std::vector<char>(n, 0)); for (int i = 0; i < n; ++i) q.p[i][i] = 1;
  for (auto& x : e) q.p[x.first][x.second] = q.p[x.second][x.first] = 1;
  return q;
}
template <class C> C setting(int s)
{
  C c(100, 1, 1.01, 1.0);
  c.setDebugLevel(0);
  c.setMinAggregateSize(2); c.setMaxAggregateSize(3);
  if (s == 1) { c.setMaxAggregateSize(2); c.setMaxLevel(1); c.setProlongationDampingFactor(1.5); }
  if (s == 2) { c.setCoarsenTarget(3); c.setMaxLevel(2); c.setProlongationDampingFactor(0.75); }
  if (s == 3) { c.setMinCoarsenRate(2.1); c.setSkipIsolated(true); c.setProlongationDampingFactor(1.25); }
  if (s == 4) { c.setMinAggregateSize(1); c.setMaxAggregateSize(1); c.setMinCoarsenRate(1); c.setMaxLevel(2); }
  if (s == 5) { c.setMaxLevel(0); }
  if (s == 6) { c.setDefaultValuesIsotropic(2); }
  return c;
}
constexpr int SETTINGS = 7;
template <class M> using SymC = CoarsenCriterion<SymmetricCriterion<M, FirstDiagonal>>;
template <class M> using UnsymC = CoarsenCriterion<UnSymmetricCriterion<M, FirstDiagonal>>;

#ifdef PART1
using SeqInfo = SequentialInformation;
template <int B, class C> void hierarchy(const Prob& q, const C& crit, bool symmetric)
{
  using M = Mat<B>; using V = Vec<B>; using Op = MatrixAdapter<M, V, V>; using H = MatrixHierarchy<Op, SeqInfo>;
  Quiet quiet;
  auto A = matrix<B>(q);
  auto r = reference(A, crit);
  auto copy = std::make_shared<M>(*A);
  H h(std::make_shared<Op>(copy));
  h.template build<NegateSet<SeqInfo::OwnerSet>>(crit);
  sameHierarchy(h, r);
  CHECK(h.getProlongationDampingFactor() == crit.getProlongationDampingFactor(), "damping factor");
  { // vectors of the right sizes on all levels
    Hierarchy<V> v(std::make_shared<V>(q.n)); h.coarsenVector(v);
    CHECK(v.levels() == r.A.size(), "coarsenVector made", v.levels(), "levels");
    auto it = v.finest(); for (size_t l = 0; l < r.A.size(); ++l, ++it) CHECK(it->size() == r.A[l]->N(), "vector of level", l, "has size", it->size());
  }
  // transfer operators
  auto g = h.aggregatesMaps().begin();
  for (size_t l = 0; l + 1 < r.A.size(); ++l, ++g) {
    V fine(r.A[l]->N()), coarse(r.A[l + 1]->N()), f0, ex(r.A[l + 1]->N()); setv(fine, (int)l); f0 = fine; setv(coarse, 5); ex = 0;
    using T = Transfer<typename H::AggregatesMap::AggregateDescriptor, V, SeqInfo>;
    for (size_t i = 0; i < fine.size(); ++i) if (r.agg[l][i] != ISO) ex[r.agg[l][i]] += fine[i];
    T::restrictVector(**g, coarse, fine, SeqInfo());
    same(coarse, ex, "restricted vector", 0);
    same(fine, f0, "restriction changed the fine vector:", 0);
    for (double damp : {1.0, 0.5}) {
      setv(coarse, 3); V c0 = coarse; V fe = fine;
      for (size_t i = 0; i < fine.size(); ++i) if (r.agg[l][i] != ISO) fe[i] += [&] { auto t = c0[r.agg[l][i]]; t *= damp; return t; }();
      T::prolongateVector(**g, coarse, fine, damp, SeqInfo());
      same(fine, fe, "prolongated vector", 0);
    }
  }
  if (r.A.size() > 1) {
    std::vector<size_t> num; h.getCoarsestAggregatesOnFinest(num);
    CHECK(num.size() == (size_t)q.n, "coarsest aggregates for", num.size(), "rows");
    std::vector<size_t> comp(q.n); for (int i = 0; i < q.n; ++i) { size_t a = i; for (auto& g : r.agg) a = a == ISO ? ISO : g[a]; comp[i] = a; }
    std::map<size_t, size_t> seen; std::set<size_t> used;
    for (int i = 0; i < q.n; ++i) if (comp[i] != ISO) {
      auto it = seen.emplace(comp[i], num[i]);
      if (it.second) CHECK(used.insert(num[i]).second, "coarsest aggregate number", num[i], "of row", i, "is used for two aggregates");
      CHECK(it.first->second == num[i], "row", i, "has coarsest aggregate number", num[i], "expected", it.first->second);
    }
  }
  // recalculation: new values, same pattern and aggregates
  Prob q2 = q; for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) q2.v[i][j] = q.v[i][j] * (i == j ? 2 : 0.5) + (q.p[i][j] && i != j ? 0.25 * ((i + j) % 3) : 0);
  auto A2 = matrix<B>(q2); *copy = *A2;
  Ref<M> r2; r2.A.push_back(A2); r2.agg = r.agg;
  for (size_t l = 0; l < r.agg.size(); ++l) r2.A.push_back(galerkin(*r2.A[l], r.agg[l], (int)r.A[l + 1]->N()));
  h.recalculateGalerkin(NegateSet<SeqInfo::OwnerSet>());
  sameHierarchy(h, r2);
  levelsSeen = mc::Hash()((int)r.A.size())((int)r.A.back()->N())(q.n).h;
  (void)symmetric;
}
template <int B> void hierarchies(const Prob& q, int s, bool sym) {
  if (sym) noLeak([&] { hierarchy<B>(q, setting<SymC<Mat<B>>>(s), true); });
  else noLeak([&] { hierarchy<B>(q, setting<UnsymC<Mat<B>>>(s), false); });
  mc::state(levelsSeen);
}
UNIT(h_all) { // every symmetric pattern, every setting, both criteria
  int n = c.range(1, mc::thorough() ? 5 : 4); Prob q; q.n = n; q.p = pattern(c, n, false);
  values(q, c(5, "values")); int s = c(SETTINGS, "setting"); bool sym = c.flag("symmetric criterion");
  if (sym) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (q.v[i][j] != q.v[j][i]) throw mc::Skip{}; }
  hierarchies<BLK>(q, s, sym);
}
// the pattern is symmetric (the Galerkin product walks the graph in both directions), every coupling is strong or weak by itself
static Prob directed(mc::Chooser& c, int n, bool all) {
  Prob q; q.n = n; q.p = pattern(c, n, false); values(q, 0);
  std::vector<std::pair<int, int>> e; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && q.p[i][j]) e.push_back({i, j});
  unsigned long m;
  if (all) m = c.mask((int)e.size());
  else { int f = c(6, "weak couplings"); m = 0; for (size_t k = 0; k < e.size(); ++k) if (f == 0 ? false : f == 1 ? e[k].first < e[k].second : f == 2 ? e[k].first > e[k].second : f == 3 ? k % 2 : f == 4 ? (e[k].first + 2 * e[k].second) % 3 == 0 : e[k].first == 0) m |= 1ul << k; }
  for (size_t k = 0; k < e.size(); ++k) if (m >> k & 1) q.v[e[k].first][e[k].second] = -0.125;
  return q;
}
UNIT(h_directed) {
  int n = c.range(2, 3); Prob q = directed(c, n, true);
  hierarchies<BLK>(q, c.of(std::vector<int>{0, 1, 4, 6}), false);
}
UNIT(h_directed4) {
  Prob q = directed(c, 4, mc::thorough() && BLK == 1); hierarchies<BLK>(q, c.of(std::vector<int>{0, 1, 4}), false);
}
#ifdef ROWS5
UNIT(h_directed5) {
  Prob q = directed(c, 5, false); hierarchies<BLK>(q, c.of(std::vector<int>{0, 1, 4}), false);
}
#endif
UNIT(h_structured) {
  int fam = c(4, "family"); int k = c(mc::thorough() ? 7 : 5, "size");
  int size = fam == 1 ? std::vector<int>{2, 3, 4, 6, 8, 10, 12}[k] : std::vector<int>{5, 6, 9, 17, 40, 64, 100}[k];
  Prob q = structured(fam, size); values(q, c(5, "values")); int s = c(SETTINGS, "setting"); bool sym = c.flag("symmetric criterion");
  if (sym) { for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) if (q.v[i][j] != q.v[j][i]) throw mc::Skip{}; }
  hierarchies<BLK>(q, s, sym);
}
#endif

// ---- the reference cycle ----
template <class X> X restricted(const std::vector<size_t>& agg, const X& f, size_t k) { X c(k); c = 0; for (size_t i = 0; i < f.size(); ++i) if (agg[i] != ISO) c[agg[i]] += f[i]; return c; }
template <class X> void prolong(const std::vector<size_t>& agg, const X& cc, X& f, double damp) { for (size_t i = 0; i < f.size(); ++i) if (agg[i] != ISO) { auto t = cc[agg[i]]; t *= damp; f[i] += t; } }
template <class M, class X> X exact(const M& A, const X& b) { X x(b); std::vector<double> s; if (!flat::solve(dense(A), nums(b), s)) throw mc::Skip{}; fromNums(x, s); return x; }
template <class M, class X> X defect(const M& A, const X& b, const X& x) { X d = b; A.mmv(x, d); return d; }
template <class M, class X> struct Method {
  std::function<X(int, const X&)> pre, post, coarse;     // smoothing steps and coarse solve by level
  int npre = 1, npost = 1, gamma = 1; double damp = 1;
};
template <class M, class X> X cycle(const Ref<M>& r, const Method<M, X>& m, int l, const X& d)
{
  if (l + 1 == (int)r.A.size()) return m.coarse(l, d);
  const M& A = *r.A[l]; X u = d; u = 0;
  for (int i = 0; i < m.npre; ++i) u += m.pre(l, defect(A, d, u));
  X cd = restricted(r.agg[l], defect(A, d, u), r.A[l + 1]->N());
  X cu = cd; cu = 0;
  int reps = l + 2 == (int)r.A.size() ? 1 : m.gamma;
  for (int g = 0; g < reps; ++g) cu += cycle(r, m, l + 1, defect(*r.A[l + 1], cd, cu));
  prolong(r.agg[l], cu, u, m.damp);
  for (int i = 0; i < m.npost; ++i) u += m.post(l, defect(A, d, u));
  return u;
}
template <class M, class X> X additive(const Ref<M>& r, const Method<M, X>& m, const X& d)
{
  std::vector<X> rhs{d}; int L = (int)r.A.size();
  for (int l = 0; l + 1 < L; ++l) rhs.push_back(restricted(r.agg[l], rhs[l], r.A[l + 1]->N()));
  X u = m.coarse(L - 1, rhs[L - 1]);
  for (int l = L - 2; l >= 0; --l) { X v = m.pre(l, rhs[l]); prolong(r.agg[l], u, v, 1.0); u = v; }
  return u;
}
// smoothers
template <class M, class X, class S> struct Make { static std::shared_ptr<S> make(const M& A, int it, double w) { return std::make_shared<S>(A, it, w); } };
template <class M, class X> struct Make<M, X, SeqILU<M, X, X>> { static auto make(const M& A, int, double w) { return std::make_shared<SeqILU<M, X, X>>(A, 0, w); } };
template <class M, class X> struct Make<M, X, Richardson<X, X>> { static auto make(const M&, int, double w) { return std::make_shared<Richardson<X, X>>(w); } };
template <class S, class X> X applyPre(S& s, const X& d) { X v = d; v = 0; s.apply(v, d); return v; }
template <class S, class X> X applyPost(S& s, const X& d) { X v = d; v = 0; if constexpr (std::is_same_v<S, SeqSOR<typename S::matrix_type, X, X>>) s.template apply<false>(v, d); else s.apply(v, d); return v; }
template <class M, class X> struct applyPostR { };
template <class X> X applyPost(Richardson<X, X>& s, const X& d) { return applyPre(s, d); }

template <class S, class M, class X> Method<M, X> method(const Ref<M>& r, int it, double w, bool direct)
{
  auto sm = std::make_shared<std::vector<std::shared_ptr<S>>>();
  for (auto& A : r.A) sm->push_back(Make<M, X, S>::make(*A, it, w));
  auto last = Make<M, X, S>::make(*r.A.back(), 1, w);
  Method<M, X> m;
  m.pre = [sm](int l, const X& d) { return applyPre(*(*sm)[l], d); };
  m.post = [sm](int l, const X& d) { return applyPost(*(*sm)[l], d); };
  auto rr = r;
  if (direct) m.coarse = [rr](int l, const X& d) { return exact(*rr.A[l], d); };
  else m.coarse = [rr, last](int l, const X& d) {
    MatrixAdapter<M, X, X> op(rr.A[l]); ScalarProduct<X> sp; BiCGSTABSolver<X> s(op, sp, *last, 1e-2, 1000, 0);
    X x = d, b = d; x = 0; InverseOperatorResult res; s.apply(x, b, res); if (!res.converged) throw mc::Skip{}; return x; };
  return m;
}
static bool isDirichlet(const Prob& q, int i) { for (int j = 0; j < q.n; ++j) if (j != i && q.p[i][j] && q.v[i][j] != 0) return false; return true; }
template <class M, class X> void preCheck(const Prob& q, const M& A, const X& x0, const X& b0, const X& x, const X& b, bool changes = true)
{
  same(b, b0, "right hand side after pre()", 0);
  X ex = x0;
  if (changes) for (int i = 0; i < q.n; ++i) if (isDirichlet(q, i)) {
    constexpr int nb = sizeof(x[0]) / sizeof(double); flat::Dense<double> D(nb, nb); std::vector<double> rb(nb);
    auto blk = A[i][i]; for (int r = 0; r < nb; ++r) { rb[r] = ent(const_cast<X&>(b0)[i], r); for (int s = 0; s < nb; ++s) D(r, s) = ent(blk, r, s); }
    std::vector<double> s; CHECK(flat::solve(D, rb, s), "singular diagonal block"); for (int r = 0; r < nb; ++r) ent(ex[i], r) = s[r];
  }
  same(x, ex, "start value after pre()", 1e-12);
}
struct Cfg { int it, npre, npost, gamma; double w; bool add; };
template <class C> void configure(C& c, const Cfg& f) { c.setNoPreSmoothSteps(f.npre); c.setNoPostSmoothSteps(f.npost); c.setGamma(f.gamma); c.setAdditive(f.add); }
template <class P, class M, class X> void applyTwice(P& p, const Prob& q, const Ref<M>& r, const Method<M, X>& m, const Cfg& f, double tol)
{
  X x(q.n), b(q.n); setv(x, 2); setv(b, 1); X x0 = x, b0 = b;
  p.pre(x, b); preCheck(q, *r.A[0], x0, b0, x, b);
  for (int k = 0; k < 2; ++k) {
    X d(q.n), v(q.n); setv(d, 3 + k); X d0 = d; v = 0;
    p.apply(v, d);
    same(d, d0, "defect given to apply()", 0);
    same(v, f.add ? additive(r, m, d) : cycle(r, m, 0, d), "update", tol);
  }
  p.post(x);
}
#if defined(PART2) || defined(PART3)
#ifdef SMA
constexpr int SM = 3;
#else
constexpr int SM = 2;
#endif
#ifdef PART3
constexpr bool DIRECT = false;
#else
constexpr bool DIRECT = true;
#endif
template <class S, int B, class C> void amg(const Prob& q, C crit, const Cfg& f)
{
  using M = Mat<B>; using X = Vec<B>; using Op = MatrixAdapter<M, X, X>; using P = AMG<Op, X, S>;
  Quiet quiet;
  auto A = matrix<B>(q); configure(crit, f);
  auto r = reference(A, crit);
  auto m = method<S, M, X>(r, f.it, f.w, DIRECT); m.npre = f.npre; m.npost = f.npost; m.gamma = f.gamma; m.damp = crit.getProlongationDampingFactor();
  typename P::SmootherArgs args; args.iterations = f.it; args.relaxationFactor = f.w;
  Op op(A); P p(op, crit, args);
  CHECK(p.levels() == r.A.size() && p.maxlevels() == r.A.size(), "levels", p.levels(), "expected", r.A.size());
  CHECK(p.category() == SolverCategory::sequential, "category");
  CHECK(p.usesDirectCoarseLevelSolver() == DIRECT, "usesDirectCoarseLevelSolver() says", p.usesDirectCoarseLevelSolver());
  double tol = DIRECT ? 1e-10 : 1e-6;
  applyTwice(p, q, r, m, f, tol);
  P p2(p);                                    // copies work on their own vectors
  applyTwice(p2, q, r, m, f, tol);
  X x(q.n), b(q.n), y(q.n), e(q.n); setv(x, 1); setv(b, 2); setv(y, 3); setv(e, 4);
  p.pre(x, b); p2.pre(y, e);
  X d(q.n), v(q.n), w(q.n); v = 0; w = 0; setv(d, 6); p.apply(v, d); p2.apply(w, d);
  same(v, w, "update of the copy", 1e-12); p.post(x);
  X u(q.n); u = 0; p2.apply(u, d); same(u, w, "update after post() of the other copy", 1e-12); p2.post(y);
  levelsSeen = mc::Hash()((int)r.A.size())((int)r.A.back()->N())(q.n).h;
}
template <int B, class C> void smoothers(int s, const Prob& q, C crit, const Cfg& f)
{
  using M = Mat<B>; using X = Vec<B>;
#ifdef SMA
  if (s == 0) noLeak([&] { amg<SeqJac<M, X, X>, B>(q, crit, f); });
  if (s == 1) noLeak([&] { amg<SeqSOR<M, X, X>, B>(q, crit, f); });
  if (s == 2) noLeak([&] { amg<SeqSSOR<M, X, X>, B>(q, crit, f); });
#else
  if (s == 0) noLeak([&] { amg<SeqILU<M, X, X>, B>(q, crit, f); });
  if (s == 1) noLeak([&] { amg<Richardson<X, X>, B>(q, crit, f); });
#endif
  mc::state(levelsSeen);
}
static const std::vector<Cfg> cfgs = {
  {1, 1, 1, 1, 1.0, false}, {2, 2, 1, 2, 0.75, false}, {1, 0, 1, 2, 1.0, false}, {1, 1, 0, 2, 0.5, false}, {1, 0, 0, 1, 1.0, false}, {1, 2, 2, 3, 1.0, false}, {2, 1, 1, 1, 0.75, true}, {1, 2, 0, 1, 1.0, true}};
UNIT(cycles) {
  int n = c.range(1, 4); Prob q; q.n = n; q.p = pattern(c, n, false); values(q, c.of(std::vector<int>{1, 2, 3}));
  int s = c.of(std::vector<int>{0, 1, 3}), sm = c(SM, "smoother"), k = c((int)cfgs.size(), "config");
  smoothers<BLK>(sm, q, setting<UnsymC<Mat<BLK>>>(s), cfgs[k]);
}
UNIT(cycles_big) {
  int fam = c(4, "family"), k = c(mc::thorough() ? 5 : 3, "size"); int size = fam == 1 ? std::vector<int>{3, 5, 7, 8, 9}[k] : std::vector<int>{6, 11, 30, 50, 81}[k];
  Prob q = structured(fam, size); values(q, c.of(std::vector<int>{0, 1, 3}));
  int s = c.of(std::vector<int>{0, 2, 3, 6}), sm = c(SM, "smoother"), kk = c((int)cfgs.size(), "config");
  smoothers<BLK>(sm, q, setting<SymC<Mat<BLK>>>(s), cfgs[kk]);
}
#endif

// ---- parameters from a ParameterTree ----
#ifdef PART5
template <int B, class Crit, class F> void fromTree(const Prob& q, const ParameterTree& t, F f, const Cfg& cfg)
{
  using M = Mat<B>; using X = Vec<B>; using Op = MatrixAdapter<M, X, X>; using S = SeqSSOR<M, X, X>; using P = AMG<Op, X, S>;
  Quiet quiet;
  auto A = matrix<B>(q); auto op = std::make_shared<const Op>(A);
  Crit crit; crit.setDebugLevel(0); f(crit);
  typename P::SmootherArgs args; args.iterations = cfg.it; args.relaxationFactor = cfg.w;
  P a(*op, crit, args), b(op, t);
  CHECK(a.levels() == b.levels(), "levels", b.levels(), "expected", a.levels());
  X x(q.n), y(q.n), r(q.n), s(q.n); setv(x, 1); y = x; setv(r, 2); s = r;
  a.pre(x, r); b.pre(y, s); same(y, x, "start value", 0); same(s, r, "right hand side", 0);
  X d(q.n), v(q.n), w(q.n); setv(d, 5); v = 0; w = 0; a.apply(v, d); b.apply(w, d);
  same(w, v, "update", 1e-12); a.post(x); b.post(y);
  levelsSeen = mc::Hash()((int)a.levels())(mc::str(v)).h;
}
UNIT(tree) {
  constexpr int B = BLK; using M = Mat<B>;
  Prob q = c.flag("grid") ? structured(1, 6) : structured(3, 25); values(q, c.of(std::vector<int>{0, 1, 4}));
  ParameterTree t; t["coarsenTarget"] = "2"; t["verbosity"] = "0"; t["minAggregateSize"] = "2"; t["maxAggregateSize"] = "4";
  Cfg cfg{1, 1, 1, 1, 1.0, false};
  std::vector<std::function<void(Parameters&)>> fs;
  auto set = [&](auto f) { fs.push_back(f); };
  set([](Parameters& p) { p.setCoarsenTarget(2); p.setMinAggregateSize(2); p.setMaxAggregateSize(4); });
  auto key = [&](const char* k, const std::string& v) { t[k] = v; };
  int norm = 0; bool sym = true;
  for (int rounds = 0; rounds < 2; ++rounds) {        // any two keys together
    int k = c(25, "key"), v = c(2, "value");
    switch (k) {
    case 0: key("smootherIterations", v ? "3" : "2"); cfg.it = v ? 3 : 2; break;
    case 1: key("smootherRelaxation", v ? "0.75" : "1.25"); cfg.w = v ? 0.75 : 1.25; break;
    case 2: { int m = v ? 0 : 1; key("maxLevel", mc::str(m)); set([m](Parameters& p) { p.setMaxLevel(m); }); } break;
    case 3: { int m = v ? 6 : 12; key("coarsenTarget", mc::str(m)); set([m](Parameters& p) { p.setCoarsenTarget(m); }); } break;
    case 4: { double m = v ? 3.5 : 2.25; key("minCoarseningRate", v ? "3.5" : "2.25"); set([m](Parameters& p) { p.setMinCoarsenRate(m); }); } break;
    case 5: key("accumulationMode", v ? "successive" : "Successive"); set([](Parameters& p) { p.setAccumulate(successiveAccu); }); break;
    case 6: key("accumulationMode", v ? "none" : "atOnce"); { auto m = v ? noAccu : atOnceAccu; set([m](Parameters& p) { p.setAccumulate(m); }); } break;
    case 7: { double m = v ? 0.5 : 1; key("prolongationDampingFactor", v ? "0.5" : "1"); set([m](Parameters& p) { p.setProlongationDampingFactor(m); }); } break;
    case 8: { double m = v ? 0.9 : 0.05; key("alpha", v ? "0.9" : "0.05"); set([m](Parameters& p) { p.setAlpha(m); }); } break;
    case 9: { double m = v ? 0.2 : 0.04; key("beta", v ? "0.2" : "0.04"); set([m](Parameters& p) { p.setBeta(m); }); } break;
    case 10: key("additive", v ? "true" : "false"); { bool m = v; set([m](Parameters& p) { p.setAdditive(m); }); } break;
    case 11: key("gamma", v ? "2" : "3"); { int m = v ? 2 : 3; set([m](Parameters& p) { p.setGamma(m); }); } break;
    case 12: key("preSteps", v ? "0" : "3"); { int m = v ? 0 : 3; set([m](Parameters& p) { p.setNoPreSmoothSteps(m); }); } break;
    case 13: key("postSteps", v ? "0" : "3"); { int m = v ? 0 : 3; set([m](Parameters& p) { p.setNoPostSmoothSteps(m); }); } break;
    case 14: key("criterionSymmetric", v ? "false" : "true"); sym = !v; break;
    case 15: key("strengthMeasure", v ? "rowSum" : "diagonal"); norm = v ? 1 : 0; break;
    case 16: key("strengthMeasure", v ? "Frobenius" : "one"); norm = v ? 2 : 3; break;
    case 17: key("diagonalRowIndex", mc::str(v && B > 1 ? 1 : 0)); break;
    case 18: if (t.hasKey("minAggregateSize")) { t = [&] { ParameterTree u; for (auto& k : t.getValueKeys()) if (k != "minAggregateSize" && k != "maxAggregateSize") u[k] = t[k]; return u; }(); }
      key("defaultAggregationSizeMode", v ? "anisotropic" : "isotropic"); key("defaultAggregationDimension", "2");
      if (fs.size() > 1) throw mc::Skip{};
      { bool m = v; fs[0] = [m](Parameters& p) { p.setCoarsenTarget(2); if (m) p.setDefaultValuesAnisotropic(2, 2); else p.setDefaultValuesIsotropic(2, 2); }; } break;
    case 19: { int m = v ? 1 : 3; key("maxAggregateDistance", mc::str(m)); bool iso = t.hasKey("defaultAggregationSizeMode"), an = iso && t["defaultAggregationSizeMode"] == "anisotropic";
      set([=](Parameters& p) { if (iso) { if (an) p.setDefaultValuesAnisotropic(2, m); else p.setDefaultValuesIsotropic(2, m); } p.setMaxDistance(m); }); } break;
    case 20: { int m = v ? 1 : 3; key("minAggregateSize", mc::str(m)); set([m](Parameters& p) { p.setMinAggregateSize(m); }); } break;
    case 21: { int m = v ? 3 : 8; key("maxAggregateSize", mc::str(m)); set([m](Parameters& p) { p.setMaxAggregateSize(m); }); } break;
    case 22: { int m = v ? 1 : 2; key("maxAggregateConnectivity", mc::str(m)); set([m](Parameters& p) { p.setMaxConnectivity(m); }); } break;
    default: if (v || k == 24) throw mc::Skip{};
    }
  }
  if (t.hasKey("diagonalRowIndex") && t["diagonalRowIndex"] == "1" && norm == 0) norm = 4;
  if (t.hasKey("strengthMeasure") && norm == 4 && t["strengthMeasure"] != "diagonal") throw mc::Skip{};
  auto f = [&](Parameters& p) { for (auto& g : fs) g(p); };
  { Parameters p; f(p); if (p.minAggregateSize() > p.maxAggregateSize()) throw mc::Skip{}; }      // not a valid setting: aggregation does not end
  auto run = [&](auto nrm) {
    using N = decltype(nrm);
    if (sym) fromTree<B, CoarsenCriterion<SymmetricCriterion<M, N>>>(q, t, f, cfg);
    else fromTree<B, CoarsenCriterion<UnSymmetricCriterion<M, N>>>(q, t, f, cfg);
  };
  noLeak([&] {
    if (norm == 0) run(Diagonal<0>()); if (norm == 1) run(RowSum()); if (norm == 2) run(FrobeniusNorm()); if (norm == 3) run(AlwaysOneNorm());
    if constexpr (B > 1) if (norm == 4) run(Diagonal<1>());
  });
  mc::state(levelsSeen);
}
UNIT(tree_errors) {
  constexpr int B = BLK; using M = Mat<B>; using X = Vec<B>; using Op = MatrixAdapter<M, X, X>; using P = AMG<Op, X, SeqSSOR<M, X, X>>;
  Prob q = structured(0, 5); values(q, 0); auto A = matrix<B>(q); auto op = std::make_shared<const Op>(A);
  ParameterTree t; int k = c(4, "error");
  if (k == 0) t["strengthMeasure"] = "columnSum";
  if (k == 1) t["diagonalRowIndex"] = "5";
  if (k == 2) t["accumulationMode"] = "twice";
  if (k == 3) { t["defaultAggregationSizeMode"] = "tropic"; t["defaultAggregationDimension"] = "2"; }
  bool thrown = false; Quiet quiet;
  try { P p(op, t); } catch (const Exception&) { thrown = true; }
  CHECK(thrown, "an unknown value was accepted for", k == 0 ? "strengthMeasure" : k == 1 ? "diagonalRowIndex" : k == 2 ? "accumulationMode" : "defaultAggregationSizeMode");
}
#endif

// ---- the other multigrid methods, and hierarchies with a coarse solver of the user ----
#ifdef PART4
template <class M, class X> struct Exact : InverseOperator<X, X> {
  const M& A; mutable int calls = 0; int fail = -1; explicit Exact(const M& A_) : A(A_) {}
  void apply(X& x, X& b, InverseOperatorResult& res) override { x = exact(A, b); res.converged = calls++ != fail; }
  void apply(X& x, X& b, double, InverseOperatorResult& res) override { apply(x, b, res); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; }
};
template <int B> using Op_ = MatrixAdapter<Mat<B>, Vec<B>, Vec<B>>;
template <int B> void userCoarse(const Prob& q, int s, const Cfg& f)
{
  using M = Mat<B>; using X = Vec<B>; using Op = Op_<B>; using S = SeqSOR<M, X, X>; using H = MatrixHierarchy<Op, SequentialInformation, std::allocator<X>>;
  Quiet quiet; auto crit = setting<UnsymC<M>>(s); configure(crit, f);
  auto A = matrix<B>(q); auto r = reference(A, crit);
  auto m = method<S, M, X>(r, f.it, f.w, true); m.npre = f.npre; m.npost = f.npost; m.gamma = f.gamma; m.damp = crit.getProlongationDampingFactor();
  H h(std::make_shared<Op>(A)); h.template build<NegateSet<SequentialInformation::OwnerSet>>(crit);
  Exact<M, X> coarse(*r.A.back());
  typename SmootherTraits<S>::Arguments args; args.iterations = f.it; args.relaxationFactor = f.w;
  {
    AMG<Op, X, S> p(h, coarse, args, crit);
    CHECK(p.category() == SolverCategory::sequential, "category");
    CHECK(!p.usesDirectCoarseLevelSolver(), "the coarse solver is not one of the direct solvers");
    applyTwice(p, q, r, m, f, 1e-10);
    CHECK(coarse.calls >= 2, "the coarse solver of the user was called", coarse.calls, "times");
  }
  sameHierarchy(h, r);          // still alive
  levelsSeen = mc::Hash()((int)r.A.size())((int)r.A.back()->N())(q.n).h;
}
template <int B> void fast(const Prob& q, int s, bool user, int steps)
{
  using M = Mat<B>; using X = Vec<B>; using Op = Op_<B>; using S = SeqSOR<M, X, X>; using H = MatrixHierarchy<Op, SequentialInformation, std::allocator<X>>;
  Quiet quiet; auto crit = setting<SymC<M>>(s); Cfg f{1, 1, 1, 1, 1.0, false}; configure(crit, f); crit.setNoPreSmoothSteps(steps); crit.setNoPostSmoothSteps(steps);
  auto A = matrix<B, true>(q); auto r = reference(A, crit);
  auto m = method<S, M, X>(r, 1, 1.0, true); m.damp = crit.getProlongationDampingFactor();
  std::shared_ptr<H> h; std::shared_ptr<Exact<M, X>> coarse; Op op(A);
  using P = FastAMG<Op, X>; std::shared_ptr<P> p;
  if (user) {
    h = std::make_shared<H>(std::make_shared<Op>(A)); h->template build<NegateSet<SequentialInformation::OwnerSet>>(crit);
    coarse = std::make_shared<Exact<M, X>>(*r.A.back());
    p = std::make_shared<P>(*h, *coarse, crit);
  } else p = std::make_shared<P>(op, crit, crit);
  CHECK(p->levels() == r.A.size() && p->maxlevels() == r.A.size(), "levels", p->levels(), "expected", r.A.size());
  CHECK(p->usesDirectCoarseLevelSolver() == !user, "usesDirectCoarseLevelSolver() says", p->usesDirectCoarseLevelSolver());
  CHECK(p->category() == SolverCategory::sequential, "category");
  applyTwice(*p, q, r, m, f, 1e-10);
  P copy(*p); applyTwice(copy, q, r, m, f, 1e-10);
  levelsSeen = mc::Hash()((int)r.A.size())((int)r.A.back()->N())(q.n).h;
}
// one two-grid step whose coarse problem is solved by a Krylov method preconditioned with the two-grid step below
template <class M, class X, class K> struct RefK : Preconditioner<X, X> {
  const Ref<M>& r; const Method<M, X>& m; int l, steps; double red;
  RefK(const Ref<M>& r_, const Method<M, X>& m_, int l_, int s_, double d_) : r(r_), m(m_), l(l_), steps(s_), red(d_) {}
  void pre(X&, X&) override {} void post(X&) override {}
  SolverCategory::Category category() const override { return SolverCategory::sequential; }
  void apply(X& v, const X& d) override {
    const M& A = *r.A[l]; X u = d; u = 0;
    for (int i = 0; i < m.npre; ++i) u += m.pre(l, defect(A, d, u));
    X cd = restricted(r.agg[l], defect(A, d, u), r.A[l + 1]->N()), cu = cd; cu = 0;
    if (l + 2 == (int)r.A.size()) cu = m.coarse(l + 1, cd);
    else {
      RefK below(r, m, l + 1, steps, red); MatrixAdapter<M, X, X> op(r.A[l + 1]); ScalarProduct<X> sp;
      K k(op, sp, below, red, steps, 0); InverseOperatorResult res; k.apply(cu, cd, res);
    }
    prolong(r.agg[l], cu, u, m.damp);
    for (int i = 0; i < m.npost; ++i) u += m.post(l, defect(A, d, u));
    v = u;
  }
};
template <int B, class K> void kamg(const Prob& q, int s, const Cfg& f, int steps, double red, bool user)
{
  using M = Mat<B>; using X = Vec<B>; using Op = Op_<B>; using S = SeqSSOR<M, X, X>; using H = MatrixHierarchy<Op, SequentialInformation, std::allocator<X>>; using P = KAMG<Op, X, S, SequentialInformation, K>;
  Quiet quiet; auto crit = setting<SymC<M>>(s); configure(crit, f);
  auto A = matrix<B, true>(q); auto r = reference(A, crit);
  auto m = method<S, M, X>(r, f.it, f.w, true); m.npre = f.npre; m.npost = f.npost; m.damp = crit.getProlongationDampingFactor();
  typename P::SmootherArgs args; args.iterations = f.it; args.relaxationFactor = f.w;
  std::shared_ptr<H> h; std::shared_ptr<Exact<M, X>> coarse; Op op(A); std::shared_ptr<P> p;
  if (user) {
    h = std::make_shared<H>(std::make_shared<Op>(A)); h->template build<NegateSet<SequentialInformation::OwnerSet>>(crit);
    coarse = std::make_shared<Exact<M, X>>(*r.A.back());
    p = std::make_shared<P>(*h, *coarse, args, crit, steps, red);
  } else p = std::make_shared<P>(op, crit, args, steps, red);
  CHECK(p->maxlevels() == r.A.size(), "levels", p->maxlevels(), "expected", r.A.size());
  for (int round = 0; round < 2; ++round) {          // solve twice with one preconditioner
    X x(q.n), b(q.n); setv(x, 2); setv(b, 1); X x0 = x, b0 = b; p->pre(x, b); preCheck(q, *A, x0, b0, x, b);
    for (int k = 0; k < 2; ++k) {
      X d(q.n), v(q.n), e(q.n); setv(d, 3 + k); X d0 = d; v = 0; p->apply(v, d); same(d, d0, "defect given to apply()", 0);
      if (r.A.size() == 1) e = exact(*A, d); else RefK<M, X, K>(r, m, 0, steps, red).apply(e, d);
      same(v, e, "update", 1e-6);
    }
    p->post(x);
  }
  levelsSeen = mc::Hash()((int)r.A.size())((int)r.A.back()->N())(q.n).h;
}
// a coarse solver that improves the vector it is given by two damped Jacobi steps
template <class Op> struct JacobiPolicy {
  using Operator = Op;
  using X = typename Op::domain_type; using M = typename Op::matrix_type;
  struct CoarseLevelSolver : InverseOperator<X, X> {
    Op* op; SeqJac<M, X, X> jac; SeqScalarProduct<X> sp;
    explicit CoarseLevelSolver(Op& o) : op(&o), jac(o.getmat(), 1, 0.5) {}
    void apply(X& x, X& b, InverseOperatorResult& r) override { for (int k = 0; k < 2; ++k) { X d = b, v = b; op->applyscaleadd(-1, x, d); v = 0; jac.apply(v, d); x += v; } r.converged = true; }
    void apply(X& x, X& b, double, InverseOperatorResult& r) override { apply(x, b, r); }
    SolverCategory::Category category() const override { return SolverCategory::sequential; }
  };
  template <class P> CoarseLevelSolver* createCoarseLevelSolver(P& p) { coarse = p.getCoarseLevelOperator(); return new CoarseLevelSolver(*coarse); }
  std::shared_ptr<Op> coarse;
};
template <int B> void twolevelJacobi(const Prob& q, int s, const Cfg& f)
{
  using M = Mat<B>; using X = Vec<B>; using Op = Op_<B>; using S = SeqSOR<M, X, X>; using C = UnsymC<M>;
  Quiet quiet; C crit = setting<C>(s); crit.setMaxLevel(1); crit.setCoarsenTarget(0); crit.setMinCoarsenRate(0);
  auto A = matrix<B>(q); auto r = reference(A, crit); if (r.A.size() != 2) throw mc::Skip{};
  auto m = method<S, M, X>(r, f.it, f.w, true); m.npre = f.npre; m.npost = f.npost; m.damp = crit.getProlongationDampingFactor();
  SeqJac<M, X, X> jac(*r.A[1], 1, 0.5);
  m.coarse = [&](int, const X& b) { X x = b; x = 0; for (int k = 0; k < 2; ++k) { X d = defect(*r.A[1], b, x), v = d; v = 0; jac.apply(v, d); x += v; } return x; };
  Op op(A); AggregationLevelTransferPolicy<Op, C> policy(crit); JacobiPolicy<Op> cp;
  TwoLevelMethod<Op, JacobiPolicy<Op>, S> p(op, std::make_shared<S>(*A, f.it, f.w), policy, cp, f.npre, f.npost);
  X x(q.n), b(q.n); setv(x, 2); setv(b, 1); p.pre(x, b);
  for (int k = 0; k < 3; ++k) { X d(q.n), v(q.n); setv(d, 3 + k); X d0 = d; v = 0; p.apply(v, d); same(d, d0, "defect given to apply()", 0); same(v, cycle(r, m, 0, d), "update", 1e-10); }
  p.post(x); levelsSeen = mc::Hash()((int)r.A[1]->N())(q.n).h;
}
template <int B> void twolevel(const Prob& q, int s, int s2, const Cfg& f)
{
  using M = Mat<B>; using X = Vec<B>; using Op = Op_<B>; using S = SeqSOR<M, X, X>; using C = UnsymC<M>; using T = SeqJac<M, X, X>;
  Quiet quiet; C crit = setting<C>(s), cc = setting<C>(s2); configure(cc, Cfg{1, 1, 1, 1, 1, false});
  crit.setMaxLevel(1); crit.setCoarsenTarget(0); crit.setMinCoarsenRate(0);
  auto A = matrix<B>(q); auto r = reference(A, crit); if (r.A.size() != 2) throw mc::Skip{};
  auto m = method<S, M, X>(r, f.it, f.w, true); m.npre = f.npre; m.npost = f.npost; m.damp = crit.getProlongationDampingFactor();
  // TwoLevelMethod does not know the direction of the smoother beyond SmootherApplier
  auto r2 = reference(r.A[1], cc); auto m2 = method<T, M, X>(r2, 1, 0.5, true); m2.damp = cc.getProlongationDampingFactor();
  m.coarse = [&](int, const X& d) { return cycle(r2, m2, 0, d); };
  Op op(A); typename SmootherTraits<T>::Arguments args; args.iterations = 1; args.relaxationFactor = 0.5;
  using CP = OneStepAMGCoarseSolverPolicy<Op, T, C>; AggregationLevelTransferPolicy<Op, C> policy(crit); CP cp(args, cc);
  using P = TwoLevelMethod<Op, CP, S>;
  auto p = std::make_shared<P>(op, std::make_shared<S>(*A, f.it, f.w), policy, cp, f.npre, f.npost);
  auto use = [&](P& p) {
    X x(q.n), b(q.n); setv(x, 2); setv(b, 1); p.pre(x, b);
    for (int k = 0; k < 2; ++k) { X d(q.n), v(q.n); setv(d, 3 + k); X d0 = d; v = 0; p.apply(v, d); same(d, d0, "defect given to apply()", 0); same(v, cycle(r, m, 0, d), "update", 1e-10); }
    p.post(x);
  };
  CHECK(p->category() == SolverCategory::sequential, "category");
  P fresh(*p); use(*p); P used(*p); use(used); use(fresh); use(*p);
  p.reset(); use(used); use(fresh);
  levelsSeen = mc::Hash()((int)r.A[1]->N())((int)r2.A.size())(q.n).h;
}
static const std::vector<Cfg> cfgs = {{1, 1, 1, 1, 1.0, false}, {2, 2, 1, 2, 0.75, false}, {1, 0, 1, 2, 1.0, false}, {1, 1, 0, 2, 0.5, false}, {1, 2, 1, 1, 1.0, true}};
static Prob problem(mc::Chooser& c, std::vector<int> kinds)
{
  Prob q;
  if (c.flag("structured")) {
    int fam = c(4, "family"), k = c(mc::thorough() ? 5 : 3, "size"); int size = fam == 1 ? std::vector<int>{3, 5, 6, 8, 9}[k] : std::vector<int>{6, 11, 30, 50, 81}[k];
    q = structured(fam, size);
  } else { int n = c.range(1, 4); q.n = n; q.p = pattern(c, n, false); }
  values(q, c.of(kinds)); return q;
}
// a coarse solve that fails is reported, and only by the application in which it happened
template <int B, bool Fast> void failing(const Prob& q, int which)
{
  using M = Mat<B>; using X = Vec<B>; using Op = Op_<B>; using S = SeqSSOR<M, X, X>; using H = MatrixHierarchy<Op, SequentialInformation, std::allocator<X>>;
  Quiet quiet; auto crit = setting<SymC<M>>(0);
  auto A = matrix<B, true>(q); auto r = reference(A, crit); if (r.A.size() < 2) throw mc::Skip{};
  H h(std::make_shared<Op>(A)); h.template build<NegateSet<SequentialInformation::OwnerSet>>(crit);
  Exact<M, X> coarse(*r.A.back()); coarse.fail = which; typename SmootherTraits<S>::Arguments args;
  auto go = [&](auto& p) {
    X x(q.n), b(q.n); setv(x, 2); setv(b, 1); p.pre(x, b); X first(q.n);
    for (int k = 0; k < 4; ++k) {
      X d(q.n), v(q.n); setv(d, 3); v = 0; bool thrown = false;
      try { p.apply(v, d); } catch (const MathError&) { thrown = true; }
      CHECK(thrown == (k == which), "application", k, thrown ? "reports a failed coarse solve" : "does not report the failed coarse solve", "although the solve", which, "failed");
      if (!thrown) { if (k == (which ? 0 : 1)) first = v; same(v, first, "update", 0); }
    }
    p.post(x);
  };
  if constexpr (Fast) { FastAMG<Op, X> p(h, coarse, crit); go(p); } else { AMG<Op, X, S> p(h, coarse, args, crit); go(p); }
}
#if PART4 == 1
UNIT(coarse_failure) { Prob q = problem(c, {0, 1, 3}); int w = c(3, "failing application"); bool f = c.flag("fast"); if (f) failing<BLK, true>(q, w); else failing<BLK, false>(q, w); }
UNIT(user_coarse) { Prob q = problem(c, {1, 2, 3}); int s = c.of(std::vector<int>{0, 1, 2}), k = c((int)cfgs.size()); noLeak([&] { userCoarse<BLK>(q, s, cfgs[k]); }); mc::state(levelsSeen); }
UNIT(fastamg) { Prob q = problem(c, {0, 1, 3}); int s = c(SETTINGS, "setting"); bool u = c.flag("coarse solver of the user"); int st = c.of(std::vector<int>{1, 2}); noLeak([&] { fast<BLK>(q, s, u, st); }); mc::state(levelsSeen); }
#else
UNIT(kamg_pcg) { Prob q = problem(c, {0, 1, 3}); int s = c.of(std::vector<int>{0, 2, 3, 6}), k = c(4), st = c.of(std::vector<int>{1, 3}); bool u = c.flag("coarse solver of the user"); noLeak([&] { kamg<BLK, GeneralizedPCGSolver<Vec<BLK>>>(q, s, cfgs[k], st, 1e-1, u); }); mc::state(levelsSeen); }
UNIT(kamg_bicg) { Prob q = problem(c, {0, 1, 3}); int s = c.of(std::vector<int>{0, 3}), k = c(4), st = c.of(std::vector<int>{1, 3}); bool u = c.flag("coarse solver of the user"); noLeak([&] { kamg<BLK, BiCGSTABSolver<Vec<BLK>>>(q, s, cfgs[k], st, 1e-3, u); }); mc::state(levelsSeen); }
UNIT(two_level) { Prob q = problem(c, {0, 1, 2, 3}); int s = c.of(std::vector<int>{0, 1, 3}), s2 = c.of(std::vector<int>{0, 1}), k = c(4); noLeak([&] { twolevel<BLK>(q, s, s2, cfgs[k]); }); mc::state(levelsSeen); }
UNIT(two_level_jacobi) { Prob q = problem(c, {0, 1, 2}); int s = c.of(std::vector<int>{0, 1}), k = c(4); noLeak([&] { twolevelJacobi<BLK>(q, s, cfgs[k]); }); mc::state(levelsSeen); }
#endif
#endif
