// C14: dependency graph and aggregation of AMG (paamg/aggregates.hh, dependency.hh, parameters.hh)
#include "mc.hh"
#include "flat.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <set>
using namespace Dune::Amg;
using UL = unsigned long;
using Pat = std::vector<std::vector<char>>;
using Val = std::vector<std::vector<double>>;
template <int B> using Mat = Dune::BCRSMatrix<Dune::FieldMatrix<double, B, B>>;

// ---- reference: norms of the blocks as numbers ----
struct DiagN { int k; template <class M> double operator()(const M& m) const { return m[k][k]; } static const bool sign = true; };
struct RowN { template <class M> double operator()(const M& m) const { double r = 0; for (auto& row : m) { double s = 0; for (double x : row) s += std::abs(x); r = std::max(r, s); } return r; } static const bool sign = false; };
struct FrobN { template <class M> double operator()(const M& m) const { double s = 0; for (auto& row : m) for (double x : row) s += x * x; return std::sqrt(s); } static const bool sign = false; };
struct OneN { template <class M> double operator()(const M&) const { return 1; } static const bool sign = false; };

struct Problem {
  int n; Pat p;
  std::vector<std::vector<std::vector<std::vector<double>>>> a;    // a[i][j][r][s]
  std::vector<char> in;                                            // vertices of the graph
};
struct Ref { std::vector<char> isolated, excluded; std::vector<std::vector<char>> depends, influences; };
enum Kind { Sym, UnSym, SymMat };
template <class N> Ref dependency(const Problem& q, N norm, Kind kind, double alpha, double beta, bool finest)
{
  int n = q.n; Ref r;
  r.isolated.assign(n, 0); r.excluded.assign(n, 0); r.depends.assign(n, std::vector<char>(n, 0)); r.influences = r.depends;
  for (int i = 0; i < n; ++i) if (q.in[i]) {
    double mx = -std::numeric_limits<double>::max(); bool off = false;
    auto strength = [&](int j, double& s) {
      double e = norm(q.a[i][j]);
      if (kind == UnSym) { s = -e; return true; }
      if (kind == Sym) { if (!q.p[j][i]) return false; double f = norm(q.a[j][i]); s = e * f / (norm(q.a[i][i]) * norm(q.a[j][j])); return !N::sign || e < 0 || f < 0; }
      s = e * e / (norm(q.a[i][i]) * norm(q.a[j][j])); return !N::sign || e < 0;
    };
    for (int j = 0; j < n; ++j) if (j != i && q.p[i][j]) {
      double s; if (strength(j, s)) mx = std::max(mx, s);
      for (auto& row : q.a[i][j]) for (double x : row) if (x != 0) off = true;
    }
    r.excluded[i] = finest && !off;
    r.isolated[i] = kind == UnSym ? mx < beta * norm(q.a[i][i]) : mx < beta;
    if (r.isolated[i]) continue;
    for (int j = 0; j < n; ++j) if (j != i && q.p[i][j] && q.in[j]) {
      double s; if (!strength(j, s)) continue;
      if (kind == UnSym ? s >= alpha * mx : s > alpha * mx) {
        r.depends[i][j] = 1;
        if (kind == UnSym) { if (q.p[j][i]) r.influences[j][i] = 1; }
        else { r.influences[i][j] = 1; if (kind == Sym) r.depends[j][i] = r.influences[j][i] = 1; }
      }
    }
  }
  return r;
}
template <int B> Mat<B> matrix(const Problem& q, double scale = 1)
{
  Mat<B> A; A.setBuildMode(Mat<B>::random); A.setSize(q.n, q.n);
  for (int i = 0; i < q.n; ++i) { int s = 0; for (char x : q.p[i]) s += x; A.setrowsize(i, s); }
  A.endrowsizes();
  for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) if (q.p[i][j]) A.addindex(i, j);
  A.endindices();
  for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) if (q.p[i][j]) for (int r = 0; r < B; ++r) for (int s = 0; s < B; ++s) A[i][j][r][s] = scale * q.a[i][j][r][s];
  return A;
}
template <int B> Problem problem(const Val& v, const Pat& p)
{
  Problem q; q.n = (int)p.size(); q.p = p; q.in.assign(q.n, 1);
  q.a.assign(q.n, std::vector<std::vector<std::vector<double>>>(q.n, std::vector<std::vector<double>>(B, std::vector<double>(B, 0))));
  for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) if (p[i][j]) for (int r = 0; r < B; ++r) for (int s = 0; s < B; ++s) {
    double x = v[i][j];
    if (B > 1) { static const double f[3][3] = {{1, 0.5, -0.25}, {-0.125, 2, 0.5}, {0.25, -1, -0.5}}; x *= f[r][s]; if (i == j && r == s) x = v[i][j] * (1 << r); if (r == 1 && s == 1 && i != j) x = v[j][i] * 4; }
    q.a[i][j][r][s] = x;
  }
  return q;
}
using Agg = AggregatesMap<UL>;
struct Result { std::vector<UL> map; std::tuple<int, int, int, int> t; Ref flags; };
template <class G> Ref flagsOf(const Problem& q, G& g)
{
  Ref r; int n = q.n;
  r.isolated.assign(n, 0); r.excluded.assign(n, 0); r.depends.assign(n, std::vector<char>(n, 0)); r.influences = r.depends;
  for (auto v = g.begin(); v != g.end(); ++v) {
    r.isolated[*v] = v.properties().isolated(); r.excluded[*v] = v.properties().excludedBorder();
    CHECK(!v.properties().visited(), "vertex left marked as visited", *v);
    for (auto e = v.begin(); e != v.end(); ++e) { r.depends[*v][e.target()] = e.properties().depends(); r.influences[*v][e.target()] = e.properties().influences(); }
  }
  return r;
}
template <class M, class F> auto withGraph(const Problem& q, const M& A, F f)
{
  typedef MatrixGraph<const M> MG; MG mg(A);
  std::vector<char> all(q.in.begin(), q.in.end());
  if (std::count(all.begin(), all.end(), 0)) {
    std::vector<bool> ex(q.n); for (int i = 0; i < q.n; ++i) ex[i] = !q.in[i];
    typedef SubGraph<MG, std::vector<bool>> SG; SG sg(mg, ex);
    typedef PropertiesGraph<SG, VertexProperties, EdgeProperties, Dune::IdentityMap, typename SG::EdgeIndexMap> PG;
    PG pg(sg, Dune::IdentityMap(), sg.getEdgeIndexMap());
    return f(pg);
  }
  typedef PropertiesGraph<MG, VertexProperties, EdgeProperties> PG; PG pg(mg);
  return f(pg);
}
template <class C, class M> Result aggregate(const Problem& q, const M& A, const C& crit, bool finest)
{
  return withGraph(q, A, [&](auto& pg) {
    Agg map(q.n); Result r;
    r.t = map.buildAggregates(A, pg, crit, finest);
    r.flags = flagsOf(q, pg);
    r.map.assign(map.begin(), map.end());
    map.free();
    return r;
  });
}
static void sameFlags(const Ref& a, const Ref& b)
{
  int n = (int)a.isolated.size();
  for (int i = 0; i < n; ++i) {
    CHECK(a.isolated[i] == b.isolated[i], "isolated flag of row", i, "is", (int)a.isolated[i]);
    CHECK(a.excluded[i] == b.excluded[i], "Dirichlet flag of row", i, "is", (int)a.excluded[i]);
    for (int j = 0; j < n; ++j) {
      CHECK(a.depends[i][j] == b.depends[i][j], "edge", i, j, "depends", (int)a.depends[i][j]);
      CHECK(a.influences[i][j] == b.influences[i][j], "edge", i, j, "influences", (int)a.influences[i][j]);
    }
  }
}
template <class C> void invariants(const Problem& q, const Result& r, const C& c, bool finest, Kind kind)
{
  int n = q.n; const Ref& f = r.flags;
  int k = std::get<0>(r.t), skipped = 0;
  std::vector<std::vector<int>> members(std::max(k, 0));
  for (int i = 0; i < n; ++i) {
    if (!q.in[i]) { CHECK(r.map[i] == Agg::UNAGGREGATED, "row", i, "is not part of the graph but belongs to aggregate", r.map[i]); continue; }
    bool skip = (finest && f.excluded[i]) || (f.isolated[i] && c.skipIsolated());
    CHECK(r.map[i] != Agg::UNAGGREGATED, "row", i, "was not aggregated");
    CHECK((r.map[i] == Agg::ISOLATED) == skip, "row", i, skip ? "must be skipped but is in aggregate" : "must not be skipped but is", r.map[i], "Dirichlet", (int)f.excluded[i], "isolated", (int)f.isolated[i]);
    if (skip) { ++skipped; continue; }
    CHECK(r.map[i] < (UL)k, "aggregate", r.map[i], "of row", i, "number of aggregates", k);
    members[r.map[i]].push_back(i);
  }
  int iso = 0, one = 0;
  for (int a = 0; a < k; ++a) {
    auto& m = members[a];
    CHECK(!m.empty(), "empty aggregate", a, "of", k);
    one += m.size() == 1;
    bool hasIso = false; for (int i : m) if (f.isolated[i]) hasIso = true;
    iso += hasIso;
    // connected (by strong connections if no isolated vertex is contained)
    std::set<int> seen{m[0]}; std::vector<int> todo{m[0]};
    while (!todo.empty()) { int i = todo.back(); todo.pop_back(); for (int j : m) if (j != i && !seen.count(j)) {
      bool e = hasIso ? q.p[i][j] || q.p[j][i] : f.depends[i][j] || f.influences[i][j] || f.depends[j][i] || f.influences[j][i];
      if (e) { seen.insert(j); todo.push_back(j); }
    } }
    CHECK(seen.size() == m.size(), "aggregate", a, hasIso ? "is not connected" : "is not strongly connected");
    if (c.maxAggregateSize() == 1 && !hasIso) CHECK(m.size() == 1, "aggregate of size", m.size(), "although one row is the limit");
    // nobody stays alone who has somebody depending on it
    if (kind != SymMat && m.size() == 1 && !hasIso && c.minAggregateSize() > 1 && c.maxAggregateSize() > 1 && c.maxDistance() > 0)
      for (int j = 0; j < n; ++j) if (j != m[0] && q.in[j] && q.p[m[0]][j] && q.p[j][m[0]] && !f.isolated[j] && !(finest && f.excluded[j]))
        CHECK(!f.depends[j][m[0]], "row", m[0], "was left alone although row", j, "depends on it");
  }
  CHECK(std::get<1>(r.t) == iso, "number of isolated aggregates", std::get<1>(r.t), "found", iso);
  CHECK(std::get<2>(r.t) == one, "number of aggregates with one row", std::get<2>(r.t), "found", one);
  CHECK(std::get<3>(r.t) == skipped, "number of skipped rows", std::get<3>(r.t), "found", skipped);
  mc::state(mc::Hash()((uint64_t)k)((uint64_t)iso)((uint64_t)one)((uint64_t)skipped)((uint64_t)n).h);
  mc::outcome(mc::str("aggregates", std::min(k, 4), "isolated", std::min(iso, 2), "skipped", std::min(skipped, 2)));
}
static std::string showP(const Problem& q) { std::string s; for (int i = 0; i < q.n; ++i) { s += "["; for (int j = 0; j < q.n; ++j) s += q.p[i][j] ? mc::str(q.a[i][j][0][0]) + " " : std::string(". "); s += "]"; } return s; }
struct Cfg { double alpha = 1.0 / 3, beta = 1e-5; std::size_t mn = 4, mx = 6, dist = 2, con = 15; bool skip = false, finest = true; };
template <class C> C crit(const Cfg& g) { C c; c.setAlpha(g.alpha); c.setBeta(g.beta); c.setMinAggregateSize(g.mn); c.setMaxAggregateSize(g.mx); c.setMaxDistance(g.dist); c.setMaxConnectivity(g.con); c.setSkipIsolated(g.skip); c.setDebugLevel(0); return c; }
// deep: dependency + aggregation + repetition + scaling
template <int B, class C, class N> void one(const Problem& q, const Mat<B>& A, const Cfg& g, N norm, Kind kind)
{
  C c = crit<C>(g);
  Ref ref = dependency(q, norm, kind, g.alpha, g.beta, g.finest);
  Result r = aggregate(q, A, c, g.finest);
  mc::step();
  sameFlags(r.flags, ref);
  invariants(q, r, c, g.finest, kind);
}
template <int B, class C> void same(const Problem& q, const Mat<B>& A, const Cfg& g)
{
  C c = crit<C>(g);
  Result r = aggregate(q, A, c, g.finest), r2 = aggregate(q, A, c, g.finest);
  Mat<B> S = matrix<B>(q, 4.0);
  Result r3 = aggregate(q, S, c, g.finest);
  mc::step();
  CHECK(r.map == r2.map && r.t == r2.t, "aggregation is not reproducible");
  CHECK(r.map == r3.map && r.t == r3.t, "aggregation changes when the matrix is multiplied by 4");
}
template <int B, template <class, class> class Crit, class Norm> struct CC { using type = CoarsenCriterion<Crit<Mat<B>, Norm>>; };
template <class M, class N> using SymMatCrit = AggregationCriterion<SymmetricMatrixDependency<M, N>>;
template <int B> void criteria(const Problem& q, const Cfg& g, int only = -1)
{
  Mat<B> A = matrix<B>(q); using M = Mat<B>;
  auto run = [&](int k) {
    switch (k) {
    case 0: one<B, SymmetricCriterion<M, FirstDiagonal>>(q, A, g, DiagN{0}, Sym); break;
    case 1: one<B, UnSymmetricCriterion<M, FirstDiagonal>>(q, A, g, DiagN{0}, UnSym); break;
    case 2: one<B, SymMatCrit<M, FirstDiagonal>>(q, A, g, DiagN{0}, SymMat); break;
    case 3: one<B, SymmetricCriterion<M, Diagonal<B - 1>>>(q, A, g, DiagN{B - 1}, Sym); break;
    case 4: one<B, SymmetricCriterion<M, RowSum>>(q, A, g, RowN(), Sym); break;
    case 5: one<B, SymmetricCriterion<M, FrobeniusNorm>>(q, A, g, FrobN(), Sym); break;
    case 6: one<B, SymmetricCriterion<M, AlwaysOneNorm>>(q, A, g, OneN(), Sym); break;
    case 7: one<B, UnSymmetricCriterion<M, Diagonal<B - 1>>>(q, A, g, DiagN{B - 1}, UnSym); break;
    case 8: one<B, SymMatCrit<M, RowSum>>(q, A, g, RowN(), SymMat); break;
    case 9: same<B, SymmetricCriterion<M, FirstDiagonal>>(q, A, g); same<B, UnSymmetricCriterion<M, FirstDiagonal>>(q, A, g); break;
    }
  };
  if (only >= 0) run(only); else for (int k = 0; k < 10; ++k) run(k);
}
// quick tier: with a hash the options are taken from it instead of being crossed with everything
static Cfg config(mc::Chooser& c, long hash = -1, bool all = true)
{
  if (mc::thorough()) hash = -1;
  Cfg g; int k = hash >= 0 && !all ? int(hash / 4 % 8) : c(8, "configuration");
  static const std::size_t sizes[8][4] = {{4, 6, 2, 15}, {1, 1, 2, 15}, {2, 2, 1, 15}, {2, 3, 2, 15}, {1, 3, 2, 15}, {3, 4, 0, 15}, {4, 4, 3, 15}, {2, 3, 1, 1}};
  g.mn = sizes[k][0]; g.mx = sizes[k][1]; g.dist = sizes[k][2]; g.con = sizes[k][3];
  if (hash >= 0) { g.skip = hash & 1; g.finest = hash & 2; }
  else { g.skip = c.flag("skip isolated"); g.finest = !c.flag("coarse level"); }
  return g;
}
static const double DIAG[] = {4, 2, 8, 4, 1};
#ifdef PART1
// all directed patterns with weak, strong, positive and zero entries
UNIT(directed)
{
  int n = c.range(1, 3, "n"); Cfg g;
  Pat p(n, std::vector<char>(n, 0)); Val v(n, std::vector<double>(n, 0));
  static const double vals[] = {0, -1, -0.25, 0.5, 0};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) { p[i][j] = 1; v[i][j] = DIAG[i]; } else { int k = c(5, "entry"); p[i][j] = k > 0; v[i][j] = vals[k]; } }
  long h = -1;
  if (n == 3) { unsigned k = 7; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k = (k ^ unsigned(v[i][j] * 4 + 9 * p[i][j] + 40)) * 2654435761u; h = (k >> 9) & 0xfffff; }
  g = config(c, h, false);
  static const double al[] = {1.0 / 3, 0.5, 0.25, 0.0}, be[] = {1e-5, 0.125, 0, 2};
  bool few = h >= 0 && !mc::thorough();
  int ab = few ? c(2, "alpha beta") * 2 + (h >> 5) % 2 : c(4, "alpha beta"); g.alpha = al[ab]; g.beta = be[ab];
  Problem q = problem<1>(v, p); NOTE(showP(q));
  int in = n == 1 ? 0 : few ? (h >> 6) % 8 : c(n + 1, "excluded"); if (in && in <= n) q.in[in - 1] = 0;
  mc::state(mc::Hash()(showP(q)).h);
  criteria<1>(q, g, -1);
}
#endif
#ifdef PART2
// symmetric patterns on four (five) rows: every edge absent, strong, weak, or strong one way only; every set of Dirichlet rows
UNIT(symmetric)
{
  int n = c.range(4, mc::thorough() ? 5 : 4, "n");
  Pat p(n, std::vector<char>(n, 0)); Val v(n, std::vector<double>(n, 0));
  for (int i = 0; i < n; ++i) { p[i][i] = 1; v[i][i] = DIAG[(i + 1) % 5] + 4; if (v[i][i] == 6) v[i][i] = 8; }
  for (int i = 0; i < n; ++i) v[i][i] = (i % 2) ? 4 : 8;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) {
    int k = c(n == 5 ? 3 : 4, "edge"); if (!k) continue;
    p[i][j] = p[j][i] = 1;
    v[i][j] = k == 2 ? -0.25 : -1; v[j][i] = k == 1 ? -1 : k == 2 ? -0.25 : -0.03125;
  }
  int dir = c(3, "Dirichlet"); // none, first row, last two rows
  for (int i = 0; i < n; ++i) if ((dir == 1 && i == 0) || (dir == 2 && i >= n - 2)) for (int j = 0; j < n; ++j) if (j != i) v[i][j] = 0;
  unsigned hh = 7; for (auto& r : v) for (double x : r) hh = (hh ^ unsigned(x * 64 + 4096)) * 2654435761u;
  Cfg g = config(c, (hh >> 9) & 0xffff);
  static const int which[] = {0, 1, 9, 6}; int k = mc::thorough() ? c(4, "criterion") : (hh >> 8) % 4;
  if (!mc::thorough() && which[k] == 9) { g.alpha = 0.5; }
  Problem q = problem<1>(v, p); NOTE(showP(q));
  criteria<1>(q, g, which[k]);
}
#endif
#ifdef PART3
// blocks: every norm
UNIT(blocks)
{
  int n = 3; Cfg g;
  Pat p(n, std::vector<char>(n, 0)); Val v(n, std::vector<double>(n, 0));
  static const double vals[] = {0, -1, -0.25, 0.5, 0};
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) { p[i][j] = 1; v[i][j] = DIAG[i]; } else if ((i < j) || mc::thorough()) { int k = c(5, "entry"); p[i][j] = k > 0; v[i][j] = vals[k]; } else { p[i][j] = p[j][i]; v[i][j] = v[j][i] * ((i + j) % 2 ? 1 : 0.5); } }
  g = config(c);
  Problem q = problem<BLK>(v, p); NOTE(showP(q)); criteria<BLK>(q, g);
}
#endif
#ifdef PART2
// structured problems of growing size
UNIT(ladder)
{
  int fam = c(6, "family"), s = c.of(mc::thorough() ? std::vector<int>{3, 5, 8, 12} : std::vector<int>{3, 5, 7}, "size");
  int n = fam < 4 ? s * s : s * s / 2;
  Pat p(n, std::vector<char>(n, 0)); Val v(n, std::vector<double>(n, 0));
  auto set = [&](int i, int j, double x) { p[i][j] = p[j][i] = 1; v[i][j] = v[j][i] = x; };
  for (int i = 0; i < n; ++i) { p[i][i] = 1; v[i][i] = 8; }
  if (fam < 4) for (int y = 0; y < s; ++y) for (int x = 0; x < s; ++x) {
    int i = y * s + x;
    if (x + 1 < s) set(i, i + 1, fam == 2 ? -4 : -1);
    if (y + 1 < s) set(i, i + s, fam == 3 ? -0.0078125 : -1);
    if (fam == 1 && x + 1 < s && y + 1 < s) { set(i, i + s + 1, -0.5); set(i + 1, i + s, -0.5); }
  }
  if (fam == 4) for (int i = 1; i < n; ++i) set(i, i - 1, i % 3 ? -1 : -0.03125);
  if (fam == 5) for (int i = 1; i < n; ++i) set(i, 0, -1);
  int dir = c(4, "Dirichlet");
  for (int i = 0; i < n; ++i) if (dir == 1 ? i < s : dir == 2 ? i % s == s - 1 : dir == 3 ? i % 2 == 0 : false) for (int j = 0; j < n; ++j) if (j != i) v[i][j] = 0;
  int num = c(2, "numbering");
  if (num) { Pat pp = p; Val vv = v; auto perm = [&](int i) { return (i * 7 + 3) % n; }; if (n % 7 == 0) throw mc::Skip{}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { p[perm(i)][perm(j)] = pp[i][j]; v[perm(i)][perm(j)] = vv[i][j]; } }
  Cfg g = config(c, fam + s + dir * 3 + num);
  if (c.flag("isotropic")) { AggregationParameters a; a.setDefaultValuesIsotropic(2, 2 + s % 2); g.mn = a.minAggregateSize(); g.mx = a.maxAggregateSize(); g.dist = a.maxDistance(); }
  Problem q = problem<1>(v, p);
  int ex = c(3, "excluded"); for (int i = 0; i < n; ++i) if (ex == 1 ? i >= n / 2 : ex == 2 ? i % 5 == 0 : false) q.in[i] = 0;
  for (int k : {0, 1, 2, 9}) criteria<1>(q, g, k);
}
#endif
#ifdef PART3
UNIT(parameters)
{
  typedef CoarsenCriterion<SymmetricCriterion<Mat<1>, FirstDiagonal>> C;
  Parameters d(17, 333, 1.5, 0.75, atOnceAccu, true);
  CHECK(d.maxLevel() == 17 && d.coarsenTarget() == 333 && d.minCoarsenRate() == 1.5 && d.getProlongationDampingFactor() == 0.75 && d.accumulate() == atOnceAccu && d.useFixedOrder(), "constructor of Parameters");
  Parameters e;
  CHECK(e.maxLevel() == 100 && e.coarsenTarget() == 1000 && e.minCoarsenRate() == 1.2 && e.getProlongationDampingFactor() == 1.6 && e.accumulate() == successiveAccu && !e.useFixedOrder(), "defaults of the coarsening");
  CHECK(e.maxDistance() == 2 && e.minAggregateSize() == 4 && e.maxAggregateSize() == 6 && e.maxConnectivity() == 15 && !e.skipIsolated() && e.beta() == 1e-5 && e.alpha() == 1.0 / 3, "defaults of the aggregation");
  CHECK(e.getNoPreSmoothSteps() == 2 && e.getNoPostSmoothSteps() == 2 && e.getGamma() == 1 && !e.getAdditive(), "defaults of the cycle");
  int dim = c.range(0, 4, "dim"), dia = c.range(1, 4, "diameter"); int kind = c(4, "kind");
  std::size_t dist, mn, mx;
  if (kind == 0) { Parameters x; x.setDefaultValuesIsotropic(dim, dia); dist = x.maxDistance(); mn = x.minAggregateSize(); mx = x.maxAggregateSize(); }
  else if (kind == 1) { if (!dim) throw mc::Skip{}; Parameters x; x.setDefaultValuesAnisotropic(dim, dia); dist = x.maxDistance(); mn = x.minAggregateSize(); mx = x.maxAggregateSize(); }
  else if (kind == 2) { C x; x.setDefaultValuesIsotropic(dim, dia); dist = x.maxDistance(); mn = x.minAggregateSize(); mx = x.maxAggregateSize(); }
  else { if (!dim) throw mc::Skip{}; C x; x.setDefaultValuesAnisotropic(dim, dia); dist = x.maxDistance(); mn = x.minAggregateSize(); mx = x.maxAggregateSize(); }
  std::size_t cube = 1; for (int k = 0; k < dim; ++k) cube *= dia;
  CHECK(mn == cube && mx == cube + cube / 2, "aggregate sizes for dimension", dim, "diameter", dia, ":", mn, mx);
  CHECK((int)dist == (dia - 1) * (dim + 1) + (kind % 2 ? dim - 1 : 0), "distance for dimension", dim, "diameter", dia, ":", dist);
  // parameters survive the conversion to a criterion
  Parameters x(c.range(1, 3, "levels"), 50 + dim, 1.1, 0.5, c.flag("accu") ? noAccu : successiveAccu, c.flag("fixed"));
  x.setAlpha(0.25); x.setBeta(0.125); x.setMinAggregateSize(3); x.setMaxAggregateSize(7); x.setMaxDistance(5); x.setMaxConnectivity(9); x.setSkipIsolated(true); x.setDebugLevel(1);
  x.setNoPreSmoothSteps(dim); x.setNoPostSmoothSteps(dia); x.setGamma(2); x.setAdditive(true);
  C y(x);
  CHECK(y.maxLevel() == x.maxLevel() && y.coarsenTarget() == 50 + dim && y.minCoarsenRate() == 1.1 && y.getProlongationDampingFactor() == 0.5 && y.accumulate() == x.accumulate() && y.useFixedOrder() == x.useFixedOrder(), "coarsening parameters of a criterion");
  CHECK(y.alpha() == 0.25 && y.beta() == 0.125 && y.minAggregateSize() == 3 && y.maxAggregateSize() == 7 && y.maxDistance() == 5 && y.maxConnectivity() == 9 && y.skipIsolated() && y.debugLevel() == 1, "aggregation parameters of a criterion");
  CHECK((int)y.getNoPreSmoothSteps() == dim && (int)y.getNoPostSmoothSteps() == dia && y.getGamma() == 2 && y.getAdditive(), "cycle parameters of a criterion");
  y.setAccumulate(noAccu); CHECK(y.accumulate() == noAccu, "setAccumulate"); y.setAccumulate(atOnceAccu); CHECK(y.accumulate() == atOnceAccu, "setAccumulate");
  C z(9, 77, 1.25, 1.75, noAccu, true);
  CHECK(z.maxLevel() == 9 && z.coarsenTarget() == 77 && z.minCoarsenRate() == 1.25 && z.getProlongationDampingFactor() == 1.75 && z.accumulate() == noAccu && z.useFixedOrder(), "constructor of a criterion");
  mc::outcome("parameters");
}
#endif
