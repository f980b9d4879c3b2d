// C02: value semantics of sparse matrices over all operation sequences on a few live objects.
#include "mc.hh"
#include "track.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <optional>
using namespace Dune;
using Num = trk::Num;
using A = BCRSMatrix<Num, trk::Alloc<Num>>;
struct Ref { int n = 0, m = 0; bool built = false; std::map<std::pair<int, int>, double> v; };

// the ways a matrix can come into existence, on one of a few patterns
static const std::vector<std::vector<std::pair<int, int>>> pats = {
  {{0, 1}, {1, 0}, {1, 2}}, {{0, 0}, {0, 2}}, {{1, 1}}, {}, {{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {2, 2}} };
static const int dims[5][2] = {{2, 3}, {2, 3}, {2, 2}, {0, 0}, {3, 3}};
static const char* modeName[] = {"row_wise, one array", "row_wise, array per row", "random", "random with spare room", "implicit"};

static void fill(A& a, int p) { double k = 1 + 10 * p; for (auto& e : pats[p]) a[e.first][e.second] = k++; }
static Ref refOf(int p) { Ref r; r.n = dims[p][0]; r.m = dims[p][1]; r.built = true; double k = 1 + 10 * p; for (auto& e : pats[p]) r.v[e] = k++; return r; }
static void build(A& a, int p, int mode) {  // a has been freshly constructed or is re-set-up
  int n = dims[p][0], m = dims[p][1]; auto& P = pats[p];
  if (mode <= 1) { a.setSize(n, m, mode == 0 ? P.size() + (p == 0) : 0); a.setBuildMode(A::row_wise); for (auto it = a.createbegin(); it != a.createend(); ++it) for (auto& e : P) if (e.first == (int)it.index()) it.insert(e.second); }
  else if (mode <= 3) { a.setSize(n, m); a.setBuildMode(A::random); std::vector<int> c(n); for (auto& e : P) c[e.first]++; for (int i = 0; i < n; ++i) a.setrowsize(i, c[i] + (mode == 3)); a.endrowsizes(); for (auto& e : P) a.addindex(e.first, e.second); a.endindices(); }
  else { for (auto& e : P) a.entry(e.first, e.second) = 0.0; a.compress(); }
  fill(a, p);
}
static A* make(int p, int mode) {
  int n = dims[p][0], m = dims[p][1];
  if (mode == 4) { A* a = new A(n, m, 2, 2.0, A::implicit); build(*a, p, 4); return a; }
  A* a = new A; build(*a, p, mode); return a;
}
static void verify(A* a, const std::optional<Ref>& r, int slot) {
  if (!r) return;
  CHECK(a->N() == (size_t)r->n && a->M() == (size_t)r->m, "object ", slot, " has size ", a->N(), "x", a->M(), " instead of ", r->n, "x", r->m);
  if (!r->built) return;
  std::map<std::pair<int, int>, double> got; int last;
  const A& ca = *a; size_t cnt = 0;
  for (auto i = ca.begin(); i != ca.end(); ++i) { last = -1; for (auto j = i->begin(); j != i->end(); ++j) { CHECK((int)j.index() > last, "object ", slot, ": columns of row ", i.index(), " not ascending"); last = (int)j.index(); got[{(int)i.index(), last}] = *j; if (++cnt > 40) mc::fail("runaway row"); } }
  if (got != r->v) { std::string s; for (auto& g : got) s += mc::str("(", g.first.first, ",", g.first.second, ")=", g.second, " "); std::string w; for (auto& g : r->v) w += mc::str("(", g.first.first, ",", g.first.second, ")=", g.second, " "); mc::fail("object ", slot, " holds ", s, " instead of ", w); }
  ++mc::stats().checks;
  CHECK(ca.nonzeroes() == r->v.size(), "object ", slot, ": nonzeroes ", ca.nonzeroes(), " instead of ", r->v.size());
  trk::okSoFar();
}
static void stateOf(const std::vector<std::optional<Ref>>& R) { mc::Hash h; for (auto& r : R) { if (!r) { h(7777); continue; } h(r->n)(r->m)((int)r->built); for (auto& e : r->v) h(e.first.first * 10 + e.first.second)(e.second); } mc::state(h); }

static void run(mc::Chooser& c, int slots, int depth, int npat, int nmode) {
  trk::begin();
  {
    std::vector<std::unique_ptr<A>> o(slots); std::vector<std::optional<Ref>> R(slots);
    // start: object 0 built in some mode on some pattern
    int p0 = c(npat, "pattern"), m0 = c(nmode, "mode");
    o[0].reset(make(p0, m0)); R[0] = refOf(p0); NOTE("  object 0: ", modeName[m0], ", pattern ", p0);
    verify(o[0].get(), R[0], 0);
    for (int d = 0; d < depth; ++d) {
      // operations: (op, slot[, other])
      int op = c(11, "op"), s = c(slots, "slot");
      mc::step();
      switch (op) {
      case 0: { int t = c(slots); if (t == s || !o[t]) throw mc::Skip{}; NOTE("  ", s, " = new copy of ", t); o[s].reset(new A(*o[t])); R[s] = R[t]; break; }
      case 1: { int t = c(slots); if (!o[s] || !o[t]) throw mc::Skip{}; NOTE("  ", s, " = ", t); *o[s] = *o[t]; R[s] = R[t]; break; }
      case 2: { if (!o[s]) throw mc::Skip{}; NOTE("  destroy ", s); o[s].reset(); R[s].reset(); break; }
      case 3: { if (!o[s] || !R[s]->built || R[s]->v.empty()) throw mc::Skip{}; NOTE("  ", s, " *= 2"); *o[s] *= 2.0; for (auto& e : R[s]->v) e.second *= 2; break; }
      case 4: { if (!o[s] || !R[s]->built || R[s]->v.empty()) throw mc::Skip{}; auto e = *R[s]->v.rbegin(); NOTE("  change last entry of ", s); (*o[s])[e.first.first][e.first.second] = 77.0; R[s]->v[e.first] = 77; break; }
      case 5: { if (!o[s] || !R[s]->built) throw mc::Skip{}; NOTE("  ", s, " = 5"); *o[s] = 5.0; for (auto& e : R[s]->v) e.second = 5; break; }
      case 6: { int p = c(npat), m = c(nmode); if (!o[s]) throw mc::Skip{}; if (o[s]->buildMode() == A::implicit && m < 4) throw mc::Skip{};
                if (m == 4) { if (R[s]->built && o[s]->buildMode() != A::implicit) throw mc::Skip{}; if (!R[s]->built) { o[s]->setBuildMode(A::implicit); o[s]->setImplicitBuildModeParameters(2, 2.0); } o[s]->setSize(dims[p][0], dims[p][1]); }
                NOTE("  set up ", s, " again, ", modeName[m], ", pattern ", p); build(*o[s], p, m); R[s] = refOf(p); break; }
      case 7: { if (o[s]) throw mc::Skip{}; NOTE("  ", s, " = empty object"); o[s].reset(new A); R[s] = Ref(); break; }
      case 8: { if (!o[s] || !R[s]->built) throw mc::Skip{}; NOTE("  nonzeroes of ", s, "; self assignment"); (void)o[s]->nonzeroes(); A& x = *o[s]; x = *o[s]; break; }
      case 9: { int t = c(slots); if (t == s || !o[t] || !o[s] || !R[s]->built || !R[t]->built) throw mc::Skip{}; bool sub = R[s]->n == R[t]->n && R[s]->m == R[t]->m; for (auto& e : R[t]->v) sub &= R[s]->v.count(e.first); if (!sub) throw mc::Skip{};
                NOTE("  ", s, " += ", t); *o[s] += *o[t]; for (auto e : std::map(R[t]->v)) R[s]->v[e.first] += e.second; break; }
      case 10: { int t = c(slots); if (t <= s || !o[t] || !o[s]) throw mc::Skip{}; NOTE("  swap ", s, " and ", t); std::swap(*o[s], *o[t]); std::swap(R[s], R[t]); break; }
      }
      for (int i = 0; i < slots; ++i) if (o[i]) verify(o[i].get(), R[i], i);
      stateOf(R);
    }
    mc::outcome(mc::str("live objects ", std::count_if(o.begin(), o.end(), [](auto& x) { return (bool)x; })));
    for (int i = 0; i < slots; ++i) { o[i].reset(); for (int j = i + 1; j < slots; ++j) if (o[j]) verify(o[j].get(), R[j], j); }
    trk::okSoFar();
  }
  trk::finish();
}
UNIT(two_objects) { run(c, 2, mc::thorough() ? 4 : 3, 5, 5); }
UNIT(three_objects) { run(c, 3, mc::thorough() ? 4 : 3, 2, 5); }
