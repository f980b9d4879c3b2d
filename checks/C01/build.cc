// C01: every build mode of the compressed-row matrix yields exactly the declared pattern and entries.
#include "mc.hh"
#include "track.hh"
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/io.hh>
using namespace Dune;

using Pattern = std::set<std::pair<int, int>>;
using Vals = std::map<std::pair<int, int>, double>;

template <class B> struct Put { static void set(B& b, double v) { b = v; } static double get(const B& b) { return b; } };
template <int r, int c> struct Put<FieldMatrix<double, r, c>> {
  using B = FieldMatrix<double, r, c>;
  static void set(B& b, double v) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) b[i][j] = v + 0.25 * i + 0.125 * j; }
  static double get(const B& b) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (b[i][j] != b[0][0] + 0.25 * i + 0.125 * j) return std::nan(""); return b[0][0]; }
};

template <class A> void verifyPattern(const A& Ac, int n, int m, const Pattern& P) {
  A& a = const_cast<A&>(Ac);
  CHECK(Ac.N() == (size_t)n && Ac.M() == (size_t)m, Ac.N(), "x", Ac.M(), " instead of ", n, "x", m);
  int row = 0;
  for (auto r = Ac.begin(); r != Ac.end(); ++r, ++row) {
    CHECK(r.index() == (size_t)row, "row index");
    std::vector<int> want; for (auto& p : P) if (p.first == row) want.push_back(p.second);
    std::vector<int> got; size_t off = 0;
    for (auto c = r->begin(); c != r->end(); ++c, ++off) { got.push_back((int)c.index()); CHECK(c.offset() == off, "offset"); if (got.size() > 50) break; }
    CHECK(got == want, "row ", row, " has ", got.size(), " entries, wanted ", want.size(), got.empty() ? "" : mc::str(" first ", got[0]));
    std::vector<int> back;
    if (!want.empty()) for (auto c = r->beforeEnd(); c != r->beforeBegin(); --c) { back.insert(back.begin(), (int)c.index()); if (back.size() > 50) break; }
    if (!want.empty()) CHECK(back == want, "reverse iteration of row ", row);
    CHECK(Ac.getrowsize(row) == want.size() && Ac[row].size() == want.size() && Ac[row].getsize() == want.size(), "row size of row ", row);
    for (int j = 0; j < m; ++j) {
      bool in = P.count({row, j});
      CHECK(Ac.exists(row, j) == in, "exists(", row, ",", j, ")");
      auto f = Ac[row].find(j);
      CHECK((f != Ac[row].end()) == in, "find(", row, ",", j, ")");
      if (in) {
        CHECK(f.index() == (size_t)j && &*f == &Ac[row][j] && &a[row][j] == &Ac[row][j], "access paths to (", row, ",", j, ") disagree");
      } else if (n < 5 || (row + j) % 16 == 0) {
        bool thrown = false; try { (void)Ac[row][j]; } catch (ISTLError&) { thrown = true; }
        CHECK(thrown, "access to entry (", row, ",", j, ") outside the pattern is not rejected");
      }
    }
  }
  CHECK(row == n, "row iteration visited ", row, " rows");
  int rb = 0; if (n > 0) for (auto r = Ac.beforeEnd(); r != Ac.beforeBegin(); --r) { CHECK(r.index() == (size_t)(n - 1 - rb), "reverse rows"); ++rb; }
  CHECK(rb == n, "reverse row iteration");
  CHECK(Ac.nonzeroes() == P.size(), "nonzeroes() = ", Ac.nonzeroes(), " instead of ", P.size());
  // all entries are distinct objects
  std::set<const void*> addr; for (auto& p : P) addr.insert(&Ac[p.first][p.second]);
  CHECK(addr.size() == P.size(), "two entries share storage");
  CHECK(Ac.buildStage() == A::built, "not marked as built");
}

template <class A> void useValues(A& a, int n, int m, const Pattern& P) {
  using B = typename A::block_type;
  Vals v; int k = 1;
  for (auto& p : P) { Put<B>::set(a[p.first][p.second], k); v[p] = k; k += 2; }
  for (auto& p : v) CHECK(Put<B>::get(a[p.first.first][p.first.second]) == p.second, "value lost at ", p.first.first, ",", p.first.second);
  int kk = 0; auto it = v.begin();
  for (auto r = a.begin(); r != a.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c, ++it, ++kk) CHECK(Put<B>::get(*c) == it->second, "iteration value");
  CHECK(kk == (int)v.size(), "count");
  // scalar algebra after building
  if constexpr (std::is_same_v<B, double>) {
    a *= 2.0; for (auto& p : v) CHECK(a[p.first.first][p.first.second] == 2 * p.second, "operator*= at ", p.first.first, ",", p.first.second);
    a /= 4.0; for (auto& p : v) CHECK(a[p.first.first][p.first.second] == p.second / 2, "operator/=");
    A c(a);
    verifyPattern(c, n, m, P); verifyPattern(a, n, m, P);
    c *= 2.0; for (auto& p : v) CHECK(c[p.first.first][p.first.second] == p.second && a[p.first.first][p.first.second] == p.second / 2, "copy");
    a = 3.0; for (auto& p : v) CHECK(a[p.first.first][p.first.second] == 3.0, "scalar assignment");
    A d; d = c; verifyPattern(d, n, m, P); verifyPattern(c, n, m, P);
    for (auto& p : v) CHECK(d[p.first.first][p.first.second] == p.second, "assigned copy");
  }
}

static void statePat(const char* mode, int n, int m, const Pattern& P, int extra) {
  mc::Hash h; h(std::string(mode))(n)(m)(extra); for (auto& p : P) h(p.first * 8 + p.second); mc::state(h);
}
static std::string pstr(const Pattern& P) { std::string s; for (auto& p : P) s += mc::str("(", p.first, ",", p.second, ")"); return s; }
static Pattern choosePattern(mc::Chooser& c, int n, int m) {
  Pattern P; for (int i = 0; i < n; ++i) { unsigned b = c.mask(m); for (int j = 0; j < m; ++j) if (b >> j & 1) P.insert({i, j}); }
  NOTE("  pattern ", n, "x", m, " ", pstr(P)); return P;
}
static void chooseDims(mc::Chooser& c, int& n, int& m, bool small = false) {
  static const std::vector<std::pair<int, int>> q = {{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}};
  static const std::vector<std::pair<int, int>> t = {{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 4}, {4, 1}, {2, 4}, {4, 2}, {3, 4}, {4, 3}};
  static const std::vector<std::pair<int, int>> sm(q.begin(), q.end() - 1);
  auto p = c.of(mc::thorough() ? (small ? q : t) : small ? sm : q); n = p.first; m = p.second;
}
// order in which the columns of a row are given
static std::vector<int> rowOrder(int order, const Pattern& P, int row) {
  std::vector<int> w; for (auto& p : P) if (p.first == row) w.push_back(p.second);
  if (order == 1) std::reverse(w.begin(), w.end());
  if (order == 2 && w.size() > 1) std::rotate(w.begin(), w.begin() + 1, w.end());
  if (order == 3) { auto x = w; w.insert(w.end(), x.rbegin(), x.rend()); }  // duplicates
  return w;
}

template <class B> void rowwise(mc::Chooser& c) {
  trk::begin();
  {
    int n, m; chooseDims(c, n, m);
    Pattern P = choosePattern(c, n, m);
    using A = BCRSMatrix<B, std::conditional_t<std::is_same_v<B, trk::Num>, trk::Alloc<B>, std::allocator<B>>>;
    int order = c(4, "order"), nz = c(4, "nnz"), how = c(4, "setup");
    int nnz = nz == 0 ? 0 : nz == 1 ? (int)P.size() : nz == 2 ? (int)P.size() + 2 : (int)P.size() - 1;
    if (nnz < 0 || (nz && nnz == 0)) throw mc::Skip{};
    std::unique_ptr<A> a;
    if (how == 0) { if (nz) a.reset(new A(n, m, nnz, A::row_wise)); else a.reset(new A(n, m, A::row_wise)); }
    else { a.reset(new A); if (how != 2) a->setBuildMode(A::row_wise); if (how == 3) { a->setSize(2, 1, 1); } a->setSize(n, m, nnz); if (how == 2 && c.flag("mode after size")) a->setBuildMode(A::row_wise); }
    bool thrown = false;
    try {
      int row = 0;
      for (auto it = a->createbegin(); it != a->createend(); ++it, ++row) {
        CHECK(it.index() == (size_t)row, "creation row");
        auto w = rowOrder(order, P, row); std::set<int> s;
        for (int j : w) { it.insert(j); s.insert(j); CHECK(it.contains(j), "contains"); CHECK(it.size() == s.size(), "size during creation"); mc::step(); }
        for (int j = 0; j < m; ++j) CHECK(it.contains(j) == (bool)s.count(j), "contains ", j);
      }
    } catch (BCRSMatrixError&) { thrown = true; }
    CHECK(thrown == (nz == 3), "too small reservation ", (thrown ? "rejected" : "accepted"), " nnz=", nnz, " needed ", P.size());
    statePat("rw", n, m, P, order * 100 + nz * 10 + how);
    mc::outcome(thrown ? "row_wise:rejected" : "row_wise:built");
    if (!thrown) { verifyPattern(*a, n, m, P); useValues(*a, n, m, P);
      bool t2 = false; if (n > 0) { try { a->createbegin(); } catch (BCRSMatrixError&) { t2 = true; } CHECK(t2, "second creation of a built matrix accepted"); }
      // reuse of the object
      if (how == 1) { a->setSize(1, 2, nz ? 2 : 0); for (auto it = a->createbegin(); it != a->createend(); ++it) it.insert(1); verifyPattern(*a, 1, 2, {{0, 1}}); }
    }
    a.reset();
    trk::okSoFar();
  }
  trk::finish();
}
UNIT(rowwise_double) { rowwise<double>(c); }
UNIT(rowwise_tracked) { rowwise<trk::Num>(c); }

template <class B> void randomMode(mc::Chooser& c) {
  trk::begin();
  {
    int n, m; chooseDims(c, n, m, true);
    Pattern P = choosePattern(c, n, m);
    using A = BCRSMatrix<B, std::conditional_t<std::is_same_v<B, trk::Num>, trk::Alloc<B>, std::allocator<B>>>;
    int how = c(4, "fill");       // 0 addindex row by row, 1 addindex interleaved, 2 setIndices, 3 setIndicesNoSort
    int over = how >= 2 ? 0 : c(n > 2 ? 4 : 1 << n, "overspecified rows"); // which rows get spare room
    if (n > 2) over = over == 3 ? 7 : over;
    int order = how == 3 ? 0 : c(how == 2 ? 3 : 4, "order");
    int nz = c(4, "nnz");
    int total = (int)P.size(); for (int i = 0; i < n; ++i) if (over >> i & 1) total += 1 + i;
    int nnz = nz == 0 ? 0 : nz == 1 ? total : nz == 2 ? total + 3 : total - 1;
    if (nnz < 0 || (nz && nnz == 0)) throw mc::Skip{};
    std::unique_ptr<A> a;
    int setup = c(3, "setup");
    if (setup == 0) { if (nz) a.reset(new A(n, m, nnz, A::random)); else a.reset(new A(n, m, A::random)); }
    else { a.reset(new A); if (setup == 1) a->setBuildMode(A::random); a->setSize(n, m, nnz); if (setup == 2) a->setBuildMode(A::random); }
    for (int i = 0; i < n; ++i) {
      int s = 0; for (auto& p : P) s += p.first == i; if (over >> i & 1) s += 1 + i;
      if (order == 0) a->setrowsize(i, s); else { a->setrowsize(i, s / 2); a->incrementrowsize(i, s - s / 2); }
      CHECK(a->getrowsize(i) == (size_t)s, "getrowsize"); mc::step();
    }
    bool thrown = false;
    try { a->endrowsizes(); } catch (BCRSMatrixError&) { thrown = true; }
    CHECK(thrown == (nz == 3), "too small reservation ", thrown ? "rejected" : "accepted");
    statePat("rnd", n, m, P, ((how * 4 + order) * 4 + nz) * 8 + over);
    mc::outcome(thrown ? "random:rejected" : over ? "random:built with spare room" : "random:built");
    if (!thrown) {
      if (how >= 2) for (int i = 0; i < n; ++i) {
        auto w = rowOrder(order, P, i);
        if (how == 2) a->setIndices(i, w.begin(), w.end()); else a->setIndicesNoSort(i, w.begin(), w.end());
      } else {
        std::vector<std::vector<int>> w(n); for (int i = 0; i < n; ++i) w[i] = rowOrder(order, P, i);
        if (how == 0) for (int i = n - 1; i >= 0; --i) for (int j : w[i]) a->addindex(i, j), mc::step();
        else for (size_t k = 0; k < 8; ++k) for (int i = 0; i < n; ++i) if (k < w[i].size()) a->addindex(i, w[i][k]), mc::step();
      }
      bool bad = false; if (n && m) { try { a->addindex(0, m); } catch (BCRSMatrixError&) { bad = true; } CHECK(bad, "column index out of range accepted"); }
      // a full row rejects one more
      for (int i = 0; i < n; ++i) { int s = 0, miss = -1; for (int j = 0; j < m; ++j) if (P.count({i, j})) ++s; else miss = j;
        if (!(over >> i & 1) && miss >= 0) { bool full = false; try { a->addindex(i, miss); } catch (BCRSMatrixError&) { full = true; } CHECK(full, "index beyond the size of row ", i, " accepted"); } }
      a->endindices();
      verifyPattern(*a, n, m, P); useValues(*a, n, m, P);
      bool t2 = false; try { a->endindices(); } catch (BCRSMatrixError&) { t2 = true; } CHECK(t2, "endindices on a built matrix");
    } else if (c.flag("reuse after rejection")) {
      a->setSize(n, m, 0); a->setBuildMode(A::random);
      for (int i = 0; i < n; ++i) a->setrowsize(i, m);
      a->endrowsizes(); Pattern F; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { a->addindex(i, j); F.insert({i, j}); }
      a->endindices(); verifyPattern(*a, n, m, F);
    }
    // moving on with the same object
    if (!thrown && setup == 1 && order == 0) { a->setSize(2, 2); a->setBuildMode(A::random); a->setrowsize(0, 1); a->setrowsize(1, 0); a->endrowsizes(); a->addindex(0, 1); a->endindices(); verifyPattern(*a, 2, 2, {{0, 1}}); }
    a.reset();
    trk::okSoFar();
  }
  trk::finish();
}
UNIT(random_double) { randomMode<double>(c); }
UNIT(random_tracked) { randomMode<trk::Num>(c); }

// abandoned constructions: stop anywhere, then destroy or start over
UNIT(abandoned) {
  trk::begin();
  {
    using A = BCRSMatrix<trk::Num, trk::Alloc<trk::Num>>;
    A a; int mode = c(3, "mode"); int nnz = c(2) * 4;
    a.setBuildMode(mode == 0 ? A::row_wise : mode == 1 ? A::random : A::implicit);
    if (mode == 2) { nnz = 0; a.setImplicitBuildModeParameters(c(3, "avg"), 0.5 * c(2)); }
    a.setSize(2, 2, nnz);
    int stop = c(8, "stop"); int k = 0;
    auto at = [&] { return k++ >= stop; };
    if (mode == 0) { auto it = a.createbegin(); if (!at()) { it.insert(0); it.insert(1); if (!at()) { ++it; if (!at()) { it.insert(1); if (!at()) ++it; } } } }
    if (mode == 1) { if (!at()) { a.setrowsize(0, 2); if (!at()) { a.setrowsize(1, 1); if (!at()) { a.endrowsizes(); if (!at()) { a.addindex(0, 1); if (!at()) { a.addindex(1, 1); if (!at()) { a.addindex(0, 0); if (!at()) a.endindices(); } } } } } } }
    bool exhausted = false;
    if (mode == 2) { int e[5][2] = {{0, 0}, {0, 1}, {1, 1}, {1, 0}, {0, 0}}; for (auto& x : e) if (!at()) a.entry(x[0], x[1]) = 1.0; if (!at()) try { a.compress(); } catch (ImplicitModeCompressionBufferExhausted&) { exhausted = true; } }
    mc::state(mc::Hash()(mode)(nnz)(stop)((int)exhausted)((int)a.buildStage()));
    mc::step(stop);
    int next = c(4, "next");
    NOTE("mode ", mode, " nnz ", nnz, " stop after ", stop, " next ", next);
    if (next) {
      if (a.buildMode() == A::implicit) { a.setSize(3, 2); if (next == 1) a.entry(2, 1) = 5.0; bool ex2 = false;
        try { a.compress(); } catch (ImplicitModeCompressionBufferExhausted&) { ex2 = true; }
        if (!ex2) { Pattern P; if (next == 1) P.insert({2, 1}); verifyPattern(a, 3, 2, P); } }
      else {
        a.setSize(3, 2, next == 3 ? 1 : 0); a.setBuildMode(next == 1 ? A::random : A::row_wise);
        if (next == 1) { a.setrowsize(2, 1); a.endrowsizes(); a.addindex(2, 1); a.endindices(); }
        else for (auto it = a.createbegin(); it != a.createend(); ++it) if (it.index() == 2) it.insert(1);
        verifyPattern(a, 3, 2, {{2, 1}});
      }
    }
    mc::outcome(mc::str("abandon mode ", mode, exhausted ? " exhausted" : ""));
    trk::okSoFar();
  }
  trk::finish();
}

// implicit mode: entry() in any order, compress()
template <class B> void implicitMode(mc::Chooser& c, const std::vector<std::pair<int, int>>& seq, int n, int m, int avg, double cbs, int setup, bool builder) {
  using A = BCRSMatrix<B, std::conditional_t<std::is_same_v<B, trk::Num>, trk::Alloc<B>, std::allocator<B>>>;
  std::unique_ptr<A> a;
  std::unique_ptr<ImplicitMatrixBuilder<A>> bld;
  if (builder) { a.reset(new A); bld.reset(new ImplicitMatrixBuilder<A>(*a, n, m, avg, cbs)); CHECK(bld->N() == (size_t)n && bld->M() == (size_t)m, "builder size"); }
  else if (setup == 0) a.reset(new A(n, m, avg, cbs, A::implicit));
  else { a.reset(new A); a->setBuildMode(A::implicit); a->setImplicitBuildModeParameters(avg, cbs); a->setSize(n, m); }
  Vals v; double k = 1;
  for (auto& p : seq) {
    B& e = builder ? (*bld)[p.first][p.second] : a->entry(p.first, p.second);
    mc::step();
    if (v.count(p)) { CHECK(Put<B>::get(e) == v[p], "entry lost its value during assembly"); }
    Put<B>::set(e, k); v[p] = k; k += 1;
  }
  Pattern P; for (auto& x : v) P.insert(x.first);
  // documented guarantee
  bool must = true; long slack = (long)(size_t)((double)((size_t)n * avg) * cbs); size_t mx = 0; std::vector<int> cnt(n);
  for (int i = 0; i < n; ++i) { int nn = 0; for (auto& p : P) nn += p.first == i; cnt[i] = nn; if (nn > avg + slack) must = false; slack += avg - nn; mx = std::max(mx, (size_t)nn); }
  bool thrown = false; size_t over = 0; for (int i = 0; i < n; ++i) over += std::max(0, cnt[i] - avg);
  typename A::CompressionStatistics st;
  try { st = a->compress(); } catch (ImplicitModeCompressionBufferExhausted&) { thrown = true; }
  CHECK(!(must && thrown), "compress() fails although the documented condition for success holds");
  statePat("impl", n, m, P, avg * 10 + (int)(cbs * 10)); mc::outcome(thrown ? "implicit:exhausted" : over ? "implicit:built with overflow" : "implicit:built");
  if (thrown) { if (avg) { a->setSize(n, m); bool again = false; try { a->compress(); } catch (ImplicitModeCompressionBufferExhausted&) { again = true; } CHECK(!again, "empty matrix exhausts"); verifyPattern(*a, n, m, {}); } return; }
  CHECK(st.maximum == mx, "statistics: maximum ", st.maximum, " instead of ", mx);
  CHECK(st.overflow_total == over, "statistics: overflow ", st.overflow_total, " instead of ", over);
  if (n) CHECK(std::fabs(st.avg - double(P.size()) / n) < 1e-12, "statistics: avg ", st.avg);
  verifyPattern(*a, n, m, P);
  for (auto& x : v) CHECK(Put<B>::get((*a)[x.first.first][x.first.second]) == x.second, "value of (", x.first.first, ",", x.first.second, ") not preserved by compress()");
  useValues(*a, n, m, P);
}
static void implPattern(mc::Chooser& c, bool tracked) {
  trk::begin();
  {
    int n, m; chooseDims(c, n, m); Pattern P = choosePattern(c, n, m);
    int order = c(4, "order"), avg = c(m + 2, "avg"); static const std::vector<double> cb = {0, 0.4, 1.0}; double cbs = c.of(cb, "buffer");
    std::vector<std::pair<int, int>> s(P.begin(), P.end());
    if (order == 1) std::reverse(s.begin(), s.end());
    if (order == 2) std::sort(s.begin(), s.end(), [](auto a, auto b) { return std::make_pair(a.second, a.first) < std::make_pair(b.second, b.first); });
    if (order == 3) { auto t = s; for (auto& p : t) s.push_back(p); std::reverse(s.begin(), s.end()); }
    NOTE("  avg ", avg, " buffer ", cbs, " order ", order);
    if (tracked) implicitMode<trk::Num>(c, s, n, m, avg, cbs, order & 1, order == 2); else implicitMode<double>(c, s, n, m, avg, cbs, order & 1, order == 2);
  }
  trk::finish();
}
UNIT(implicit_patterns) { implPattern(c, false); }
UNIT(implicit_patterns_tracked) { implPattern(c, true); }
UNIT(implicit_sequences) {  // every sequence of accesses, repetitions included
  int n = 2, m = 3, L = c.range(0, mc::thorough() ? 6 : 5, "length"); std::vector<std::pair<int, int>> s;
  for (int i = 0; i < L; ++i) { int e = c(n * m); s.push_back({e / m, e % m}); NOTE("  entry(", e / m, ",", e % m, ")"); }
  int avg = c.range(0, 2, "avg"); double cbs = c(2) * 0.5;
  implicitMode<FieldMatrix<double, 2, 2>>(c, s, n, m, avg, cbs, 0, false);
}

// larger shapes: a ladder of sizes and structured patterns, in all modes
UNIT(ladder) {
  static const std::vector<int> sz = {4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 40};
  int n = c.of(sz, "n"), m = n + c(3, "dm") - 1, shape = c(7, "shape"), mode = c(6, "mode");
  Pattern P;
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
    bool in = shape == 0 ? i == j : shape == 1 ? std::abs(i - j) <= 1 : shape == 2 ? (i == 0 || j == 0 || i == j) : shape == 3 ? true : shape == 4 ? i == n - 1 : shape == 5 ? (i * 7 + j * 3) % 5 == 0 : (i % 3 == 1 && j > i);
    if (in) P.insert({i, j});
  }
  using A = BCRSMatrix<double>; A a;
  NOTE("  n ", n, " m ", m, " shape ", shape, " mode ", mode);
  if (mode <= 1) { a.setBuildMode(A::row_wise); a.setSize(n, m, mode ? P.size() + 5 : 0); for (auto it = a.createbegin(); it != a.createend(); ++it) for (int j = m - 1; j >= 0; --j) if (P.count({(int)it.index(), j})) it.insert(j); }
  else if (mode <= 3) {
    a.setBuildMode(A::random); a.setSize(n, m, 0); std::vector<int> cnt(n); for (auto& p : P) cnt[p.first]++;
    for (int i = 0; i < n; ++i) a.setrowsize(i, cnt[i] + (mode == 3 ? i % 4 : 0)); a.endrowsizes();
    for (int q = 0; q < m; ++q) { int j = (q * 7 + 3) % m; if (std::__gcd(7, m) != 1) j = q; for (int i = 0; i < n; ++i) if (P.count({i, j})) a.addindex(i, j); } a.endindices();
  } else {
    a.setBuildMode(A::implicit); a.setImplicitBuildModeParameters(mode == 4 ? m : 3, mode == 4 ? 0.0 : 14.0); a.setSize(n, m);
    double k = 1; for (auto it = P.rbegin(); it != P.rend(); ++it) a.entry(it->first, it->second) = k++;
    bool thrown = false; try { a.compress(); } catch (ImplicitModeCompressionBufferExhausted&) { thrown = true; } CHECK(!thrown, "exhausted");
    k = 1; for (auto it = P.rbegin(); it != P.rend(); ++it) CHECK(a[it->first][it->second] == k++, "value");
  }
  mc::step(P.size()); statePat("ladder", n, m, P, mode); mc::outcome(mc::str("ladder mode ", mode));
  verifyPattern(a, n, m, P); useValues(a, n, m, P);
}
