// C02: value semantics of the block vectors and the dense matrix over all operation sequences.
#include "mc.hh"
#include "track.hh"
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <optional>
using namespace Dune;
using Num = trk::Num;
using BV = BlockVector<Num, trk::Alloc<Num>>;
using VV = VariableBlockVector<Num, trk::Alloc<Num>>;
using DM = Matrix<Num, trk::Alloc<Num>>;

static void verifyBV(const BV& v, const std::vector<double>& r, int slot) {
  CHECK(v.N() == r.size() && v.size() == r.size(), "object ", slot, " has ", v.N(), " blocks instead of ", r.size());
  size_t k = 0;
  for (auto it = v.begin(); it != v.end(); ++it, ++k) { CHECK(it.index() == k && &*it == &v[k], "iterator index"); CHECK((double)*it == r[k], "object ", slot, " block ", k, " is ", (double)*it, " instead of ", r[k]); }
  CHECK(k == r.size(), "iteration"); CHECK(v.dim() == r.size(), "dim");
  CHECK(v.capacity() >= v.size(), "capacity");
  if (!r.empty()) { k = r.size(); for (auto it = v.beforeEnd(); it != v.beforeBegin(); --it) CHECK((double)*it == r[--k], "reverse"); CHECK(k == 0, "reverse count"); }
  for (size_t i = 0; i <= r.size(); ++i) CHECK((v.find(i) == v.end()) == (i == r.size()), "find");
  trk::okSoFar();
}
UNIT(blockvector) {
  trk::begin();
  {
    const int S = 2; std::unique_ptr<BV> o[S]; std::vector<double> R[S]; double k = 1;
    int depth = mc::thorough() ? 5 : 4;
    o[0].reset(new BV(2)); R[0] = {0, 0};
    for (int d = 0; d < depth; ++d) {
      int op = c(13), s = c(S); mc::step();
      int t = 1 - s;
      switch (op) {
      case 0: { int n = c(4); NOTE("  ", s, " = BlockVector(", n, ")"); o[s].reset(new BV(n)); R[s].assign(n, 0); break; }
      case 1: { int n = c(4); if (!o[s]) throw mc::Skip{}; NOTE("  ", s, ".resize(", n, ")"); o[s]->resize(n); R[s].resize(n, 0); break; }
      case 2: { int n = c(3) * 3; if (!o[s]) throw mc::Skip{}; NOTE("  ", s, ".reserve(", n, ")"); o[s]->reserve(n); CHECK(o[s]->capacity() >= (size_t)n, "reserve"); break; }
      case 3: { if (!o[t]) throw mc::Skip{}; NOTE("  ", s, " = new copy of ", t); o[s].reset(new BV(*o[t])); R[s] = R[t]; break; }
      case 4: { int q = c(2) ? s : t; if (!o[s] || !o[q]) throw mc::Skip{}; NOTE("  ", s, " = ", q); *o[s] = *o[q]; R[s] = std::vector<double>(R[q]); break; }
      case 5: { if (!o[t]) throw mc::Skip{}; NOTE("  ", s, " = moved from ", t); o[s].reset(new BV(std::move(*o[t]))); R[s] = R[t]; o[t].reset(); R[t].clear(); break; }
      case 6: { if (!o[s] || !o[t]) throw mc::Skip{}; NOTE("  ", s, " = move(", t, ")"); *o[s] = std::move(*o[t]); R[s] = R[t]; o[t].reset(); R[t].clear(); break; }
      case 7: { if (s || !o[s] || !o[t]) throw mc::Skip{}; NOTE("  swap"); o[s]->swap(*o[t]); std::swap(R[s], R[t]); break; }
      case 8: { if (!o[s]) throw mc::Skip{}; NOTE("  ", s, " = 5"); *o[s] = 5.0; for (auto& x : R[s]) x = 5; break; }
      case 9: { if (!o[s] || R[s].empty()) throw mc::Skip{}; NOTE("  change last of ", s); (*o[s])[R[s].size() - 1] = ++k; R[s].back() = k; break; }
      case 10: { if (!o[s] || !o[t] || R[s].size() != R[t].size()) throw mc::Skip{}; NOTE("  axpy"); o[s]->axpy(2.0, *o[t]); for (size_t i = 0; i < R[s].size(); ++i) R[s][i] += 2 * R[t][i]; break; }
      case 11: { NOTE("  ", s, " = {7,8}"); o[s].reset(new BV({Num(7), Num(8)})); R[s] = {7, 8}; break; }
      case 12: { int cap = c(2) * 4; NOTE("  ", s, " = BlockVector(2,capacity ", cap, ")"); o[s].reset(new BV(2, cap)); CHECK(o[s]->capacity() >= (size_t)cap, "capacity"); R[s] = {0, 0}; break; }
      }
      mc::Hash h; for (int i = 0; i < S; ++i) { if (o[i]) verifyBV(*o[i], R[i], i); h((int)(bool)o[i]); for (double x : R[i]) h(x); h(99); } mc::state(h);
    }
    mc::outcome("blockvector");
  }
  trk::finish();
}

using RV = std::vector<std::vector<double>>;
static void verifyVV(const VV& v, const RV& r, int slot) {
  CHECK(v.N() == r.size() && v.size() == r.size(), "object ", slot, " has ", v.N(), " blocks instead of ", r.size());
  size_t tot = 0, k = 0; const Num* expect = nullptr; (void)expect;
  for (auto it = v.begin(); it != v.end(); ++it, ++k) {
    CHECK(it.index() == k, "index"); CHECK(it->N() == r[k].size(), "object ", slot, " block ", k, " has size ", it->N(), " instead of ", r[k].size());
    for (size_t j = 0; j < r[k].size(); ++j) CHECK((double)(*it)[j] == r[k][j] && &(*it)[j] == &v[k][j], "object ", slot, " entry ", k, ",", j, " is ", (double)(*it)[j], " instead of ", r[k][j]);
    tot += r[k].size();
  }
  CHECK(k == r.size(), "iteration"); CHECK(v.dim() == tot, "dim ", v.dim(), " instead of ", tot);
  if (!r.empty()) { k = r.size(); for (auto it = v.beforeEnd(); ; --it) { --k; CHECK(it->N() == r[k].size(), "reverse"); if (k == 0) break; } }
  for (size_t i = 0; i <= r.size(); ++i) CHECK((v.find(i) == v.end()) == (i == r.size()), "find");
  trk::okSoFar();
}
UNIT(variableblockvector) {
  trk::begin();
  {
    const int S = 2; std::unique_ptr<VV> o[S]; RV R[S]; bool ok[S] = {false, false}; double k = 1;
    static const std::vector<std::vector<int>> szs = {{1, 2}, {0, 3, 1}, {}, {0}};
    auto create = [&](int s, int z) {
      auto it = o[s]->createbegin(); auto e = o[s]->createend(); size_t b = 0; RV r;
      for (; it != e; ++it, ++b) { CHECK(it.index() == b, "creation index"); if (z % 2) it.setblocksize(szs[z][b]); else { *it = szs[z][b]; CHECK((size_t)*it == (size_t)szs[z][b], "size proxy"); } r.push_back(std::vector<double>(szs[z][b], 0)); }
      return r;
    };
    int depth = mc::thorough() ? 5 : 4;
    o[0].reset(new VV(2, 2)); R[0] = {{0, 0}, {0, 0}}; ok[0] = true;
    for (int d = 0; d < depth; ++d) {
      int op = c(12), s = c(S), t = 1 - s; mc::step();
      switch (op) {
      case 0: { int z = c((int)szs.size()); NOTE("  ", s, " created with sizes list ", z); o[s].reset(new VV(szs[z].size())); R[s] = create(s, z); ok[s] = true; break; }
      case 1: { int z = c((int)szs.size()); if (!o[s]) throw mc::Skip{}; NOTE("  ", s, ".resize(", szs[z].size(), ") and created, list ", z); o[s]->resize(szs[z].size()); R[s] = create(s, z); ok[s] = true; *o[s] = 0.0; break; }
      case 2: { static const int nb[4][2] = {{0, 0}, {2, 0}, {1, 2}, {3, 1}}; int z = c(4), n = nb[z][0], b = nb[z][1]; if (!o[s]) throw mc::Skip{}; NOTE("  ", s, ".resize(", n, ",", b, ")"); o[s]->resize(n, b); *o[s] = 0.0; R[s].assign(n, std::vector<double>(b, 0)); ok[s] = true; break; }
      case 3: { if (!o[t]) throw mc::Skip{}; NOTE("  ", s, " = new copy of ", t); o[s].reset(new VV(*o[t])); R[s] = R[t]; ok[s] = ok[t]; break; }
      case 4: { int q = c(2) ? s : t; if (!o[s] || !o[q]) throw mc::Skip{}; NOTE("  ", s, " = ", q); *o[s] = *o[q]; RV x = R[q]; R[s] = x; ok[s] = ok[q]; break; }
      case 5: { if (!o[t]) throw mc::Skip{}; NOTE("  ", s, " moved from ", t); o[s].reset(new VV(std::move(*o[t]))); R[s] = R[t]; ok[s] = ok[t]; o[t].reset(); ok[t] = false; R[t].clear(); break; }
      case 6: { if (!o[s] || !o[t]) throw mc::Skip{}; NOTE("  ", s, " = move(", t, ")"); *o[s] = std::move(*o[t]); R[s] = R[t]; ok[s] = ok[t]; o[t].reset(); ok[t] = false; R[t].clear(); break; }
      case 7: { if (s || !o[s] || !o[t]) throw mc::Skip{}; NOTE("  swap"); if (c(2)) o[s]->swap(*o[t]); else swap(*o[s], *o[t]); std::swap(R[s], R[t]); std::swap(ok[s], ok[t]); break; }
      case 8: { if (!o[s] || !ok[s]) throw mc::Skip{}; NOTE("  ", s, " = 5"); *o[s] = 5.0; for (auto& x : R[s]) for (auto& y : x) y = 5; break; }
      case 9: { if (!o[s] || !ok[s]) throw mc::Skip{}; NOTE("  change ", s); for (size_t b = R[s].size(); b-- > 0;) if (!R[s][b].empty()) { (*o[s])[b][R[s][b].size() - 1] = ++k; R[s][b].back() = k; break; } break; }
      case 10: { if (!o[s]) throw mc::Skip{}; NOTE("  ", s, ".resize(3), only the last size set"); o[s]->resize(3); { auto it = o[s]->createbegin(); ++it; ++it; *it = 2; ++it; } R[s] = {{}, {}, {0, 0}}; ok[s] = true; *o[s] = 0.0; break; }
      case 11: { if (!o[s] || !ok[s]) throw mc::Skip{}; NOTE("  blocks of ", s, " as independent vectors"); for (size_t b = 0; b < R[s].size(); ++b) { BV x = (*o[s])[b]; verifyBV(x, R[s][b], s); x = -1.0; } break; }
      }
      mc::Hash h; for (int i = 0; i < S; ++i) { if (o[i] && ok[i]) verifyVV(*o[i], R[i], i); h((int)(bool)o[i])((int)ok[i]); for (auto& b : R[i]) { for (double x : b) h(x); h(98); } h(99); } mc::state(h);
    }
    mc::outcome("variableblockvector");
  }
  trk::finish();
}

struct RM { int n = 0, m = 0; std::vector<double> v; };
static void verifyDM(const DM& a, const RM& r, int slot) {
  CHECK(a.N() == (size_t)r.n && a.M() == (size_t)r.m, "object ", slot, " is ", a.N(), "x", a.M(), " instead of ", r.n, "x", r.m);
  for (int i = 0; i < r.n; ++i) { CHECK(a[i].N() == (size_t)r.m, "row size"); for (int j = 0; j < r.m; ++j) { CHECK((double)a[i][j] == r.v[i * r.m + j], "object ", slot, " entry ", i, ",", j, " is ", (double)a[i][j], " instead of ", r.v[i * r.m + j]); CHECK(a.exists(i, j), "exists"); } }
  if (r.m > 0) { int i = 0; for (auto row = a.begin(); row != a.end(); ++row, ++i) { CHECK(row.index() == (size_t)i, "row index"); int j = 0; for (auto col = row->begin(); col != row->end(); ++col, ++j) CHECK(col.index() == (size_t)j && (double)*col == r.v[i * r.m + j], "iteration"); CHECK(j == r.m, "columns"); } CHECK(i == r.n, "rows"); }
  trk::okSoFar();
}
UNIT(densematrix) {
  trk::begin();
  {
    const int S = 2; std::unique_ptr<DM> o[S]; RM R[S]; double k = 1;
    static const int D[7][2] = {{2, 2}, {1, 4}, {4, 1}, {2, 3}, {0, 2}, {2, 0}, {3, 2}};
    auto fresh = [&](int s, int d) { R[s].n = D[d][0]; R[s].m = D[d][1]; R[s].v.assign(R[s].n * R[s].m, 0); for (int i = 0; i < R[s].n; ++i) for (int j = 0; j < R[s].m; ++j) { R[s].v[i * R[s].m + j] = ++k; (*o[s])[i][j] = k; } };
    int depth = mc::thorough() ? 5 : 4;
    o[0].reset(new DM(2, 3)); fresh(0, 3);
    for (int d = 0; d < depth; ++d) {
      int op = c(10), s = c(S), t = 1 - s; mc::step();
      switch (op) {
      case 0: { int z = c(7); NOTE("  ", s, " = Matrix(", D[z][0], ",", D[z][1], ")"); o[s].reset(new DM(D[z][0], D[z][1])); fresh(s, z); break; }
      case 1: { int z = c(7); if (!o[s]) throw mc::Skip{}; NOTE("  ", s, ".setSize(", D[z][0], ",", D[z][1], ")"); o[s]->setSize(D[z][0], D[z][1]); fresh(s, z); break; }
      case 2: { if (!o[t]) throw mc::Skip{}; NOTE("  ", s, " = new copy of ", t); o[s].reset(new DM(*o[t])); R[s] = R[t]; break; }
      case 3: { int q = c(2) ? s : t; if (!o[s] || !o[q]) throw mc::Skip{}; NOTE("  ", s, " = ", q); *o[s] = *o[q]; RM x = R[q]; R[s] = x; break; }
      case 4: { if (s || !o[s] || !o[t]) throw mc::Skip{}; NOTE("  swap"); std::swap(*o[s], *o[t]); std::swap(R[s], R[t]); break; }
      case 5: { if (!o[s]) throw mc::Skip{}; NOTE("  ", s, " = 5"); *o[s] = 5.0; for (auto& x : R[s].v) x = 5; break; }
      case 6: { if (!o[s]) throw mc::Skip{}; NOTE("  ", s, " *= 2"); *o[s] += *o[s]; for (auto& x : R[s].v) x *= 2; break; }
      case 7: { if (!o[s] || R[s].v.empty()) throw mc::Skip{}; NOTE("  change ", s); (*o[s])[R[s].n - 1][R[s].m - 1] = ++k; R[s].v.back() = k; break; }
      case 8: { if (!o[s]) throw mc::Skip{}; NOTE("  ", t, " = transpose of ", s); if (!o[t]) o[t].reset(new DM); *o[t] = o[s]->transpose(); RM x; x.n = R[s].m; x.m = R[s].n; x.v.resize(R[s].v.size()); for (int i = 0; i < R[s].n; ++i) for (int j = 0; j < R[s].m; ++j) x.v[j * x.m + i] = R[s].v[i * R[s].m + j]; R[t] = x; break; }
      case 9: { if (!o[s] || !o[t] || R[s].n != R[t].n || R[s].m != R[t].m) throw mc::Skip{}; NOTE("  ", s, " -= ", t); *o[s] -= *o[t]; for (size_t i = 0; i < R[s].v.size(); ++i) R[s].v[i] -= R[t].v[i]; break; }
      }
      mc::Hash h; for (int i = 0; i < S; ++i) { if (o[i]) verifyDM(*o[i], R[i], i); h((int)(bool)o[i])(R[i].n)(R[i].m); for (double x : R[i].v) h(x); h(99); } mc::state(h);
    }
    mc::outcome("densematrix");
  }
  trk::finish();
}

// (block) diagonal and tridiagonal matrices: sizes, re-sizing, copies and exact band pattern
template <class M, int band> void banded(mc::Chooser& c) {
  const int S = 2; std::unique_ptr<M> o[S]; std::map<std::pair<int, int>, double> R[S]; int n[S] = {0, 0}; double k = 1;
  auto fresh = [&](int s) { R[s].clear(); for (int i = 0; i < n[s]; ++i) for (int j = 0; j < n[s]; ++j) if (std::abs(i - j) <= band) { (*o[s])[i][j] = ++k; R[s][{i, j}] = k; } };
  auto verify = [&](int s) {
    const M& a = *o[s]; CHECK(a.N() == (size_t)n[s] && a.M() == (size_t)n[s], "object ", s, " is ", a.N(), "x", a.M(), " instead of ", n[s]);
    std::map<std::pair<int, int>, double> got; for (auto i = a.begin(); i != a.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) got[{(int)i.index(), (int)j.index()}] = *j;
    CHECK(got == R[s], "object ", s, ": entries differ from the model (", got.size(), " of ", R[s].size(), ")"); CHECK(a.nonzeroes() == R[s].size(), "nonzeroes"); };
  o[0].reset(new M(2)); n[0] = 2; fresh(0);
  int depth = mc::thorough() ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    int op = c(8), s = c(S), t = 1 - s; mc::step();
    switch (op) {
    case 0: n[s] = c(5); NOTE("  ", s, " = size ", n[s]); o[s].reset(new M(n[s])); fresh(s); break;
    case 1: if (!o[s]) throw mc::Skip{}; n[s] = c(5); NOTE("  ", s, ".setSize(", n[s], ")"); o[s]->setSize(n[s]); fresh(s); break;
    case 2: if (!o[t]) throw mc::Skip{}; NOTE("  ", s, " new copy"); o[s].reset(new M(*o[t])); R[s] = R[t]; n[s] = n[t]; break;
    case 3: if (!o[s] || !o[t]) throw mc::Skip{}; NOTE("  ", s, " = ", t); *o[s] = *o[t]; R[s] = R[t]; n[s] = n[t]; break;
    case 4: if (!o[s]) throw mc::Skip{}; NOTE("  ", s, " = 3"); *o[s] = 3.0; for (auto& e : R[s]) e.second = 3; break;
    case 5: if (!o[s]) throw mc::Skip{}; NOTE("  ", s, " *= 2"); *o[s] *= 2.0; for (auto& e : R[s]) e.second *= 2; break;
    case 6: o[s].reset(new M); n[s] = 0; R[s].clear(); NOTE("  ", s, " default constructed"); break;
    case 7: if (!o[s] || n[s] == 0) throw mc::Skip{}; (*o[s])[n[s] - 1][n[s] - 1] = ++k; R[s][{n[s] - 1, n[s] - 1}] = k; break;
    }
    mc::Hash h; for (int i = 0; i < S; ++i) { if (o[i]) verify(i); h((int)(bool)o[i])(n[i]); for (auto& e : R[i]) h(e.second); } mc::state(h);
  }
  mc::outcome("banded");
}
UNIT(diagonal) { banded<BDMatrix<double>, 0>(c); }
UNIT(tridiagonal) { banded<BTDMatrix<double>, 1>(c); }
