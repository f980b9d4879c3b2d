// C17: exchange of values between ranks, global dot products and norms, for every small decomposition and message order.
#include "par.hh"
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/paamg/pinfo.hh>
using namespace flat; using namespace par;
using C = std::complex<double>;
template <class K, int n> using BV = Dune::BlockVector<Dune::FieldVector<K, n>>;
template <class K> K val2(int r, int l, int k) { int v = (r * 7 + l * 3 + k) % 11 - 4; if constexpr (isComplex<K>::value) return K(v, (r + 2 * l + k) % 5 - 2); else return K(v); }
template <class V> struct Acc { using K = typename V::field_type; static constexpr int N = VB<typename V::block_type>::N; };
enum What { COPY_OWNER, COPY_COPY, ADD_OO, ADD_OC, ADD_OCOC, DOT, NORM, PROJECT, NW };
inline bool sends(int w, int a) { switch (w) { case COPY_OWNER: return a == OWNER; case COPY_COPY: return a == COPY; case ADD_OO: return a == OWNER || a == OVERLAP; case ADD_OC: case ADD_OCOC: return a == OWNER || a == COPY; } return false; }
inline bool receives(int w, int a) { return w == ADD_OCOC ? a == OWNER || a == COPY : a != NONE; }
// one operation on the vectors of all ranks: x source, y target (alias: the same vector)
template <class V> void scenario(mc::Chooser& c, const Decomp& d, int setup, int extra, std::vector<int> ops, bool alias, int style, bool viaSP) {
  using K = typename Acc<V>::K; constexpr int N = Acc<V>::N; int P = d.P; using R = typename RealOf<K>::type;
  // reference values [rank][local*N+k]
  std::vector<std::vector<K>> X(P), Y(P); for (int r = 0; r < P; ++r) { for (int l = 0; l < d.size[r]; ++l) for (int k = 0; k < N; ++k) { X[r].push_back(val2<K>(r, l, k)); Y[r].push_back(alias ? val2<K>(r, l, k) : val2<K>(r + 5, l + 2, k)); } }
  struct Exp { std::vector<std::vector<K>> x, y; K dot{}; R norm{}; }; std::vector<Exp> ex; auto x = X, y = Y;
  for (int w : ops) { Exp e; auto ny = y; auto& src = alias ? y : x;
    if (w <= ADD_OCOC) for (int g = 0; g < d.G; ++g) for (int r = 0; r < P; ++r) if (receives(w, d.attr[r][g]) && d.attr[r][g]) for (int s = 0; s < P; ++s) if (s != r && sends(w, d.attr[s][g])) for (int k = 0; k < N; ++k) { K v = src[s][d.loc[s][g] * N + k]; auto& t = ny[r][d.loc[r][g] * N + k]; if (w == COPY_OWNER || w == COPY_COPY) t = v; else t += v; }
    if (w == PROJECT) for (int g = 0; g < d.G; ++g) for (int r = 0; r < P; ++r) if (d.attr[r][g] == COPY) for (int k = 0; k < N; ++k) ny[r][d.loc[r][g] * N + k] = K(0);
    if (w == DOT || w == NORM) for (int r = 0; r < P; ++r) for (int l = 0; l < d.size[r]; ++l) { int g = d.global(r, l); if (g >= 0 && d.attr[r][g] != OWNER) continue; for (int k = 0; k < N; ++k) { e.dot += cj(src[r][l * N + k]) * y[r][l * N + k]; e.norm += std::norm(src[r][l * N + k]); } }
    y = ny; if (alias) x = y; e.x = x; e.y = y; ex.push_back(e); }
  // two copies of one index on different ranks that both send it: the last message wins, which is a race by design
  for (int w : ops) if (w == COPY_COPY) for (int g = 0; g < d.G; ++g) { int n = 0; for (int r = 0; r < P; ++r) n += d.attr[r][g] == COPY; if (n > 1) throw mc::Skip{}; }
  NOTE(d.show(), " setup ", setup, " operations ", [&] { std::string s; for (int w : ops) s += mc::str(w, " "); return s; }(), alias ? " in place" : "");
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<int>(d, r, setup, Dune::SolverCategory::overlapping, style); V u, v; flat::make(u, d.size[r]); flat::make(v, d.size[r]); put(u, X[r]); put(v, Y[r]); V& s = alias ? v : u;
    for (size_t i = 0; i < ops.size(); ++i) { int w = ops[i];
      if (w == COPY_OWNER) cm->copyOwnerToAll(s, v); if (w == COPY_COPY) cm->copyCopyToAll(s, v); if (w == ADD_OO) cm->addOwnerOverlapToAll(s, v); if (w == ADD_OC) cm->addOwnerCopyToAll(s, v); if (w == ADD_OCOC) cm->addOwnerCopyToOwnerCopy(s, v); if (w == PROJECT) cm->project(v);
      if (w == DOT) { K res(42); if (viaSP) res = Dune::createScalarProduct<V>(*cm, Dune::SolverCategory::overlapping)->dot(s, v); else cm->dot(s, v, res); CHECK(res == ex[i].dot, "dot on rank ", r, ": ", res, " expected ", ex[i].dot, " :: ", d.show()); }
      if (w == NORM) { R n = viaSP ? Dune::OverlappingSchwarzScalarProduct<V, CommOf<>>(*cm).norm(s) : cm->norm(s); CHECK(mc::close(n, std::sqrt(ex[i].norm), 1., 1e-12), "norm on rank ", r, ": ", n, " expected ", std::sqrt(ex[i].norm)); }
      auto gv = get(v); CHECK(gv == ex[i].y[r], "operation ", i, " (", w, "): rank ", r, " has ", mc::str([&] { std::string t; for (auto& a : gv) t += mc::str(a, " "); return t; }()), "expected ", [&] { std::string t; for (auto& a : ex[i].y[r]) t += mc::str(a, " "); return t; }(), " :: ", d.show());
      if (!alias) CHECK(get(u) == ex[i].x[r], "the source was changed"); }
  });
  mc::state(mc::Hash()(d.hash())(setup)(ops[0])(alias ? 1 : 0));
}
template <class V> void all(mc::Chooser& c, int P, int G, int extraMax = 1) {
  if (mc::thorough() && P == 2) ++G; auto d = decomp(c, P, G); int setup = c(setupsPrivate, "setup"), order = (setup + d.attr[0][0]) % 4, extra = extraMax ? c(2, "extra") : 0; d.number(order, extra);
  int w = c(NW, "operation"); bool alias = (w + setup + order) % 2; scenario<V>(c, d, setup, extra, {w}, alias, (setup + w) % 3, order % 2);
}
// sequences of operations on one communication object
template <class V> void seq(mc::Chooser& c, int P, int G, int len) {
  if (mc::thorough()) ++len; auto d = decomp(c, P, G); d.number(c(3, "order"), 0); std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(c(NW, "operation")); scenario<V>(c, d, c(2, "setup") * 3, 0, ops, c.flag("in place"), 0, true);
}
#ifdef PART2
// the remote indices describe what the other ranks have, however they were built
UNIT(remote) {
  int P = c.range(1, 3, "P"), G = c.range(0, P == 3 ? 2 : 3, "G"); auto d = decomp(c, P, G); d.number(c(2, "order")); int setup = c(setupsPrivate, "setup"), style = c(3, "ids"); NOTE(d.show());
  fmpi::maxDeviations() = mc::thorough() ? 3 : 1;
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<int>(d, r, setup, Dune::SolverCategory::nonoverlapping, style); CHECK(cm->category() == Dune::SolverCategory::nonoverlapping && cm->communicator().rank() == r && cm->communicator().size() == P, "category, rank, size");
    std::map<int, std::map<int, int>> got, want; for (auto& [p, l] : cm->remoteIndices()) { int last = -1; for (auto& ri : *l.first) { int g = ri.localIndexPair().global(); CHECK(g > last, "remote indices not sorted"); last = g; got[p][g] = ri.attribute(); } CHECK(l.first == l.second || l.first->empty() == l.second->empty(), "send and receive lists"); }
    for (int s = 0; s < P; ++s) if (s != r) for (int g = 0; g < G; ++g) if (d.attr[r][g] && d.attr[s][g]) want[s][gid<int>(g, style)] = d.attr[s][g];
    for (auto i = got.begin(); i != got.end();) if (i->second.empty()) i = got.erase(i); else ++i; CHECK(got == want, "remote indices of rank ", r, " :: ", d.show());
    int n = 0; for (auto& pr : cm->indexSet()) { ++n; int g = -1; for (int k = 0; k < G; ++k) if (gid<int>(k, style) == pr.global()) g = k; CHECK(g >= 0 && d.attr[r][g] == (int)pr.local().attribute() && (int)pr.local().local() == d.loc[r][g] && pr.local().isPublic() == (setup != 4 || known(d, g)), "local index ", pr.global()); } int m = 0; for (int g = 0; g < G; ++g) m += d.attr[r][g] != 0; CHECK(n == m, "number of indices");
    cm->buildGlobalLookup((size_t)d.size[r]); for (int g = 0; g < G; ++g) if (d.attr[r][g]) { auto* p = cm->globalLookup().pair((size_t)d.loc[r][g]); CHECK(p && p->global() == gid<int>(g, style), "global lookup"); } cm->freeGlobalLookup();
  });
  mc::state(mc::Hash()(d.hash())(setup)(style));
}
// all message orders of one exchange between four ranks
UNIT(orders) {
  fmpi::maxDeviations() = mc::thorough() ? 4 : 2; Decomp d; d.P = 4; d.G = 3; d.attr = {{OWNER, COPY, OVERLAP}, {COPY, OWNER, COPY}, {OVERLAP, COPY, OWNER}, {COPY, COPY, COPY}}; if (c.flag("sparse")) d.attr[3] = {NONE, COPY, NONE}; d.number(c(2, "order")); static const int ops[] = {COPY_OWNER, ADD_OO, ADD_OC, ADD_OCOC};
  scenario<BV<double, 2>>(c, d, c(3, "setup"), 0, {ops[c(4, "operation")]}, c.flag("in place"), 0, false); fmpi::maxDeviations() = 2;
}
// wrong index information is reported
UNIT(wrong) {
  int k = c(5, "what"), at = c(3, "at"); bool thrown = false; fmpi::run(c, 2, [&](int r) { try { Dune::IndexInfoFromGrid<int, int> info; if (k < 4) for (int g = 0; g < 3; ++g) info.addLocalIndex({2 * g, g, r ? COPY : OWNER}); if (k == 0) info.addLocalIndex({9, 3, at == 0 ? 0 : at == 1 ? 4 : -1}); if (k == 1) info.addRemoteIndex({1 - r, 2, at == 0 ? 0 : at == 1 ? 4 : -1}); if (k == 2) { info.addRemoteIndex({1 - r, 2 * at + 1, OWNER}); CommOf<> cm(info, MPI_COMM_WORLD); } if (k == 4) { info.addRemoteIndex({1 - r, at, OWNER}); CommOf<> cm(info, MPI_COMM_WORLD); } if (k == 3) { info.clear(); CHECK(info.localIndices().empty() && info.remoteIndices().empty(), "clear"); throw Dune::ISTLError(); } } catch (Dune::ISTLError&) { thrown = true; } }); mc::step(); CHECK(thrown, "wrong index information was accepted");
}
// a communicator handed over is freed, others are not
UNIT(ownership) {
  int P = c.range(1, 3, "P"); bool own = c.flag("freecomm"), info = c.flag("info"); auto leaked = fmpi::run(c, P, [&](int) { MPI_Comm k; MPI_Comm_dup(MPI_COMM_WORLD, &k); if (info) { Dune::IndexInfoFromGrid<int, int> i; CommOf<> cm(i, k, Dune::SolverCategory::overlapping, own); } else CommOf<> cm(k, Dune::SolverCategory::overlapping, own); }); CHECK((leaked == 0) == own, "communicator ", own ? "not freed" : "freed");
}
#endif
#ifdef PART1
UNIT(two_scalar) { all<Dune::BlockVector<double>>(c, 2, 2); }
UNIT(two_fv1) { all<BV<double, 1>>(c, 2, 2); }
UNIT(two_fv3) { all<BV<double, 3>>(c, 2, 2); }
UNIT(two_cplx) { all<BV<C, 2>>(c, 2, 2); }
UNIT(two_cscalar) { all<Dune::BlockVector<C>>(c, 2, 2); }
UNIT(seq2) { seq<BV<double, 1>>(c, 2, 2, 2); }
#endif
#ifdef PART2
UNIT(three_scalar) { fmpi::maxDeviations() = mc::thorough() ? 3 : 1; all<Dune::BlockVector<double>>(c, 3, 2, 0); }
UNIT(three_one) { fmpi::maxDeviations() = mc::thorough() ? 4 : 2; all<BV<double, 2>>(c, 3, 1); fmpi::maxDeviations() = 2; }
UNIT(one) { all<BV<double, 2>>(c, 1, 3); }
UNIT(two_float) { all<BV<float, 2>>(c, 2, 1); }
UNIT(seq3) { seq<BV<C, 1>>(c, 3, 1, 2); }
#endif
