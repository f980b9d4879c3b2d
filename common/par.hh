// par.hh - distributed index sets for the parallel checks: every small decomposition, every way to set it up.
#pragma once
#include "fakempi.hh"
#include "flat.hh"
#include <dune/istl/owneroverlapcopy.hh>
namespace par {
using AS = Dune::OwnerOverlapCopyAttributeSet;
template <class G = int> using CommOf = Dune::OwnerOverlapCopyCommunication<G>;
enum { NONE = 0, OWNER = 1, OVERLAP = 2, COPY = 3 };
struct Decomp {
  int P = 0, G = 0; std::vector<std::vector<int>> attr, loc; std::vector<int> size;   // [rank][global]
  int owner(int g) const { for (int r = 0; r < P; ++r) if (attr[r][g] == OWNER) return r; return -1; }
  int global(int r, int l) const { for (int g = 0; g < G; ++g) if (attr[r][g] && loc[r][g] == l) return g; return -1; }
  bool shared(int r, int s) const { for (int g = 0; g < G; ++g) if (attr[r][g] && attr[s][g]) return true; return false; }
  // local numbering; order 0: as the globals, 1: reversed, 2: owners first, 3: rotated; extra: entries at the end that are not in the index set
  void number(int order, int extra = 0) {
    loc.assign(P, std::vector<int>(G, -1)); size.assign(P, 0);
    for (int r = 0; r < P; ++r) { std::vector<int> gs; for (int g = 0; g < G; ++g) if (attr[r][g]) gs.push_back(g); if (order == 1) std::reverse(gs.begin(), gs.end()); if (order == 2) std::stable_sort(gs.begin(), gs.end(), [&](int a, int b) { return (attr[r][a] == OWNER) > (attr[r][b] == OWNER); }); if (order == 3 && gs.size()) std::rotate(gs.begin(), gs.begin() + 1, gs.end()); for (int g : gs) loc[r][g] = size[r]++; size[r] += extra; }
  }
  std::string show() const { std::string s; for (int r = 0; r < P; ++r) { s += mc::str("rank ", r, ":"); for (int g = 0; g < G; ++g) if (attr[r][g]) s += mc::str(" g", g, "=", loc[r].empty() ? -1 : loc[r][g], " "[0], "?OVC"[attr[r][g]]); s += "; "; } return s; }
  uint64_t hash() const { mc::Hash h; h(P)(G); for (auto& v : attr) for (int a : v) h(a); for (auto& v : loc) for (int a : v) h(a); return h.h; }
};
// every index has one owner; every other rank has it or not.  full: overlap and copy both allowed for the others
inline Decomp decomp(mc::Chooser& c, int P, int G, bool overlap = true, bool copy = true) {
  Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, 0)); int k = 1 + overlap + copy;
  for (int g = 0; g < G; ++g) { int o = c(P, "owner"); for (int r = 0; r < P; ++r) if (r == o) d.attr[r][g] = OWNER; else { int a = c(k, "other"); d.attr[r][g] = a == 0 ? NONE : a == 1 ? (overlap ? OVERLAP : COPY) : COPY; } }
  return d;
}
// global ids need not be dense nor ordered as the numbers used here
template <class G> G gid(int g, int style) { static const int perm[] = {5, 2, 9, 0, 7, 3, 11, 1, 8, 4, 6, 10}; return style == 0 ? G(g) : style == 1 ? G(perm[g % 12] + 12 * (g / 12)) : G(g * 1000 + 7); }
inline bool known(const Decomp& d, int g) { int k = 0; for (int r = 0; r < d.P; ++r) k += d.attr[r][g] != NONE; return k > 1; }   // to several ranks
// ways to set up the communication: 0 ring, 1 with the neighbours, 2 with more neighbours than needed, 3 IndexInfoFromGrid, 4 ring with indices that no other rank has being private
constexpr int setups = 4, setupsPrivate = 5;
template <class G = int> std::unique_ptr<CommOf<G>> makeComm(const Decomp& d, int rank, int setup, Dune::SolverCategory::Category cat = Dune::SolverCategory::overlapping, int style = 0, MPI_Comm mc_ = MPI_COMM_WORLD) {
  if (setup == 3) {
    Dune::IndexInfoFromGrid<G, int> info; for (int g = 0; g < d.G; ++g) if (d.attr[rank][g]) { info.addLocalIndex({gid<G>(g, style), d.loc[rank][g], d.attr[rank][g]}); for (int r = 0; r < d.P; ++r) if (r != rank && d.attr[r][g]) info.addRemoteIndex({r, gid<G>(g, style), d.attr[r][g]}); }
    return std::make_unique<CommOf<G>>(info, mc_, cat);
  }
  auto cm = std::make_unique<CommOf<G>>(mc_, cat); using LI = typename CommOf<G>::ParallelIndexSet::LocalIndex;
  cm->indexSet().beginResize(); for (int g = 0; g < d.G; ++g) if (d.attr[rank][g]) cm->indexSet().add(gid<G>(g, style), LI((std::size_t)d.loc[rank][g], (AS::AttributeSet)d.attr[rank][g], setup != 4 || known(d, g))); cm->indexSet().endResize();
  if (setup && setup != 4) { std::set<int> nb; for (int r = 0; r < d.P; ++r) if (r != rank && (setup == 2 || d.shared(r, rank))) nb.insert(r); cm->remoteIndices().setNeighbours(nb); 
    if (nb.empty() && setup == 1) { bool any = false; for (int r = 0; r < d.P; ++r) for (int s = 0; s < r; ++s) any |= d.shared(r, s); if (any) throw mc::Skip{}; } }   // an empty neighbour set means "unknown"
  cm->remoteIndices().template rebuild<false>(); return cm;
}
}
