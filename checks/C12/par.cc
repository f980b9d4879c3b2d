// C12: distributed matrices and vectors: every rank's file and index file restore its part and the connections to the others.
#include "par.hh"
#include <fstream>
#include <unistd.h>
#include <dirent.h>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixmarket.hh>
using namespace flat; using namespace par;
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Dir { std::string d; Dir() { char t[] = "/dev/shm/c12XXXXXX"; if (!mkdtemp(t)) mc::fail("mkdtemp"); d = t; }
  std::set<std::string> ls() { std::set<std::string> r; DIR* D = opendir(d.c_str()); while (auto* e = readdir(D)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(D); return r; }
  ~Dir() { for (auto& f : ls()) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); } };
using Mat = Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>>; using Vec = Dune::BlockVector<Dune::FieldVector<double, 2>>;
template <class G> using Remote = std::map<int, std::map<G, int>>;
template <class CM, class G> Remote<G> remote(CM& cm) { Remote<G> got; for (auto& [p, l] : cm.remoteIndices()) for (auto& ri : *l.first) got[p][ri.localIndexPair().global()] = ri.attribute(); return got; }
template <class CM, class G> std::map<G, std::array<int, 3>> local(CM& cm) { std::map<G, std::array<int, 3>> r; for (auto& p : cm.indexSet()) r[p.global()] = {(int)p.local().local(), (int)p.local().attribute(), p.local().isPublic()}; return r; }
template <class G> void trip(mc::Chooser& c, int P, int Gn) {
  Quiet q; if (mc::thorough() && P < 3) ++Gn; auto d = decomp(c, P, Gn); d.number(c(2, "order")); int setup = c(setupsPrivate, "setup"), style = (setup + d.attr[0][0]) % 3, f = c(4, "name"), dev = mc::thorough() ? 2 : 0; bool withIdx = c(2, "indices") == 0, fresh = withIdx; fmpi::maxDeviations() = dev; NOTE(d.show());
  // some indices need not be public
  static const char* names[] = {"m", "m.mm", "m.mtx", "m.x"}; Dir dir; std::string fn = dir.d + "/" + names[f], ext = f == 1 ? ".mm" : f == 2 ? ".mtx" : ".mm", pure = f == 3 ? "m.x" : "m";
  fmpi::run(c, P, [&](int r) {
    auto cm = makeComm<G>(d, r, setup, Dune::SolverCategory::overlapping, style); int n = d.size[r]; Mat A; Pattern p = patternOf(n, n, 0x1b5u & ((1u << (n * n)) - 1)); buildPattern(A, n, n, p); auto D = fill(A, n, n, p, [&](int i, int j) { return 1. / (r + 3 * i + 7 * j + 3); }); Vec v; flat::make(v, n); std::vector<double> fv; for (int i = 0; i < 2 * n; ++i) fv.push_back(1. / (3 + i + 5 * r)); put(v, fv);
    std::string vn = dir.d + "/vec"; storeMatrixMarket(A, fn, *cm, withIdx, 17); storeMatrixMarket(v, vn, *cm, false, 17); cm->communicator().barrier();
    auto l = dir.ls(); std::set<std::string> want; for (int s = 0; s < P; ++s) { want.insert(mc::str(pure, "_", s, ext)); want.insert(mc::str("vec_", s, ".mm")); if (withIdx) want.insert(mc::str(pure, "_", s, ".idx")); } CHECK(l == want, "files written");
    Mat B; Vec w; if (fresh) { CommOf<G> k(MPI_COMM_WORLD); Dune::loadMatrixMarket(B, fn, k); CHECK((local<CommOf<G>, G>(k) == local<CommOf<G>, G>(*cm)), "index set of rank ", r); CHECK((remote<CommOf<G>, G>(k) == remote<CommOf<G>, G>(*cm)), "remote indices of rank ", r, " :: ", d.show()); Dune::loadMatrixMarket(w, vn, k, false);
      Vec a = w, b = w; k.copyOwnerToAll(a, a); cm->copyOwnerToAll(b, b); CHECK(get(a) == get(b), "communication after loading");
      if (P == 1 && d.G) { bool thrown = false; try { Mat X; Dune::loadMatrixMarket(X, fn, k); } catch (Dune::Exception&) { thrown = true; } CHECK(thrown, "a non-empty index set was loaded into"); } }
    else { Dune::loadMatrixMarket(B, fn, *cm, false); Dune::loadMatrixMarket(w, vn, *cm, false); }
    CHECK((int)B.N() == n && (int)B.M() == n && flatten(B) == D && get(w) == fv, "contents on rank ", r);
  });
  mc::state(mc::Hash()(d.hash())(setup)(f)); fmpi::maxDeviations() = 2;
}
UNIT(trip1) { trip<int>(c, 1, 2); }
UNIT(trip2) { trip<int>(c, 2, 1); }
UNIT(trip2l) { trip<unsigned long>(c, 2, 2); }
UNIT(trip3) { trip<int>(c, 3, 1); }
// private indices are not announced to the others, and stay private
UNIT(privat) {
  Quiet q; int P = 2, G = 2; auto d = decomp(c, P, G); d.number(0); unsigned priv = c.mask(2, "private"); Dir dir; fmpi::run(c, P, [&](int r) { using CM = CommOf<int>; using LI = CM::ParallelIndexSet::LocalIndex; CM cm(MPI_COMM_WORLD); cm.indexSet().beginResize(); for (int g = 0; g < G; ++g) if (d.attr[r][g]) cm.indexSet().add(g, LI((size_t)d.loc[r][g], (AS::AttributeSet)d.attr[r][g], !(priv >> g & 1))); cm.indexSet().endResize(); cm.remoteIndices().rebuild<false>();
    Vec v; flat::make(v, d.size[r]); v = 1; storeMatrixMarket(v, dir.d + "/v", cm); cm.communicator().barrier(); CM k(MPI_COMM_WORLD); Vec w; Dune::loadMatrixMarket(w, dir.d + "/v", k); CHECK((local<CM, int>(k) == local<CM, int>(cm)), "index set"); CHECK((remote<CM, int>(k) == remote<CM, int>(cm)), "remote indices"); for (auto& [s, m] : remote<CM, int>(k)) for (auto& [g, a] : m) CHECK(!(priv >> g & 1), "private index announced"); });
}
// index files that are cut off or damaged
UNIT(cut_idx) {
  Quiet q; Dir dir; Decomp d; d.P = 1; d.G = 2; d.attr = {{OWNER, COPY}}; d.number(c(2, "order")); bool nb = c.flag("neighbours"); std::string t, fn = dir.d + "/v_0.idx"; int damage = -1; fmpi::run(c, 1, [&](int) {
    auto cm = makeComm<int>(d, 0, 0, Dune::SolverCategory::overlapping, 2); Vec v; flat::make(v, 2); v = 1; storeMatrixMarket(v, dir.d + "/v", *cm); { std::ifstream f(fn); std::stringstream s; s << f.rdbuf(); t = s.str(); } if (nb) t += " 1 2"; int at = c((int)t.size() + 1, "cut"); std::string u = t.substr(0, at); { std::ofstream f(fn); f << u; } NOTE(u);
    bool thrown = false; CommOf<int> k(MPI_COMM_WORLD); Vec w; try { Dune::loadMatrixMarket(w, dir.d + "/v", k); } catch (Dune::Exception& e) { thrown = true; } mc::step();
    // a line that is cut has fewer than four numbers (a cut inside the last number leaves a valid line)
    std::istringstream is(u); std::string l; bool broken = false; while (std::getline(is, l)) { std::istringstream ls(l); std::vector<std::string> tk; std::string z; while (ls >> z) tk.push_back(z); if (tk.empty()) continue; if (tk[0][0] == 'n') broken |= tk[0] != "neighbours:"; else broken |= tk.size() != 4; }
    CHECK(thrown == broken, broken ? "a damaged index file was read without an error" : "a readable index file was rejected", " :: ", u);
    if (!thrown) { std::map<int, std::array<int, 3>> want, full = local<CommOf<int>, int>(*cm); auto got = local<CommOf<int>, int>(k); for (auto& [g, a] : got) CHECK(full.count(g) && full[g] == a, "index"); std::set<int> n = k.remoteIndices().getNeighbours(), e; std::istringstream s2(u.find(':') == std::string::npos ? "" : u.substr(u.find(':') + 1)); int z; while (s2 >> z) e.insert(z); CHECK(n == e, "neighbours"); } });
}
UNIT(missing_idx) { Quiet q; Dir dir; bool thrown = false; int k = c(3, "what"); fmpi::run(c, 1, [&](int) { CommOf<int> cm(MPI_COMM_WORLD); cm.remoteIndices().rebuild<false>(); Vec v; flat::make(v, 1); v = 2; try { if (k == 0) { storeMatrixMarket(v, dir.d + "/v", cm, false); Dune::loadMatrixMarket(v, dir.d + "/v", cm); } if (k == 1) Dune::loadMatrixMarket(v, dir.d + "/u", cm, false); if (k == 2) storeMatrixMarket(v, dir.d + "/no/u", cm); } catch (Dune::IOError&) { thrown = true; } }); CHECK(thrown, "no IOError"); }
