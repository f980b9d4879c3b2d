// C11: what the factory creates from a ParameterTree behaves as the same class constructed by hand.
#include "mc.hh"
#include "flat.hh"
#include <dune/common/parametertree.hh>
#ifdef PAR
#include "par.hh"
#endif
#ifdef DIRECTSOLVERS
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
#endif
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#ifdef WITHAMG
#include <dune/istl/paamg/amg.hh>
#endif
#include <dune/istl/solvers.hh>
#include <dune/istl/solverfactory.hh>
using namespace flat; using Dune::ParameterTree;
using Cx = std::complex<double>;
template <class M> using VecOf = Dune::BlockVector<typename VecFor<typename M::block_type>::row>;
template <class X> using Prec = Dune::Preconditioner<X, X>;
template <class X> using Solv = Dune::InverseOperator<X, X>;
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
template <class O> void init() { static bool once = (Dune::initSolverFactories<O>(), true); (void)once; }
// ---- the parameters of the documentation with their defaults
struct PPar { int it = 1; double w = 1.0; int n = 0; bool resort = false; };
static const char* precNames[] = {"ssor", "sor", "gs", "jac", "dilu", "ilu", "richardson", "ildl"};
constexpr int NPREC = 8;
template <class M, class X> std::shared_ptr<Prec<X>> precByHand(int k, const M& A, const PPar& p) {
  switch (k) {
  case 0: return std::make_shared<Dune::SeqSSOR<M, X, X>>(A, p.it, p.w);
  case 1: return std::make_shared<Dune::SeqSOR<M, X, X>>(A, p.it, p.w);
  case 2: return std::make_shared<Dune::SeqGS<M, X, X>>(A, p.it, p.w);
  case 3: return std::make_shared<Dune::SeqJac<M, X, X>>(A, p.it, p.w);
  case 4: return std::make_shared<Dune::SeqDILU<M, X, X>>(A, p.w);
  case 5: return std::make_shared<Dune::SeqILU<M, X, X>>(A, p.n, p.w, p.resort);
  case 6: return std::make_shared<Dune::Richardson<X, X>>(p.w);
  default: return std::make_shared<Dune::SeqILDL<M, X, X>>(A, p.w);
  }
}
static const char* solverNames[] = {"loopsolver", "gradientsolver", "cgsolver", "bicgstabsolver", "minressolver", "restartedgmressolver", "restartedflexiblegmressolver", "generalizedpcgsolver", "restartedfcgsolver", "completefcgsolver"};
constexpr int NSOLV = 10;
inline bool usesRestart(int k) { return k >= 5 && k <= 7; }
inline bool usesMmax(int k) { return k >= 8; }
struct SPar { double red = 1e-6; int maxit = 20, restart = 10, mmax = 10, verbose = 0; };
template <class X> std::shared_ptr<Solv<X>> solverByHand(int k, std::shared_ptr<const Dune::LinearOperator<X, X>> op, std::shared_ptr<const Dune::ScalarProduct<X>> sp, std::shared_ptr<Prec<X>> pr, const SPar& p) {
  switch (k) {
  case 0: return std::make_shared<Dune::LoopSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose);
  case 1: return std::make_shared<Dune::GradientSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose);
  case 2: return std::make_shared<Dune::CGSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose);
  case 3: return std::make_shared<Dune::BiCGSTABSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose);
  case 4: return std::make_shared<Dune::MINRESSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose);
  case 5: return std::make_shared<Dune::RestartedGMResSolver<X>>(op, sp, pr, p.red, p.restart, p.maxit, p.verbose);
  case 6: return std::make_shared<Dune::RestartedFlexibleGMResSolver<X>>(op, sp, pr, p.red, p.restart, p.maxit, p.verbose);
  case 7: return std::make_shared<Dune::GeneralizedPCGSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose, p.restart);
  case 8: return std::make_shared<Dune::RestartedFCGSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose, p.mmax);
  default: return std::make_shared<Dune::CompleteFCGSolver<X>>(op, sp, pr, p.red, p.maxit, p.verbose, p.mmax);
  }
}
// the documented constructor with a ParameterTree
template <class X> std::shared_ptr<Solv<X>> solverFromTree(int k, std::shared_ptr<const Dune::LinearOperator<X, X>> op, std::shared_ptr<Prec<X>> pr, const ParameterTree& t) {
  switch (k) {
  case 0: return std::make_shared<Dune::LoopSolver<X>>(op, pr, t);
  case 1: return std::make_shared<Dune::GradientSolver<X>>(op, pr, t);
  case 2: return std::make_shared<Dune::CGSolver<X>>(op, pr, t);
  case 3: return std::make_shared<Dune::BiCGSTABSolver<X>>(op, pr, t);
  case 4: return std::make_shared<Dune::MINRESSolver<X>>(op, pr, t);
  case 5: return std::make_shared<Dune::RestartedGMResSolver<X>>(op, pr, t);
  case 6: return std::make_shared<Dune::RestartedFlexibleGMResSolver<X>>(op, pr, t);
  case 7: return std::make_shared<Dune::GeneralizedPCGSolver<X>>(op, pr, t);
  case 8: return std::make_shared<Dune::RestartedFCGSolver<X>>(op, pr, t);
  default: return std::make_shared<Dune::CompleteFCGSolver<X>>(op, pr, t);
  }
}
template <class M, class X> std::shared_ptr<Prec<X>> precFromTree(int k, const M& A, std::shared_ptr<const Dune::AssembledLinearOperator<M, X, X>> op, bool useOp, const ParameterTree& t) {
#define MAKE(T) return useOp ? std::make_shared<T>(op, t) : std::make_shared<T>(A, t)
  using S0 = Dune::SeqSSOR<M, X, X>; using S1 = Dune::SeqSOR<M, X, X>; using S2 = Dune::SeqGS<M, X, X>; using S3 = Dune::SeqJac<M, X, X>; using S4 = Dune::SeqDILU<M, X, X>; using S5 = Dune::SeqILU<M, X, X>; using S7 = Dune::SeqILDL<M, X, X>;
  switch (k) { case 0: MAKE(S0); case 1: MAKE(S1); case 2: MAKE(S2); case 3: MAKE(S3); case 4: MAKE(S4); case 5: MAKE(S5); case 6: return std::make_shared<Dune::Richardson<X, X>>(t); default: MAKE(S7); }
}
// ---- behaviour: everything a user sees of an object, as text (hexadecimal floats: exact)
template <class K> std::string hex(const K& x) { char b[128]; if constexpr (isComplex<K>::value) snprintf(b, sizeof b, "(%.14g,%.14g)", (double)x.real(), (double)x.imag()); else snprintf(b, sizeof b, "%.14g", (double)x); return b[0] == '-' && b[1] == 'n' ? b + 1 : b; }
template <class V> std::string hexv(const V& v) { std::string s; for (auto& x : get(v)) s += hex(x) + " "; return s; }
template <class X> X vecOf(int n, unsigned seed) { X v; flat::make(v, n); using K = typename VB<typename X::block_type>::F; std::vector<K> w; for (int i = 0; i < n * VB<typename X::block_type>::N; ++i) w.push_back(val<K>(seed * 37 + 5 * i + 1)); put(v, w); return v; }
template <class X> std::string behaviour(Prec<X>& p, int n) {
  std::string s = mc::str((int)p.category(), ": ");
  try { X x = vecOf<X>(n, 1), b = vecOf<X>(n, 2); p.pre(x, b); s += hexv(x) + "| " + hexv(b); for (int k = 0; k < 2; ++k) { X v = vecOf<X>(n, 3), d = vecOf<X>(n, 5 + k); v = 0; p.apply(v, d); s += "| " + hexv(v) + "/ " + hexv(d); } p.post(x); s += "| " + hexv(x); } catch (const Dune::Exception& e) { s += " exception"; }
  return s;
}
template <class X> std::string behaviour(Solv<X>& p, int n, bool iterative = true) {
  std::string s = mc::str((int)p.category(), ": ");
  for (int k = 0; k < (iterative ? 3 : 2); ++k) {
    X x = vecOf<X>(n, 1 + k), b = vecOf<X>(n, 2 + k); if (k == 0) x = 0; Dune::InverseOperatorResult r;
    try { if (k < 2) p.apply(x, b, r); else p.apply(x, b, 0.25, r); s += mc::str("| ", r.iterations, r.converged ? " converged " : " not converged ", iterative ? hex(r.reduction) : "", " ", iterative ? hex(r.conv_rate) : "", " "); } catch (const Dune::Exception& e) { s += " exception "; }
    s += hexv(x) + "/ " + hexv(b);
  }
  return s;
}
template <class F> bool throws(F f) { try { f(); } catch (const Dune::Exception&) { return true; } return false; }
// ---- small systems
template <class M> struct Sys { int n; M A; };
template <class M> void system(Sys<M>& s, int n, int kind) {   // 0 symmetric positive definite chain, 1 full and not symmetric, 2 symmetric with missing couplings
  using K = FieldOf<M>; constexpr int N = Blk<typename M::block_type>::R; Pattern p(n); s.n = n;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (kind == 1 || i == j || (kind == 0 ? std::abs(i - j) == 1 : (i + j) % 3 == 1)) p[i].push_back(j);
  buildPattern(s.A, n, n, p); fill(s.A, n, n, p, [&](int a, int b) -> K { if (a == b) return num<K>(7 + a % 3 + N, 0); int u = std::max(a, b), v = std::min(a, b); if (kind == 1) return num<K>(1 + (2 * a + b) % 3, 0); return num<K>(-1 - (u + v) % 2, isComplex<K>::value && kind == 2 ? (a > b ? 1 : -1) : 0); });
}
const int SIZES[] = {1, 2, 3, 5};
template <class M> void anySystem(mc::Chooser& c, Sys<M>& s) { int n = SIZES[c(mc::thorough() ? 4 : 3, "size") + (mc::thorough() ? 0 : 1)]; system(s, n, c(3, "matrix")); }
inline PPar precParams(mc::Chooser& c, int k, ParameterTree& t) {   // sets keys, each of them may be absent
  PPar p; if (k < 4) { int i = c(3, "iterations"); if (i) { p.it = i == 1 ? 3 : 2; t["iterations"] = mc::str(p.it); } }
  int w = c(3, "relaxation"); if (w) { p.w = w == 1 ? 0.5 : 1.25; t["relaxation"] = mc::str(p.w); }
  if (k == 5) { int n = c(3, "n"); if (n) { p.n = n; t["n"] = mc::str(n); } int r = c(3, "resort"); if (r) { p.resort = r == 2; t["resort"] = r == 2 ? "true" : "false"; } }
  return p;
}
inline SPar solverParams(mc::Chooser& c, int k, ParameterTree& t) {
  SPar p; p.red = c.flag("reduction") ? 1e-2 : 1e-9; p.maxit = c.flag("maxit") ? 2 : 40; t["reduction"] = p.red == 1e-2 ? "1e-2" : "1e-9"; t["maxit"] = mc::str(p.maxit); t["verbose"] = "0";
  if (usesRestart(k)) { p.restart = 1 + c(3, "restart"); t["restart"] = mc::str(p.restart); }
  if (usesMmax(k)) { int m = c(3, "mmax"); if (m) { p.mmax = m; t["mmax"] = mc::str(m); } }
  return p;
}
#ifdef SEQ
template <class M> void precs(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; using Base = Dune::AssembledLinearOperator<M, X, X>; Sys<M> s; anySystem(c, s); int k = c(NPREC, "type"); ParameterTree t; t["type"] = precNames[k]; auto p = precParams(c, k, t); int how = c(4, "constructed through");
  NOTE(precNames[k], " iterations ", p.it, " relaxation ", p.w, " n ", p.n, " resort ", p.resort, how == 0 ? " factory" : how == 1 ? " factory of the base class" : " constructor");
  auto op = std::make_shared<Op>(s.A); std::shared_ptr<Prec<X>> a, b; bool fa = false, fb = false;
  try { b = precByHand<M, X>(k, s.A, p); } catch (const Dune::Exception&) { fb = true; }
  try { if (how == 0) { init<Op>(); a = Dune::getPreconditionerFromFactory(op, t); } else if (how == 1) { init<Base>(); a = Dune::getPreconditionerFromFactory(std::shared_ptr<Base>(op), t); } else a = precFromTree<M, X>(k, s.A, op, how == 2, t); } catch (const Dune::Exception& e) { fa = true; }
  CHECK(fa == fb, fa ? "construction failed" : "construction should fail"); if (fa) return; CHECK(a, "no object");
  auto x = behaviour(*b, s.n), y = behaviour(*a, s.n); CHECK(x == y, precNames[k], "behaves as", y, "by hand", x); mc::state(mc::Hash()(k)(x));
}
template <class M> void solvers(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; auto s = std::make_shared<Sys<M>>(); anySystem(c, *s); int k = c(NSOLV, "solver"); ParameterTree t; t["type"] = solverNames[k]; auto p = solverParams(c, k, t); static const int pk[] = {0, 3, 5, 6}; int q = c.of(std::vector<int>{pk[0], pk[1], pk[2], pk[3]}); PPar pp; t["preconditioner.type"] = precNames[q]; if (c.flag("relaxation")) { pp.w = 0.5; t["preconditioner.relaxation"] = "0.5"; } int how = c(3, "constructed through");
  if (k == 1 && q == 6) pp.w = pp.w; NOTE(solverNames[k], " reduction ", p.red, " maxit ", p.maxit, " restart ", p.restart, " mmax ", p.mmax, " with ", precNames[q], " relaxation ", pp.w, how == 0 ? " factory" : how == 1 ? " factory with preconditioner" : " constructor");
  auto op = std::make_shared<Op>(s->A); auto hand = [&] { return precByHand<M, X>(q, s->A, pp); }; init<Op>(); auto sp = std::make_shared<Dune::SeqScalarProduct<X>>();
  auto b = solverByHand<X>(k, op, sp, hand(), p); std::shared_ptr<Solv<X>> a; const ParameterTree keep = t;
  if (how == 0) a = Dune::getSolverFromFactory(op, t); else if (how == 1) { if (c.flag("no preconditioner in the tree")) { ParameterTree u; for (auto& key : t.getValueKeys()) u[key] = t[key]; t = u; } a = Dune::getSolverFromFactory(op, t, hand()); } else a = solverFromTree<X>(k, op, hand(), t);
  if (how == 0) for (auto key : {"type", "reduction", "maxit", "preconditioner.type"}) CHECK(t[key] == keep[key], "the configuration was changed");
  CHECK(a, "no object"); auto x = behaviour(*b, s->n); op.reset(); sp.reset(); auto y = behaviour(*a, s->n); CHECK(x == y, solverNames[k], "behaves as", y, "by hand", x); mc::state(mc::Hash()(k)(x));
}
// everything that is missing or malformed is reported; the factory works as before afterwards
template <class M> void errors(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; init<Op>(); Sys<M> s; system(s, 3, 0); auto op = std::make_shared<Op>(s.A); int k = c(NSOLV, "solver");
  ParameterTree good; good["type"] = solverNames[k]; good["reduction"] = "1e-6"; good["maxit"] = "20"; good["verbose"] = "0"; if (usesRestart(k)) good["restart"] = "5"; if (usesMmax(k)) good["mmax"] = "5"; good["preconditioner.type"] = "ssor"; good["preconditioner.iterations"] = "1"; good["preconditioner.relaxation"] = "1";
  auto before = behaviour(*Dune::getSolverFromFactory(op, good), s.n);
  std::vector<std::string> keys{"type", "reduction", "maxit", "verbose", "preconditioner.type", "preconditioner.iterations", "preconditioner.relaxation"}; if (usesRestart(k)) keys.push_back("restart"); if (usesMmax(k)) keys.push_back("mmax");
  auto key = c.of(keys); bool required = key != "preconditioner.iterations" && key != "preconditioner.relaxation" && key != "mmax"; int wrong = c(5, "defect"); ParameterTree bad; bool expect = true;
  for (auto& q : keys) if (q != key) bad[q] = good[q];
  static const char* values[] = {"", "", "none of these", "1x", "1 2"}; if (wrong == 0) expect = required; else if (wrong == 1) { if (key != "preconditioner.type") throw mc::Skip{}; ParameterTree u; for (auto& q : keys) if (q.find('.') == q.npos) u[q] = good[q]; bad = u; } else bad[key] = values[wrong];
  NOTE(solverNames[k], " ", key, " is ", wrong == 0 ? "absent" : wrong == 1 ? "absent with its group" : values[wrong]);
  for (int times = 0; times < 2; ++times) { bool t = throws([&] { Dune::getSolverFromFactory(op, bad); }); CHECK(t == expect, expect ? "accepted" : "rejected", ":", key, "is", wrong == 0 ? "absent" : wrong == 1 ? "absent with its group" : values[wrong]);
    if (key.find("precond") == 0 && wrong != 1) { bool t2 = throws([&] { Dune::getPreconditionerFromFactory(op, bad.sub("preconditioner")); }); CHECK(t2 == expect, "preconditioner:", expect ? "accepted" : "rejected"); } }
  CHECK(behaviour(*Dune::getSolverFromFactory(op, good), s.n) == before, "another solver than before after a rejected call"); mc::state(mc::Hash()(k)(key)(wrong));
}
// histories: objects live on independently of later calls
template <class X> struct Mine : Prec<X> { double w; int& applied; Mine(double w_, int& a) : w(w_), applied(a) {} void pre(X&, X&) override {} void apply(X& v, const X& d) override { v = d; v *= w; ++applied; } void post(X&) override {} Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
template <class M> void history(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; init<Op>(); Sys<M> s1, s2; system(s1, 3, 0); system(s2, 3, 1); std::vector<std::shared_ptr<Op>> ops{std::make_shared<Op>(s1.A), std::make_shared<Op>(s2.A)}; Sys<M>* ss[] = {&s1, &s2};
  struct Obj { std::shared_ptr<Solv<X>> s; std::shared_ptr<Prec<X>> p; std::string expect; int* count; }; std::vector<Obj> objs; std::vector<std::unique_ptr<int>> counts; auto sp = std::make_shared<Dune::SeqScalarProduct<X>>(); int len = mc::thorough() ? 4 : 3;
  for (int i = 0; i < len; ++i) {
    int kind = c(6, "call"), o = c(2, "operator"); SPar p; p.red = 1e-8; p.maxit = 7; ParameterTree t; t["reduction"] = "1e-8"; t["maxit"] = "7"; t["verbose"] = "0"; t["restart"] = "2"; p.restart = 2; PPar pp; counts.push_back(std::make_unique<int>(0)); int* cnt = counts.back().get();
    if (kind == 0) { t["type"] = "cgsolver"; t["preconditioner.type"] = "ssor"; objs.push_back({Dune::getSolverFromFactory(ops[o], t), nullptr, behaviour(*solverByHand<X>(2, ops[o], sp, precByHand<M, X>(0, ss[o]->A, pp), p), 3), nullptr}); }
    else if (kind == 1) { t["type"] = "restartedgmressolver"; t["preconditioner.type"] = "jac"; t["preconditioner.relaxation"] = "0.75"; pp.w = 0.75; objs.push_back({Dune::getSolverFromFactory(ops[o], t), nullptr, behaviour(*solverByHand<X>(5, ops[o], sp, precByHand<M, X>(3, ss[o]->A, pp), p), 3), nullptr}); }
    else if (kind == 2 || kind == 3) { t["type"] = kind == 2 ? "bicgstabsolver" : "loopsolver"; if (kind == 3) t["preconditioner.type"] = "no such type"; double w = 1. / (8 + i); int dummy = 0; auto s = Dune::getSolverFromFactory(ops[o], t, std::shared_ptr<Prec<X>>(std::make_shared<Mine<X>>(w, *cnt))); objs.push_back({s, nullptr, behaviour(*solverByHand<X>(kind == 2 ? 3 : 0, ops[o], sp, std::make_shared<Mine<X>>(w, dummy), p), 3), cnt}); }
    else if (kind == 4) { ParameterTree q; q["type"] = "sor"; q["iterations"] = "2"; pp.it = 2; objs.push_back({nullptr, Dune::getPreconditionerFromFactory(ops[o], q), behaviour(*precByHand<M, X>(1, ss[o]->A, pp), 3), nullptr}); }
    else { t["type"] = "cgsolver"; t["preconditioner.type"] = "amg or so"; CHECK(throws([&] { Dune::getSolverFromFactory(ops[o], t); }), "an unknown preconditioner was accepted"); }
    mc::step();
    for (size_t j = 0; j < objs.size(); ++j) { auto& b = objs[j]; std::vector<int> was; for (auto& k : counts) was.push_back(*k); auto got = b.s ? behaviour(*b.s, 3) : behaviour(*b.p, 3); CHECK(got == b.expect, "object", j, "after", i + 1, "calls behaves as", got, "not as", b.expect); for (size_t k = 0; k < counts.size(); ++k) CHECK((*counts[k] > was[k]) == (counts[k].get() == b.count), "the preconditioner that was passed in", counts[k].get() == b.count ? "is not used" : "is used by another solver"); }
    mc::state(mc::Hash()(kind)(o)((int)objs.size())(objs.empty() ? std::string() : objs.back().expect));
  }
  bool drop = c.flag("drop the operators"); if (drop) { ops.clear(); for (auto& b : objs) if (b.s) CHECK(behaviour(*b.s, 3) == b.expect, "a solver depends on the operator of the caller"); }
}
// user defined creators
template <class M> void user(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; init<Op>(); Sys<M> s; system(s, 3, c(3, "matrix")); auto op = std::make_shared<Op>(s.A); static int cnt = 0; int k = c(NSOLV, "solver"), q = c(2, "used as");
  Dune::PreconditionerFactory<Op>::instance().define("mine", [](const std::shared_ptr<Op>&, const ParameterTree& t) -> std::shared_ptr<Prec<X>> { return std::make_shared<Mine<X>>(t.get<double>("w"), cnt); });
  Dune::SolverFactory<Op>::instance().define("mysolver", [](const std::shared_ptr<Op>& o, const ParameterTree& t) -> std::shared_ptr<Solv<X>> { auto pr = Dune::getPreconditionerFromFactory(o, t.sub("preconditioner")); return std::make_shared<Dune::LoopSolver<X>>(*o, *new Dune::SeqScalarProduct<X>, *(new Mine<X>(0.125, cnt)), 1e-3, 9, 0); });
  if (c.flag("registered again")) Dune::initSolverFactories<Op>();
  ParameterTree t; t["type"] = solverNames[k]; t["reduction"] = "1e-5"; t["maxit"] = "11"; t["verbose"] = "0"; t["restart"] = "3"; t["mmax"] = "2"; t["preconditioner.type"] = "mine"; t["preconditioner.w"] = "0.0625"; SPar p; p.red = 1e-5; p.maxit = 11; p.restart = 3; p.mmax = 2; auto sp = std::make_shared<Dune::SeqScalarProduct<X>>(); (void)q;
  auto x = behaviour(*solverByHand<X>(k, op, sp, std::make_shared<Mine<X>>(0.0625, cnt), p), 3), y = behaviour(*Dune::getSolverFromFactory(op, t), 3); CHECK(x == y, "registered preconditioner:", y, "by hand", x); mc::state(mc::Hash()(k)(x));
}
// operators without a matrix
template <class M> struct Free : Dune::LinearOperator<VecOf<M>, VecOf<M>> {
  using X = VecOf<M>; const M& A; Free(const M& a) : A(a) {} void apply(const X& x, X& y) const override { A.mv(x, y); } void applyscaleadd(typename X::field_type al, const X& x, X& y) const override { A.usmv(al, x, y); } Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
template <class M, class Op> void matrixFree(mc::Chooser& c) {
  using X = VecOf<M>; init<Op>(); Sys<M> s; system(s, 3, c(3, "matrix")); std::shared_ptr<Op> op = std::make_shared<Free<M>>(s.A); int k = c(NSOLV, "solver"), q = c(NPREC + 1, "preconditioner"); ParameterTree t; t["type"] = solverNames[k]; t["reduction"] = "1e-5"; t["maxit"] = "11"; t["verbose"] = "0"; t["restart"] = "3"; t["mmax"] = "2"; SPar p; p.red = 1e-5; p.maxit = 11; p.restart = 3; p.mmax = 2; auto sp = std::make_shared<Dune::SeqScalarProduct<X>>(); PPar pp; pp.w = 0.125;
  if (q < NPREC) { t["preconditioner.type"] = precNames[q]; t["preconditioner.relaxation"] = "0.125"; }
  if (q < NPREC && q != 6) { CHECK(throws([&] { Dune::getSolverFromFactory(op, t); }), "a preconditioner that needs a matrix was created without one"); CHECK(throws([&] { Dune::getPreconditionerFromFactory(op, t.sub("preconditioner")); }), "a preconditioner that needs a matrix was created without one"); return; }
  auto pr = q == 6 ? std::shared_ptr<Prec<X>>(std::make_shared<Dune::Richardson<X, X>>(0.125)) : precByHand<M, X>(c(NPREC, "passed"), s.A, pp); auto x = behaviour(*solverByHand<X>(k, op, sp, pr, p), 3); auto y = behaviour(*(q == 6 ? Dune::getSolverFromFactory(op, t) : Dune::getSolverFromFactory(op, t, pr)), 3); CHECK(x == y, "without a matrix:", y, "by hand", x); mc::state(mc::Hash()(k)(q)(x));
}
template <class B> using BCRS = Dune::BCRSMatrix<B>; template <class K, int n> using FM = Dune::FieldMatrix<K, n, n>;
#if SEQ == 1
UNIT(precs_fm1) { precs<BCRS<FM<double, 1>>>(c); }
UNIT(precs_fm2) { precs<BCRS<FM<double, 2>>>(c); }
UNIT(errors) { errors<BCRS<FM<double, 1>>>(c); }
UNIT(history) { history<BCRS<FM<double, 2>>>(c); }
UNIT(user) { user<BCRS<FM<double, 1>>>(c); }
#elif SEQ == 2
UNIT(solvers_fm1) { solvers<BCRS<FM<double, 1>>>(c); }
UNIT(solvers_fm2) { solvers<BCRS<FM<double, 2>>>(c); }
UNIT(matrix_free) { matrixFree<BCRS<FM<double, 2>>, Free<BCRS<FM<double, 2>>>>(c); }
UNIT(matrix_free_base) { using M = BCRS<FM<double, 1>>; matrixFree<M, Dune::LinearOperator<VecOf<M>, VecOf<M>>>(c); }
#else
UNIT(solvers_cplx) { solvers<BCRS<FM<Cx, 1>>>(c); }
UNIT(solvers_float) { solvers<BCRS<FM<float, 1>>>(c); }
UNIT(precs_cplx) { precs<BCRS<FM<Cx, 2>>>(c); }
UNIT(precs_scalar) { precs<BCRS<double>>(c); }
#endif
#endif
#ifdef DIRECTSOLVERS
static const char* directNames[] = {"superlu", "umfpack", "ldl", "spqr", "cholmod"};
template <class M> bool supported(int k) {   // field types and blocks of the documentation
  using K = FieldOf<M>; constexpr bool dbl = std::is_same_v<K, double>, cplx = std::is_same_v<K, Cx>, scalar = Dune::IsNumber<typename M::block_type>::value;
  switch (k) { case 0: case 1: return dbl || cplx; case 2: case 3: return dbl && !scalar; default: return dbl || std::is_same_v<K, float>; }
}
template <class M> void direct(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; using Base = Dune::AssembledLinearOperator<M, X, X>; using K = FieldOf<M>; Quiet quiet; Sys<M> s; int n = SIZES[c(4, "size")]; int k = c(5, "type"); system(s, n, k == 2 || k == 4 ? c.of(std::vector<int>{0, 2}) : c(3, "matrix")); ParameterTree t; t["type"] = directNames[k]; int v = c(3, "verbose"); if (v) t["verbose"] = mc::str(v - 1);
  auto op = std::make_shared<Op>(s.A); std::shared_ptr<Solv<X>> a; bool unsupported = false, base = c.flag("base class"), pass = c.flag("with a preconditioner"); std::shared_ptr<Prec<X>> pr; if (pass) pr = std::make_shared<Dune::Richardson<X, X>>(1.0); NOTE(directNames[k], " n ", n, base ? " base class" : "");
  try { if (base) { init<Base>(); a = Dune::getSolverFromFactory(std::shared_ptr<Base>(op), t, pr); } else { init<Op>(); a = Dune::getSolverFromFactory(op, t, pr); } } catch (const Dune::UnsupportedType&) { unsupported = true; }
  CHECK(unsupported == !supported<M>(k), directNames[k], unsupported ? "is not supported" : "was created"); mc::state(mc::Hash()(k)(n)(v)(base)); if (unsupported) return; CHECK(a && a->category() == Dune::SolverCategory::sequential, "category");
  auto D = flatten(s.A); auto A2 = s.A; A2 = K(0); op.reset();
  for (int rep = 0; rep < 3; ++rep) { X x = vecOf<X>(n, 1), b = vecOf<X>(n, 2 + rep); auto rhs = get(b); std::vector<K> ref; if (!solve(D, rhs, ref)) throw mc::Skip{}; Dune::InverseOperatorResult r; if (rep == 1) a->apply(x, b, 1e-3, r); else a->apply(x, b, r); CHECK(r.converged, "not converged"); auto g = get(x); for (size_t i = 0; i < g.size(); ++i) CHECK(std::abs(g[i] - ref[i]) <= (sizeof(K) == 4 ? 1e-4 : 1e-10) * (1 + std::abs(ref[i])), directNames[k], "gives", g[i], "the solution is", ref[i]); }
}
template <class M> struct Free2 : Dune::LinearOperator<VecOf<M>, VecOf<M>> { using X = VecOf<M>; void apply(const X& x, X& y) const override { y = x; } void applyscaleadd(typename X::field_type al, const X& x, X& y) const override { y.axpy(al, x); } Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
template <class B> using BCRS = Dune::BCRSMatrix<B>; template <class K, int n> using FM = Dune::FieldMatrix<K, n, n>;
#ifndef PAR
UNIT(direct_fm1) { direct<BCRS<FM<double, 1>>>(c); }
UNIT(direct_fm2) { direct<BCRS<FM<double, 2>>>(c); }
UNIT(direct_scalar) { direct<BCRS<double>>(c); }
UNIT(direct_cplx) { direct<BCRS<FM<Cx, 2>>>(c); }
UNIT(direct_float) { direct<BCRS<FM<float, 2>>>(c); }
UNIT(direct_matrix_free) { using M = BCRS<FM<double, 2>>; using Op = Free2<M>; init<Op>(); auto op = std::make_shared<Op>(); ParameterTree t; t["type"] = directNames[c(5, "type")]; CHECK(throws([&] { Dune::getSolverFromFactory(op, t); }), "a direct solver was created without a matrix"); }
#endif
#endif
#if defined(WITHAMG) && !defined(PAR)
static const char* smoothers[] = {"ssor", "sor", "jac", "gs", "ilu"};
template <class M, class X, class Op> std::shared_ptr<Prec<X>> amgByHand(int k, std::shared_ptr<const Op> op, const ParameterTree& t) {
  switch (k) { case 0: return std::make_shared<Dune::Amg::AMG<Op, X, Dune::SeqSSOR<M, X, X>>>(op, t); case 1: return std::make_shared<Dune::Amg::AMG<Op, X, Dune::SeqSOR<M, X, X>>>(op, t); case 2: return std::make_shared<Dune::Amg::AMG<Op, X, Dune::SeqJac<M, X, X>>>(op, t); case 3: return std::make_shared<Dune::Amg::AMG<Op, X, Dune::SeqGS<M, X, X>>>(op, t); default: return std::make_shared<Dune::Amg::AMG<Op, X, Dune::SeqILU<M, X, X>>>(op, t); }
}
template <class M> void amg(mc::Chooser& c) {
  using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; init<Op>(); Quiet quiet; int n = c.of(std::vector<int>{3, 9, 16}); Sys<M> s; system(s, n, 0); auto op = std::make_shared<Op>(s.A); int k = c(6, "smoother"); ParameterTree t; t["type"] = "amg"; t["coarsenTarget"] = "2"; t["verbosity"] = "0"; if (k < 5) t["smoother"] = smoothers[k]; else k = 0;
  static const char* keys[][2] = {{"smootherIterations", "2"}, {"smootherRelaxation", "0.75"}, {"maxLevel", "1"}, {"preSteps", "1"}, {"postSteps", "3"}, {"gamma", "2"}, {"additive", "true"}, {"strengthMeasure", "rowSum"}, {"prolongationDampingFactor", "1"}, {"criterionSymmetric", "false"}};
  for (int i = 0; i < 2; ++i) { int j = c(11, "key"); if (j < 10) t[keys[j][0]] = keys[j][1]; else if (i) throw mc::Skip{}; }
  NOTE("n ", n, " smoother ", smoothers[k]); auto x = behaviour(*amgByHand<M, X, Op>(k, op, t), n); auto y = behaviour(*Dune::getPreconditionerFromFactory(op, t), n); CHECK(x == y, "amg behaves as", y, "by hand", x);
  ParameterTree u; u["type"] = "cgsolver"; u["reduction"] = "1e-6"; u["maxit"] = "30"; u["verbose"] = "0"; for (auto& key : t.getValueKeys()) u["preconditioner." + key] = t[key]; SPar p; p.maxit = 30; auto z = behaviour(*Dune::getSolverFromFactory(op, u), n), w = behaviour(*solverByHand<X>(2, op, std::make_shared<Dune::SeqScalarProduct<X>>(), amgByHand<M, X, Op>(k, op, t), p), n); CHECK(z == w, "CG with amg behaves as", z, "by hand", w); mc::state(mc::Hash()(k)(x));
}
template <class B> using BCRSA = Dune::BCRSMatrix<B>; template <class K, int n> using FMA = Dune::FieldMatrix<K, n, n>;
UNIT(amg) { amg<BCRSA<FMA<double, 1>>>(c); }
UNIT(amg_unsupported) {
  ParameterTree t; t["type"] = "amg"; Quiet quiet; int k = c(2, "operator");
  if (k == 0) { using M = BCRSA<double>; using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; init<Op>(); Sys<M> s; system(s, 3, 0); auto op = std::make_shared<Op>(s.A); bool un = false; try { Dune::getPreconditionerFromFactory(op, t); } catch (const Dune::UnsupportedType&) { un = true; } CHECK(un, "amg for scalar entries"); }
  else { using M = BCRSA<FMA<double, 1>>; using X = VecOf<M>; using Op = Dune::MatrixAdapter<M, X, X>; init<Op>(); Sys<M> s; system(s, 3, 0); auto op = std::make_shared<Op>(s.A); t["smoother"] = "no such smoother"; CHECK(throws([&] { Dune::getPreconditionerFromFactory(op, t); }), "an unknown smoother was accepted"); }
}
#endif
#ifdef PAR
using Cat = Dune::SolverCategory; using PCom = par::CommOf<>;
// path of G vertices, any owners, the overlapping decomposition has the neighbours of the owned vertices; nonoverlapping: edges are distributed
inline par::Decomp decompose(mc::Chooser& c, int P, int G, bool novlp) {
  par::Decomp d; d.P = P; d.G = G; d.attr.assign(P, std::vector<int>(G, par::NONE)); std::vector<int> ow(G);
  if (!novlp) { for (int g = 0; g < G; ++g) { ow[g] = c(P, "owner"); d.attr[ow[g]][g] = par::OWNER; } for (int g = 0; g < G; ++g) for (int h : {g - 1, g + 1}) if (h >= 0 && h < G && ow[h] != ow[g]) d.attr[ow[g]][h] = c.flag("copy") ? par::COPY : par::OVERLAP; }
  else { std::vector<std::set<int>> kn(G); for (int e = 0; e + 1 < G; ++e) { int r = c(P, "element"); kn[e].insert(r); kn[e + 1].insert(r); } if (G == 1) kn[0].insert(0); for (int g = 0; g < G; ++g) { bool first = true; for (int r : kn[g]) { d.attr[r][g] = first ? par::OWNER : par::COPY; first = false; } } }
  d.number(c(2, "numbering"), 0); return d;
}
template <class M> void localSystem(M& L, const par::Decomp& d, int r, bool novlp) {
  using K = FieldOf<M>; constexpr int N = Blk<typename M::block_type>::R; int n = d.size[r]; Pattern p(n);
  for (int l = 0; l < n; ++l) { std::set<int> s{l}; int i = d.global(r, l); for (int j : {i - 1, i + 1}) if (j >= 0 && j < d.G && d.attr[r][j]) s.insert(d.loc[r][j]); p[l].assign(s.begin(), s.end()); }
  buildPattern(L, n, n, p); fill(L, n, n, p, [&](int a, int b) -> K { int i = d.global(r, a / N), j = d.global(r, b / N); if (!novlp && d.attr[r][i] == par::COPY) return K(a == b); if (a == b) return K(7 + N + i % 2); return i == j ? K(1) : K(-1 - (i + j) % 2); });
}
template <class M, bool novlp, class C = PCom> using ParOp = std::conditional_t<novlp, Dune::NonoverlappingSchwarzOperator<M, VecOf<M>, VecOf<M>, C>, Dune::OverlappingSchwarzOperator<M, VecOf<M>, VecOf<M>, C>>;
template <class X, bool novlp> std::shared_ptr<Prec<X>> wrap(std::shared_ptr<Prec<X>> p, const PCom& cm) { if constexpr (novlp) return std::make_shared<Dune::NonoverlappingBlockPreconditioner<PCom, Prec<X>>>(p, cm); else return std::make_shared<Dune::BlockPreconditioner<X, X, PCom>>(p, cm); }
template <class M, bool novlp, class F> void onRanks(mc::Chooser& c, const par::Decomp& d, F f) {
  using Op = ParOp<M, novlp>; init<Op>(); fmpi::maxDeviations() = 0;
  fmpi::run(c, d.P, [&](int r) { auto cm = par::makeComm<int>(d, r, 0, novlp ? Cat::nonoverlapping : Cat::overlapping); M L; localSystem(L, d, r, novlp); auto op = std::make_shared<Op>(L, *cm); f(op, *cm, L, d.size[r], r); });
}
template <class M, bool novlp> void parPrecs(mc::Chooser& c, int P, int G) {
  using X = VecOf<M>; auto d = decompose(c, P, G, novlp); int k = c(NPREC, "type"); ParameterTree t; t["type"] = precNames[k]; PPar p; if (c.flag("relaxation")) { p.w = 0.5; t["relaxation"] = "0.5"; } if (k < 4 && c.flag("iterations")) { p.it = 2; t["iterations"] = "2"; } NOTE(precNames[k], " ", d.show());
  for (int r = 0; r < P; ++r) if (!d.size[r]) throw mc::Skip{};
  onRanks<M, novlp>(c, d, [&](auto op, const PCom& cm, const M& L, int n, int r) { auto x = behaviour(*wrap<X, novlp>(precByHand<M, X>(k, L, p), cm), n), y = behaviour(*Dune::getPreconditionerFromFactory(op, t), n); CHECK(x == y, precNames[k], "on rank", r, "behaves as", y, "by hand", x); mc::state(mc::Hash()(k)(r)(x)); });
}
template <class M, bool novlp> void parSolvers(mc::Chooser& c, int P, int G) {
  using X = VecOf<M>; auto d = decompose(c, P, G, novlp); for (int r = 0; r < P; ++r) if (!d.size[r]) throw mc::Skip{}; int k = c(NSOLV, "solver"), q = novlp || mc::thorough() ? c.of(std::vector<int>{0, 3, 6}) : 3 * int((d.hash() + k) % 3); int how = c(3, "preconditioner"); ParameterTree t; t["type"] = solverNames[k]; t["reduction"] = "1e-6"; t["maxit"] = "12"; t["verbose"] = "0"; t["restart"] = "3"; t["mmax"] = "2"; SPar p; p.maxit = 12; p.restart = 3; p.mmax = 2; PPar pp; pp.w = 0.5; t["preconditioner.type"] = precNames[q]; t["preconditioner.relaxation"] = "0.5"; NOTE(solverNames[k], " with ", precNames[q], " ", d.show());
  onRanks<M, novlp>(c, d, [&](auto op, const PCom& cm, const M& L, int n, int r) {
    auto sp = Dune::createScalarProduct<X>(cm, novlp ? Cat::nonoverlapping : Cat::overlapping); std::shared_ptr<Prec<X>> seq = precByHand<M, X>(q, L, pp), b = wrap<X, novlp>(seq, cm); std::shared_ptr<Solv<X>> hand = solverByHand<X>(k, op, std::shared_ptr<const Dune::ScalarProduct<X>>(sp), b, p); auto x = behaviour(*hand, n);
    auto a = how == 0 ? Dune::getSolverFromFactory(op, t) : Dune::getSolverFromFactory(op, t, how == 1 ? wrap<X, novlp>(precByHand<M, X>(q, L, pp), cm) : precByHand<M, X>(q, L, pp)); auto y = behaviour(*a, n); CHECK(x == y, solverNames[k], "on rank", r, "behaves as", y, "by hand", x); CHECK(a->category() == op->category(), "category"); mc::state(mc::Hash()(k)(r)(x));
  });
}
template <class B> using BCRSP = Dune::BCRSMatrix<B>;
using M1 = BCRSP<Dune::FieldMatrix<double, 1, 1>>; using M2 = BCRSP<Dune::FieldMatrix<double, 2, 2>>;
#if PAR == 1
UNIT(overlapping_preconditioners) { parPrecs<M1, false>(c, 2, mc::thorough() ? 4 : 3); }
UNIT(overlapping_solvers) { parSolvers<M2, false>(c, 2, 3); }
UNIT(overlapping_three) { parPrecs<M1, false>(c, 3, mc::thorough() ? 4 : 3); }
#elif PAR == 2
UNIT(nonoverlapping_preconditioners) { parPrecs<M1, true>(c, 2, mc::thorough() ? 5 : 4); }
UNIT(nonoverlapping_solvers) { parSolvers<M2, true>(c, 2, mc::thorough() ? 5 : 4); }
UNIT(nonoverlapping_three) { parPrecs<M1, true>(c, 3, mc::thorough() ? 5 : 4); }
#elif PAR == 3
template <bool novlp> void parDirect(mc::Chooser& c, int P) {
  using M = M1; using X = VecOf<M>; Quiet quiet; auto d = decompose(c, P, 3, novlp); for (int r = 0; r < P; ++r) if (!d.size[r]) throw mc::Skip{}; int k = c(5, "type"); ParameterTree t; t["type"] = directNames[k];
  onRanks<M, novlp>(c, d, [&](auto op, const PCom&, const M& L, int n, int) { std::shared_ptr<Solv<X>> a; bool t2 = throws([&] { a = Dune::getSolverFromFactory(op, t); }); CHECK(t2 == (P > 1), P > 1 ? "a sequential direct solver was created for several processes" : "a direct solver was rejected on one process"); if (P > 1) return; X x = vecOf<X>(n, 1), b = vecOf<X>(n, 2); auto rhs = get(b); std::vector<double> ref; solve(flatten(L), rhs, ref); Dune::InverseOperatorResult res; a->apply(x, b, res); auto g = get(x); for (size_t i = 0; i < g.size(); ++i) CHECK(std::abs(g[i] - ref[i]) < 1e-10, "solution"); mc::state(mc::Hash()(k)(P)(novlp)); });
}
UNIT(direct_overlapping) { parDirect<false>(c, 1 + c(2, "processes")); }
UNIT(direct_nonoverlapping) { parDirect<true>(c, 1 + c(2, "processes")); }
// ---- categories: every combination of operator, scalar product and preconditioner, every constructor
struct COp : Dune::LinearOperator<VecOf<M1>, VecOf<M1>> { using X = VecOf<M1>; Cat::Category k; COp(Cat::Category k_) : k(k_) {} void apply(const X& x, X& y) const override { y = x; } void applyscaleadd(double a, const X& x, X& y) const override { y.axpy(a, x); } Cat::Category category() const override { return k; } };
struct CPr : Prec<VecOf<M1>> { using X = VecOf<M1>; Cat::Category k; CPr(Cat::Category k_) : k(k_) {} void pre(X&, X&) override {} void apply(X& v, const X& d) override { v = d; } void post(X&) override {} Cat::Category category() const override { return k; } };
struct CSp : Dune::SeqScalarProduct<VecOf<M1>> { Cat::Category k; CSp(Cat::Category k_) : k(k_) {} Cat::Category category() const override { return k; } };
template <class S, class... E> void ctor(mc::Chooser& c, const char* name, bool gmres, E... extra) {
  using X = VecOf<M1>; static const Cat::Category cats[] = {Cat::sequential, Cat::nonoverlapping, Cat::overlapping}; auto o = cats[c(3, "operator")], p = cats[c(3, "preconditioner")], s = cats[c(3, "scalar product")]; int how = c(5, "constructor"); auto op = std::make_shared<COp>(o); auto pr = std::make_shared<CPr>(p); auto sp = std::make_shared<CSp>(s); std::shared_ptr<const Dune::LinearOperator<X, X>> cop = op; std::shared_ptr<const Dune::ScalarProduct<X>> csp = sp; std::shared_ptr<Prec<X>> cpr = pr;
  ParameterTree t; t["reduction"] = "1e-8"; t["maxit"] = "5"; t["verbose"] = "0"; t["restart"] = "3"; std::shared_ptr<Solv<X>> a; bool bad = false; NOTE(name, " categories ", (int)o, " ", (int)p, " ", (int)s, " constructor ", how);
  try {
    if constexpr (sizeof...(E) > 0) { if (how == 0) a = std::make_shared<S>(*op, *pr, 1e-8, extra..., 5, 0); else if (how == 1) a = std::make_shared<S>(*op, *sp, *pr, 1e-8, extra..., 5, 0); else if (how == 2) a = std::make_shared<S>(cop, csp, cpr, 1e-8, extra..., 5, 0); else if (how == 3) a = std::make_shared<S>(cop, cpr, t); else a = std::make_shared<S>(cop, csp, cpr, t); }
    else { if (how == 0) a = std::make_shared<S>(*op, *pr, 1e-8, 5, 0); else if (how == 1) a = std::make_shared<S>(*op, *sp, *pr, 1e-8, 5, 0); else if (how == 2) a = std::make_shared<S>(cop, csp, cpr, 1e-8, 5, 0); else if (how == 3) a = std::make_shared<S>(cop, cpr, t); else a = std::make_shared<S>(cop, csp, cpr, t); }
  } catch (const Dune::InvalidSolverCategory&) { bad = true; }
  auto eff = how == 0 || how == 3 ? Cat::sequential : s; bool expect = o != p || o != eff; CHECK(bad == expect, name, "operator", (int)o, "preconditioner", (int)p, "scalar product", (int)eff, bad ? "rejected" : "accepted"); mc::state(mc::Hash()(name)((int)o)((int)p)((int)s)(how)); if (!bad) CHECK(a->category() == o, "category of the solver"); (void)gmres;
}
UNIT(categories) {
  using X = VecOf<M1>;
  switch (c(NSOLV, "solver")) { case 0: return ctor<Dune::LoopSolver<X>>(c, "LoopSolver", false); case 1: return ctor<Dune::GradientSolver<X>>(c, "GradientSolver", false); case 2: return ctor<Dune::CGSolver<X>>(c, "CGSolver", false); case 3: return ctor<Dune::BiCGSTABSolver<X>>(c, "BiCGSTABSolver", false); case 4: return ctor<Dune::MINRESSolver<X>>(c, "MINRESSolver", false); case 5: return ctor<Dune::RestartedGMResSolver<X>>(c, "RestartedGMResSolver", true, 3); case 6: return ctor<Dune::RestartedFlexibleGMResSolver<X>>(c, "RestartedFlexibleGMResSolver", true, 3); case 7: return ctor<Dune::GeneralizedPCGSolver<X>>(c, "GeneralizedPCGSolver", false); case 8: return ctor<Dune::RestartedFCGSolver<X>>(c, "RestartedFCGSolver", false); default: return ctor<Dune::CompleteFCGSolver<X>>(c, "CompleteFCGSolver", false); }
}
UNIT(scalar_products) {   // createScalarProduct: the scalar product of the category
  using X = VecOf<M1>; auto d = decompose(c, 2, 3, false); int k = c(3, "category"); static const Cat::Category cats[] = {Cat::sequential, Cat::nonoverlapping, Cat::overlapping}; fmpi::maxDeviations() = 0; std::vector<double> x, y; double dot = 0; for (int g = 0; g < 3; ++g) { x.push_back(val<double>(g + 1)); y.push_back(val<double>(3 * g + 2)); dot += x[g] * y[g]; }
  fmpi::run(c, 2, [&](int r) { auto cm = par::makeComm<int>(d, r, 0); auto sp = Dune::createScalarProduct<X>(*cm, cats[k]); CHECK(sp->category() == cats[k], "category of the scalar product"); X u(d.size[r]), v(d.size[r]); double loc = 0; for (int l = 0; l < d.size[r]; ++l) { int g = d.global(r, l); u[l] = x[g]; v[l] = y[g]; loc += x[g] * y[g]; } double got = sp->dot(u, v); CHECK(std::abs(got - (k ? dot : loc)) < 1e-9, "dot", got); double nn = 0, ln = 0; for (double a : x) nn += a * a; for (int l = 0; l < d.size[r]; ++l) ln += u[l][0] * u[l][0]; CHECK(std::abs(sp->norm(u) - std::sqrt(k ? nn : ln)) < 1e-9, "norm"); }); mc::state(mc::Hash()(d.hash())(k));
}
#else
static const char* smoothersP[] = {"ssor", "sor", "jac", "gs", "ilu"};
template <class S, bool novlp> using Wrapped = std::conditional_t<novlp, Dune::NonoverlappingBlockPreconditioner<PCom, S>, Dune::BlockPreconditioner<VecOf<M1>, VecOf<M1>, PCom, S>>;
template <bool novlp> void parAmg(mc::Chooser& c, int P, int G) {
  using M = M1; using X = VecOf<M>; using Op = ParOp<M, novlp>; Quiet quiet; auto d = decompose(c, P, G, novlp); for (int r = 0; r < P; ++r) if (!d.size[r]) throw mc::Skip{}; int k = novlp || mc::thorough() ? c(6, "smoother") : d.hash() % 6; ParameterTree t; t["type"] = "amg"; t["coarsenTarget"] = "2"; t["verbosity"] = "0"; t["accumulationMode"] = c.flag("accumulate") ? "atOnce" : "none"; if (k < 5) t["smoother"] = smoothersP[k]; else k = 0; if (novlp || mc::thorough() ? c.flag("iterations") : d.hash() / 6 % 2) t["smootherIterations"] = "2"; NOTE("smoother ", smoothersP[k], " ", d.show());
  onRanks<M, novlp>(c, d, [&](auto op, const PCom& cm, const M& L, int n, int r) { (void)L; std::shared_ptr<const Op> cop = op; std::shared_ptr<Prec<X>> b;
    switch (k) { case 0: b = std::make_shared<Dune::Amg::AMG<Op, X, Wrapped<Dune::SeqSSOR<M, X, X>, novlp>, PCom>>(cop, t, cm); break; case 1: b = std::make_shared<Dune::Amg::AMG<Op, X, Wrapped<Dune::SeqSOR<M, X, X>, novlp>, PCom>>(cop, t, cm); break; case 2: b = std::make_shared<Dune::Amg::AMG<Op, X, Wrapped<Dune::SeqJac<M, X, X>, novlp>, PCom>>(cop, t, cm); break; case 3: b = std::make_shared<Dune::Amg::AMG<Op, X, Wrapped<Dune::SeqGS<M, X, X>, novlp>, PCom>>(cop, t, cm); break; default: b = std::make_shared<Dune::Amg::AMG<Op, X, Wrapped<Dune::SeqILU<M, X, X>, novlp>, PCom>>(cop, t, cm); }
    auto x = behaviour(*b, n); auto a = Dune::getPreconditionerFromFactory(op, t); auto y = behaviour(*a, n); CHECK(x == y, "amg on rank", r, "behaves as", y, "by hand", x); mc::state(mc::Hash()(k)(r)(x)); });
}
#if PAR == 4
UNIT(amg_overlapping) { parAmg<false>(c, 2, mc::thorough() ? 5 : 4); }
#else
UNIT(amg_nonoverlapping) { parAmg<true>(c, 2, mc::thorough() ? 5 : 4); }
#endif
#endif
#endif
