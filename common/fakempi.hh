// fakempi.hh - the MPI functions DUNE uses, implemented in one process for model checking.
//
// The ranks of one execution are fibers of one process.  A rank runs until it blocks in an MPI call; when every
// rank is blocked the explorer decides which of the enabled nondeterministic matches happens (which message a
// wildcard receive or probe sees, which completed request Waitany reports, which rank is served first).  This is the
// partial order reduction for MPI programs of Vakkalanka et al. (POE): matches without a choice commute and are done
// at once.  Deviations from the default choice are counted and bounded, so the space is "all message orders with at
// most D deviations".  Violations of the MPI rules that a run can show are failures: deadlock, messages never
// received, truncation, mismatched collectives, send buffers modified before completion, requests never completed.
#pragma once
#include "mc.hh"
#include <mpi.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define FMPI_ASAN 1
#else
#define FMPI_ASAN 0
#endif
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
// context switch without system calls: callee saved registers and the stack pointer
extern "C" void fmpi_switch(void** from, void* to);
asm(".text\n.globl fmpi_switch\n.type fmpi_switch,@function\nfmpi_switch:\n pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp,(%rdi)\n movq %rsi,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size fmpi_switch,.-fmpi_switch\n");
namespace fmpi {
// ---- datatypes
struct Type { std::vector<std::pair<ptrdiff_t, size_t>> seg; size_t size = 0; ptrdiff_t lb = 0, extent = 0; int kind = 0; bool builtin = false, alive = true; };
enum Kind { OTHER, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F80, BOOL, C32, C64, C80, PACK };
inline std::map<MPI_Datatype, Type>& types() { static std::map<MPI_Datatype, Type> t; return t; }
inline int& liveTypes() { static int n = 0; return n; }
inline void addBuiltin(MPI_Datatype h, size_t s, int k) { Type t; t.seg = {{0, s}}; t.size = s; t.extent = (ptrdiff_t)s; t.kind = k; t.builtin = true; types().emplace(h, t); }
inline Type& type(MPI_Datatype h) {
  auto& t = types();
  if (t.empty()) {
    addBuiltin(MPI_CHAR, 1, I8); addBuiltin(MPI_SIGNED_CHAR, 1, I8); addBuiltin(MPI_UNSIGNED_CHAR, 1, U8); addBuiltin(MPI_BYTE, 1, U8); addBuiltin(MPI_PACKED, 1, PACK);
    addBuiltin(MPI_SHORT, 2, I16); addBuiltin(MPI_UNSIGNED_SHORT, 2, U16); addBuiltin(MPI_INT, 4, I32); addBuiltin(MPI_UNSIGNED, 4, U32); addBuiltin(MPI_LONG, 8, I64); addBuiltin(MPI_UNSIGNED_LONG, 8, U64);
    addBuiltin(MPI_LONG_LONG, 8, I64); addBuiltin(MPI_UNSIGNED_LONG_LONG, 8, U64); addBuiltin(MPI_FLOAT, 4, F32); addBuiltin(MPI_DOUBLE, 8, F64); addBuiltin(MPI_LONG_DOUBLE, sizeof(long double), F80);
    addBuiltin(MPI_INT32_T, 4, I32); addBuiltin(MPI_INT64_T, 8, I64); addBuiltin(MPI_UINT32_T, 4, U32); addBuiltin(MPI_UINT64_T, 8, U64);
    addBuiltin(MPI_CXX_BOOL, 1, BOOL); addBuiltin(MPI_CXX_FLOAT_COMPLEX, 8, C32); addBuiltin(MPI_CXX_DOUBLE_COMPLEX, 16, C64); addBuiltin(MPI_CXX_LONG_DOUBLE_COMPLEX, 2 * sizeof(long double), C80);
  }
  auto i = t.find(h); if (i == t.end()) mc::fail("MPI: unknown or freed datatype"); return i->second;
}
inline MPI_Datatype newType(Type t) { liveTypes()++; auto h = reinterpret_cast<MPI_Datatype>(new char[1]); size_t s = 0; for (auto& g : t.seg) s += g.second; t.size = s; t.kind = OTHER; t.builtin = false; types()[h] = t; return h; }
// merge adjacent segments so that contiguous types stay cheap
inline void addSegs(std::vector<std::pair<ptrdiff_t, size_t>>& out, const Type& t, ptrdiff_t at, int count) {
  for (int i = 0; i < count; ++i) for (auto& g : t.seg) { ptrdiff_t p = at + i * t.extent + g.first; if (!out.empty() && out.back().first + (ptrdiff_t)out.back().second == p) out.back().second += g.second; else out.emplace_back(p, g.second); }
}
using Bytes = std::vector<char>;
inline Bytes pack(const void* b, int count, const Type& t) { Bytes r; r.reserve(t.size * (size_t)count); for (int i = 0; i < count; ++i) for (auto& g : t.seg) { auto p = (const char*)b + i * t.extent + g.first; r.insert(r.end(), p, p + g.second); } return r; }
// returns number of bytes written
inline size_t unpack(const char* d, size_t n, void* b, int count, const Type& t) { size_t at = 0; for (int i = 0; i < count; ++i) for (auto& g : t.seg) { size_t k = std::min(g.second, n - at); std::memcpy((char*)b + i * t.extent + g.first, d + at, k); at += k; if (at == n) return at; } return at; }

struct Comm { std::vector<int> members; int id; bool alive = true; std::map<int, int> seq; };   // seq: world rank -> number of collectives started
struct Req;
struct Msg { int src, dst, tag; Comm* comm; Bytes data; Req* req = nullptr; bool matched = false; uint64_t order; };
struct Req {
  enum { SEND, RECV, COLL } kind; int owner; bool active = true, done = false, persistent = false, sync = true, cancelled = false;
  const void* sbuf = nullptr; void* rbuf = nullptr; int count = 0; MPI_Datatype dt; int peer, tag; Comm* comm; Bytes snapshot, saved; uint64_t order = 0; MPI_Status st{}; size_t got = 0; std::shared_ptr<struct Coll> coll; std::string what;
};
struct Coll { std::string sig; std::map<int, Bytes> in; std::map<int, std::function<void(Coll&, int)>> finish; int arrived = 0; bool ready = false; };
struct Op { MPI_User_function* f; bool commute; };
struct Abort {};
struct Fiber { void* ctx = nullptr; char* stack = nullptr; size_t size = 0; bool started = false, finished = false; std::function<bool()> pred; std::function<int()> cands; std::function<bool()> complete; int pick = -1; std::string where; void* eh[2] = {nullptr, nullptr}; void* fake = nullptr; };

struct World {
  mc::Chooser* c = nullptr; int P = 0, cur = -1, dev = 0; bool eager = true; std::vector<Fiber> f; void* main = nullptr; void* mainFake = nullptr; const void* mainBottom = nullptr; size_t mainSize = 0; void* mainEh[2] = {nullptr, nullptr};
  std::function<void(int)> body; std::exception_ptr ex; bool aborting = false;
  std::map<MPI_Comm, std::unique_ptr<Comm>> comms; int nextComm = 0;
  std::list<Msg> msgs; std::list<Req*> recvs; std::set<Req*> live; uint64_t clock = 0; std::map<std::pair<int, int>, std::shared_ptr<Coll>> colls; std::map<std::pair<Coll*, int>, std::pair<MPI_Comm, int>> made; uint64_t matches = 0, choicesMade = 0; int rankOrder = 0; std::string trace;
  MPI_Comm keepWorld;
};
inline World*& W() { static World* w = nullptr; return w; }
inline std::vector<std::pair<char*, bool>>& stacks() { static std::vector<std::pair<char*, bool>> s; return s; }
constexpr size_t stackSize = 4 << 20;
inline World& w() { if (!W()) mc::fail("MPI call outside of a run"); return *W(); }
inline Comm& comm(MPI_Comm h) { auto i = w().comms.find(h); if (i == w().comms.end() || !i->second->alive) mc::fail("MPI: invalid or freed communicator"); return *i->second; }
inline int rankIn(const Comm& k, int world) { for (size_t i = 0; i < k.members.size(); ++i) if (k.members[i] == world) return (int)i; return MPI_UNDEFINED; }
inline void switchTo(void** from, void** to, void** fake, const void* bottom, size_t size, void** ehSave, void** ehLoad) {
  void** g = (void**)__cxxabiv1::__cxa_get_globals(); ehSave[0] = g[0]; std::memcpy(&ehSave[1], &g[1], sizeof(unsigned)); g[0] = ehLoad[0]; std::memcpy(&g[1], &ehLoad[1], sizeof(unsigned));
#if FMPI_ASAN
  __sanitizer_start_switch_fiber(fake, bottom, size);
#endif
  fmpi_switch(from, *to);
#if FMPI_ASAN
  __sanitizer_finish_switch_fiber(fake ? *fake : nullptr, nullptr, nullptr);
#endif
}
inline void toMain() { World& x = w(); Fiber& f = x.f[x.cur]; switchTo(&f.ctx, &x.main, f.finished ? nullptr : &f.fake, x.mainBottom, x.mainSize, f.eh, x.mainEh); if (x.aborting) throw Abort{}; }
inline void block(std::string where, std::function<bool()> pred, std::function<int()> cands = {}, std::function<bool()> complete = {}) { World& x = w(); Fiber& f = x.f[x.cur]; if (pred && pred()) return; if (x.aborting) { if (std::uncaught_exceptions() > 0) return; throw Abort{}; } f.where = std::move(where); f.pred = std::move(pred); f.cands = std::move(cands); f.complete = std::move(complete); f.pick = -1; toMain(); x.f[x.cur].pred = nullptr; x.f[x.cur].cands = nullptr; }
inline void entry() {
  World& x = w();
#if FMPI_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &x.mainBottom, &x.mainSize);
#endif
  Fiber& f = x.f[x.cur]; int r = x.cur;
  try { x.body(r); } catch (Abort&) {} catch (...) { if (!x.ex) x.ex = std::current_exception(); }
  f.finished = true; f.pred = nullptr; f.cands = nullptr; toMain(); std::abort();
}
// ---- matching
inline bool fits(const Req* r, const Msg& m) { return !m.matched && m.dst == r->owner && m.comm == r->comm && (r->peer == MPI_ANY_SOURCE || r->comm->members[(size_t)r->peer] == m.src) && (r->tag == MPI_ANY_TAG || r->tag == m.tag); }
inline void deliver(Req* r, Msg& m) {
  World& x = w(); ++x.matches; mc::step(); Type& t = type(r->dt); if (m.data.size() > t.size * (size_t)r->count) mc::fail("MPI: message of ", m.data.size(), " bytes truncated to ", t.size * (size_t)r->count, " (rank ", m.src, " -> ", m.dst, ", tag ", m.tag, ")");
  if (m.req) { Req* s = m.req; if (s->sbuf && pack(s->sbuf, s->count, type(s->dt)) != s->snapshot) mc::fail("MPI: send buffer modified before the send completed (rank ", m.src, " -> ", m.dst, ")"); s->done = true; s->st.MPI_ERROR = MPI_SUCCESS; m.req = nullptr; }
  unpack(r->saved.data(), r->saved.size(), r->rbuf, r->count, t); unpack(m.data.data(), m.data.size(), r->rbuf, r->count, t);
  r->got = m.data.size(); r->st.MPI_SOURCE = rankIn(*r->comm, m.src); r->st.MPI_TAG = m.tag; r->st.MPI_ERROR = MPI_SUCCESS; r->st._ucount = m.data.size(); r->done = true; m.matched = true;
}
// all matches without a choice
inline void settle() {
  World& x = w(); bool again = true;
  while (again) { again = false;
    for (auto it = x.recvs.begin(); it != x.recvs.end();) { Req* r = *it; Msg* hit = nullptr;
      if (r->peer != MPI_ANY_SOURCE) for (auto& m : x.msgs) if (fits(r, m)) { bool earlier = false; for (Req* q : x.recvs) { if (q == r) break; if (fits(q, m)) { earlier = true; break; } } if (!earlier) hit = &m; break; }
      if (hit) { deliver(r, *hit); it = x.recvs.erase(it); again = true; } else ++it; }
    x.msgs.remove_if([](const Msg& m) { return m.matched; }); }
}
// earliest eligible message of every source
inline std::vector<Msg*> eligible(const Req& r) { std::vector<Msg*> v; std::set<int> seen; for (auto& m : w().msgs) if (fits(&r, m)) { if (seen.count(m.src)) continue; bool earlier = false; for (Req* q : w().recvs) { if (q == &r) break; if (fits(q, m)) { earlier = true; break; } } seen.insert(m.src); if (!earlier) v.push_back(&m); } std::sort(v.begin(), v.end(), [](Msg* a, Msg* b) { return a->src < b->src; }); return v; }
inline int& maxDeviations() { static int d = 2; return d; }
inline int choose(int n, const char* what) { World& x = w(); if (n <= 1 || x.dev >= maxDeviations()) return 0; ++x.choicesMade; int v = (*x.c)(n, what); if (v) ++x.dev; return v; }
inline std::string dump() { World& x = w(); std::string s; for (int r = 0; r < x.P; ++r) s += mc::str("\n  rank ", r, ": ", x.f[(size_t)r].finished ? "finished" : x.f[(size_t)r].where); for (auto& m : x.msgs) s += mc::str("\n  message ", m.src, " -> ", m.dst, " tag ", m.tag, " (", m.data.size(), " bytes) not received"); return s; }
inline void resume(int r) {
  World& x = w(); Fiber& f = x.f[(size_t)r]; x.cur = r;
  switchTo(&x.main, &f.ctx, &x.mainFake, f.stack, f.size, x.mainEh, f.eh); x.cur = -1;
}
struct Options { bool eager = true; int rankOrder = 0; };
inline uint64_t run(mc::Chooser& c, int P, std::function<void(int)> body, Options o = {}) {
  World x; x.c = &c; x.P = P; x.body = std::move(body); x.eager = o.eager; x.rankOrder = o.rankOrder; W() = &x;
  auto mk = [&](MPI_Comm h, std::vector<int> m) { auto k = std::make_unique<Comm>(); k->members = m; k->id = x.nextComm++; x.comms[h] = std::move(k); };
  std::vector<int> all; for (int i = 0; i < P; ++i) all.push_back(i); mk(MPI_COMM_WORLD, all);
  x.f.resize((size_t)P);
  for (int i = 0; i < P; ++i) { Fiber& f = x.f[(size_t)i]; if ((int)stacks().size() <= i) { char* s = (char*)mmap(nullptr, stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(s, 4096, PROT_NONE); stacks().push_back({s, false}); }
    f.stack = stacks()[(size_t)i].first; f.size = stackSize;
#if FMPI_ASAN
    if (stacks()[(size_t)i].second) ASAN_UNPOISON_MEMORY_REGION(f.stack + 4096, stackSize - 4096);
#endif
    stacks()[(size_t)i].second = false; { void** sp = reinterpret_cast<void**>(f.stack + f.size) - 2; *--sp = nullptr; *--sp = reinterpret_cast<void*>(&entry); for (int k = 0; k < 6; ++k) *--sp = nullptr; f.ctx = sp; } }
  std::exception_ptr ex;
  try {
    for (;;) {
      bool ran = false, open = false;
      for (int k = 0; k < P; ++k) { int i = x.rankOrder ? P - 1 - k : k; Fiber& f = x.f[(size_t)i]; if (f.finished) continue; open = true; if (!f.started || (f.pred && f.pred())) { f.started = true; ran = true; resume(i); if (x.ex) { ex = x.ex; break; } settle(); } }
      if (ex || !open) break; if (ran) continue;
      // every rank is blocked: serve one of the nondeterministic operations
      std::vector<std::pair<int, int>> en; for (int i = 0; i < P; ++i) { Fiber& f = x.f[(size_t)i]; if (!f.finished && f.cands) { int n = f.cands(); if (n > 0) en.emplace_back(i, n); } }
      if (en.empty()) { mc::fail("MPI: deadlock", dump()); }
      int which = -1; for (size_t k = 0; k < en.size() && which < 0; ++k) { Fiber& g = x.f[(size_t)en[k].first]; if (g.complete && g.complete()) which = (int)k; }   // nothing another rank does can add candidates
      if (which < 0) which = choose((int)en.size(), "rank to serve"); auto [r, n] = en[(size_t)which]; Fiber& f = x.f[(size_t)r]; f.pick = choose(n, "match"); resume(r); if (x.ex) { ex = x.ex; break; } settle();
    }
    if (!ex) { if (!x.msgs.empty()) mc::fail("MPI: messages never received", dump()); for (Req* q : x.live) if (!q->done && q->active) mc::fail("MPI: request never completed: ", q->what); }
  } catch (...) { ex = std::current_exception(); }
  // unwind ranks that are still inside their body so that their objects are released
  if (ex) { x.aborting = true; for (int i = 0; i < P; ++i) { Fiber& f = x.f[(size_t)i]; if (!f.started || f.finished) continue; if (f.where == "Comm_free") { stacks()[(size_t)i].second = true; continue; } for (int k = 0; k < 100 && !f.finished; ++k) resume(i); if (!f.finished) stacks()[(size_t)i].second = true; } }
  uint64_t leakedComms = 0; for (auto& [h, k] : x.comms) if (k->id > 0 && k->alive) ++leakedComms;
  for (auto& [h, k] : x.comms) if (k->id > 0) delete[] reinterpret_cast<char*>(h);
  for (Req* q : x.live) delete q; W() = nullptr; if (ex) std::rethrow_exception(ex); return leakedComms;
}
// ---- point to point
inline Req* mkReq(decltype(Req::SEND) k, const void* s, void* r, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, const char* what) {
  Comm& cc = comm(c); if (peer != MPI_ANY_SOURCE && peer != MPI_PROC_NULL && (peer < 0 || peer >= (int)cc.members.size())) mc::fail("MPI: invalid rank ", peer, " in ", what); if (n < 0) mc::fail("MPI: negative count in ", what);
  Req* q = new Req; q->kind = k; q->owner = w().cur; q->sbuf = s; q->rbuf = r; q->count = n; q->dt = t; q->peer = peer; q->tag = tag; q->comm = &cc; q->what = mc::str(what, " by rank ", q->owner, " peer ", peer, " tag ", tag); w().live.insert(q); return q;
}
inline void startReq(Req* q) {
  World& x = w(); q->active = true; q->done = false; q->order = ++x.clock; if (q->peer == MPI_PROC_NULL) { q->done = true; return; } Type& t = type(q->dt);
  if (q->kind == Req::SEND) { Msg m; m.src = q->owner; m.dst = q->comm->members[(size_t)q->peer]; m.tag = q->tag; m.comm = q->comm; m.data = pack(q->sbuf, q->count, t); m.order = q->order; if (q->sync || !x.eager) { m.req = q; q->snapshot = m.data; } else q->done = true; x.msgs.push_back(std::move(m)); }
  else { q->saved = pack(q->rbuf, q->count, t); Bytes poison(q->saved.size(), (char)0xA5); unpack(poison.data(), poison.size(), q->rbuf, q->count, t); x.recvs.push_back(q); }
  settle();
}
inline void finish(MPI_Request* h, MPI_Status* st) { Req* q = reinterpret_cast<Req*>(*h); if (st != MPI_STATUS_IGNORE) { int e = st->MPI_ERROR; *st = q->st; if (e == MPI_SUCCESS) st->MPI_ERROR = MPI_SUCCESS; } if (q->persistent) { q->active = false; q->done = true; } else { w().live.erase(q); delete q; *h = MPI_REQUEST_NULL; } }
inline Req* rq(MPI_Request h) { Req* q = reinterpret_cast<Req*>(h); if (!w().live.count(q)) mc::fail("MPI: use of an invalid request"); return q; }
inline bool isNull(MPI_Request h) { return h == MPI_REQUEST_NULL || !rq(h)->active; }
inline void emptyStatus(MPI_Status* s) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = MPI_SUCCESS; s->_ucount = 0; s->_cancelled = 0; } }
// make progress on a pending wildcard receive: called when the rank was picked
inline int wildCands(const std::vector<Req*>& rs) { int n = 0; for (Req* q : rs) if (!q->done && q->kind == Req::RECV && q->peer == MPI_ANY_SOURCE) { n += (int)eligible(*q).size(); } return n; }
inline void wildPick(const std::vector<Req*>& rs, int k) { for (Req* q : rs) if (!q->done && q->kind == Req::RECV && q->peer == MPI_ANY_SOURCE) { auto v = eligible(*q); if (k < (int)v.size()) { Msg* m = v[(size_t)k]; deliver(q, *m); w().recvs.remove(q); w().msgs.remove_if([](const Msg& z) { return z.matched; }); settle(); return; } k -= (int)v.size(); } }
inline void waitAll(std::vector<Req*> rs, const char* what) {
  World& x = w(); auto done = [rs] { for (Req* q : rs) if (!q->done) return false; return true; };
  // all wildcard receives of this rank may be matched while it waits
  while (!done()) { if (x.aborting && std::uncaught_exceptions() > 0) return; std::vector<Req*> wild; for (Req* q : x.recvs) if (q->owner == x.cur && q->peer == MPI_ANY_SOURCE) wild.push_back(q); std::string s = what; for (Req* q : rs) if (!q->done) s += " [" + q->what + "]"; int me = x.cur;
    if (wild.empty()) block(s, done); else { block(s, done, [wild] { return wildCands(wild); }); if (x.f[(size_t)me].pick >= 0) { int k = x.f[(size_t)me].pick; x.f[(size_t)me].pick = -1; wildPick(wild, k); } } }
}
// ---- collectives
// in: this rank's contribution; fin: run on every rank (in its fiber) once all contributions are there
inline std::shared_ptr<Coll> enter(MPI_Comm ch, std::string sig, Bytes in) { World& x = w(); Comm& k = comm(ch); int n = k.seq[x.cur]++; auto& c = x.colls[{k.id, n}]; if (!c) { c = std::make_shared<Coll>(); c->sig = sig; } auto p = c; if (p->sig != sig && !w().aborting) mc::fail("MPI: mismatched collectives: ", p->sig, " and ", sig, " (rank ", x.cur, ")"); p->in[rankIn(k, x.cur)] = std::move(in); if (++p->arrived == (int)k.members.size()) { p->ready = true; mc::step(); x.colls.erase({k.id, n}); } return p; }
inline std::shared_ptr<Coll> collect(MPI_Comm ch, std::string sig, Bytes in) { auto p = enter(ch, sig, std::move(in)); if (!p->ready) block(sig, [p] { return p->ready; }); return p; }
template <class T> void red(MPI_Op op, T& a, const T& b) {   // a = b op a with a later rank
  if constexpr (!std::is_same_v<T, std::complex<float>> && !std::is_same_v<T, std::complex<double>> && !std::is_same_v<T, std::complex<long double>>) { if (op == MPI_MAX) { a = std::max(a, b); return; } if (op == MPI_MIN) { a = std::min(a, b); return; } if (op == MPI_LAND) { a = (T)(a && b); return; } if (op == MPI_LOR) { a = (T)(a || b); return; } 
    if constexpr (std::is_integral_v<T>) { if (op == MPI_BAND) { a = (T)(a & b); return; } if (op == MPI_BOR) { a = (T)(a | b); return; } } }
  if (op == MPI_SUM) { a = (T)(b + a); return; } if (op == MPI_PROD) { a = (T)(b * a); return; } mc::fail("MPI: unsupported reduction");
}
template <class T> void redN(MPI_Op op, char* acc, const char* add, size_t bytes) { for (size_t i = 0; i + sizeof(T) <= bytes; i += sizeof(T)) { T a, b; std::memcpy(&a, acc + i, sizeof(T)); std::memcpy(&b, add + i, sizeof(T)); red(op, a, b); std::memcpy(acc + i, &a, sizeof(T)); } }
inline std::map<MPI_Op, Op>& userOps() { static std::map<MPI_Op, Op> o; return o; }
inline Bytes reduce(Coll& c, int count, MPI_Datatype dt, MPI_Op op) {
  Bytes acc = c.in.begin()->second; auto u = userOps().find(op); Type& t = type(dt);
  for (auto i = std::next(c.in.begin()); i != c.in.end(); ++i) {
    if (u != userOps().end()) { if (t.extent != (ptrdiff_t)t.size) mc::fail("fakempi: reduction on a type with holes"); Bytes b = i->second; int len = count; MPI_Datatype d = dt; std::vector<std::max_align_t> A(acc.size() / sizeof(std::max_align_t) + 1), B(A.size()); std::memcpy(A.data(), acc.data(), acc.size()); std::memcpy(B.data(), b.data(), b.size()); u->second.f(A.data(), B.data(), &len, &d); std::memcpy(acc.data(), B.data(), acc.size()); }
    else { size_t n = acc.size(); char* a = acc.data(); const char* b = i->second.data(); switch (t.kind) { case I8: redN<signed char>(op, a, b, n); break; case U8: redN<unsigned char>(op, a, b, n); break; case I16: redN<short>(op, a, b, n); break; case U16: redN<unsigned short>(op, a, b, n); break; case I32: redN<int>(op, a, b, n); break; case U32: redN<unsigned>(op, a, b, n); break; case I64: redN<long>(op, a, b, n); break; case U64: redN<unsigned long>(op, a, b, n); break; case F32: redN<float>(op, a, b, n); break; case F64: redN<double>(op, a, b, n); break; case F80: redN<long double>(op, a, b, n); break; case BOOL: redN<bool>(op, a, b, n); break; case C32: redN<std::complex<float>>(op, a, b, n); break; case C64: redN<std::complex<double>>(op, a, b, n); break; case C80: redN<std::complex<long double>>(op, a, b, n); break; default: mc::fail("MPI: reduction on an unsupported type"); } } }
  return acc;
}
inline const void* inPlace(const void* s, const void* r) { return s == MPI_IN_PLACE ? r : s; }
inline MPI_Request collReq(std::shared_ptr<Coll> p, MPI_Comm ch, std::function<void(Coll&, int)> fin, const char* what) { Req* q = new Req; q->kind = Req::COLL; q->owner = w().cur; q->comm = &comm(ch); q->coll = p; q->what = what; w().live.insert(q); int me = rankIn(*q->comm, q->owner); p->finish[me] = fin; return reinterpret_cast<MPI_Request>(q); }
inline bool collDone(Req* q) { if (q->kind == Req::COLL && !q->done && q->coll->ready) { q->done = true; int me = rankIn(*q->comm, q->owner); q->coll->finish[me](*q->coll, me); } return q->done; }
}
using namespace fmpi;
extern "C" {
int MPI_Init(int*, char***) { return 0; } int MPI_Init_thread(int*, char***, int r, int* p) { *p = r; return 0; } int MPI_Finalize() { return 0; } int MPI_Initialized(int* f) { *f = 1; return 0; } int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int e) { mc::fail("MPI_Abort(", e, ")"); } double MPI_Wtime() { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = fmpi::W() ? rankIn(fmpi::comm(c), w().cur) : 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = fmpi::W() ? (int)fmpi::comm(c).members.size() : 1; return 0; }
int MPI_Comm_free(MPI_Comm* c) { auto& k = fmpi::comm(*c); if (k.id == 0) mc::fail("MPI: MPI_COMM_WORLD freed"); auto p = collect(*c, "Comm_free", {}); int n = --p->arrived; if (n == 0) k.alive = false; *c = MPI_COMM_NULL; return 0; }
static int fmpi_split(MPI_Comm c, int color, int key, MPI_Comm* out, const char* what) {
  int v[2] = {color, key}; auto p = collect(c, what, Bytes((char*)v, (char*)(v + 2))); Comm& k = fmpi::comm(c); int me = w().cur;
  std::map<int, std::vector<std::array<int, 2>>> g; for (auto& [r, b] : p->in) { int u[2]; std::memcpy(u, b.data(), sizeof u); if (u[0] != MPI_UNDEFINED) g[u[0]].push_back({u[1], r}); }
  *out = MPI_COMM_NULL; if (color == MPI_UNDEFINED) return 0; auto& m = g[color]; std::sort(m.begin(), m.end()); int first = m[0][1];
  // the first member to come along creates the communicator, the others find it
  auto& made = w().made; auto& e = made[{p.get(), color}];
  if (e.second == 0) { auto nk = std::make_unique<Comm>(); for (auto& a : m) nk->members.push_back(k.members[(size_t)a[1]]); nk->id = w().nextComm++; e.first = reinterpret_cast<MPI_Comm>(new char[1]); w().comms[e.first] = std::move(nk); }
  *out = e.first; if (++e.second == (int)m.size()) made.erase({p.get(), color}); (void)first; (void)me; return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) { return fmpi_split(c, color, key, out, "Comm_split"); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { int r; MPI_Comm_rank(c, &r); return fmpi_split(c, 0, r, out, "Comm_dup"); }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = a == b ? MPI_IDENT : fmpi::comm(a).members == fmpi::comm(b).members ? MPI_CONGRUENT : MPI_UNEQUAL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; } int MPI_Errhandler_free(MPI_Errhandler*) { return 0; } int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler*) { return 0; }
int MPI_Error_string(int, char* s, int* l) { std::strcpy(s, "error"); *l = 5; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) { Type a, & b = fmpi::type(o); addSegs(a.seg, b, 0, n); a.extent = b.extent * n; *t = newType(a); return 0; }
int MPI_Type_create_struct(int n, const int* len, const MPI_Aint* d, const MPI_Datatype* ts, MPI_Datatype* t) { Type a; ptrdiff_t lo = 0, hi = 0; for (int i = 0; i < n; ++i) { Type& b = fmpi::type(ts[i]); addSegs(a.seg, b, d[i], len[i]); hi = std::max(hi, (ptrdiff_t)d[i] + b.extent * len[i]); } a.lb = lo; a.extent = hi; *t = newType(a); return 0; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint e, MPI_Datatype* t) { Type a = fmpi::type(o); a.lb = lb; a.extent = e; *t = newType(a); return 0; }
int MPI_Type_create_hindexed(int n, const int* len, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t) { Type a, & b = fmpi::type(o); ptrdiff_t hi = 0; for (int i = 0; i < n; ++i) { addSegs(a.seg, b, d[i], len[i]); hi = std::max(hi, (ptrdiff_t)d[i] + b.extent * len[i]); } a.extent = hi; *t = newType(a); return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; } int MPI_Type_free(MPI_Datatype* t) { if (fmpi::type(*t).builtin) mc::fail("MPI: builtin datatype freed"); fmpi::types().erase(*t); delete[] reinterpret_cast<char*>(*t); --liveTypes(); *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)fmpi::type(t).size; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { size_t z = fmpi::type(t).size; *n = z ? (s->_ucount % z ? MPI_UNDEFINED : (int)(s->_ucount / z)) : 0; return 0; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = (int)(fmpi::type(t).size * (size_t)n); return 0; }
int MPI_Pack(const void* b, int n, MPI_Datatype t, void* o, int os, int* pos, MPI_Comm) { auto d = pack(b, n, fmpi::type(t)); if (*pos < 0 || (size_t)*pos + d.size() > (size_t)os) mc::fail("MPI: pack buffer of ", os, " bytes too small"); if (d.size()) std::memcpy((char*)o + *pos, d.data(), d.size()); *pos += (int)d.size(); return 0; }
int MPI_Unpack(const void* b, int s, int* pos, void* o, int n, MPI_Datatype t, MPI_Comm) { Type& y = fmpi::type(t); size_t need = y.size * (size_t)n; if (*pos < 0 || (size_t)*pos + need > (size_t)s) mc::fail("MPI: unpacking beyond the message (", s, " bytes)"); unpack((const char*)b + *pos, need, o, n, y); *pos += (int)need; return 0; }
static MPI_Request fmpi_isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool sync, const char* what) { Req* q = mkReq(Req::SEND, b, nullptr, n, t, d, tag, c, what); q->sync = sync; startReq(q); return reinterpret_cast<MPI_Request>(q); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = fmpi_isend(b, n, t, d, tag, c, true, "Issend"); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { *r = fmpi_isend(b, n, t, d, tag, c, false, "Isend"); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { Req* q = mkReq(Req::RECV, nullptr, b, n, t, s, tag, c, "Irecv"); startReq(q); *r = reinterpret_cast<MPI_Request>(q); return 0; }
int MPI_Wait(MPI_Request* r, MPI_Status* s) { if (isNull(*r)) { emptyStatus(s); return 0; } Req* q = rq(*r); if (q->kind == Req::COLL) { if (!collDone(q)) block(q->what, [q] { return collDone(q); }); } else waitAll({q}, "Wait"); finish(r, s); return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) { std::vector<Req*> v; for (int i = 0; i < n; ++i) if (!isNull(r[i])) { Req* q = rq(r[i]); if (q->kind == Req::COLL) { if (!collDone(q)) block(q->what, [q] { return collDone(q); }); } else v.push_back(q); } waitAll(v, "Waitall"); for (int i = 0; i < n; ++i) if (isNull(r[i])) emptyStatus(s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); else finish(r + i, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); return 0; }
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s) {
  std::vector<Req*> v; std::vector<int> at; for (int i = 0; i < n; ++i) if (!isNull(r[i])) { v.push_back(rq(r[i])); at.push_back(i); } *idx = MPI_UNDEFINED; if (v.empty()) { emptyStatus(s); return 0; } World& x = w(); int me = x.cur;
  for (;;) { if (x.aborting) throw Abort{}; block("Waitany", {}, [v] { int k = 0; for (Req* q : v) if (q->done) ++k; return k + wildCands(v); }, [v] { for (Req* q : v) if (!q->done) return false; return true; }); int k = x.f[(size_t)me].pick; x.f[(size_t)me].pick = -1; if (k < 0) continue;
    for (size_t i = 0; i < v.size(); ++i) if (v[i]->done && k-- == 0) { *idx = at[i]; finish(r + at[i], s); return 0; }
    wildPick(v, k); for (size_t i = 0; i < v.size(); ++i) if (v[i]->done && v[i]->peer == MPI_ANY_SOURCE && v[i]->kind == Req::RECV) { *idx = at[i]; finish(r + at[i], s); return 0; } }
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s) { if (isNull(*r)) { *flag = 1; emptyStatus(s); return 0; } Req* q = rq(*r); bool d = q->kind == Req::COLL ? collDone(q) : q->done; if (d) { *flag = 1; finish(r, s); } else { *flag = 0; int turn = 0; block("Test", [turn]() mutable { return turn++ > 0; }); } return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) { MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); Req* q = rq(r); q->what = mc::str("Recv by rank ", q->owner, " from ", src, " tag ", tag); waitAll({q}, ""); finish(&r, s); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r = fmpi_isend(b, n, t, d, tag, c, true, "Ssend"); waitAll({rq(r)}, ""); finish(&r, MPI_STATUS_IGNORE); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r = fmpi_isend(b, n, t, d, tag, c, false, "Send"); waitAll({rq(r)}, ""); finish(&r, MPI_STATUS_IGNORE); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* z) { MPI_Request a, b; MPI_Irecv(rb, rn, rt, s, rtag, c, &b); a = fmpi_isend(sb, sn, st, d, stag, c, false, "Sendrecv"); waitAll({rq(a), rq(b)}, "Sendrecv"); finish(&a, MPI_STATUS_IGNORE); finish(&b, z); return 0; }
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* z) { Bytes o = pack(b, n, fmpi::type(t)); MPI_Request a = fmpi_isend(o.data(), (int)o.size(), MPI_BYTE, d, stag, c, false, "Sendrecv_replace"), r; MPI_Irecv(b, n, t, s, rtag, c, &r); waitAll({rq(a), rq(r)}, "Sendrecv_replace"); finish(&a, MPI_STATUS_IGNORE); finish(&r, z); return 0; }
static void fmpi_probe(int src, int tag, MPI_Comm c, MPI_Status* s, MPI_Message* msg) {
  Req q; q.kind = Req::RECV; q.owner = w().cur; q.peer = src; q.tag = tag; q.comm = &fmpi::comm(c); World& x = w(); int me = x.cur; Msg* m = nullptr; auto p = &q;
  if (src == MPI_ANY_SOURCE) { for (;;) { block(mc::str("Probe tag ", tag), {}, [p] { return (int)eligible(*p).size(); }); int k = x.f[(size_t)me].pick; x.f[(size_t)me].pick = -1; if (k >= 0) { m = eligible(q)[(size_t)k]; break; } } }
  else { block(mc::str("Probe ", src, " tag ", tag), [p] { return !eligible(*p).empty(); }); m = eligible(q)[0]; }
  if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = rankIn(*q.comm, m->src); s->MPI_TAG = m->tag; s->_ucount = m->data.size(); s->MPI_ERROR = 0; } if (msg) *msg = reinterpret_cast<MPI_Message>(m);
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* s) { fmpi_probe(src, tag, c, s, nullptr); return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* s) { Req q; q.kind = Req::RECV; q.owner = w().cur; q.peer = src; q.tag = tag; q.comm = &fmpi::comm(c); auto v = eligible(q); *flag = !v.empty(); if (*flag) { Msg* m = v[0]; if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = rankIn(*q.comm, m->src); s->MPI_TAG = m->tag; s->_ucount = m->data.size(); } } else { int turn = 0; block("Iprobe", [turn]() mutable { return turn++ > 0; }); } return 0; }
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message* msg, MPI_Status* s) { fmpi_probe(src, tag, c, s, msg); auto m = reinterpret_cast<Msg*>(*msg); m->matched = true; static_assert(sizeof(void*) == sizeof(MPI_Message)); Msg* k = new Msg(*m); k->matched = false; if (m->req) { m->req->done = true; k->req = nullptr; } *msg = reinterpret_cast<MPI_Message>(k); w().msgs.remove_if([](const Msg& z) { return z.matched; }); return 0; }
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* msg, MPI_Status* s) { Msg* m = reinterpret_cast<Msg*>(*msg); Type& y = fmpi::type(t); if (m->data.size() > y.size * (size_t)n) mc::fail("MPI: message truncated in Mrecv"); unpack(m->data.data(), m->data.size(), b, n, y); mc::step(); if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = rankIn(*m->comm, m->src); s->MPI_TAG = m->tag; s->_ucount = m->data.size(); } delete m; *msg = MPI_MESSAGE_NULL; return 0; }
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { Req* q = mkReq(Req::RECV, nullptr, b, n, t, s, tag, c, "Recv_init"); q->persistent = true; q->active = false; q->done = true; *r = reinterpret_cast<MPI_Request>(q); return 0; }
int MPI_Ssend_init(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { Req* q = mkReq(Req::SEND, b, nullptr, n, t, d, tag, c, "Ssend_init"); q->persistent = true; q->active = false; q->done = true; *r = reinterpret_cast<MPI_Request>(q); return 0; }
int MPI_Start(MPI_Request* r) { Req* q = rq(*r); if (q->active) mc::fail("MPI: active request started again"); startReq(q); return 0; }
int MPI_Startall(int n, MPI_Request* r) { for (int i = 0; i < n; ++i) MPI_Start(r + i); return 0; }
int MPI_Request_free(MPI_Request* r) { Req* q = rq(*r); if (q->active && !q->done) mc::fail("fakempi: active request freed"); w().live.erase(q); delete q; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request* r) { Req* q = rq(*r); if (q->kind == Req::RECV && !q->done) { w().recvs.remove(q); unpack(q->saved.data(), q->saved.size(), q->rbuf, q->count, fmpi::type(q->dt)); q->done = true; } return 0; }
int MPI_Barrier(MPI_Comm c) { collect(c, "Barrier", {}); return 0; }
static Bytes fmpi_bytes(const void* b, int n, MPI_Datatype t) { return pack(b, n, fmpi::type(t)); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { auto p = collect(c, mc::str("Allreduce ", n, " of ", fmpi::type(t).size, " op ", (const void*)o), fmpi_bytes(inPlace(s, r), n, t)); Bytes b = reduce(*p, n, t, o); unpack(b.data(), b.size(), r, n, fmpi::type(t)); return 0; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { auto p = collect(c, mc::str("Reduce ", n, " root ", root), fmpi_bytes(inPlace(s, r), n, t)); int me; MPI_Comm_rank(c, &me); if (me == root) { Bytes b = reduce(*p, n, t, o); unpack(b.data(), b.size(), r, n, fmpi::type(t)); } return 0; }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { auto p = collect(c, mc::str("Scan ", n), fmpi_bytes(inPlace(s, r), n, t)); int me; MPI_Comm_rank(c, &me); Coll k; for (auto& [i, b] : p->in) if (i <= me) k.in[i] = b; Bytes b = reduce(k, n, t, o); unpack(b.data(), b.size(), r, n, fmpi::type(t)); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { auto p = collect(c, mc::str("Bcast ", fmpi::type(t).size * (size_t)n, " root ", root), fmpi_bytes(b, n, t)); auto& d = p->in[root]; unpack(d.data(), d.size(), b, n, fmpi::type(t)); return 0; }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { int me; MPI_Comm_rank(c, &me); Type& t = fmpi::type(rt); auto p = collect(c, "Allgather", s == MPI_IN_PLACE ? fmpi_bytes((char*)r + me * rn * t.extent, rn, rt) : fmpi_bytes(s, sn, st)); for (auto& [i, b] : p->in) { if (b.size() != t.size * (size_t)rn) mc::fail("MPI: Allgather sizes differ: rank ", i, " sends ", b.size(), " bytes, expected ", t.size * (size_t)rn); unpack(b.data(), b.size(), (char*)r + i * rn * t.extent, rn, t); } return 0; }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm c) { int me; MPI_Comm_rank(c, &me); Type& t = fmpi::type(rt); auto p = collect(c, "Allgatherv", s == MPI_IN_PLACE ? fmpi_bytes((char*)r + d[me] * t.extent, rn[me], rt) : fmpi_bytes(s, sn, st)); for (auto& [i, b] : p->in) { if (b.size() != t.size * (size_t)rn[i]) mc::fail("MPI: Allgatherv sizes differ: rank ", i, " sends ", b.size(), " bytes, expected ", t.size * (size_t)rn[i]); unpack(b.data(), b.size(), (char*)r + d[i] * t.extent, rn[i], t); } return 0; }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { int me; MPI_Comm_rank(c, &me); auto p = collect(c, mc::str("Gather root ", root), s == MPI_IN_PLACE ? fmpi_bytes((char*)r + me * rn * fmpi::type(rt).extent, rn, rt) : fmpi_bytes(s, sn, st)); if (me == root) { Type& t = fmpi::type(rt); for (auto& [i, b] : p->in) { if (b.size() != t.size * (size_t)rn) mc::fail("MPI: Gather sizes differ"); unpack(b.data(), b.size(), (char*)r + i * rn * t.extent, rn, t); } } return 0; }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, int root, MPI_Comm c) { int me; MPI_Comm_rank(c, &me); auto p = collect(c, mc::str("Gatherv root ", root), fmpi_bytes(s, sn, st)); if (me == root) { Type& t = fmpi::type(rt); for (auto& [i, b] : p->in) { if (b.size() != t.size * (size_t)rn[i]) mc::fail("MPI: Gatherv sizes differ"); unpack(b.data(), b.size(), (char*)r + d[i] * t.extent, rn[i], t); } } return 0; }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { int me, P; MPI_Comm_rank(c, &me); MPI_Comm_size(c, &P); auto p = collect(c, mc::str("Scatter root ", root), me == root ? fmpi_bytes(s, sn * P, st) : Bytes()); auto& b = p->in[root]; size_t z = b.size() / (size_t)P; if (fmpi::type(rt).size * (size_t)rn != z) mc::fail("MPI: Scatter sizes differ"); unpack(b.data() + (size_t)me * z, z, r, rn, fmpi::type(rt)); return 0; }
int MPI_Scatterv(const void* s, const int* sn, const int* d, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { int me, P; MPI_Comm_rank(c, &me); MPI_Comm_size(c, &P); Bytes in; if (me == root) { Type& t = fmpi::type(st); for (int i = 0; i < P; ++i) { auto b = pack((const char*)s + d[i] * t.extent, sn[i], t); int n = (int)b.size(); in.insert(in.end(), (char*)&n, (char*)(&n + 1)); in.insert(in.end(), b.begin(), b.end()); } } auto p = collect(c, mc::str("Scatterv root ", root), in); auto& b = p->in[root]; size_t at = 0; for (int i = 0;; ++i) { int n; std::memcpy(&n, b.data() + at, 4); at += 4; if (i == me) { if (fmpi::type(rt).size * (size_t)rn < (size_t)n) mc::fail("MPI: Scatterv truncated"); unpack(b.data() + at, (size_t)n, r, rn, fmpi::type(rt)); break; } at += (size_t)n; } return 0; }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { int me, P; MPI_Comm_rank(c, &me); MPI_Comm_size(c, &P); auto p = collect(c, "Alltoall", fmpi_bytes(s, sn * P, st)); Type& t = fmpi::type(rt); for (auto& [i, b] : p->in) { size_t z = b.size() / (size_t)P; unpack(b.data() + (size_t)me * z, z, (char*)r + i * rn * t.extent, rn, t); } return 0; }
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* r, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c) { int me, P; MPI_Comm_rank(c, &me); MPI_Comm_size(c, &P); Bytes in; Type& y = fmpi::type(st); for (int i = 0; i < P; ++i) { auto b = pack((const char*)s + sd[i] * y.extent, sn[i], y); int n = (int)b.size(); in.insert(in.end(), (char*)&n, (char*)(&n + 1)); in.insert(in.end(), b.begin(), b.end()); } auto p = collect(c, "Alltoallv", in); Type& t = fmpi::type(rt); for (auto& [i, b] : p->in) { size_t at = 0; for (int k = 0;; ++k) { int n; std::memcpy(&n, b.data() + at, 4); at += 4; if (k == me) { if ((size_t)n != t.size * (size_t)rn[i]) mc::fail("MPI: Alltoallv sizes differ"); unpack(b.data() + at, (size_t)n, (char*)r + rd[i] * t.extent, rn[i], t); break; } at += (size_t)n; } } return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { auto p = enter(c, "Ibarrier", {}); *q = collReq(p, c, [](Coll&, int) {}, "Ibarrier"); return 0; }
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { auto p = enter(c, mc::str("Iallreduce ", n), fmpi_bytes(inPlace(s, r), n, t)); *q = collReq(p, c, [=](Coll& k, int) { Bytes b = reduce(k, n, t, o); unpack(b.data(), b.size(), r, n, fmpi::type(t)); }, "Iallreduce"); return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* q) { auto p = enter(c, mc::str("Ibcast root ", root), fmpi_bytes(b, n, t)); *q = collReq(p, c, [=](Coll& k, int) { auto& d = k.in[root]; unpack(d.data(), d.size(), b, n, fmpi::type(t)); }, "Ibcast"); return 0; }
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* o);
int MPI_Op_free(MPI_Op* o) { *o = MPI_OP_NULL; return 0; }
}
// user operations are cached by DUNE for the life time of the process
extern "C" int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* o) { *o = reinterpret_cast<MPI_Op>(new char[1]); fmpi::userOps()[*o] = {f, commute != 0}; return 0; }
