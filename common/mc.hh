// mc.hh - a small stateless explorer for bounded-exhaustive model checking of real code.
//
// A "unit" is a function  void body(mc::Chooser& c).  Every source of nondeterminism in the unit
// (operation, argument, pattern bit, fault position, scheduling decision) is taken from c(n), which
// returns a value in [0,n).  The explorer runs the body once for every sequence of choices
// (depth-first, complete), so the set of executions is exactly the choice tree.  A failure is a
// choice sequence and is replayed from it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};                       // prune this branch (other shard, or outside the domain)
struct Failure { std::string key, msg; };

struct Journal {                      // shared with the driver, so that a crash can be attributed
  char unit[64];
  volatile uint64_t cases;
  volatile uint32_t n;
  volatile uint32_t pad;
  volatile uint16_t ch[4000];
};

inline Journal*& journal() { static Journal* j = nullptr; return j; }
inline bool& verbose() { static bool v = false; return v; }
inline std::string& noteBuf() { static std::string s; return s; }
inline bool thorough() { static bool t = [] { const char* e = std::getenv("MC_TIER"); return e && !std::strcmp(e, "thorough"); }(); return t; }

template <class... A> std::string str(const A&... a) { std::ostringstream s; s.precision(17); (s << ... << a); return s.str(); }
template <class... A> void note(const A&... a) { if (verbose()) { noteBuf() += str(a...); noteBuf() += '\n'; } }
#define NOTE(...) do { if (mc::verbose()) mc::note(__VA_ARGS__); } while (0)

[[noreturn]] inline void failKey(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
template <class... A> [[noreturn]] void fail(const A&... a) { throw Failure{"", str(a...)}; }
#define CHECK(cond, ...) do { ++mc::stats().checks; if (!(cond)) mc::fail(__FILE__, ":", __LINE__, ": ", #cond, " :: ", __VA_ARGS__); } while (0)
#define CHECKK(key, cond, ...) do { ++mc::stats().checks; if (!(cond)) mc::failKey(key, mc::str(__FILE__, ":", __LINE__, ": ", #cond, " :: ", __VA_ARGS__)); } while (0)

struct Stats {
  uint64_t execs = 0, transitions = 0, checks = 0, skipped = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> outcomes;
  bool statesCapped = false;
};
inline Stats& stats() { static Stats s; return s; }
inline void step(uint64_t n = 1) { stats().transitions += n; }

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash& operator()(uint64_t v) { h = mix(h, v); return *this; }
  Hash& operator()(int v) { return (*this)((uint64_t)(int64_t)v); }
  Hash& operator()(double d) { if (d == 0) d = 0; uint64_t v; std::memcpy(&v, &d, 8); return (*this)(v); }
  Hash& operator()(const std::string& s) { for (char c : s) (*this)((uint64_t)(unsigned char)c); return (*this)((uint64_t)s.size()); }
};
inline void state(uint64_t h) {
  auto& s = stats();
  if (s.states.size() < 3000000) s.states.insert(h); else s.statesCapped = true;
}
inline void state(const Hash& h) { state(h.h); }
inline void outcome(const std::string& s) { ++stats().outcomes[s]; }

class Chooser {
public:
  int operator()(int n, const char* label = nullptr) {
    if (n <= 0) throw Skip{};
    size_t d = depth_++;
    int v;
    if (d < prefix_.size()) {
      v = prefix_[d];
      if (v >= n || (d < widths_.size() && !replay_ && widths_[d] != n)) {
        std::fprintf(stderr, "mc: nondeterministic harness (choice %zu: %d of %d, width was %d)\n", d, v, n, d < widths_.size() ? widths_[d] : -1);
        std::_Exit(77);
      }
      if (d >= widths_.size()) widths_.push_back(n);
    } else { v = 0; prefix_.push_back(0); widths_.push_back(n); }
    if (Journal* j = journal()) { if (d < 4000) { j->ch[d] = (uint16_t)v; j->n = (uint32_t)(d + 1); } }
    if (verbose() && label) note("  choice ", label, " = ", v, " of ", n);
    if (!classed_ && !replay_) {
      prod_ *= (uint64_t)n;
      if (prod_ >= threshold_) classify(d + 1);
    }
    return v;
  }
  bool flag(const char* label = nullptr) { return (*this)(2, label) == 1; }
  int range(int lo, int hi, const char* label = nullptr) { return lo + (*this)(hi - lo + 1, label); }
  template <class T> const T& of(const std::vector<T>& v, const char* label = nullptr) { return v[(*this)((int)v.size(), label)]; }
  // subset of {0..n-1} as bit mask
  unsigned mask(int nbits, const char* label = nullptr) {
    if (nbits > 15) { unsigned lo = mask(15, label); return lo | (mask(nbits - 15, label) << 15); }
    return (unsigned)(*this)(1 << nbits, label);
  }

private:
  friend class Explorer;
  void classify(size_t d) {
    classed_ = true;
    if (d != lastClassDepth_ || !std::equal(prefix_.begin(), prefix_.begin() + d, lastClass_.begin())) {
      lastClassDepth_ = d; lastClass_.assign(prefix_.begin(), prefix_.begin() + d); ++classIdx_;
    }
    if (nshards_ > 1 && (int)((mix(12345, classIdx_) % (uint64_t)nshards_)) != shard_) throw Skip{};
  }
  std::vector<int> prefix_, widths_, lastClass_;
  size_t depth_ = 0, lastClassDepth_ = (size_t)-1;
  uint64_t prod_ = 1, threshold_ = 1, classIdx_ = 0;
  bool classed_ = false, replay_ = false;
  int shard_ = 0, nshards_ = 1;
};

struct Unit { std::string name; std::function<void(Chooser&)> body; };
inline std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
struct Reg { Reg(const char* n, std::function<void(Chooser&)> b) { units().push_back({n, std::move(b)}); } };
#define UNIT(name) static void unit_##name(mc::Chooser& c); static mc::Reg reg_##name(#name, unit_##name); static void unit_##name([[maybe_unused]] mc::Chooser& c)

struct Fail { std::string unit, key, msg, choices, notes; };

inline std::string jesc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    unsigned char u = (unsigned char)ch;
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (u < 32 || u > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", u); r += b; }
    else r += ch;
  }
  return r;
}

class Explorer {
public:
  static std::string choices(const Chooser& c) { std::string s; for (size_t i = 0; i < c.depth_ && i < c.prefix_.size(); ++i) { if (i) s += ','; s += std::to_string(c.prefix_[i]); } return s; }

  // run one execution; returns 0 ok, 1 failure, 2 skip
  static int runOne(const Unit& u, Chooser& c, Fail& f) {
    c.depth_ = 0; c.prod_ = 1; c.classed_ = false;
    noteBuf().clear();
    if (Journal* j = journal()) j->n = 0;
    try { u.body(c); }
    catch (Skip&) { return 2; }
    catch (Failure& e) { f.unit = u.name; f.key = e.key; f.msg = e.msg; f.choices = choices(c); f.notes = noteBuf(); return 1; }
    catch (std::exception& e) { f.unit = u.name; f.key = ""; f.msg = std::string("unexpected exception: ") + e.what(); f.choices = choices(c); f.notes = noteBuf(); return 1; }
    return 0;
  }

  static Fail replay(const Unit& u, const std::vector<int>& ch, int& rc, bool verb) {
    Chooser c; c.prefix_ = ch; c.replay_ = true;
    Fail f; bool old = verbose(); verbose() = verb;
    rc = runOne(u, c, f);
    if (rc == 0) { f.unit = u.name; f.choices = choices(c); f.notes = noteBuf(); }
    verbose() = old;
    return f;
  }
  static std::vector<int> parse(const std::string& s) { std::vector<int> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) r.push_back(std::atoi(t.c_str())); return r; }

  // explore the whole tree (or this shard of it)
  static void explore(const Unit& u, int shard, int nshards, const std::set<std::string>& known,
                      std::vector<Fail>& fails, std::map<std::string, Fail>& knownHit, std::vector<std::string>& samples, double budget, bool& capped) {
    Chooser c; c.shard_ = shard; c.nshards_ = nshards; c.threshold_ = nshards > 1 ? 256 : 1;
    if (Journal* j = journal()) { std::strncpy(j->unit, u.name.c_str(), 63); }
    double t0 = now(); uint64_t mine = 0;
    std::vector<std::vector<int>> sampleCh;
    for (;;) {
      Fail f;
      int rc = runOne(u, c, f);
      if (Journal* j = journal()) j->cases = j->cases + 1;
      if (rc == 2 || (!c.classed_ && nshards > 1 && shard != 0)) ++stats().skipped; else { ++stats().execs; ++mine; }
      if (rc == 0 && (mine == 1 || mine == 50 || mine == 3000)) sampleCh.push_back(std::vector<int>(c.prefix_.begin(), c.prefix_.begin() + std::min(c.depth_, c.prefix_.size())));
      if (rc == 1) {
        int rc2; Fail f2 = replay(u, parse(f.choices), rc2, true);
        if (rc2 != 1) { std::fprintf(stderr, "mc: failure did not replay: %s [%s] %s\n", u.name.c_str(), f.choices.c_str(), f.msg.c_str()); f.msg += "  (NOT REPRODUCED ON REPLAY)"; }
        else f = f2;
        std::string kk = u.name + ":" + f.key;
        if (!f.key.empty() && known.count(kk)) { if (!knownHit.count(kk)) knownHit[kk] = f; }
        else { fails.push_back(f); return; }
      }
      // backtrack
      size_t d = std::min(c.depth_, c.prefix_.size());
      c.prefix_.resize(d); c.widths_.resize(d);
      while (!c.prefix_.empty() && c.prefix_.back() + 1 >= c.widths_.back()) { c.prefix_.pop_back(); c.widths_.pop_back(); }
      if (c.prefix_.empty()) break;
      ++c.prefix_.back();
      if (budget > 0 && now() - t0 > budget) { capped = true; break; }
    }
    for (auto& s : sampleCh) {
      int rc; Fail f = replay(u, s, rc, true);
      std::string t = f.notes; if (t.size() > 700) t = t.substr(0, 700) + "...";
      samples.push_back(u.name + " [" + f.choices + "] " + t);
      if (samples.size() >= 4) break;
    }
  }
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
};

// options: --units a,b  --shard i/n --journal F --out F --known F --replay unit:choices --list --budget S
inline int main_(int argc, char** argv) {
  std::string only, out, jf, kf, rp; int sh = 0, ns = 1; double budget = 0; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--units") only = nx(); else if (a == "--out") out = nx(); else if (a == "--journal") jf = nx();
    else if (a == "--known") kf = nx(); else if (a == "--replay") rp = nx(); else if (a == "--list") list = true;
    else if (a == "--budget") budget = std::atof(nx().c_str());
    else if (a == "--shard") { std::sscanf(nx().c_str(), "%d/%d", &sh, &ns); }
  }
  if (list) { for (auto& u : units()) std::printf("%s\n", u.name.c_str()); return 0; }
  if (!rp.empty()) {
    auto p = rp.find(':'); std::string un = rp.substr(0, p); auto ch = Explorer::parse(p == std::string::npos ? "" : rp.substr(p + 1));
    for (auto& u : units()) if (u.name == un) {
      int rc; verbose() = true; Fail f = Explorer::replay(u, ch, rc, true);
      std::printf("%s", f.notes.c_str());
      if (rc == 1) { std::printf("FAIL unit=%s key=%s choices=%s\n%s\n", f.unit.c_str(), f.key.c_str(), f.choices.c_str(), f.msg.c_str()); return 1; }
      std::printf(rc == 2 ? "SKIPPED\n" : "PASS\n"); return 0;
    }
    std::fprintf(stderr, "no such unit %s\n", un.c_str()); return 2;
  }
  if (!jf.empty()) {
    int fd = open(jf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Journal)) == 0) { void* p = mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) journal() = (Journal*)p; }
  }
  std::set<std::string> known;
  if (!kf.empty()) { FILE* f = std::fopen(kf.c_str(), "r"); char b[512]; while (f && std::fgets(b, 512, f)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) known.insert(s); } if (f) std::fclose(f); }
  std::set<std::string> sel; { std::stringstream ss(only); std::string t; while (std::getline(ss, t, ',')) sel.insert(t); }
  std::vector<Fail> fails; std::map<std::string, Fail> kh; std::vector<std::string> samples; bool capped = false;
  std::map<std::string, std::pair<uint64_t, double>> per;
  for (auto& u : units()) {
    if (!sel.empty() && !sel.count(u.name)) continue;
    uint64_t e0 = stats().execs; double t0 = Explorer::now();
    Explorer::explore(u, sh, ns, known, fails, kh, samples, budget, capped);
    per[u.name] = {stats().execs - e0, Explorer::now() - t0};
  }
  FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
  std::fprintf(f, "{\"execs\":%llu,\"transitions\":%llu,\"checks\":%llu,\"states\":%zu,\"capped\":%s,\"statesCapped\":%s,\n", (unsigned long long)stats().execs, (unsigned long long)stats().transitions, (unsigned long long)stats().checks, stats().states.size(), capped ? "true" : "false", stats().statesCapped ? "true" : "false");
  auto pf = [&](const Fail& x) { std::fprintf(f, "{\"unit\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"choices\":\"%s\",\"notes\":\"%s\"}", jesc(x.unit).c_str(), jesc(x.key).c_str(), jesc(x.msg).c_str(), jesc(x.choices).c_str(), jesc(x.notes).c_str()); };
  std::fprintf(f, "\"fails\":["); for (size_t i = 0; i < fails.size(); ++i) { if (i) std::fputc(',', f); pf(fails[i]); }
  std::fprintf(f, "],\n\"known\":["); { bool first = true; for (auto& k : kh) { if (!first) std::fputc(',', f); first = false; pf(k.second); } }
  std::fprintf(f, "],\n\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) std::fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
  std::fprintf(f, "],\n\"outcomes\":{"); { bool first = true; for (auto& o : stats().outcomes) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(o.first).c_str(), (unsigned long long)o.second); first = false; } }
  std::fprintf(f, "},\n\"units\":{"); { bool first = true; for (auto& o : per) { std::fprintf(f, "%s\"%s\":[%llu,%.2f]", first ? "" : ",", o.first.c_str(), (unsigned long long)o.second.first, o.second.second); first = false; } }
  std::fprintf(f, "}}\n");
  if (!out.empty()) {
    std::fclose(f);
    FILE* s = std::fopen((out + ".states").c_str(), "wb"); for (uint64_t h : stats().states) std::fwrite(&h, 8, 1, s); std::fclose(s);
  }
  return fails.empty() ? 0 : 1;
}

// ---- numeric comparison helpers ----
inline bool close(double a, double b, double scale = 1, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(scale), std::fabs(b)});
}
inline bool close(std::complex<double> a, std::complex<double> b, double scale = 1, double tol = 1e-9) { return close(a.real(), b.real(), std::max(scale, std::abs(b)), tol) && close(a.imag(), b.imag(), std::max(scale, std::abs(b)), tol); }

} // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
