// Tracking allocator and tracking block type: every allocation is checked for matching size on release,
// every element for being alive when used; nothing may be left at the end of an execution.
#pragma once
#include "mc.hh"
#include <dune/common/ftraits.hh>
#include <limits>
namespace trk {
struct Registry {
  std::map<void*, std::pair<size_t, size_t>> mem;  // pointer -> (count, sizeof)
  std::set<const void*> objs;
  std::string error;
  void err(const std::string& s) { if (error.empty()) error = s; }
  void reset() { mem.clear(); objs.clear(); error.clear(); }
};
inline Registry& reg() { static Registry r; return r; }

template <class T> struct Alloc {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  template <class U> struct rebind { using other = Alloc<U>; };
  Alloc() = default;
  template <class U> Alloc(const Alloc<U>&) {}
  T* allocate(size_t n) { T* p = static_cast<T*>(::operator new(n * sizeof(T) + 1)); reg().mem[p] = {n, sizeof(T)}; return p; }
  void deallocate(T* p, size_t n) {
    if (!p) return;
    auto it = reg().mem.find(p);
    if (it == reg().mem.end()) { reg().err("release of memory that is not allocated (double free?)"); return; }
    if (it->second != std::make_pair(n, sizeof(T))) reg().err(mc::str("memory allocated as ", it->second.first, " objects of size ", it->second.second, " is released as ", n, " of size ", sizeof(T)));
    reg().mem.erase(it);
    ::operator delete(p);
  }
  bool operator==(const Alloc&) const { return true; }
  bool operator!=(const Alloc&) const { return false; }
};

// a scalar-like block with checked lifetime
struct Num {
  using field_type = double; using block_type = Num; using real_type = double; using size_type = std::size_t;
  double v = 0;
  void in() { if (!reg().objs.insert(this).second) reg().err("object constructed twice at one address"); }
  void live() const { if (!reg().objs.count(this)) reg().err("use of an object that is not alive"); }
  Num() { in(); }
  Num(double d) : v(d) { in(); }
  Num(const Num& o) : v(o.v) { o.live(); in(); }
  Num& operator=(const Num& o) { live(); o.live(); v = o.v; return *this; }
  Num& operator=(double d) { live(); v = d; return *this; }
  ~Num() { if (!reg().objs.erase(this)) reg().err("destruction of an object that is not alive"); }
  operator double() const { live(); return v; }
  Num& operator+=(const Num& o) { live(); v += o.v; return *this; }
  Num& operator-=(const Num& o) { live(); v -= o.v; return *this; }
  Num& operator*=(double k) { live(); v *= k; return *this; }
  Num& operator/=(double k) { live(); v /= k; return *this; }
  Num& axpy(double k, const Num& o) { live(); v += k * o.v; return *this; }
  double two_norm2() const { return v * v; }
  double infinity_norm() const { return std::fabs(v); }
  double infinity_norm_real() const { return std::fabs(v); }
  double frobenius_norm2() const { return v * v; }
  size_t N() const { return 1; }
  size_t M() const { return 1; }
  size_t size() const { return 1; }
  size_t dim() const { return 1; }
};
inline void begin() { reg().reset(); }
inline void okSoFar() { if (!reg().error.empty()) mc::fail("memory discipline: ", reg().error); }
inline void finish() {
  okSoFar();
  if (!reg().mem.empty()) mc::fail("leak: ", reg().mem.size(), " allocations left, first holds ", reg().mem.begin()->second.first, " objects of size ", reg().mem.begin()->second.second);
  if (!reg().objs.empty()) mc::fail("leak: ", reg().objs.size(), " objects left");
}
}
namespace Dune { template <> struct FieldTraits<trk::Num> { using field_type = double; using real_type = double; }; }
