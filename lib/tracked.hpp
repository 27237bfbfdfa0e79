#pragma once
#include "mc.hpp"
#include <compare>
// An instrumented element: counts live instances, detects use of dead or relocated objects, and lets the
// explorer decide at every potentially throwing operation whether it throws.
struct Boom { };
struct TrEnv {
  mc::Chooser* c = nullptr; bool inject = false; int live = 0; std::string bad; int thrown = 0; long ops = 0;
  void reset(mc::Chooser& ch) { c = &ch; inject = false; live = 0; bad.clear(); thrown = 0; ops = 0; }
  void err(const char* s) { if (bad.empty()) bad = s; }
  void maybe_throw() { ++ops; if (inject && c && c->dev(2)) { ++thrown; throw Boom {}; } }
};
inline TrEnv g_tr;
struct nt_t { int v; };    // nothrow source
struct src_t { int v; };   // potentially throwing source
constexpr int MOVED = -77;
template <int Tag, bool NM> struct Tr {
  const void* self; int v; unsigned magic;
  void born(int x) noexcept { v = x; self = this; magic = 0xA11FEu + Tag; ++g_tr.live; }
  // a constructor that fails half-way has already scribbled over its storage
  void may() { volatile int* pv = &v; *pv = 0x5a5a5a5a; volatile std::uintptr_t* ps = reinterpret_cast<volatile std::uintptr_t*>(&self); *ps = 0x5a; g_tr.maybe_throw(); }
  bool ok() const noexcept { if (magic != 0xA11FEu + Tag || self != this) { g_tr.err("use of an object that is not alive"); return false; } return true; }
  Tr() noexcept(NM) { if constexpr (!NM) may(); born(0); }
  Tr(nt_t s) noexcept { born(s.v); }
  explicit(false) Tr(src_t s) { may(); born(s.v); }
  Tr(std::initializer_list<int> l, int k = 0) noexcept { int s = k; for (int x : l) s += x; born(s); }
  Tr(const Tr& o) { o.ok(); may(); born(o.v); }
  Tr(Tr&& o) noexcept(NM) { o.ok(); if constexpr (!NM) may(); born(o.v); o.v = MOVED; }
  Tr& operator=(const Tr& o) { ok(); o.ok(); g_tr.maybe_throw(); v = o.v; return *this; }
  Tr& operator=(Tr&& o) noexcept(NM) { ok(); o.ok(); if constexpr (!NM) g_tr.maybe_throw(); int t = o.v; o.v = MOVED; v = t; return *this; }
  Tr& operator=(nt_t s) noexcept { ok(); v = s.v; return *this; }
  Tr& operator=(src_t s) { ok(); g_tr.maybe_throw(); v = s.v; return *this; }
  ~Tr() { ok(); magic = 0xDEADu; self = nullptr; --g_tr.live; }
  friend bool operator==(const Tr& a, const Tr& b) { a.ok(); b.ok(); return a.v == b.v; }
  friend auto operator<=>(const Tr& a, const Tr& b) { a.ok(); b.ok(); return a.v <=> b.v; }
  friend bool operator==(const Tr& a, int b) { a.ok(); return a.v == b; }
};
template <class T> int val_of(const T& t) { if constexpr (requires { t.v; }) { t.ok(); return t.v; } else return int(t); }
template <class T> constexpr bool is_tr = requires(T t) { t.magic; };
