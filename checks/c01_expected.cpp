#include <fitoria/core/expected.hpp>
#include "tracked.hpp"
#include <optional>
using namespace fitoria;
using VN = Tr<1, true>; using VT = Tr<1, false>; using EN = Tr<2, true>; using ET = Tr<2, false>;
static int g_store[4] = { 10, 20, 30, 40 };

template <class D> int val_of2(const D& d) { return d.has_value() ? val_of(*d) : val_of(d.error()); }
struct M { bool has; int v; bool operator==(const M&) const = default; };
static std::string ms(const M& m) { return (m.has ? "v" : "e") + std::to_string(m.v); }

template <class T, class E> struct H {
  using X = expected<T, E>; using TT = std::remove_cvref_t<T>;
  static constexpr bool VOID = std::is_void_v<T>, REF = std::is_reference_v<T>, VAL = !VOID && !REF;
  static M get(const X& x)
  {
    if (x.has_value()) { if constexpr (VOID) return { true, 0 }; else return { true, val_of(*x) }; }
    return { false, val_of(x.error()) };
  }
  static int tracked(const M& m) { return m.has ? (VAL && is_tr<TT> ? 1 : 0) : (is_tr<E> ? 1 : 0); }
  // every observer, in every value category, against the model
  static std::string query(const X& cx, const M& m)
  {
    if (cx.has_value() != m.has || bool(cx) != m.has) return "has_value";
    if (get(cx) != m) return "content is " + ms(get(cx)) + " instead of " + ms(m);
    X x(cx); const X& k = x;
    auto same = [&](const char* w) -> std::string { return get(x) == m ? "" : std::string(w) + " changed the object"; };
#define Q(expr, what) do { if (!(expr)) return what; } while (0)
#define S(what) do { auto r_ = same(what); if (!r_.empty()) return r_; } while (0)
    { // value()
      bool th = false; int got = 0;
      auto run = [&](auto f) { th = false; try { f(); } catch (bad_expected_access<E>& b) { th = true; got = val_of(b.error()); } catch (bad_expected_access<void>&) { th = true; got = -999; } };
      if constexpr (VOID) { run([&] { k.value(); }); Q(th == !m.has && (!th || got == m.v), "value() const&"); S("value");
        X y(cx); run([&] { std::move(y).value(); }); Q(th == !m.has && (!th || got == m.v), "value() &&"); }
      else {
        int r = -5;
        run([&] { r = val_of(x.value()); }); Q(th == !m.has && (th ? got == m.v : r == m.v), "value() &"); S("value() &");
        run([&] { r = val_of(k.value()); }); Q(th == !m.has && (th ? got == m.v : r == m.v), "value() const&"); S("value() const&");
        { X y(cx); run([&] { auto&& q = std::move(y).value(); r = val_of(q); }); Q(th == !m.has && (th ? got == m.v : r == m.v), "value() &&"); }
        { const X y(cx); run([&] { auto&& q = std::move(y).value(); r = val_of(q); }); Q(th == !m.has && (th ? got == m.v : r == m.v), "value() const&&"); }
      }
    }
    if (m.has) {
      if constexpr (!VOID) {
        Q(std::addressof(*x) == x.operator->(), "operator->"); Q(std::addressof(*k) == k.operator->(), "operator-> const");
        Q(val_of(*k) == m.v && val_of(*x) == m.v, "operator*");
        Q(std::addressof(x.value()) == x.operator->(), "value() refers elsewhere");
        if constexpr (VAL) { X y(cx); TT t(*std::move(y)); Q(val_of(t) == m.v, "operator*&&"); if constexpr (is_tr<TT>) Q(val_of(*y) == MOVED, "operator*&& does not move"); }
        if constexpr (VAL) { X y(cx); TT t(std::move(y).value()); Q(val_of(t) == m.v, "value()&&"); if constexpr (is_tr<TT>) Q(val_of(*y) == MOVED, "value()&& does not move"); }
      }
    } else {
      Q(val_of(x.error()) == m.v && val_of(k.error()) == m.v, "error()");
      { X y(cx); E e(std::move(y).error()); Q(val_of(e) == m.v, "error()&&"); if constexpr (is_tr<E>) Q(val_of(y.error()) == MOVED, "error()&& does not move"); }
      { const X y(cx); E e(std::move(y).error()); Q(val_of(e) == m.v && val_of(y.error()) == m.v, "error() const&&"); }
    }
    if constexpr (!VOID) {
      TT d(nt_or(5)); Q(val_of(k.value_or(d)) == (m.has ? m.v : 5), "value_or const&"); S("value_or const&");
      if constexpr (VAL) { X y(cx); Q(val_of(std::move(y).value_or(d)) == (m.has ? m.v : 5), "value_or &&"); if constexpr (is_tr<TT>) if (m.has) Q(get(y).v == MOVED, "value_or && does not move"); }
    }
    { E d = mkE(6); Q(val_of(k.error_or(d)) == (m.has ? 6 : m.v), "error_or const&"); S("error_or const&");
      X y(cx); Q(val_of(std::move(y).error_or(d)) == (m.has ? 6 : m.v), "error_or &&"); if constexpr (is_tr<E>) if (!m.has) Q(get(y).v == MOVED, "error_or && does not move"); }
    // monadic
    using R = expected<int, E>;
    auto mon = [&](auto&& obj, const char* cat, bool isconst, bool rv) -> std::string {
      using O = decltype(obj); int calls = 0, seen = -1; bool mv = false;
      auto fv = [&](auto&&... a) { ++calls; ((seen = val_of(a), mv = std::is_rvalue_reference_v<decltype(a)>), ...); };
      std::string n = cat;
      { X y(cx); calls = 0; auto r = static_cast<std::conditional_t<true, O, O>>(static_cast<O>(const_cast<std::remove_const_t<std::remove_reference_t<O>>&>(y))).and_then([&](auto&&... a) { fv(std::forward<decltype(a)>(a)...); return R(7); });
        Q(calls == (m.has ? 1 : 0), "and_then calls " + n); Q(r.has_value() == m.has && (m.has ? *r == 7 : val_of(r.error()) == m.v), "and_then result " + n);
        if (m.has && !VOID) { Q(seen == m.v, "and_then argument " + n); if (VAL) Q(mv == rv, "and_then category " + n); }
        if (!rv || isconst) Q(get(y) == m, "and_then " + n + " changed the object"); 
        if (is_tr<E> && rv && !isconst && !m.has) Q(get(y).v == MOVED, "and_then && did not move the error"); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).and_then([&](auto&&...) { ++calls; return R(unexpect, mkE(8)); });
        Q(calls == (m.has ? 1 : 0) && !r.has_value() && val_of(r.error()) == (m.has ? 8 : m.v), "and_then to error " + n); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).transform([&](auto&&... a) { fv(std::forward<decltype(a)>(a)...); return 9; });
        Q(calls == (m.has ? 1 : 0), "transform calls " + n); Q(r.has_value() == m.has && (m.has ? *r == 9 : val_of(r.error()) == m.v), "transform result " + n);
        if (m.has && !VOID) { Q(seen == m.v, "transform argument " + n); if (VAL) Q(mv == rv, "transform category " + n); }
        if (!rv || isconst) Q(get(y) == m, "transform " + n + " changed the object");
        if (is_tr<E> && rv && !isconst && !m.has) Q(get(y).v == MOVED, "transform && did not move the error"); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).or_else([&](auto&& e) { fv(std::forward<decltype(e)>(e)); return expected<T, int>(unexpect, 11); });
        Q(calls == (m.has ? 0 : 1), "or_else calls " + n); Q(r.has_value() == m.has, "or_else has " + n);
        if (m.has) { if constexpr (!VOID) Q(val_of(*r) == m.v, "or_else value " + n); } else { Q(r.error() == 11 && seen == m.v && mv == rv, "or_else argument " + n); }
        if (!rv || isconst) Q(get(y) == m, "or_else " + n + " changed the object");
        if (VAL && is_tr<TT> && rv && !isconst && m.has) Q(get(y).v == MOVED, "or_else && did not move the value"); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).or_else([&](auto&&) { ++calls; return expected<T, int>(mkT<expected<T, int>>(3)); });
        Q(calls == (m.has ? 0 : 1) && r.has_value(), "or_else to value " + n); if constexpr (!VOID) Q(val_of(*r) == (m.has ? m.v : (REF ? g_store[3] : 3)), "or_else to value content " + n); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).transform_error([&](auto&& e) { fv(std::forward<decltype(e)>(e)); return 12; });
        Q(calls == (m.has ? 0 : 1), "transform_error calls " + n); Q(r.has_value() == m.has, "transform_error has " + n);
        if (m.has) { if constexpr (!VOID) Q(val_of(*r) == m.v, "transform_error value " + n); } else Q(r.error() == 12 && seen == m.v && mv == rv, "transform_error argument " + n);
        if (!rv || isconst) Q(get(y) == m, "transform_error " + n + " changed the object");
        if (VAL && is_tr<TT> && rv && !isconst && m.has) Q(get(y).v == MOVED, "transform_error && did not move the value"); }
      return "";
    };
    std::string r;
    r = mon(static_cast<X&>(x), "&", false, false); if (!r.empty()) return r;
    r = mon(static_cast<const X&>(x), "const&", true, false); if (!r.empty()) return r;
    r = mon(static_cast<X&&>(x), "&&", false, true); if (!r.empty()) return r;
    r = mon(static_cast<const X&&>(x), "const&&", true, true); if (!r.empty()) return r;
    // comparison with values and unexpected
    for (int v : { 0, 1, 2 }) {
      if constexpr (!VOID) { TT t(nt_or(v)); Q((k == t) == (m.has && m.v == v), "== value"); Q((k != t) == !(m.has && m.v == v), "!= value"); }
      unexpected<E> u(mkE(v)); Q((k == u) == (!m.has && m.v == v), "== unexpected"); Q((k != u) == !(!m.has && m.v == v), "!= unexpected");
    }
    S("queries");
    return "";
  }
  static auto nt_or(int v) { if constexpr (VOID) return 0; else if constexpr (is_tr<TT>) return nt_t { v }; else return TT(v); }
  static E mkE(int v) { if constexpr (is_tr<E>) return E(nt_t { v }); else return E(v); }
  template <class R> static R mkT(int v) { if constexpr (VOID) return R(); else if constexpr (REF) return R(g_store[v]); else return R(std::in_place, nt_or(v)); }

  struct Slot { std::optional<X> x; M m; };
  static void make(mc::Chooser& c, Slot& s, const char* nm)
  {
    int k = c.pick(VOID ? 4 : REF ? 4 : 8); c.note(std::string(nm) + "=ctor" + std::to_string(k));
    if constexpr (VOID) switch (k) {
      case 0: s.x.emplace(); s.m = { true, 0 }; break;
      case 1: s.x.emplace(unexpect, mkE(1)); s.m = { false, 1 }; break;
      case 2: { unexpected<E> u(mkE(2)); s.x.emplace(u); s.m = { false, 2 }; break; }
      case 3: s.x.emplace(std::in_place); s.m = { true, 0 }; break; }
    else if constexpr (REF) switch (k) {
      case 0: s.x.emplace(g_store[0]); s.m = { true, 10 }; break;
      case 1: s.x.emplace(unexpect, mkE(1)); s.m = { false, 1 }; break;
      case 2: s.x.emplace(unexpected<E>(mkE(2))); s.m = { false, 2 }; break;
      case 3: s.x.emplace(std::in_place, g_store[1]); s.m = { true, 20 }; break; }
    else switch (k) {
      case 0: s.x.emplace(std::in_place, nt_or(1)); s.m = { true, 1 }; break;
      case 1: s.x.emplace(unexpect, mkE(1)); s.m = { false, 1 }; break;
      case 2: { TT t(nt_or(2)); s.x.emplace(t); s.m = { true, 2 }; break; }
      case 3: s.x.emplace(unexpected<E>(mkE(2))); s.m = { false, 2 }; break;
      case 4: s.x.emplace(); s.m = { true, 0 }; break;
      case 5: { expected<nt_t, int> o(std::in_place, nt_t { 1 }); if constexpr (is_tr<TT> && !is_tr<E>) { s.x.emplace(o); s.m = { true, 1 }; } else { s.x.emplace(TT(nt_or(1))); s.m = { true, 1 }; } break; }
      case 6: { unexpected<E> u(mkE(2)); s.x.emplace(u); s.m = { false, 2 }; break; }
      case 7: if constexpr (is_tr<TT>) { s.x.emplace(std::in_place, std::initializer_list<int>{ 1, 1 }, 0); s.m = { true, 2 }; } else { s.x.emplace(std::in_place, 2); s.m = { true, 2 }; } break; }
  }
  static constexpr int NOPS = VOID ? 10 : REF ? 12 : 15;
  static void run(mc::Chooser& c, int depth, const char* name)
  {
    g_tr.reset(c); c.devs(1);
    std::string hist;
    {
      Slot s[2]; make(c, s[0], "a"); make(c, s[1], "b");
      for (int d = 0; d < depth; ++d) {
        int op = c.pick(NOPS), w = c.pick(2); Slot &p = s[w], &q = s[1 - w]; X &a = *p.x, &b = *q.x; M oa = p.m, ob = q.m;
        c.note(std::string(w ? "b" : "a") + ".op" + std::to_string(op)); g_tr.inject = true; bool th = false; bool basic = false;
        const int K = 1;
        auto mv = [&](M& m) { if (m.has ? (VAL && is_tr<TT>) : is_tr<E>) m.v = MOVED; };
        try {
          switch (op) {
          case 0: a = static_cast<const X&>(b); p.m = ob; break;
          case 1: a = std::move(b); p.m = ob; mv(q.m); break;
          case 2: { auto& self = a; a = static_cast<const X&>(self); break; }
          case 3: a.swap(b); std::swap(p.m, q.m); break;
          case 4: { using std::swap; swap(a, b); std::swap(p.m, q.m); break; }
          case 5: { g_tr.inject = false; unexpected<E> u(mkE(2)); g_tr.inject = true; a = static_cast<const unexpected<E>&>(u); p.m = { false, 2 }; break; }
          case 6: { g_tr.inject = false; unexpected<E> u(mkE(K)); g_tr.inject = true; a = std::move(u); p.m = { false, K }; break; }
          case 7: { X n(static_cast<const X&>(b)); g_tr.inject = false; if (get(n) != ob || get(b) != ob) c.fail("copy", "copy construction"); break; }
          case 8: { X n(std::move(b)); mv(q.m); g_tr.inject = false; if (get(n) != ob || get(b) != q.m) c.fail("move", "move construction"); break; }
          case 9: if constexpr (VOID) { a.emplace(); p.m = { true, 0 }; } else if constexpr (REF) { a.emplace(g_store[2]); p.m = { true, 30 }; }
                  else { a.emplace(nt_or(2)); p.m = { true, 2 }; } break;
          case 10: if constexpr (REF) { a = g_store[0]; p.m = { true, 10 }; } else if constexpr (VAL) { g_tr.inject = false; TT t(nt_or(1)); g_tr.inject = true; a = static_cast<const TT&>(t); p.m = { true, 1 }; } break;
          case 11: if constexpr (REF) { expected<int&, E> o(g_store[1]); a = o; p.m = { true, 20 }; } else if constexpr (VAL) { g_tr.inject = false; TT t(nt_or(2)); g_tr.inject = true; a = std::move(t); p.m = { true, 2 }; } break;
          case 12: if constexpr (VAL) { if constexpr (is_tr<TT>) a = src_t { 1 }; else a = 1; p.m = { true, 1 }; } break;
          case 13: if constexpr (VAL) { if (a.has_value()) { a = std::move(*a); } else a = unexpected<E>(a.error()); } // self-aliasing
                   if constexpr (VAL && is_tr<TT>) { if (p.m.has) p.m.v = MOVED + 0; } if (p.m.has) p.m = get(a); break;
          case 14: if constexpr (VAL && is_tr<TT>) { a.emplace(std::initializer_list<int>{ 1, 1 }, 0); p.m = { true, 2 }; } break;
          }
        } catch (Boom&) {
          th = true; basic = (op == 3 || op == 4) && oa.has == ob.has; // swap of two elements of one kind: std::swap's guarantee only
          if (op == 13) basic = true;
          p.m = oa; q.m = ob; c.note("boom");
        }
        g_tr.inject = false;
        hist += "," + std::to_string(op);
        auto key = [&](const std::string& w2) { return std::string(name) + ":" + w2 + ":op" + std::to_string(op) + (oa.has ? "v" : "e") + (ob.has ? "v" : "e") + (th ? "!" : ""); };
        c.require(g_tr.bad.empty(), [&] { return key("dead"); }, [&] { return g_tr.bad; });
        if (basic) { p.m = get(*p.x); q.m = get(*q.x); c.require(p.m.has == oa.has && q.m.has == ob.has, [&] { return key("kind"); }, "a failed swap changed which kind is held"); }
        c.require(get(*p.x) == p.m, [&] { return key("content"); }, [&] { return "object is " + ms(get(*p.x)) + ", the model says " + ms(p.m) + (th ? " (after an element operation threw)" : ""); });
        c.require(get(*q.x) == q.m, [&] { return key("other"); }, [&] { return "other object is " + ms(get(*q.x)) + ", the model says " + ms(q.m) + (th ? " (after an element operation threw)" : ""); });
        c.require(g_tr.bad.empty(), [&] { return key("dead"); }, [&] { return g_tr.bad; });
        int want = tracked(p.m) + tracked(q.m);
        c.require(g_tr.live == want, [&] { return key("live"); }, [&] { return "live elements " + std::to_string(g_tr.live) + ", expected " + std::to_string(want); });
        if (d + 1 == depth) {
          auto qr = query(*p.x, p.m); c.require(qr.empty(), [&] { return key(qr); }, qr);
          c.require(g_tr.bad.empty(), [&] { return key("dead-query"); }, [&] { return g_tr.bad; });
          c.require(g_tr.live == want, [&] { return key("live-query"); }, "queries leak or double destroy");
          auto cmp = [&](const X& x, const X& y, const M& mx, const M& my) { return (x == y) == (mx == my) && (x != y) == (mx != my); };
          c.require(cmp(*p.x, *q.x, p.m, q.m) && cmp(*p.x, *p.x, p.m, p.m), [&] { return key("compare"); }, "operator== disagrees with the model");
        }
        c.observe(std::string(name) + ms(s[0].m) + ms(s[1].m) + hist + (th ? "!" : ""));
        if (c.failed()) throw mc::Fail {};
      }
    }
    c.check(g_tr.live == 0, [&] { return std::string(name) + ":leak"; }, [&] { return std::to_string(g_tr.live) + " elements alive after destruction"; });
    c.check(g_tr.bad.empty(), [&] { return std::string(name) + ":dead-at-end"; }, [&] { return g_tr.bad; });
  }
};
#define SC(nm, T, E) MC_SCENARIO(nm) { H<T, E>::run(c, c.thorough() ? 3 : 2, nm); }
#define COMMA ,
SC("expected<VN,EN>", VN, EN)
SC("expected<VT,EN>", VT, EN)
SC("expected<VN,ET>", VN, ET)
SC("expected<int,EN>", int, EN)
SC("expected<VN,int>", VN, int)
SC("expected<int,ET>", int, ET)
SC("expected<VT,int>", VT, int)
SC("expected<int,int>", int, int)
SC("expected<void,EN>", void, EN)
SC("expected<void,ET>", void, ET)
SC("expected<void,int>", void, int)
SC("expected<int&,EN>", int&, EN)
SC("expected<int&,ET>", int&, ET)
SC("expected<int&,int>", int&, int)

// converting construction and assignment between different expected types
MC_SCENARIO("convert")
{
  g_tr.reset(c); c.devs(1);
  { int how = c.pick(8); bool has = c.flip(); c.note("how" + std::to_string(how) + (has ? "v" : "e"));
    using S = expected<int, int>; using S2 = expected<src_t, src_t>; using D = expected<VN, EN>;
    bool th = false; int got = -1; bool ghas = false;
    auto rec = [&](const D& d) { g_tr.inject = false; ghas = d.has_value(); got = val_of2(d); };
    (void)sizeof(S);
    S2 s = has ? S2(std::in_place, src_t { 3 }) : S2(unexpect, src_t { 4 });
    g_tr.inject = true;
    try {
      switch (how) {
      case 0: { D d(s); rec(d); break; }
      case 1: { D d(std::move(s)); rec(d); break; }
      case 2: { expected<void, src_t> v = has ? expected<void, src_t>() : expected<void, src_t>(unexpect, src_t { 4 }); expected<void, EN> d(v); g_tr.inject = false; ghas = d.has_value(); got = ghas ? 3 : val_of(d.error()); break; }
      case 3: { expected<void, src_t> v = has ? expected<void, src_t>() : expected<void, src_t>(unexpect, src_t { 4 }); expected<void, EN> d(std::move(v)); g_tr.inject = false; ghas = d.has_value(); got = ghas ? 3 : val_of(d.error()); break; }
      case 4: { D d(std::in_place, nt_t { 9 }); g_tr.inject = true; if (has) d = src_t { 3 }; else d = unexpected<src_t>(src_t { 4 }); rec(d); break; }
      case 5: { D d(unexpect, nt_t { 9 }); unexpected<src_t> u(src_t { 4 }); if (has) d = src_t { 3 }; else d = u; rec(d); break; }
      case 6: { unexpected<src_t> u(src_t { 4 }); if (has) { D d(std::in_place, src_t { 3 }); rec(d); } else { D d(u); rec(d); } break; }
      case 7: { if (has) { D d(nt_t { 3 }); rec(d); } else { D d(unexpected<src_t>(src_t { 4 })); rec(d); } break; }
      }
    } catch (Boom&) { th = true; }
    g_tr.inject = false;
    if (!th) c.check(ghas == has && got == (has ? 3 : 4), "convert:" + std::to_string(how) + (has ? "v" : "e"), "conversion lost the content");
    c.observe(std::to_string(how) + char('0' + has) + char('0' + th));
  }
  c.check(g_tr.live == 0 && g_tr.bad.empty(), "convert:lifetime", "conversion leaks or uses dead elements: " + g_tr.bad);
}
// elements that may be assigned bitwise but not constructed or destroyed so (they count themselves)
template <int K> struct Cnt { static inline int live = 0; int v; Cnt(int x = 0) noexcept : v(x) { ++live; } Cnt(const Cnt& o) noexcept : v(o.v) { ++live; } Cnt& operator=(const Cnt&) = default; ~Cnt() { --live; } };
template <class T, class E> static void counted(mc::Chooser& c, const char* nm)
{
  using X = expected<T, E>; constexpr bool VOID = std::is_void_v<T>, REF = std::is_reference_v<T>; static int store[4] = { 0, 1, 2, 3 };
  auto mk = [&](bool has, int v) { if (!has) return X(unexpect, v); if constexpr (VOID) return X(); else if constexpr (REF) return X(store[v]); else return X(std::in_place, v); };
  auto look = [&](const X& x, bool has, int v) { if (x.has_value() != has) return false; if (!has) return int(x.error().v) == v; if constexpr (VOID) return true; else if constexpr (REF) return &*x == &store[v]; else return x->v == v; };
  Cnt<1>::live = Cnt<2>::live = 0; std::string key;
  {
    bool h[2] = { c.flip(), c.flip() }; int v[2] = { 1, 2 }; X o[2] = { mk(h[0], 1), mk(h[1], 2) }; c.note(std::string(nm) + (h[0] ? ":v" : ":e") + (h[1] ? "v" : "e"));
    for (int i = 0; i < (c.thorough() ? 4 : 3); ++i) {
      int op = c.pick(7), a = c.pick(2), b = 1 - a; c.note("op" + std::to_string(op) + std::to_string(a));
      if (op == 0) { o[a] = o[b]; h[a] = h[b]; v[a] = v[b]; } else if (op == 1) { o[a] = std::move(o[b]); h[a] = h[b]; v[a] = v[b]; } else if (op == 2) { X t(o[b]); o[a] = std::move(t); h[a] = h[b]; v[a] = v[b]; }
      else if (op == 3) { o[a] = mk(true, 3); h[a] = true; v[a] = 3; } else if (op == 4) { o[a] = mk(false, 3); h[a] = false; v[a] = 3; } else if (op == 5) { o[a] = unexpected<E>(E(2)); h[a] = false; v[a] = 2; } else { swap(o[0], o[1]); std::swap(h[0], h[1]); std::swap(v[0], v[1]); }
      int wt = 0, we = 0; for (int k = 0; k < 2; ++k) { if (!h[k]) ++we; else if (!VOID && !REF) ++wt; if (!look(o[k], h[k], v[k])) { c.fail("counted:" + c.notes(), "content differs from the model"); return; } }
      if (Cnt<1>::live != wt || Cnt<2>::live != we) { c.fail("counted:" + c.notes(), std::to_string(Cnt<1>::live) + " live values and " + std::to_string(Cnt<2>::live) + " live errors instead of " + std::to_string(wt) + " and " + std::to_string(we)); return; }
    }
    c.observe(c.notes());
  }
  c.check(Cnt<1>::live == 0 && Cnt<2>::live == 0, [&] { return "counted-leak:" + c.notes(); }, "not every element is destroyed exactly once");
}
MC_SCENARIO("counted") { switch (c.pick(3)) { case 0: counted<Cnt<1>, Cnt<2>>(c, "value"); break; case 1: counted<void, Cnt<2>>(c, "void"); break; default: counted<int&, Cnt<2>>(c, "ref"); } }
MC_MAIN
