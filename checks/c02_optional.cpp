#include <fitoria/core/optional.hpp>
#include "tracked.hpp"
#include <optional>
#include <limits>
using namespace fitoria;
using VN = Tr<1, true>; using VT = Tr<1, false>;
struct DIntD : std::integral_constant<int, 0> { };
static int g_store[4] = { 10, 20, 30, 40 };
using M = std::optional<int>;
static std::string ms(const M& m) { return m ? std::to_string(*m) : "-"; }

template <class T> struct H {
  using X = optional<T>; using TT = std::remove_cvref_t<T>;
  static constexpr bool VOID = std::is_void_v<T>, REF = std::is_reference_v<T>, VAL = !VOID && !REF;
  static M get(const X& x) { if (!x.has_value()) return {}; if constexpr (VOID) return 0; else return val_of(*x); }
  static int tracked(const M& m) { return VAL && is_tr<TT> && m ? 1 : 0; }
  static auto nt_or(int v) { if constexpr (VOID) return 0; else if constexpr (is_tr<TT>) return nt_t { v }; else return TT(v); }
  static X mk(int v) { if constexpr (VOID) return X(std::in_place); else if constexpr (REF) return X(g_store[v]); else return X(std::in_place, nt_or(v)); }
  static std::string query(const X& cx, const M& m)
  {
    if (cx.has_value() != m.has_value() || bool(cx) != m.has_value()) return "has_value";
    if (get(cx) != m) return "content";
    X x(cx); const X& k = x;
    auto same = [&](const char* w) -> std::string { return get(x) == m ? "" : std::string(w) + " changed the object"; };
#define Q(expr, what) do { if (!(expr)) return what; } while (0)
#define S(what) do { auto r_ = same(what); if (!r_.empty()) return r_; } while (0)
    {
      bool th = false; auto run = [&](auto f) { th = false; try { f(); } catch (bad_optional_access&) { th = true; } };
      if constexpr (VOID) { run([&] { k.value(); }); Q(th == !m, "value()"); if (m) { *k; k.operator->(); } }
      else {
        int r = -5;
        run([&] { r = val_of(x.value()); }); Q(th == !m && (th || r == *m), "value() &"); S("value() &");
        run([&] { r = val_of(k.value()); }); Q(th == !m && (th || r == *m), "value() const&");
        { X y(cx); run([&] { auto&& q = std::move(y).value(); r = val_of(q); }); Q(th == !m && (th || r == *m), "value() &&"); }
        { const X y(cx); run([&] { auto&& q = std::move(y).value(); r = val_of(q); }); Q(th == !m && (th || r == *m), "value() const&&"); }
        if (m) {
          Q(std::addressof(*x) == x.operator->() && std::addressof(*k) == k.operator->() && std::addressof(x.value()) == std::addressof(*x), "addresses differ");
          if constexpr (VAL && is_tr<TT>) {
            { X y(cx); TT t(*std::move(y)); Q(val_of(t) == *m && val_of(*y) == MOVED, "operator*&& does not move"); }
            { X y(cx); TT t(std::move(y).value()); Q(val_of(t) == *m && val_of(*y) == MOVED, "value()&& does not move"); }
            { const X y(cx); TT t(*std::move(y)); Q(val_of(t) == *m && val_of(*y) == *m, "operator* const&&"); }
          }
        }
        TT d(nt_or(5));
        Q(val_of(k.value_or(d)) == m.value_or(5), "value_or const&"); S("value_or");
        { X y(cx); Q(val_of(std::move(y).value_or(d)) == m.value_or(5), "value_or &&"); if constexpr (VAL && is_tr<TT>) if (m) Q(*get(y) == MOVED, "value_or && does not move"); }
      }
    }
    auto mon = [&](auto&& obj, const char* cat, bool isconst, bool rv) -> std::string {
      using O = decltype(obj); int calls = 0, seen = -1; bool mv = false; std::string n = cat;
      auto fv = [&](auto&&... a) { ++calls; ((seen = val_of(a), mv = std::is_rvalue_reference_v<decltype(a)>), ...); };
      auto arg = [&]() -> bool { return !m || VOID || (seen == *m && (!VAL || mv == rv)); };
      auto aft = [&](const X& y) -> bool { if (rv && !isconst && VAL) return true; return get(y) == m; };
      { X y(cx); calls = 0; auto r = static_cast<O>(y).and_then([&](auto&&... a) { fv(std::forward<decltype(a)>(a)...); return optional<long>(7L); });
        Q(calls == (m ? 1 : 0) && r.has_value() == m.has_value() && (!m || *r == 7) && arg() && aft(y), "and_then " + n); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).and_then([&](auto&&...) { ++calls; return optional<long>(); });
        Q(calls == (m ? 1 : 0) && !r.has_value() && aft(y), "and_then to empty " + n); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).transform([&](auto&&... a) { fv(std::forward<decltype(a)>(a)...); return 9; });
        Q(calls == (m ? 1 : 0) && r.has_value() == m.has_value() && (!m || *r == 9) && arg() && aft(y), "transform " + n); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).or_else([&]() { ++calls; return mk(3); });
        Q(calls == (m ? 0 : 1) && r.has_value() && get(r) == (m ? m : M(VOID ? 0 : REF ? 40 : 3)) && aft(y), "or_else " + n);
        if (VAL && is_tr<TT> && rv && !isconst && m) Q(*get(y) == MOVED, "or_else && does not move"); }
      { X y(cx); calls = 0; auto r = static_cast<O>(y).or_else([&]() { ++calls; return X(); });
        Q(calls == (m ? 0 : 1) && get(r) == m, "or_else to empty " + n); }
      return "";
    };
    std::string r;
    r = mon(static_cast<X&>(x), "&", false, false); if (!r.empty()) return r;
    r = mon(static_cast<const X&>(x), "const&", true, false); if (!r.empty()) return r;
    r = mon(static_cast<X&&>(x), "&&", false, true); if (!r.empty()) return r;
    r = mon(static_cast<const X&&>(x), "const&&", true, true); if (!r.empty()) return r;
    Q((k == nullopt) == !m && (k != nullopt) == m.has_value() && (nullopt == k) == !m, "== nullopt");
    Q((k < nullopt) == false && (k > nullopt) == m.has_value() && (k <= nullopt) == !m && (k >= nullopt) && (nullopt < k) == m.has_value() && (nullopt >= k) == !m, "order against nullopt");
    if constexpr (!VOID) for (int v : { 0, 1, 2, 10, 20 }) {
      TT t(nt_or(v)); bool e = m == M(v), l = m < M(v), g = m > M(v);
      Q((k == t) == e && (t == k) == e && (k != t) == !e && (t != k) == !e, "== value");
      Q((k < t) == l && (t > k) == l && (k >= t) == !l && (t <= k) == !l, "< value");
      Q((k > t) == g && (t < k) == g && (k <= t) == !g && (t >= k) == !g, "> value");
    }
    S("queries");
    return "";
  }
  static std::string cmp(const X& a, const X& b, const M& ma, const M& mb)
  {
    Q((a == b) == (ma == mb), "=="); Q((a != b) == (ma != mb), "!="); Q((a < b) == (ma < mb), "<"); Q((a <= b) == (ma <= mb), "<=");
    Q((a > b) == (ma > mb), ">"); Q((a >= b) == (ma >= mb), ">=");
    if constexpr (VAL) { Q((a <=> b) == (ma <=> mb), "<=>"); }
    return "";
  }
  struct Slot { std::optional<X> x; M m; };
  static void make(mc::Chooser& c, Slot& s, const char* nm)
  {
    int k = c.pick(VOID ? 3 : REF ? 4 : 7); c.note(std::string(nm) + "=ctor" + std::to_string(k));
    switch (k) {
    case 0: s.x.emplace(); s.m = {}; break;
    case 1: s.x.emplace(nullopt); s.m = {}; break;
    case 2: if constexpr (VOID) { s.x.emplace(std::in_place); s.m = 0; } else if constexpr (REF) { s.x.emplace(g_store[0]); s.m = 10; } else { s.x.emplace(std::in_place, nt_or(1)); s.m = 1; } break;
    case 3: if constexpr (REF) { optional<int&> o(g_store[1]); s.x.emplace(o); s.m = 20; } else if constexpr (VAL) { TT t(nt_or(2)); s.x.emplace(t); s.m = 2; } break;
    case 4: if constexpr (VAL) { TT t(nt_or(1)); s.x.emplace(std::move(t)); s.m = 1; } break;
    case 5: if constexpr (VAL) { if constexpr (is_tr<TT>) { optional<nt_t> o(nt_t { 2 }); s.x.emplace(o); } else s.x.emplace(optional<short>(short(2))); s.m = 2; } break;
    case 6: if constexpr (VAL) { if constexpr (is_tr<TT>) { s.x.emplace(std::in_place, std::initializer_list<int> { 1, 1 }, 0); s.m = 2; } else { s.x.emplace(optional<short>()); s.m = {}; } } break;
    }
  }
  static constexpr int NOPS = VOID ? 10 : REF ? 14 : 21;
  static void run(mc::Chooser& c, int depth, const char* name)
  {
    g_tr.reset(c); c.devs(1); for (int i = 0; i < 4; ++i) g_store[i] = 10 * (i + 1);
    std::string hist;
    {
      Slot s[2]; make(c, s[0], "a"); make(c, s[1], "b");
      for (int d = 0; d < depth; ++d) {
        int op = c.pick(NOPS), w = c.pick(2); Slot &p = s[w], &q = s[1 - w]; X &a = *p.x, &b = *q.x; M oa = p.m, ob = q.m;
        c.note(std::string(w ? "b" : "a") + ".op" + std::to_string(op)); g_tr.inject = true; bool th = false;
        auto mv = [&](M& m) { if (m && VAL && is_tr<TT>) m = MOVED; };
        int mode = 0; // after a throw: 0 unchanged, 1 may be empty, 2 keep emptiness
        try {
          switch (op) {
          case 0: mode = 2; a = static_cast<const X&>(b); p.m = ob; break;
          case 1: mode = 2; a = std::move(b); p.m = ob; mv(q.m); break;
          case 2: { auto& self = a; mode = 2; a = static_cast<const X&>(self); break; }
          case 3: mode = 2; a.swap(b); std::swap(p.m, q.m); break;
          case 4: if constexpr (!REF) { mode = 2; using std::swap; swap(a, b); std::swap(p.m, q.m); } break;
          case 5: a.reset(); p.m = {}; break;
          case 6: a = nullopt; p.m = {}; break;
          case 7: { X n(static_cast<const X&>(b)); g_tr.inject = false; if (get(n) != ob || get(b) != ob) c.fail("copy", "copy construction"); break; }
          case 8: { X n(std::move(b)); mv(q.m); g_tr.inject = false; if (get(n) != ob || get(b) != q.m) c.fail("move", "move construction"); break; }
          case 9: if constexpr (VOID) { a.emplace(); p.m = 0; } else if constexpr (REF) { auto& r = a.emplace(g_store[2]); p.m = 30; if (&r != &g_store[2]) c.fail("emplace", "emplace returns another object"); }
                  else { mode = 1; auto& r = a.emplace(nt_or(2)); p.m = 2; if (&r != &*a) c.fail("emplace", "emplace returns another object"); } break;
          case 10: if constexpr (REF) { a = g_store[0]; p.m = 10; } else if constexpr (VAL) { g_tr.inject = false; TT t(nt_or(1)); g_tr.inject = true; a = static_cast<const TT&>(t); p.m = 1; } break;
          case 11: if constexpr (REF) { optional<int&> o(g_store[1]); a = o; p.m = 20; } else if constexpr (VAL) { g_tr.inject = false; TT t(nt_or(2)); g_tr.inject = true; a = std::move(t); p.m = 2; } break;
          case 12: if constexpr (REF) { if constexpr (std::is_const_v<std::remove_reference_t<T>>) { optional<int&> o; a = static_cast<const optional<int&>&>(o); p.m = {}; } else { X o; a = o; p.m = {}; } } else if constexpr (VAL) { if constexpr (is_tr<TT>) a = src_t { 1 }; else a = 1; p.m = 1; } break;
          case 13: if constexpr (REF) { if constexpr (std::is_const_v<std::remove_reference_t<T>>) { optional<int&> o(g_store[3]); a = static_cast<const optional<int&>&>(o); p.m = 40; } else { X o(g_store[3]); a = static_cast<const X&>(o); p.m = 40; } }
                   else if constexpr (VAL) { mode = 1; if constexpr (is_tr<TT>) { a.emplace(src_t { 1 }); p.m = 1; } else { a.emplace(1); p.m = 1; } } break;
          case 14: if constexpr (VAL && is_tr<TT>) { mode = 1; a.emplace(std::initializer_list<int> { 1, 1 }, 0); p.m = 2; } break;
          case 15: if constexpr (VAL && is_tr<TT>) { optional<nt_t> o(nt_t { 2 }); a = o; p.m = 2; } break;
          case 16: if constexpr (VAL && is_tr<TT>) { optional<nt_t> o; a = std::move(o); p.m = {}; } else if constexpr (VAL) { optional<short> o; a = o; p.m = {}; } break;
          case 17: if constexpr (VAL && is_tr<TT>) { optional<src_t> o(src_t { 1 }); a = std::move(o); p.m = 1; } else if constexpr (VAL) { optional<short> o(short(2)); a = std::move(o); p.m = 2; } break;
          case 18: if constexpr (VAL && is_tr<TT>) { const optional<src_t> o(src_t { 1 }); a = o; p.m = 1; } break;
          case 19: if constexpr (VAL && is_tr<TT>) { const optional<src_t> o(src_t { 1 }); X n(o); g_tr.inject = false; if (get(n) != M(1)) c.fail("convert", "converting construction"); const optional<src_t> e; X n2(e); if (n2.has_value()) c.fail("convert", "converting construction from empty"); } break;
          case 20: if constexpr (VAL && is_tr<TT>) { X n(optional<src_t>(src_t { 2 })); g_tr.inject = false; X n3(std::move(n)); if (get(n3) != M(2)) c.fail("convert", "converting move construction"); } break;
          }
        } catch (Boom&) {
          th = true; c.note("boom");
          M ga = get(*p.x), gb = get(*q.x);
          auto okm = [&](const M& o, const M& g) { return mode == 0 ? o == g : mode == 1 ? true : o.has_value() == g.has_value(); };
          // construction into an empty optional, or a failed element assignment, leaves emptiness unchanged; emplace may leave it empty
          if (mode == 1 && oa.has_value() && ga.has_value()) c.fail("emplace-throw", "a failed emplace left a value");
          if (!okm(oa, ga) || (q.x && !okm(ob, gb))) { c.fail(std::string(name) + ":throw:op" + std::to_string(op), "after an element operation threw: a=" + ms(ga) + " b=" + ms(gb) + " before a=" + ms(oa) + " b=" + ms(ob)); throw mc::Fail {}; }
          p.m = ga; q.m = gb;
        }
        g_tr.inject = false; hist += "," + std::to_string(op);
        auto key = [&](const std::string& w2) { return std::string(name) + ":" + w2 + ":op" + std::to_string(op) + (oa ? "v" : "e") + (ob ? "v" : "e") + (th ? "!" : ""); };
        c.require(g_tr.bad.empty(), [&] { return key("dead"); }, [&] { return g_tr.bad; });
        c.require(get(*p.x) == p.m, [&] { return key("content"); }, [&] { return "object is " + ms(get(*p.x)) + ", the model says " + ms(p.m); });
        c.require(get(*q.x) == q.m, [&] { return key("other"); }, [&] { return "other object is " + ms(get(*q.x)) + ", the model says " + ms(q.m); });
        c.require(g_tr.bad.empty(), [&] { return key("dead"); }, [&] { return g_tr.bad; });
        for (int i = 0; i < 4; ++i) c.require(g_store[i] == 10 * (i + 1), [&] { return key("through"); }, "assigned through a reference");
        int want = tracked(p.m) + tracked(q.m);
        c.require(g_tr.live == want, [&] { return key("live"); }, [&] { return "live elements " + std::to_string(g_tr.live) + ", expected " + std::to_string(want); });
        if (d + 1 == depth) {
          auto qr = query(*p.x, p.m); c.require(qr.empty(), [&] { return std::string(name) + ":query:" + mc::show(qr) + (p.m ? ":v" : ":e"); }, qr);
          auto cr = cmp(*p.x, *q.x, p.m, q.m); if (cr.empty()) cr = cmp(*p.x, *p.x, p.m, p.m);
          c.require(cr.empty(), [&] { return std::string(name) + ":compare:" + cr + (p.m ? "v" : "e") + (q.m ? "v" : "e"); }, "comparison " + cr + " of " + ms(p.m) + " and " + ms(q.m) + " disagrees with the model");
          c.require(g_tr.bad.empty() && g_tr.live == want, [&] { return key("live-query"); }, "queries leak or double destroy " + g_tr.bad);
        }
        c.observe(std::string(name) + ms(s[0].m) + ms(s[1].m) + hist + (th ? "!" : ""));
        if (c.failed()) throw mc::Fail {};
      }
    }
    c.check(g_tr.live == 0 && g_tr.bad.empty(), [&] { return std::string(name) + ":leak"; }, [&] { return std::to_string(g_tr.live) + " elements alive after destruction " + g_tr.bad; });
  }
};
#define SC(nm, T) MC_SCENARIO(nm) { H<T>::run(c, (H<T>::VAL ? 2 : 3) + (c.thorough() ? 1 : 0), nm); }
SC("optional<VN>", VN)
SC("optional<VT>", VT)
SC("optional<int>", int)
SC("optional<void>", void)
SC("optional<int&>", int&)
SC("optional<const_int&>", const int&)

// partially ordered elements: every operator against the definition on std::optional
MC_SCENARIO("partial-order")
{
  double vals[] = { 1.0, 2.0, std::numeric_limits<double>::quiet_NaN() };
  int i = c.pick(4), j = c.pick(4); c.note(std::to_string(i) + "," + std::to_string(j));
  optional<double> a, b; std::optional<double> x, y;
  if (i < 3) { a = vals[i]; x = vals[i]; } if (j < 3) { b = vals[j]; y = vals[j]; }
  auto k = [&](const char* s) { return std::string("partial:") + s + ":" + std::to_string(i) + "," + std::to_string(j); };
#define CK(op) c.check((a op b) == (x op y), k(#op), "optional " #op " optional differs from the definition")
  CK(==); CK(!=); CK(<); CK(<=); CK(>); CK(>=);
  c.check((a <=> b) == (x <=> y), k("<=>"), "<=>");
  if (j < 3) {
    double v = vals[j];
#define CV(op) c.check((a op v) == (x op v), k("v" #op), "optional " #op " value differs from the definition"); c.check((v op a) == (v op x), k(#op "v"), "value " #op " optional differs from the definition")
    CV(==); CV(!=); CV(<); CV(<=); CV(>); CV(>=);
  }
  c.observe(k(""));
}
MC_SCENARIO("make_optional")
{
  int v = c.pick(3); g_tr.reset(c);
  { auto a = make_optional(v); c.check(a == v, "make:1", "make_optional(value)");
    auto b = make_optional<VN>(nt_t { v }); c.check(val_of(*b) == v, "make:2", "make_optional<T>(args)");
    VN t(nt_t { v }); auto d = make_optional(t); c.check(val_of(*d) == v && val_of(t) == v, "make:3", "make_optional(lvalue)");
    auto e = make_optional(std::move(t)); c.check(val_of(*e) == v && val_of(t) == MOVED, "make:4", "make_optional(rvalue)");
    c.check(fmt::format("{}", a) == std::to_string(v), "fmt:1", "formatting a value");
    c.check(fmt::format("{}", optional<int>()) == "{nullopt}", "fmt:2", "formatting an empty optional"); }
  c.observe(std::uint64_t(v));
  c.check(g_tr.live == 0 && g_tr.bad.empty(), "make:life", "lifetime " + g_tr.bad);
}
MC_MAIN
