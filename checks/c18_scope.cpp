#include <fitoria/web/scope.hpp>
#include <fitoria/web/state_of.hpp>
#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
static std::string LOG; // what middlewares and handlers did, in order
// a middleware that records its id on the way in and on the way out
template <class Rq, class Rs, class Next> struct MwS { int id; Next next; auto operator()(Rq req) const -> Rs { LOG += "<" + std::to_string(id); auto r = co_await next(req); LOG += ">" + std::to_string(id) + "=" + std::to_string(int(r.status().value())); co_return r; } };
struct Mw { int id;
  template <class Rq, class Rs, decay_to<Mw> Self, class Next> friend auto tag_invoke(to_middleware_t<Rq, Rs>, Self&& self, Next&& next) { return MwS<Rq, Rs, std::decay_t<Next>> { self.id, std::forward<Next>(next) }; } };
struct A { int v; }; struct B { int v; };
static auto H(int id) { return [id](request& r) -> awaitable<response> { auto a = r.state<A>(); auto b = r.state<B>(); LOG += "h" + std::to_string(id); co_return response::accepted().set_body(std::to_string(id) + " A" + (a ? std::to_string(a->v) : "-") + " B" + (b ? std::to_string(b->v) : "-") + " " + r.path().match_pattern()); }; }
static std::string exp_body(int id, int a, int b, std::string pat) { auto t = [](int v) { return v ? std::to_string(v) : std::string("-"); }; return std::to_string(id) + " A" + t(a) + " B" + t(b) + " " + pat; }
// the answers to a list of targets sent one after another over one connection
static std::vector<vf::Resp> ask(mc::Chooser& c, vf::Wire& w, const std::vector<std::string>& targets)
{
  auto cl = w.connect(); std::vector<vf::Resp> out; std::size_t n = 0; std::vector<std::string> ms;
  for (auto& t : targets) { ms.push_back("GET"); cl.put("GET " + t + " HTTP/1.1\r\nHost: h\r\n\r\n"); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, ms); if (!a.err.empty() || a.v.size() != ++n) { c.fail("answer:" + c.notes() + ":" + t, "no proper answer to " + t + ": " + a.err); return {}; } out = a.v; }
  return out;
}
static void want(mc::Chooser& c, const std::string& what, const vf::Resp& r, int status, const std::string& body)
{ if (r.status != status || (!body.empty() && r.body != body)) c.fail(what + ":" + c.notes(), "answer " + std::to_string(r.status) + " \"" + r.body + "\" instead of " + std::to_string(status) + " \"" + body + "\""); }
// states: nearest level that sets a type wins ---------------------------------------------------------
struct L { int a = 0, b = 0; };
template <class S> static S set(mc::Chooser& c, S s, L& l, int base)
{
  switch (int k = c.pick(c.thorough() ? 7 : 6)) {
  case 0: c.note("-"); return s; case 1: c.note("A"); l.a = base + 1; return s.use_state(A { base + 1 }); case 2: c.note("B"); l.b = base + 2; return s.use_state(B { base + 2 });
  case 3: case 6: { c.note(k == 3 ? "AB" : "BA"); l.a = base + 1; l.b = base + 2; if (k == 3) { auto t = s.use_state(A { base + 1 }); return t.use_state(B { base + 2 }); } auto t = s.use_state(B { base + 2 }); return t.use_state(A { base + 1 }); }
  case 4: { c.note("AA"); l.a = base + 3; const A first { base + 1 }; auto t = s.use_state(first); return t.use_state(A { base + 3 }); }
  default: { c.note("BAB"); l.a = base + 1; l.b = base + 4; auto t = s.use_state(B { base + 2 }); auto u = t.use_state(A { base + 1 }); return u.use_state(B { base + 4 }); }
  }
}
MC_SCENARIO_D("states", 3)
{
  L r, i, m, o; c.note("route"); auto ro = set(c, route::get<"/r">(H(1)), r, 10); c.note("inner"); auto in = set(c, scope<"/i">(), i, 20); c.note("middle"); auto mi = set(c, scope<"/m">(), m, 30); c.note("outer"); auto ou = set(c, scope<"/o">(), o, 40);
  auto near = [](std::initializer_list<int> v) { for (int x : v) if (x) return x; return 0; };
  vf::Wire w([&](auto& b) { b.serve(ro); b.serve(in.serve(ro)); b.serve(mi.serve(in.serve(ro))); b.serve(ou.serve(mi.serve(in.serve(ro)).serve(ro)).serve(ro)); });
  auto a = ask(c, w, { "/r", "/i/r", "/m/i/r", "/o/m/i/r", "/o/m/r", "/o/r", "/m/r", "/o/i/r" }); if (c.failed()) return;
  want(c, "route", a[0], 202, exp_body(1, r.a, r.b, "/r")); want(c, "inner", a[1], 202, exp_body(1, near({ r.a, i.a }), near({ r.b, i.b }), "/i/r"));
  want(c, "middle", a[2], 202, exp_body(1, near({ r.a, i.a, m.a }), near({ r.b, i.b, m.b }), "/m/i/r")); want(c, "outer", a[3], 202, exp_body(1, near({ r.a, i.a, m.a, o.a }), near({ r.b, i.b, m.b, o.b }), "/o/m/i/r"));
  want(c, "outer-middle", a[4], 202, exp_body(1, near({ r.a, m.a, o.a }), near({ r.b, m.b, o.b }), "/o/m/r")); want(c, "outer-route", a[5], 202, exp_body(1, near({ r.a, o.a }), near({ r.b, o.b }), "/o/r"));
  want(c, "absent", a[6], 404, ""); want(c, "absent2", a[7], 404, ""); c.observe(a[3].body);
}
// histories of derivations: no derived scope or route changes another one ----------------------------------
MC_SCENARIO_D("derive-scopes", 3)
{
  auto s0 = scope<"/s">(); using S = decltype(s0); std::vector<S> objs { s0 }; std::vector<L> ls(1); auto r = route::get<"/r">(H(1));
  using T = decltype(s0.serve(r)); std::vector<std::optional<T>> served(1); std::vector<L> sl(1); int n = c.thorough() ? 5 : 4;
  for (int k = 0; k < n; ++k) {
    int op = c.pick(objs.size() < 3 ? 4 : 2); if (op == 0) { c.note("-"); continue; } int who = c.pick(int(objs.size())); auto x = std::to_string(who);
    if (op == 1) { c.note("serve" + x); served[who].emplace(objs[who].serve(r)); sl[who] = ls[who]; }
    if (op == 2) { c.note("A" + x); L l = ls[who]; l.a = 10 + k; objs.push_back(objs[who].use_state(A { 10 + k })); ls.push_back(l); served.emplace_back(); sl.emplace_back(); }
    if (op == 3) { c.note("B" + x); L l = ls[who]; l.b = 20 + k; objs.push_back(objs[who].use_state(B { 20 + k })); ls.push_back(l); served.emplace_back(); sl.emplace_back(); }
  }
  for (std::size_t k = 0; k < objs.size(); ++k) if (!served[k]) { served[k].emplace(objs[k].serve(r)); sl[k] = ls[k]; }
  while (served.size() < 3) { served.push_back(served[0]); sl.push_back(sl[0]); }
  vf::Wire w([&](auto& b) { b.serve(scope<"/0">().serve(*served[0])); b.serve(scope<"/1">().serve(*served[1])); b.serve(scope<"/2">().use_state(B { 99 }).serve(*served[2])); });
  auto a = ask(c, w, { "/0/s/r", "/1/s/r", "/2/s/r" }); if (c.failed()) return;
  want(c, "scope0", a[0], 202, exp_body(1, sl[0].a, sl[0].b, "/0/s/r")); want(c, "scope1", a[1], 202, exp_body(1, sl[1].a, sl[1].b, "/1/s/r")); want(c, "scope2", a[2], 202, exp_body(1, sl[2].a, sl[2].b ? sl[2].b : 99, "/2/s/r")); c.observe(c.notes());
}
MC_SCENARIO_D("derive-routes", 3)
{
  auto r0 = route::get<"/r">(H(1)); using R = decltype(r0); std::vector<R> objs { r0 }; std::vector<L> ls(1); int n = c.thorough() ? 4 : 3; int parent = c.pick(2); c.note(parent ? "in-scope" : "bare");
  using T = decltype(scope<"/s">().serve(r0)); std::vector<std::optional<T>> served(1); std::vector<L> sl(1); auto sc = parent ? scope<"/s">().use_state(B { 7 }) : scope<"/s">();
  for (int k = 0; k < n; ++k) {
    int op = c.pick(objs.size() < 3 ? 4 : 2); if (op == 0) { c.note("-"); continue; } int who = c.pick(int(objs.size())); auto x = std::to_string(who);
    if (op == 1) { c.note("serve" + x); served[who].emplace(sc.serve(objs[who])); sl[who] = ls[who]; }
    if (op == 2) { c.note("A" + x); L l = ls[who]; l.a = 10 + k; objs.push_back(objs[who].use_state(A { 10 + k })); ls.push_back(l); served.emplace_back(); sl.emplace_back(); }
    if (op == 3) { c.note("B" + x); L l = ls[who]; l.b = 20 + k; objs.push_back(objs[who].use_state(B { 20 + k })); ls.push_back(l); served.emplace_back(); sl.emplace_back(); }
  }
  for (std::size_t k = 0; k < objs.size(); ++k) if (!served[k]) { served[k].emplace(sc.serve(objs[k])); sl[k] = ls[k]; }
  while (served.size() < 3) { served.push_back(served[0]); sl.push_back(sl[0]); }
  vf::Wire w([&](auto& b) { b.serve(scope<"/0">().serve(*served[0])); b.serve(scope<"/1">().serve(*served[1])); b.serve(scope<"/2">().use_state(A { 98 }).serve(*served[2])); });
  auto a = ask(c, w, { "/0/s/r", "/1/s/r", "/2/s/r" }); if (c.failed()) return; auto bb = [&](int v) { return v ? v : parent ? 7 : 0; };
  want(c, "route0", a[0], 202, exp_body(1, sl[0].a, bb(sl[0].b), "/0/s/r")); want(c, "route1", a[1], 202, exp_body(1, sl[1].a, bb(sl[1].b), "/1/s/r")); want(c, "route2", a[2], 202, exp_body(1, sl[2].a ? sl[2].a : 98, bb(sl[2].b), "/2/s/r")); c.observe(c.notes());
}
// middleware order ----------------------------------------------------------------------------------------------
template <int N, class S> static auto wrap(S s, int base, std::vector<int>& ids) { if constexpr (N == 0) return s; else { ids.push_back(base); return wrap<N - 1>(s.use(Mw { base }), base + 1, ids); } }
static std::string order(std::vector<int> v, int id) { std::string s, t; for (int i : v) { s += "<" + std::to_string(i); t = ">" + std::to_string(i) + "=202" + t; } return s + "h" + std::to_string(id) + t; }
template <int O, int I, int R> static void mids(mc::Chooser& c)
{
  std::vector<int> o, i, r; auto ro = wrap<R>(route::get<"/r">(H(1)), 30, r); auto in = wrap<I>(scope<"/i">(), 20, i); auto ou = wrap<O>(scope<"/o">(), 10, o);
  // a second route served before the scope got its last middleware does not see it
  auto early = ou.serve(route::get<"/e">(H(2))); auto late = early.use(Mw { 19 }).serve(route::get<"/l">(H(3)));
  vf::Wire w([&](auto& b) { b.serve(ro); b.serve(scope<"/x">().serve(in.serve(ro))); b.serve(late.serve(in.serve(ro))); });
  auto at = [&](const char* t, std::vector<int> v, int id) { LOG.clear(); auto a = ask(c, w, { t }); if (c.failed()) return; auto e = order(v, id); if (LOG != e || a[0].status != 202) c.fail(std::string("order:") + c.notes() + ":" + t, "ran " + LOG + " instead of " + e); c.observe(LOG); };
  auto cat = [](std::vector<int> a, std::vector<int> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  at("/r", r, 1); at("/x/i/r", cat(i, r), 1); auto ol = cat(o, { 19 }); at("/o/i/r", cat(ol, cat(i, r)), 1); at("/o/e", o, 2); at("/o/l", ol, 3); LOG.clear(); auto a = ask(c, w, { "/o/zz" }); if (!c.failed() && (a[0].status != 404 || !LOG.empty())) c.fail("unrouted:" + c.notes(), "middleware ran for an unrouted path"); c.cases(6);
}
MC_SCENARIO("middleware-order") { switch (c.pick(6)) { case 0: c.note("0,0,0"); mids<0, 0, 0>(c); break; case 1: c.note("2,2,2"); mids<2, 2, 2>(c); break; case 2: c.note("1,0,2"); mids<1, 0, 2>(c); break; case 3: c.note("0,1,1"); mids<0, 1, 1>(c); break; case 4: c.note("2,1,0"); mids<2, 1, 0>(c); break; default: c.note("0,3,1"); mids<0, 3, 1>(c); } }
// prefixes: every path over a small alphabet reaches exactly the concatenations -------------------------------------
MC_SCENARIO_D("prefixes", 1)
{
  static const std::vector<std::string> pats { "/a", "/ab", "/a/", "/a/b/c", "/a/b/{x}/c", "/a/b/{x}/{y}", "/c/b/a", "/{x}/c/{y}", "/b/#w", "/b" };
  vf::Wire w([&](auto& b) {
    b.serve(scope<"">().serve(route::get<"/a">(H(0)))); b.serve(scope<"/a">().serve(route::get<"b">(H(1))).serve(route::get<"/">(H(2))).serve(scope<"/b">().serve(route::get<"/c">(H(3))).serve(scope<"/{x}">().serve(route::get<"/c">(H(4))).serve(route::get<"/{y}">(H(5))))));
    b.serve(scope<"/c">().serve(scope<"">().serve(scope<"/b">().serve(route::get<"/a">(H(6)))))); b.serve(scope<"/{x}">().serve(scope<"/c">().serve(route::get<"/{y}">(H(7))))); b.serve(scope<"/b">().serve(route::get<"/#w">(H(8)))); b.serve(scope<"/b">().serve(route::get<"">(H(9)))); });
  std::string first = "/"; first += "abc/"[c.pick(4)]; c.note(first); auto cl = w.connect(); std::vector<std::string> ms; std::size_t done = 0; std::uint64_t n = 0;
  // an independent reading of the ten concatenated patterns; the most specific one wins as in C12
  auto split = [](const std::string& s) { std::vector<std::string> v; std::size_t i = 1; for (;;) { auto e = s.find('/', i); v.push_back(s.substr(i, e == s.npos ? s.npos : e - i)); if (e == s.npos) return v; i = e + 1; } };
  mc::all_strings(first, "abc/", c.thorough() ? 6 : 5, [&](const std::string& t) {
    if (c.failed() || t.starts_with("//")) return; int best = -1; std::vector<int> bestk;
    for (int p = 0; p < 10; ++p) { auto a = split(pats[p]), b = split(t); std::vector<int> k; bool ok = true; std::size_t i = 0; for (; ok && i < a.size(); ++i) { if (a[i][0] == '#') { if (i < b.size()) { k.push_back(2); i = b.size(); break; } ok = false; break; } if (i >= b.size()) { ok = false; break; } if (a[i][0] == '{') { ok = !b[i].empty(); k.push_back(1); } else { ok = a[i] == b[i]; k.push_back(0); } } if (ok && i < b.size()) ok = false; if (ok && (best < 0 || k < bestk)) { best = p; bestk = k; } }
    ms.push_back("GET"); cl.in.clear(); cl.put("GET " + t + " HTTP/1.1\r\n\r\n"); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, { "GET" }); if (!a.err.empty() || a.v.size() != 1) { c.fail("answer:" + t, "no proper answer " + a.err); return; } ++n; ++done;
    want(c, "prefix:" + t, a.v[0], best < 0 ? 404 : 202, best < 0 ? "" : exp_body(best, 0, 0, pats[best])); });
  c.cases(n); c.observe(first);
}
MC_MAIN
