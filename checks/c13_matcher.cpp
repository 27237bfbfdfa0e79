#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>
#include <fitoria/web/path_info.hpp>
#include "mc.hpp"
#include "pattern_ref.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show; using http::verb;
using R = router<int, int>; using B = std::vector<std::pair<std::string, std::string>>;
static std::string sb(const B& b) { std::string s; for (auto& x : b) s += x.first + "=" + show(x.second) + ";"; return s; }
struct One { std::string p; std::vector<RT> t; path_matcher m; };
static bool check(mc::Chooser& c, const One& o, const R& rt, const std::string& path)
{
  B w; std::string rk; bool want = ref_match(o.t, path, w, rk); auto key = [&](const char* k) { return std::string(k) + ":" + show(o.p) + "@" + show(path); };
  try {
    auto g = o.m.match(path);
    if (g.has_value() != want) { c.fail(key("match"), want ? "the path is an instance of the pattern but does not match" : "the path is not an instance of the pattern but matches"); return false; }
    if (want && *g != w) { c.fail(key("bind"), "bound " + sb(*g) + " instead of " + sb(w)); return false; }
    auto f = rt.try_find(verb::get, path);
    if (f.has_value() != want) { c.fail(key("route"), want ? "the router does not find the route" : "the router selects a route that does not match"); return false; }
    if (f && f->matcher().match(path) != optional<B>(w)) { c.fail(key("rmatch"), "matching through the selected route"); return false; }
    if (want) {
      path_info i(o.p, path, *g); bool ok = i.match_pattern() == o.p && i.match_path() == path && i.size() == w.size() && i.keys().size() == w.size();
      for (std::size_t k = 0; ok && k < w.size(); ++k) ok = i.get(k) && *i.get(k) == w[k].second && i.at(k) == w[k].second && i.get(w[k].first) && *i.get(w[k].first) == w[k].second && i.keys()[k] == w[k].first;
      if (!ok || i.get(w.size())) { c.fail(key("info"), "path_info differs from the bindings"); return false; }
    }
  } catch (std::exception& e) { c.fail(key("throw"), std::string("exception: ") + e.what()); return false; }
  return true;
}
static void pattern(mc::Chooser& c, const std::string& p, std::string_view alpha, int n, const std::vector<std::string>& extra)
{
  std::vector<RT> t; bool ok = ref(p, true, t);
  try { path_matcher m(p); if (!ok) { c.fail("ctor:" + show(p), "an invalid pattern is accepted"); return; }
    if (m.pattern() != p) c.fail("pattern:" + show(p), "pattern text");
    One o { p, t, m }; R rt; int v = 0; if (!rt.try_insert(R::route_type(routable(verb::get, m, {}, [v](int) { return v; })))) { c.fail("insert:" + show(p), "insertion refused"); return; }
    std::uint64_t k = 0; bool go = true; mc::all_strings("", alpha, n, [&](const std::string& s) { if (go) { ++k; go = check(c, o, rt, s); } }); for (auto& s : extra) if (go) { ++k; go = check(c, o, rt, s); }
    c.cases(k);
  } catch (std::system_error& e) { if (ok) c.fail("ctor:" + show(p), std::string("a valid pattern is refused: ") + e.what()); else if (e.code() != std::errc::invalid_argument) c.fail("ctor:" + show(p), "error code"); }
  catch (std::exception& e) { c.fail("ctor:" + show(p), std::string("exception: ") + e.what()); }
}
// instances and near-instances of a pattern
static std::vector<std::string> near(const std::string& p)
{
  std::vector<RT> t; std::vector<std::string> r; if (!ref(p, true, t)) return r;
  for (auto val : { "v", "a.b", "{q}", "}", "x\ny", "%2F", "", "a/b", "+", "\xC3\xA9", "(", "a b" }) { std::string s; for (auto& x : t) s += x.k == path_token_kind::static_ ? x.v : std::string(val); r.push_back(s); r.push_back(s + "x"); r.push_back(s + "/"); if (!s.empty()) { r.push_back(s.substr(0, s.size() - 1)); r.push_back(s.substr(1)); } }
  std::string lit; for (auto& x : t) lit += x.k == path_token_kind::static_ ? x.v : "v"; for (std::size_t i = 0; i < lit.size(); ++i) for (char ch : std::string("aX./{\n", 6)) { auto s = lit; s[i] = ch; r.push_back(s); s = lit; s.insert(i, 1, ch); r.push_back(s); s = lit; s.erase(i, 1); r.push_back(s); }
  r.push_back(p); return r;
}
MC_SCENARIO_D("pieces", 2)
{
  static const char* P[] = { "/", "{x}", "{y}", "a", ".", "#w", "+", "*", "(", ")", "$", "{a-b}", "{%41}", "%41", "#x", "{" };
  std::string p; int n = c.thorough() ? 5 : 4; for (int i = 0; i < n; ++i) { int k = c.pick(int(std::size(P)) + 1); if (k == int(std::size(P))) break; p += P[k]; } c.note(show(p));
  std::vector<RT> t; bool ok = ref(p, true, t); pattern(c, p, "/a.", ok ? 4 : 0, near(p)); c.observe(p);
}
MC_SCENARIO_D("deep-paths", 1)
{
  static const char* P[] = { "", "/", "//", "/a", "/{x}", "/{x}/{y}", "/{x}/", "/a/{x}", "/{x}/a", "/{x}/a/{y}", "/#w", "/a#w", "/{x}/#w", "#w", "/a/{x}/#w", "/a.b/{x}", "/{x}/{y}/{z}", "/{x}/a/#w" };
  auto p = P[c.pick(int(std::size(P)))]; c.note(p); pattern(c, p, "/a.{\n", c.thorough() ? 7 : 6, near(p)); c.observe(p);
}
// each allowed literal character matches itself and nothing else
MC_SCENARIO_D("literal-bytes", 1)
{
  static const std::string L = "azAZ09-._~!$&'()*+,;=:@"; int i = c.pick(int(L.size())); std::string ch(1, L[i]); c.note(ch); std::uint64_t n = 0;
  for (auto p : { "/" + ch, "/x" + ch, "/" + ch + ch, "/x" + ch + "y", "/" + ch + "/{v}", "/{" + ch + "}", "/{v" + ch + "w}", "/x#" + ch, "/" + ch + "#w" }) {
    std::vector<std::string> e; std::vector<RT> t; ref(p, true, t); for (int b = 0; b < 256; ++b) { std::string x(1, char(b)); for (auto& q : { "/" + x, "/x" + x, "/" + x + x, "/x" + x + "y", "/" + x + "/1", "/" + x + "q" }) e.push_back(q); }
    pattern(c, p, "/x" + ch, 4, e); ++n; }
  c.observe(ch);
}
// two routes at a time: whichever the router selects, its pattern matches
MC_SCENARIO_D("selected-route-matches", 2)
{
  static const char* P[] = { "/{x}", "/a", "/{x}/{y}", "/a/{x}", "/{x}/a", "/#w", "/a#w", "/{x}/#w", "/a.b", "/a+", "/{x}/" }; auto p = P[c.pick(11)], q = P[c.pick(11)]; c.note(p); c.note(q); std::vector<RT> tp, tq; ref(p, true, tp); ref(q, true, tq);
  R rt; (void)rt.try_insert(R::route_type(routable(verb::get, path_matcher(p), {}, [](int) { return 0; }))); (void)rt.try_insert(R::route_type(routable(verb::get, path_matcher(q), {}, [](int) { return 1; }))); std::uint64_t n = 0;
  mc::all_strings("", "/ab.+{", 5, [&](const std::string& s) { if (c.failed()) return; ++n; B b1, b2; std::string r1, r2; bool m1 = ref_match(tp, s, b1, r1), m2 = ref_match(tq, s, b2, r2); auto f = rt.try_find(verb::get, s); auto k = std::string("sel:") + p + "," + q + "@" + show(s);
    if (f.has_value() != (m1 || m2)) { c.fail(k, f ? "a route that does not match is selected" : "no route is selected although one matches"); return; }
    if (f) { try { auto g = f->matcher().match(s); auto& w = f->matcher().pattern() == p ? b1 : b2; if (!g || *g != w) c.fail(k, "the selected route's pattern does not bind the path"); } catch (std::exception& e) { c.fail(k, e.what()); } } });
  c.cases(n); c.observe(c.notes());
}
MC_MAIN
