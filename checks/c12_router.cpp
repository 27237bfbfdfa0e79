#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>
#include "mc.hpp"
#include "pattern_ref.hpp"
#include <map>
using namespace fitoria; using namespace fitoria::web; using mc::show;
using R = router<int, int>; using http::verb;
static const path_matcher& pm(const std::string& p) { static std::map<std::string, path_matcher> m; auto it = m.find(p); if (it == m.end()) it = m.emplace(p, path_matcher(p)).first; return it->second; }
static const std::vector<RT>& toks(const std::string& p) { static std::map<std::string, std::vector<RT>> m; auto it = m.find(p); if (it == m.end()) { std::vector<RT> t; if (!ref(p, true, t)) std::abort(); it = m.emplace(p, t).first; } return it->second; }
static std::string shape(const std::string& p) { std::string s; for (auto& t : toks(p)) s += t.k == path_token_kind::static_ ? t.v : t.k == path_token_kind::param ? std::string(1, '\1') : std::string(1, '\2'); return s; }
struct E { std::string pat; verb m; int id; std::string sh; };
struct M { std::string rank; std::string sh; };
static const std::vector<std::string>& paths(bool deep)
{
  static std::vector<std::string> v, d; auto& r = deep ? d : v;
  if (r.empty()) { mc::all_strings("/", "/abc", deep ? 5 : 4, [&](const std::string& s) { r.push_back(s); }); for (auto s : { "", "a", "ab", "/{x}", "/#w", "/a/{x}", "/a{", "/%61" }) r.push_back(s); }
  return r;
}
// which shapes match a path, and how specifically
static const M* match(const std::string& pat, const std::string& sh, bool deep, int pi, const std::string& path)
{
  static std::map<std::string, std::vector<std::pair<int, M>>> cache; auto& v = cache[deep ? sh + '\3' : sh]; if (v.size() <= std::size_t(pi)) v.resize(std::size_t(pi) + 1, { -1, {} });
  auto& e = v[std::size_t(pi)]; if (e.first < 0) { std::vector<std::pair<std::string, std::string>> b; e.first = ref_match(toks(pat), path, b, e.second.rank); }
  return e.first ? &e.second : nullptr;
}
static void lookups(mc::Chooser& c, const R& rt, const std::vector<E>& es, const std::vector<verb>& ms, bool deep, const std::string& hist)
{
  auto& ps = paths(deep); std::uint64_t n = 0; std::vector<const M*> mt(es.size());
  for (std::size_t pi = 0; pi < ps.size(); ++pi) {
    for (std::size_t i = 0; i < es.size(); ++i) mt[i] = match(es[i].pat, es[i].sh, deep, int(pi), ps[pi]);
    for (auto m : ms) {
      const E* best = nullptr; const M* bm = nullptr;
      for (std::size_t i = 0; i < es.size(); ++i) { auto& e = es[i]; auto* r = mt[i]; if (!r || (e.m != m && e.m != verb::unknown)) continue;
        if (!best || r->rank < bm->rank || (r->rank == bm->rank && best->m == verb::unknown && e.m == m)) { best = &e; bm = r; } }
      auto g = rt.try_find(m, ps[pi]); ++n;
      if (!best) { if (g) { c.fail("found:" + hist + "@" + std::string(boost::beast::http::to_string(m)) + show(ps[pi]), "a route is found although none matches: " + std::string(g->matcher().pattern())); return; } if (g.error() != make_error_code(error::route_not_exists)) { c.fail("err:" + hist, "error code"); return; } continue; }
      if (!g) { c.fail("lost:" + hist + "@" + std::string(boost::beast::http::to_string(m)) + show(ps[pi]), "no route found, expected " + best->pat); return; }
      int id = (*g)(7); if (id != best->id + 700 || g->matcher().pattern() != best->pat || g->method() != best->m) { c.fail("wrong:" + hist + "@" + std::string(boost::beast::http::to_string(m)) + show(ps[pi]), "found " + std::string(g->matcher().pattern()) + " (" + std::to_string(id - 700) + ") instead of " + best->pat + " (" + std::to_string(best->id) + ")"); return; }
    }
  }
  c.cases(n);
}
static void run(mc::Chooser& c, const std::vector<std::pair<std::string, verb>>& pool, int k, const std::vector<verb>& ms, bool deep, int optmodes)
{
  R rt; std::vector<E> es; std::string hist;
  int len = k; int om = c.pick(optmodes); // 0 never, 1 at the end, 2 before the last insertion, 3 after each
  for (int i = 0; i < len; ++i) {
    auto& [p, m] = pool[c.pick(int(pool.size()))]; if (om == 2 && i == len - 1) { rt.optimize(); hist += "!"; }
    hist += (i ? "," : "") + std::string(m == verb::unknown ? "any" : boost::beast::http::to_string(m)) + p; c.note((m == verb::unknown ? "any " : std::string(boost::beast::http::to_string(m)) + " ") + p);
    int id = i; auto res = rt.try_insert(R::route_type(routable(m, pm(p), {}, [id](int x) { return id + x * 100; })));
    auto sh = shape(p); bool dup = false; for (auto& e : es) dup |= e.m == m && e.sh == sh;
    if (dup) { if (res) { c.fail("dup:" + hist, "a duplicate route is accepted"); return; } if (res.error() != make_error_code(error::route_already_exists)) { c.fail("duperr:" + hist, "error code"); return; } }
    else { if (!res) { c.fail("refused:" + hist, "a new route is refused"); return; } es.push_back({ p, m, id, sh }); }
    if (om == 3) rt.optimize();
  }
  if (om == 1) { rt.optimize(); hist += "!"; }
  lookups(c, rt, es, ms, deep, hist); std::vector<std::string> o; for (auto& e : es) o.push_back(e.pat + std::to_string(int(e.m))); std::sort(o.begin(), o.end()); std::string s; for (auto& x : o) s += x + ","; c.observe(s);
}
static std::vector<std::pair<std::string, verb>> with(std::initializer_list<const char*> ps, std::initializer_list<verb> ms) { std::vector<std::pair<std::string, verb>> r; for (auto p : ps) for (auto m : ms) r.push_back({ p, m }); return r; }
MC_SCENARIO_D("literals", 3) { static auto pool = with({ "/a", "/ab", "/aba", "/abb", "/ac", "/b", "/", "", "/a/", "/ab/c" }, { verb::get }); run(c, pool, c.thorough() ? 5 : 4, { verb::get }, false, 3); }
MC_SCENARIO_D("mixed", 3) { static auto pool = with({ "/{x}", "/{y}", "/a", "/{x}/a", "/{x}/{y}", "/a/{x}", "/#w", "/a#w", "/a/#w", "/{x}/#w", "/a/b", "/ab", "/ab#v" }, { verb::get }); run(c, pool, c.thorough() ? 5 : 4, { verb::get }, false, 2); }
MC_SCENARIO_D("methods", 3) { static auto pool = with({ "/a", "/{x}", "/a#w", "/ab" }, { verb::get, verb::put, verb::unknown }); run(c, pool, 4, { verb::get, verb::put, verb::post }, false, 2); }
// deep trees: literal alternatives split inside parameters and wildcards
MC_SCENARIO_D("nested", 3) { static auto pool = with({ "/{x}/a", "/{x}/ab", "/{x}/ac", "/{x}/{y}/a", "/a/{x}/b", "/a/{x}/{y}", "/{x}/a#w", "/a/b/#w", "/{x}/" }, { verb::get }); run(c, pool, c.thorough() ? 5 : 4, { verb::get }, true, 2); }
// all orders of one large set of routes: every permutation of eight inserts must answer alike
MC_SCENARIO_D("permutations", 3)
{
  static const char* S[] = { "/a", "/ab", "/ac", "/{x}", "/a/{x}", "/a#w", "/abc", "/ab/{y}" }; int n = c.thorough() ? 8 : 7; std::vector<int> left; for (int i = 0; i < n; ++i) left.push_back(i);
  R rt; std::vector<E> es; std::string hist; bool opt = c.flip();
  while (!left.empty()) { int k = c.pick(int(left.size())); int id = left[k]; left.erase(left.begin() + k); hist += std::to_string(id); auto r = rt.try_insert(R::route_type(routable(verb::get, pm(S[id]), {}, [id](int x) { return id + x * 100; }))); if (!r) { c.fail("refused:" + hist, "a new route is refused"); return; } es.push_back({ S[id], verb::get, id, shape(S[id]) }); }
  if (opt) { rt.optimize(); hist += "!"; } c.note(hist); lookups(c, rt, es, { verb::get }, false, "perm" + hist); c.observe(hist);
}
MC_MAIN
