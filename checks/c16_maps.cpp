#include <fitoria/web/query_map.hpp>
#include <fitoria/web/path_info.hpp>
#include <fitoria/web/detail/as_form.hpp>
#include "mc.hpp"
#include <map>
using namespace fitoria; using namespace fitoria::web; using mc::show;
using Mp = std::map<std::string, std::string>;
static std::string sm(const Mp& m) { std::string s; for (auto& [k, v] : m) s += show(k) + "=" + show(v) + ";"; return s; }
// decoding by hand: nullopt when an escape is malformed or a character is illegal in a query
static bool dec(std::string_view s, std::string& o)
{
  o.clear(); auto hx = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; };
  for (std::size_t i = 0; i < s.size(); ++i) { char ch = s[i]; if (ch == '+') o += ' '; else if (ch == '%') { if (i + 2 >= s.size() + 0 || hx(s[i + 1]) < 0 || hx(s[i + 2]) < 0) return false; o += char(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; } else if (ch > 0 && (std::isalnum((unsigned char)ch) || std::strchr("-._~!$&'()*,;=:@/?[]", ch))) o += ch; else return false; }
  return true;
}
static bool refp(std::string_view t, Mp& m)
{
  m.clear(); std::size_t i = 0; std::string k, v;
  for (;;) { auto e = t.find('&', i); auto kv = t.substr(i, e == t.npos ? t.npos : e - i); auto q = kv.find('='); if (!dec(kv.substr(0, q), k)) return false; if (q != kv.npos) { if (!dec(kv.substr(q + 1), v)) return false; m[k] = v; } if (e == t.npos) return true; i = e + 1; }
}
static Mp of(const query_map& q) { Mp m; for (auto& [k, v] : q) m[k] = v; return m; }
static void one(mc::Chooser& c, const std::string& s)
{
  if (s.find_first_of("[]") != s.npos) return; // Boost.URL decides differently for names and values
  Mp w; bool ok = refp(s, w); auto f = web::detail::as_form(s);
  if (f.has_value() != ok) { c.fail("form:" + show(s), ok ? "a well-formed form is rejected" : "a malformed form is accepted"); return; }
  if (ok && (of(*f) != w || f->size() != w.size())) { c.fail("formv:" + show(s), "decoded " + sm(of(*f)) + " instead of " + sm(w)); return; }
  if (!ok && !f.error()) c.fail("forme:" + show(s), "error code says success");
  std::string target = "/p?" + s; auto u = boost::urls::parse_origin_form(target); if (u.has_value() != ok) return; // accepted targets are Boost.URL's business
  if (ok) { auto q = query_map::from(u->params()); if (of(q) != w) c.fail("query:" + show(s), "decoded " + sm(of(q)) + " instead of " + sm(w)); }
}
MC_SCENARIO_D("texts", 2) { static const std::string_view A = "&=+%a1B2"; int i = c.pick(8), j = c.pick(8); std::string p { A[i], A[j] }; c.note(show(p)); std::uint64_t n = 0; mc::all_strings(p, A, c.thorough() ? 5 : 4, [&](const std::string& s) { one(c, s); ++n; }); if (!i && !j) { one(c, ""); for (char ch : A) one(c, std::string(1, ch)); } c.cases(2 * n); c.observe(p); }
MC_SCENARIO_D("escapes", 1) { int a = c.pick(256); char b[8]; std::uint64_t n = 0; c.note(std::to_string(a)); std::snprintf(b, sizeof b, "%%%02x", a); for (auto s : { std::string(b), "k=" + std::string(b), std::string(b) + "=v", "k=a" + std::string(b) + "c&l=" + b, std::string("k") + char(a) + "=v", std::string("k=") + char(a), "%" + std::string(1, char(a)) + "1", "%1" + std::string(1, char(a)), "k=%" + std::string(1, char(a)) }) { one(c, s); ++n; } std::snprintf(b, sizeof b, "%%%02X", a); one(c, std::string("x=") + b + b); c.cases(n + 1); c.observe(std::uint64_t(a)); }
MC_SCENARIO_D("pairs", 2) { static const char* P[] = { "a=1", "a=2", "b=1", "a", "=v", "a=", "", "%61=3", "b=x%26y", "A=+", "c=d=e" }; std::string s; int n = c.thorough() ? 5 : 4; for (int i = 0; i < n; ++i) { int k = c.pick(12); if (k == 11) break; if (i) s += '&'; s += P[k]; } c.note(s); one(c, s); c.observe(s); }
// a map under any sequence of operations ------------------------------------------------------------
static bool look(mc::Chooser& c, query_map& q, const Mp& m, const char* who)
{
  auto& k = std::as_const(q); auto key = [&] { return std::string(who) + ":" + c.notes(); };
  if (q.size() != m.size() || q.empty() != m.empty() || of(q) != m || std::size_t(std::distance(k.begin(), k.end())) != m.size() || std::size_t(std::distance(k.cbegin(), k.cend())) != m.size()) { c.fail(key(), "content " + sm(of(q)) + " instead of " + sm(m)); return false; }
  for (std::string n : { "a", "b", "", "A", "zz" }) { auto it = m.find(n); bool has = it != m.end(); auto g = q.get(n); auto h = k.get(std::string_view(n)); auto h2 = k.get(n.c_str()); if (q.contains(n) != has || g.has_value() != has || h.has_value() != has || h2.has_value() != has || (has && (*g != it->second || *h != it->second || *h2 != it->second))) { c.fail(key(), "get(" + n + ")"); return false; }
    try { auto& v = k.at(n); auto& v2 = q.at(n); if (!has || v != it->second || v2 != it->second) { c.fail(key(), "at(" + n + ")"); return false; } } catch (std::out_of_range&) { if (has) { c.fail(key(), "at(" + n + ") throws"); return false; } } }
  auto t = k.to_string(); Mp parsed; std::string exp; std::size_t len = 0; for (auto& [a, b] : m) len += a.size() + b.size() + 1; if (!m.empty()) len += m.size() - 1; if (t.size() != len) { c.fail(key(), "to_string yields " + t); return false; } for (auto& [a, b] : m) if (("&" + t + "&").find("&" + a + "=" + b + "&") == std::string::npos) { c.fail(key(), "to_string loses " + a); return false; }
  return true;
}
MC_SCENARIO_D("query-histories", 3)
{
  query_map q; Mp m; int n = c.thorough() ? 6 : 4; static const char* K[] = { "a", "b", "" }; static const char* V[] = { "1", "" };
  if (c.flip()) { q = query_map { { "a", "0" }, { "b", "9" } }; m = { { "a", "0" }, { "b", "9" } }; c.note("init"); }
  for (int i = 0; i < n; ++i) {
    int op = c.pick(6); std::string k = op < 4 ? K[c.pick(3)] : "";
    if (op == 0) { auto v = c.of(V); c.note("set:" + k + "=" + v); q.set(k, v); m[k] = v; } else if (op == 1) { c.note("erase:" + k); auto r = q.erase(k); auto it = m.find(k); if (r.has_value() != (it != m.end()) || (r && *r != it->second)) { c.fail("erase:" + c.notes(), "erase result"); return; } m.erase(k); }
    else if (op == 2) { c.note("index:" + k); q[k] = "i"; m[k] = "i"; } else if (op == 3) { c.note("mutate:" + k); if (auto g = q.get(k)) { *g += "+"; m[k] += "+"; } else if (m.count(k)) { c.fail("get:" + c.notes(), "get"); return; } }
    else if (op == 4) { c.note("clear"); q.clear(); m.clear(); } else { c.note("copy"); auto x = q; auto y = std::move(x); if (!(y == q)) { c.fail("copy:" + c.notes(), "a copy differs"); return; } y.set("zz9", "1"); if (y == q) { c.fail("alias:" + c.notes(), "a copy aliases its original"); return; } }
    if (!look(c, q, m, "after")) return;
  }
  c.observe(sm(m));
}
MC_SCENARIO("path-info")
{
  int n = c.pick(5); bool vec = c.flip(); std::vector<std::pair<std::string, std::string>> v; static const char* K[] = { "a", "b", "", "zz" }; static const char* V[] = { "1", "", "a" }; std::vector<int> left { 0, 1, 2, 3 };
  for (int i = 0; i < n; ++i) { int k = c.pick(int(left.size())); v.emplace_back(K[left[k]], V[c.pick(3)]); left.erase(left.begin() + k); } std::string s; for (auto& x : v) s += x.first + "=" + x.second + ";"; c.note(s);
  using T = path_info::value_type; auto mk = [&] { if (vec || n > 3) return path_info("/pat", "/path", v); if (n == 0) return path_info("/pat", "/path", {}); if (n == 1) return path_info("/pat", "/path", { T(v[0]) }); if (n == 2) return path_info("/pat", "/path", { T(v[0]), T(v[1]) }); return path_info("/pat", "/path", { T(v[0]), T(v[1]), T(v[2]) }); };
  path_info p0 = mk(), p1 = p0, p = std::move(p1); auto& k = std::as_const(p); auto key = "info:" + s; bool ok = k.match_pattern() == "/pat" && k.match_path() == "/path" && k.size() == std::size_t(n) && k.empty() == (n == 0) && k == p0;
  for (int i = 0; ok && i < n; ++i) { auto z = std::size_t(i); ok = k.keys()[z] == v[z].first && k.get(z) == v[z].second && k.at(z) == v[z].second && k.find(z)->second == v[z].second && k.find(z)->first == v[z].first && k.contains(v[z].first) && k.get(v[z].first) == v[z].second && k.get(std::string_view(v[z].first)) == v[z].second && k.at(v[z].first) == v[z].second && k.find(v[z].first)->second == v[z].second; }
  for (auto nm : { "a", "b", "", "zz", "q" }) { bool has = false; for (auto& x : v) has |= x.first == nm; ok = ok && k.contains(nm) == has && k.get(nm).has_value() == has && (k.find(nm) != k.find("no such name")) == has; try { (void)k.at(nm); ok = ok && has; } catch (std::out_of_range&) { ok = ok && !has; } }
  for (std::size_t z : { std::size_t(n), std::size_t(n) + 1, std::size_t(-1) }) { ok = ok && !k.get(z); ok = ok && k.find(z) == k.find("no such name"); try { (void)k.at(z); ok = false; } catch (std::out_of_range&) { } }
  c.check(ok, key, "lookups differ from the parameters given");
  std::string it; for (auto& [a, b] : k) it += a + "=" + b + ";"; std::string it2; for (auto i = p.begin(); i != p.end(); i++) it2 += i->first + "=" + i->second + ";"; std::string it3; for (auto i = k.cend(); i != k.cbegin();) { --i; it3 = i->first + "=" + (*i).second + ";" + it3; } c.check(it == s && it2 == s && it3 == s, "iter:" + s, "iteration yields " + it + " " + it2 + " " + it3); c.observe(s);
}
MC_MAIN
