#include <fitoria/http/header/entity_tag.hpp>
#include <fitoria/http/header/if_none_match.hpp>
#include "mc.hpp"
#include <optional>
#include <vector>
using namespace fitoria; using http::header::entity_tag; using http::header::if_none_match;
using mc::Exact; using mc::show; using sv = std::string_view;
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static sv tr(sv s) { while (!s.empty() && sp(s.front())) s.remove_prefix(1); while (!s.empty() && sp(s.back())) s.remove_suffix(1); return s; }
using Tag = std::pair<bool, std::string>;
static std::optional<Tag> ref(sv s)
{
  bool strong = true; if (s.substr(0, 2) == "W/") { strong = false; s.remove_prefix(2); }
  if (s.size() < 2 || s.front() != '"' || s.back() != '"') return {};
  s = s.substr(1, s.size() - 2);
  for (unsigned char c : s) if (!(c == 0x21 || (c >= 0x23 && c <= 0x7e) || c >= 0x80)) return {};
  return Tag { strong, std::string(s) };
}
static void one(mc::Chooser& c, sv text)
{
  Exact x(text); auto w = ref(text); auto r = entity_tag::parse(x.sv()); auto bad = [&](const char* m) { c.fail("etag:" + show(text), m); };
  if (r.has_value() != w.has_value()) return bad(w ? "a legal entity tag is rejected" : "an illegal entity tag is accepted");
  if (!w) return;
  if (r->strong() != w->first || r->value() != w->second) return bad("strength or value");
  if (r->to_string() != text) return bad("printing does not give the text back");
  if (entity_tag(w->first, w->second) != *r) return bad("not equal to the tag built from its parts");
}
// list: "*" or tags separated by commas outside quotes, blanks around elements
static std::optional<std::vector<Tag>> refl(sv s)
{
  s = tr(s); if (s == "*") return std::vector<Tag> {};
  std::vector<Tag> o; std::size_t i = 0;
  for (;;) {
    bool q = false; std::size_t j = i; while (j < s.size() && (q || s[j] != ',')) { if (s[j] == '"') q = !q; ++j; }
    auto t = ref(tr(s.substr(i, j - i))); if (!t) return {}; o.push_back(*t);
    if (j >= s.size()) return o; i = j + 1;
  }
}
static void list(mc::Chooser& c, sv text)
{
  Exact x(text); auto w = refl(text); auto r = if_none_match::parse(x.sv()); auto bad = [&](const char* m) { c.fail("list:" + show(text), m); };
  if (r.has_value() != w.has_value()) return bad(w ? "a well-formed list is rejected" : "a malformed list is accepted");
  if (!w) return;
  if (r->is_any() != (tr(text) == "*")) return bad("is_any"); if (r->etags().size() != w->size()) return bad("number of tags");
  std::size_t i = 0; for (auto& e : *r) { if (e.strong() != (*w)[i].first || e.value() != (*w)[i].second || r->etags()[i] != e) return bad("tag or order"); ++i; }
  if (i != w->size() || std::size_t(r->cend() - r->cbegin()) != i) return bad("iteration");
}
MC_SCENARIO_D("etag-texts", 1)
{
  static const char A[] = { '"', 'W', '/', 'a', ',', ' ', '*', '!', '#', '~', 0x7f, char(0x80), char(0xFF), 0x1f, 'w' }; sv al(A, sizeof A); std::uint64_t n = 0;
  int a = c.pick(int(al.size()) + 1); c.note(std::to_string(a));
  if (a == int(al.size())) { one(c, ""); mc::all_strings("\"", al, 3, [&](const std::string& s) { ++n; one(c, s + "\""); one(c, "W/" + s + "\""); one(c, "w/" + s + "\""); one(c, "W" + s + "\""); }); }
  else mc::all_strings(std::string(1, al[a]), al, c.thorough() ? 5 : 4, [&](const std::string& s) { ++n; one(c, s); });
  c.cases(n); c.observe(std::uint64_t(a));
}
MC_SCENARIO_D("etag-bytes", 1)
{
  int b = c.pick(256); std::uint64_t n = 0; c.note(std::to_string(b));
  for (std::string base : { "\"abc\"", "W/\"abc\"", "\"\"", "W/\"\"" }) for (std::size_t i = 0; i <= base.size(); ++i) { auto s = base; s.insert(i, 1, char(b)); one(c, s); list(c, s); if (i < base.size()) { s = base; s[i] = char(b); one(c, s); list(c, s); } n += 4; }
  for (int d = 0; d < 256; ++d) { std::string s = "\""; s += char(b); s += char(d); s += "\""; one(c, s); list(c, s); one(c, "W/" + s); n += 3; }
  c.cases(n); c.observe(std::uint64_t(b));
}
// comparison and modification: all pairs
MC_SCENARIO("compare")
{
  static const char* V[] = { "", "a", "A", "ab", "W/", "a,b", "\xff" }; bool s1 = c.flip(), s2 = c.flip(); std::string v1 = c.of(V), v2 = c.of(V); c.note(show(v1) + "," + show(v2));
  auto a = s1 ? entity_tag::make_strong(v1) : entity_tag::make_weak(v1), b = s2 ? entity_tag::make_strong(v2) : entity_tag::make_weak(v2); auto key = std::to_string(s1) + show(v1) + ":" + std::to_string(s2) + show(v2);
  c.check((a == b) == (s1 == s2 && v1 == v2) && (a != b) == !(s1 == s2 && v1 == v2), "equal:" + key, "equality");
  c.check(a.weakly_equal_to(b) == (v1 == v2) && b.weakly_equal_to(a) == (v1 == v2), "weak:" + key, "weak comparison");
  c.check(a.to_string() == (s1 ? "" : "W/") + std::string("\"") + v1 + "\"", "print:" + key, "printing");
  auto d = entity_tag(s1, v1).set_strong(s2).set_value(v2); c.check(d == b, "set:" + key, "setters on a temporary");
  a.set_strong(s2).set_value(v2); c.check(a == b && a.strong() == s2 && a.value() == v2, "set:" + key, "setters"); c.observe(key);
}
MC_SCENARIO_D("list-texts", 2)
{
  static const char A[] = { '"', 'a', ',', ' ', '*', 'W', '/' }; sv al(A, sizeof A); int a = c.pick(7), b = c.pick(7); std::uint64_t n = 0; c.note(std::to_string(a) + "," + std::to_string(b));
  mc::all_strings({ al[a], al[b] }, al, c.thorough() ? 6 : 5, [&](const std::string& s) { ++n; list(c, s); });
  if (!a && !b) { list(c, ""); list(c, "*"); list(c, "\""); list(c, "a"); }
  c.cases(n); c.observe(std::uint64_t(a * 8 + b));
}
MC_SCENARIO("list-structured")
{
  static const char* E[] = { "\"a\"", "W/\"b\"", "\"\"", "\"x,y\"", "\",\"", "*", "", "a", "\"q", "W/\"x, \"" , "w/\"b\"", "\"W/\"" }; static const char* S[] = { ",", ", ", " ,\t", ";", " " };
  int k = 1 + c.pick(c.thorough() ? 4 : 3); std::string s; for (int i = 0; i < k; ++i) { if (i) s += c.of(S); s += c.of(E); } if (c.flip()) s = " " + s + "\t"; c.note(show(s)); list(c, s); c.observe(s);
}
MC_MAIN
