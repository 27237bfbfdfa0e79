#include <fitoria/http/header_map.hpp>
#include "mc.hpp"
#include <map>
using namespace fitoria; using http::header_map; using http::field;
struct N { const char* text; field f; int id; }; // spellings of a name, and which name it is
static const N NM[] = { { "X-A", field::unknown, 0 }, { "x-a", field::unknown, 0 }, { "Content-Type", field::content_type, 1 }, { "cONTENT-tYPE", field::content_type, 1 }, { "ETag", field::etag, 2 }, { nullptr, field::content_type, 1 }, { nullptr, field::etag, 2 } };
static std::string low(std::string_view s) { std::string o; for (char ch : s) o += ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch; return o; }
// blanks around a value are not part of it (HTTP optional white space), every other byte is kept
static std::string ows(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); std::size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; return s.substr(i); }
struct Model { std::vector<std::pair<int, std::string>> v; std::vector<std::string> of(int id) const { std::vector<std::string> r; for (auto& x : v) if (x.first == id) r.push_back(x.second); return r; } };
static std::string sh(const std::vector<std::string>& v) { std::string s = "["; for (auto& x : v) s += mc::show(x) + ","; return s + "]"; }
static bool look(mc::Chooser& c, const header_map& h, const Model& m, const char* who)
{
  auto key = [&] { return std::string(who) + ":" + c.notes(); };
  if (h.size() != m.v.size() || h.empty() != m.v.empty() || (h.begin() == h.end()) != m.v.empty()) { c.fail(key(), "size is " + std::to_string(h.size()) + " instead of " + std::to_string(m.v.size())); return false; }
  std::map<int, std::vector<std::string>> seen;
  for (auto it = h.cbegin(); it != h.cend(); ++it) { auto n = low(std::string_view(it->name_string().data(), it->name_string().size())); int id = n == "x-a" ? 0 : n == "content-type" ? 1 : n == "etag" ? 2 : 9; seen[id].emplace_back(it->value().data(), it->value().size()); if ((id == 1) != (it->name() == field::content_type) || (id == 2) != (it->name() == field::etag)) { c.fail(key(), "name and field disagree in iteration"); return false; } }
  for (int id = 0; id < 3; ++id) if (seen[id] != m.of(id)) { c.fail(key(), "iteration yields " + sh(seen[id]) + " instead of " + sh(m.of(id))); return false; } if (seen.count(9)) { c.fail(key(), "an unknown name"); return false; }
  for (auto& n : NM) {
    auto w = m.of(n.id); auto g = n.text ? h.get(n.text) : h.get(n.f); bool has = n.text ? h.contains(n.text) : h.contains(n.f);
    if (has != !w.empty() || g.has_value() != has || (g && *g != w[0])) { c.fail(key(), std::string("get/contains ") + (n.text ? n.text : "field") + " gives " + (g ? std::string(*g) : "none") + " instead of " + sh(w)); return false; }
    auto r = n.text ? h.equal_range(n.text) : h.equal_range(n.f); std::vector<std::string> e; for (auto it = r.first; it != r.second; ++it) e.emplace_back(it->value().data(), it->value().size()); if (e != w) { c.fail(key(), "equal_range yields " + sh(e) + " instead of " + sh(w)); return false; }
  }
  if (h.contains("X-B") || h.get("X-") || h.get("") || h.contains(field::accept) || h.get(field::accept)) { c.fail(key(), "a name that was never set is present"); return false; }
  return true;
}
static void run(mc::Chooser& c, int n)
{
  header_map h; Model m; static const char* V[] = { "1", "", " a, b\t" }; 
  for (int i = 0; i < n; ++i) {
    int op = c.pick(3 + (i > 0 ? 1 : 0)); // set insert erase | copy/round trip
    if (op == 3) {
      int w = c.pick(4); c.note(w == 0 ? "copy" : w == 1 ? "move" : w == 2 ? "wire" : "clear");
      if (w == 0) { header_map k = h; h.clear(); if (!look(c, k, m, "copy") || !look(c, h, Model {}, "cleared")) return; h = k; }
      else if (w == 1) { header_map k = std::move(h); h = std::move(k); }
      else if (w == 2) { boost::beast::http::fields f; h.to_impl(f); if (std::size_t(std::distance(f.begin(), f.end())) != m.v.size()) { c.fail("wire:" + c.notes(), "the wire message has another number of fields"); return; } h = header_map::from_impl(f); }
      else { h.clear(); m.v.clear(); }
    } else {
      auto& k = c.of(NM); std::string nm = k.text ? k.text : k.id == 1 ? "F(ct)" : "F(etag)";
      if (op == 2) { c.note("erase:" + nm); auto got = k.text ? h.erase(k.text) : h.erase(k.f); std::size_t want = 0; std::erase_if(m.v, [&](auto& x) { bool b = x.first == k.id; want += b; return b; }); if (got != want) { c.fail("erase:" + c.notes(), "erase reports " + std::to_string(got) + " instead of " + std::to_string(want)); return; } }
      else { const char* v = i == 0 ? V[0] : V[c.pick(2) + (i > 1)]; c.note((op ? "insert:" : "set:") + nm + "=" + mc::show(v)); std::string val(v); if (op == 0) { if (k.text) h.set(k.text, val); else h.set(k.f, val); std::erase_if(m.v, [&](auto& x) { return x.first == k.id; }); } else { if (k.text) h.insert(k.text, val); else h.insert(k.f, val); } m.v.push_back({ k.id, ows(v) }); }
    }
    if (!look(c, h, m, "after")) return;
  }
  std::string s; for (int id = 0; id < 3; ++id) s += sh(m.of(id)); c.observe(s);
}
MC_SCENARIO_D("histories", 4) { run(c, c.thorough() ? 5 : 4); }
// every field enumerator and its text are one key
MC_SCENARIO_D("fields", 1)
{
  static constexpr int LAST = int(field::xref); int blk = c.pick(16); std::uint64_t n = 0; c.note(std::to_string(blk));
  for (int i = blk; i <= LAST; i += 16) { auto f = field(i); auto t = boost::beast::http::to_string(f); if (i == 0 || t.empty() || t == "<unknown-field>") continue; std::string s(t.data(), t.size()), l = low(s), u = s; for (auto& ch : u) ch = ch >= 'a' && ch <= 'z' ? char(ch - 32) : ch; ++n;
    header_map h; h.set(f, "v"); bool ok = h.get(s) == "v" && h.get(l) == "v" && h.get(u) == "v" && h.get(f) == "v" && h.size() == 1; h.set(l, "w"); ok &= h.get(f) == "w" && h.size() == 1; h.insert(u, "x"); auto r = h.equal_range(f); ok &= std::distance(r.first, r.second) == 2 && h.size() == 2; h.set(f, "y"); ok &= h.size() == 1 && h.get(u) == "y"; ok &= h.erase(s) == 1 && h.empty() && !h.contains(f); h.set(u, "z"); ok &= h.begin()->name() == f && h.erase(f) == 1 && !h.contains(l);
    if (!ok) c.fail("field:" + s, "the field and its text are not the same key"); }
  c.cases(n); c.observe(std::uint64_t(blk));
}
MC_SCENARIO_D("values", 1)
{
  int b = c.pick(256); std::string x(1, char(b)); c.note(std::to_string(b));
  for (auto v : { x, "a" + x, x + "b", "a" + x + "b", x + x }) for (int how = 0; how < 4; ++how) { header_map h; if (how == 0) h.set("X-A", v); else if (how == 1) h.set(field::etag, v); else if (how == 2) h.insert("X-A", v); else h.insert(field::etag, v); auto g = how & 1 ? h.get(field::etag) : h.get("x-a"); if (!g || *g != ows(v)) c.fail("value:" + mc::show(v) + ":" + std::to_string(how), "the value is changed"); }
  c.cases(20); c.observe(std::uint64_t(b));
}
MC_MAIN
