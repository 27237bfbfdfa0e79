#include <fitoria/mime.hpp>
#include "mc.hpp"
#include <map>
#include <optional>
#include <vector>
using namespace fitoria; using namespace fitoria::mime;
using mc::Exact; using mc::show;
using sv = std::string_view;
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static sv tr(sv s) { while (!s.empty() && sp(s.front())) s.remove_prefix(1); while (!s.empty() && sp(s.back())) s.remove_suffix(1); return s; }
static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool name(sv s) { if (s.empty() || !alnum(s[0])) return false; for (char c : s) if (!alnum(c) && !(c && std::strchr("!#$&-^_.", c))) return false; return true; }
static std::string lo(sv s) { std::string o; for (char c : s) o += c >= 'A' && c <= 'Z' ? char(c + 32) : c; return o; }
struct R { sv ess, type, sub; std::optional<sv> suf; std::map<std::string, sv> par; };
static std::vector<sv> cut(sv s, char d) { std::vector<sv> o; for (;;) { auto p = s.find(d); o.push_back(tr(s.substr(0, p))); if (p == s.npos) return o; s.remove_prefix(p + 1); } }
static std::optional<R> ref(sv s)
{
  auto t = cut(s, ';'); R r; r.ess = t[0];
  auto a = cut(t[0], '/'); if (a.size() != 2 || !name(a[0])) return {};
  auto b = cut(a[1], '+'); if (b.size() > 2 || !name(b[0]) || (b.size() == 2 && !name(b[1]))) return {};
  r.type = a[0]; r.sub = b[0]; if (b.size() == 2) r.suf = b[1];
  for (std::size_t i = 1; i < t.size(); ++i) { auto p = cut(t[i], '='); if (p.size() != 2 || !name(p[0]) || !name(p[1])) return {}; r.par[lo(p[0])] = p[1]; }
  return r;
}
static sv S(name_view n) { return static_cast<sv>(n); }
static bool same(sv a, sv b) { return a.size() == b.size() && a.data() == b.data(); }
static void one(mc::Chooser& c, sv s0)
{
  Exact x(s0); sv s = x.sv(); auto w = ref(s); auto m = mime_view::parse(s);
  auto bad = [&](const char* msg) { c.fail("parse:" + show(s), msg); };
  if (m.has_value() != w.has_value()) return bad(w ? "a well-formed media type is rejected" : "a malformed media type is accepted");
  if (!w) return;
  if (!same(S(m->source()), s) || !same(sv(*m), s)) return bad("source is not the input");
  if (!same(S(m->essence()), w->ess)) return bad("essence");
  if (!same(S(m->type()), w->type) || !same(S(m->subtype()), w->sub)) return bad("type or subtype");
  if (m->suffix().has_value() != w->suf.has_value() || (w->suf && !same(S(*m->suffix()), *w->suf))) return bad("suffix");
  auto& p = m->params();
  if (p.size() != w->par.size() || p.empty() != w->par.empty()) return bad("number of parameters");
  for (auto& [k, v] : w->par) { std::string up; for (char ch : k) up += char(std::toupper(ch)); for (auto& q : { k, up }) { auto g = p.get(name_view(q)); if (!g || !same(S(*g), v) || !p.contains(name_view(q)) || !same(S(p.at(name_view(q))), v)) return bad("parameter value or lookup"); } }
  for (auto& [k, v] : p) if (!w->par.count(lo(S(k))) || !same(w->par[lo(S(k))], S(v))) return bad("iteration yields a foreign parameter");
  if (p.get("nosuch") || p.contains("nosuch")) return bad("lookup of an absent parameter");
}
MC_SCENARIO_D("parse-exhaustive", 2)
{
  static const char A[] = { 'a', 'Z', '/', '+', ';', '=', ' ', '-', '.', '"', '@', char(0xE9), '0' }; sv al(A, sizeof A);
  int a = c.pick(int(al.size()) + 1), b = c.pick(int(al.size())); std::uint64_t n = 0; c.note(std::to_string(a) + "," + std::to_string(b));
  if (a < int(al.size())) mc::all_strings({ al[a], al[b] }, al, c.thorough() ? 5 : 4, [&](const std::string& s) { ++n; one(c, s); });
  else if (b == 0) { one(c, ""); for (char ch : al) { one(c, std::string(1, ch)); ++n; } }
  c.cases(n); c.observe(std::uint64_t(a * 100 + b));
}
// structure: every combination of pieces, with every byte in every position of a valid text
MC_SCENARIO("parse-structured")
{
  static const char* ty[] = { "a", "text", " text", "T9#", "-a", "" }; static const char* su[] = { "/b", "/x.y-z", "/b+c", "/b+c+d", "/b+", "/+c", "/ b ", "//b", "" };
  static const char* pa[] = { "", ";k=v", "; K=w", ";k", ";k=", ";=v", ";k=v=w", ";", "; q = \t0.5 ", ";ab=\"c\"", ";A=1" };
  std::string s = c.of(ty); s += c.of(su); for (int i = 0; i < (c.thorough() ? 4 : 3); ++i) s += c.of(pa);
  c.note(show(s)); one(c, s); c.observe(s);
}
MC_SCENARIO_D("parse-bytes", 1)
{
  int b = c.pick(256); std::uint64_t n = 0; c.note(std::to_string(b));
  for (std::string base : { "te/pl", "te/sv+xm;ch=ut", "a/b;c=d;e=f" }) for (std::size_t i = 0; i <= base.size(); ++i) { auto s = base; s.insert(i, 1, char(b)); one(c, s); if (i < base.size()) { s = base; s[i] = char(b); one(c, s); } n += 2; }
  c.cases(n); c.observe(std::uint64_t(b));
}
// comparison of names and media types
MC_SCENARIO("compare")
{
  static const char A[] = { 'a', 'A', 'b', 'B', '/', '+' }; sv al(A, sizeof A); std::uint64_t n = 0;
  std::string l; int k = c.pick(c.thorough() ? 5 : 4); for (int i = 0; i < k; ++i) l += c.of(al); c.note(show(l));
  mc::all_strings("", al, c.thorough() ? 4 : 3, [&](const std::string& r) {
    ++n; name_view x(l), y(r); bool eq = lo(l) == lo(r); auto o = lo(l) <=> lo(r); auto key = "compare:" + show(l) + ":" + show(r);
    if ((x == y) != eq || (x == sv(r)) != eq || (x == r.c_str()) != eq || (x != y) == eq || (x < y) != (o < 0) || (x > y) != (o > 0) || (x <= y) != (o <= 0) || (x <=> sv(r)) != o || (x <=> r.c_str()) != o) c.fail(key, "name comparison");
    if (x.to_string() != lo(l)) c.fail("to_string:" + show(l), "to_string is not the lower-case name");
    mime_view a(x, x, x, x, nullopt, {}), b(y, y, y, y, nullopt, {});
    if ((a == b) != eq || (a == sv(r)) != eq || (a < b) != (o < 0) || (a > b) != (o > 0) || (a <=> sv(r)) != o) c.fail(key, "media type comparison");
    if (fmt::format("{}", x) != l || fmt::format("{}", a) != l) c.fail("format:" + show(l), "formatting does not give the text");
  });
  c.cases(n); c.observe(l);
}
// parameter map: every sequence of operations against std::map on lower-cased names
MC_SCENARIO("params-ops")
{
  static const char* N[] = { "a", "A", "b" }; static const char* V[] = { "x", "Y" };
  params_view p; std::map<std::string, std::string> m; int depth = c.thorough() ? 5 : 4; std::string h;
  if (c.flip()) { p = params_view { { "A", "x" }, { "b", "Y" } }; m = { { "a", "x" }, { "b", "Y" } }; h = "init"; }
  for (int d = 0; d < depth; ++d) {
    int op = c.pick(5); const char* k = c.of(N); std::string lk = lo(k); h += " " + std::to_string(op) + k; auto key = [&] { return "params:" + mc::show(h); };
    if (op == 0) { const char* v = c.of(V); p.set(k, v); m[lk] = v; h += v; }
    else if (op == 1) { const char* v = c.of(V); p[k] = v; m[lk] = v; h += v; }
    else if (op == 2) { auto r = p.erase(k); bool had = m.count(lk); if (r.has_value() != had || (had && S(*r) != m[lk])) c.fail(key(), "erase result"); m.erase(lk); }
    else if (op == 3) { if (S(p[k]) != (m.count(lk) ? m[lk] : "")) c.fail(key(), "operator[]"); m[lk]; }
    else { p.clear(); m.clear(); }
    const auto& q = p;
    for (const char* n : N) { auto it = m.find(lo(n)); auto g = q.get(n); auto g2 = p.get(n); bool t = false; std::string at; try { at = S(q.at(n)); } catch (std::out_of_range&) { t = true; }
      if (g.has_value() != (it != m.end()) || g2 != g || q.contains(n) != (it != m.end()) || t != (it == m.end()) || (g && (S(*g) != it->second || at != it->second))) c.fail(key(), "lookup"); }
    if (q.size() != m.size() || q.empty() != m.empty()) c.fail(key(), "size");
    std::map<std::string, std::string> got; for (auto& [a, b] : q) got[lo(S(a))] = S(b); if (got != m || std::size_t(std::distance(q.cbegin(), q.cend())) != m.size()) c.fail(key(), "iteration");
    params_view cp(q); if (!(cp == q)) c.fail(key(), "copy differs"); if (c.failed()) return;
    std::string st; for (auto& [a, b] : m) st += a + "=" + b + ";"; c.observe(st);
  }
}
static const std::map<std::string, std::string> EXT { { "js", "application/javascript" }, { "json", "application/json" }, { "swf", "application/x-shockwave-flash" }, { "wasm", "application/wasm" }, { "xml", "application/xml" },
  { "bmp", "image/bmp" }, { "gif", "image/gif" }, { "jpe", "image/jpeg" }, { "jpeg", "image/jpeg" }, { "jpg", "image/jpeg" }, { "png", "image/png" }, { "svg", "image/svg+xml" }, { "svgz", "image/svg+xml" }, { "tif", "image/tiff" }, { "tiff", "image/tiff" },
  { "css", "text/css" }, { "htm", "text/html" }, { "html", "text/html" }, { "php", "text/html" }, { "txt", "text/plain" }, { "flv", "video/x-flv" } };
static void ext(mc::Chooser& c, const std::string& e)
{
  auto it = EXT.find(lo(e)); auto m = mime_view::from_extension(e);
  if (m.has_value() != (it != EXT.end()) || (m && S(m->source()) != it->second)) c.fail("extension:" + show(e), "extension lookup");
  for (std::string p : { ".", "a.", "/x/y.", "a.js.", "d.css/a." }) { auto q = mime_view::from_path(p + e); bool has = it != EXT.end() && e.find('.') == e.npos; auto d = e.rfind('.'); auto it2 = EXT.find(lo(d == e.npos ? e : e.substr(d + 1))); (void)has;
    if (q.has_value() != (it2 != EXT.end()) || (q && S(q->source()) != it2->second)) c.fail("path:" + show(p + e), "path lookup"); }
  if (e.find('.') == e.npos && mime_view::from_path(e)) c.fail("path:" + show(e), "a path without extension has a type");
}
MC_SCENARIO_D("extensions", 1)
{
  std::string al = "abcdefghijlmnopqstvwxz4.S"; int a = c.pick(int(al.size()) + 1); std::uint64_t n = 0; c.note(std::to_string(a));
  if (a == int(al.size())) {
    ext(c, "");
    for (auto& [e, t] : EXT) { // every case variant, prefix, extension and one-character change
      for (unsigned m = 0; m < (1u << e.size()); ++m) { auto v = e; for (std::size_t i = 0; i < v.size(); ++i) if (m >> i & 1) v[i] = char(std::toupper(v[i])); ext(c, v); ++n; }
      for (std::size_t i = 0; i <= e.size(); ++i) { ext(c, e.substr(0, i)); for (int b = 1; b < 256; ++b) { auto v = e; v.insert(i, 1, char(b)); ext(c, v); if (i < e.size()) { v = e; v[i] = char(b); ext(c, v); } n += 2; } } }
  } else mc::all_strings(std::string(1, al[a]), al, c.thorough() ? 4 : 3, [&](const std::string& s) { ++n; if (n % 1 == 0) ext(c, s); });
  c.cases(n); c.observe(std::uint64_t(a));
}
// the predefined media types are what parsing their own text gives
MC_SCENARIO_D("constants", 1)
{
  struct { mime_view m; const char* t; } T[] = { { application_javascript(), "application/javascript" }, { application_json(), "application/json" }, { application_msgpack(), "application/msgpack" }, { application_octet_stream(), "application/octet-stream" }, { application_pdf(), "application/pdf" }, { application_shockwave_flash(), "application/x-shockwave-flash" }, { application_text(), "application/text" }, { application_wasm(), "application/wasm" }, { application_www_form_urlencoded(), "application/x-www-form-urlencoded" }, { application_xml(), "application/xml" }, { image_bmp(), "image/bmp" }, { image_gif(), "image/gif" }, { image_jpeg(), "image/jpeg" }, { image_png(), "image/png" }, { image_svg(), "image/svg+xml" }, { image_tiff(), "image/tiff" }, { multipart_form_data(), "multipart/form-data" }, { text_css(), "text/css" }, { text_csv(), "text/csv" }, { text_html(), "text/html" }, { text_javascript(), "text/javascript" }, { text_plain(), "text/plain" }, { text_xml(), "text/xml" }, { video_flv(), "video/x-flv" } };
  auto& e = T[c.pick(int(std::size(T)))]; c.note(e.t); auto p = mime_view::parse(e.t);
  bool ok = p && S(e.m.source()) == e.t && S(e.m.essence()) == e.t && S(e.m.type()) == S(p->type()) && S(e.m.subtype()) == S(p->subtype()) && e.m.suffix().has_value() == p->suffix().has_value() && (!p->suffix() || S(*p->suffix()) == S(*e.m.suffix())) && e.m.params().empty();
  c.check(ok, std::string("constant:") + e.t, "predefined media type differs from its text"); c.observe(e.t);
}
MC_MAIN
