#include <fitoria/web/path_of.hpp>
#include <fitoria/web/query_of.hpp>
#include <fitoria/web/form_of.hpp>
#include <fitoria/web/json_of.hpp>
#include <fitoria/web/state_of.hpp>
#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
namespace ex {
struct Q { int n; std::string s; bool f; };
struct P { int a; std::string b; };
struct W { std::uint8_t a; double b; };
struct J { std::int64_t n; std::string s; std::vector<int> v; };
inline boost::json::result_for<J, boost::json::value>::type tag_invoke(const boost::json::try_value_to_tag<J>&, const boost::json::value& jv)
{
  if (!jv.is_object()) return make_error_code(boost::json::error::incomplete); auto& o = jv.get_object(); auto n = o.if_contains("n"), s = o.if_contains("s"), v = o.if_contains("v"); if (!n || !s || !v || !n->is_int64() || !s->is_string() || !v->is_array()) return make_error_code(boost::json::error::incomplete);
  J j { n->get_int64(), std::string(s->get_string()), {} }; for (auto& x : v->get_array()) { if (!x.is_int64()) return make_error_code(boost::json::error::incomplete); j.v.push_back(int(x.get_int64())); } return j;
}
struct A { int v; }; struct B { int v; };
}
using namespace ex;
static int RUNS; static std::string SAW;
static std::string q(const std::string& s) { return "'" + s + "'"; }
static std::string str(const Q& x) { return "n=" + std::to_string(x.n) + " s=" + q(x.s) + " f=" + (x.f ? "1" : "0"); }
static std::string str(const P& x) { return "a=" + std::to_string(x.a) + " b=" + q(x.b); }
static std::string str(const J& x) { std::string r = "n=" + std::to_string(x.n) + " s=" + q(x.s) + " v="; for (int i : x.v) r += std::to_string(i) + ","; return r; }
template <class... T> static auto done(T&&... t) -> response { ++RUNS; SAW.clear(); ((SAW += t + std::string(";")), ...); return response::ok().set_body("ran"); }
static auto server() { return [](auto& b) {
  b.serve(route::any<"/t/{a}/{b}">([](path_of<std::tuple<int, std::string>> p) -> awaitable<response> { auto& [x, y] = p; co_return done(str(P { x, y })); }));
  b.serve(route::any<"/r/{b}/{a}">([](path_of<P> p) -> awaitable<response> { co_return done(str(p)); }));
  b.serve(route::any<"/o/{a}">([](path_of<P> p) -> awaitable<response> { co_return done(str(p)); }));
  b.serve(route::any<"/u/{a}">([](path_of<std::tuple<std::uint8_t>> p) -> awaitable<response> { co_return done(std::to_string(int(std::get<0>(p)))); }));
  b.serve(route::any<"/v/{a}/{b}/{c}">([](path_of<std::tuple<int, std::string>> p) -> awaitable<response> { co_return done(str(P { std::get<0>(p), std::get<1>(p) })); }));
  b.serve(route::any<"/q">([](query_of<Q> x) -> awaitable<response> { co_return done(str(x)); }));
  b.serve(route::any<"/f">([](form_of<Q> x) -> awaitable<response> { co_return done(str(x)); }));
  b.serve(route::any<"/j">([](json_of<J> x) -> awaitable<response> { co_return done(str(x)); }));
  b.serve(route::any<"/b">([](std::string x) -> awaitable<response> { co_return done(q(x)); }));
  b.serve(route::any<"/y">([](std::vector<std::uint8_t> x) -> awaitable<response> { co_return done(q(std::string(x.begin(), x.end()))); }));
  b.serve(route::any<"/bytes">([](bytes x) -> awaitable<response> { co_return done(q(std::string(reinterpret_cast<const char*>(x.data()), x.size()))); }));
  b.serve(route::any<"/twice">([](std::string x, std::vector<std::uint8_t> y) -> awaitable<response> { co_return done(q(x), q(std::string(y.begin(), y.end()))); }));
  b.serve(route::any<"/all/{a}/{b}">([](path_of<std::tuple<int, std::string>> p, query_of<Q> x, state_of<A> s, form_of<Q> y, const http::header_map& h) -> awaitable<response> { s.v += 100; co_return done(str(P { std::get<0>(p), std::get<1>(p) }), str(x), std::to_string(s.v), str(y), std::string(h.get("X").value_or("-"))); }).use_state(A { 5 }));
  b.serve(route::any<"/alls/{a}/{b}">([](json_of<J> y, state_of<B> t, path_of<P> p, query_of<Q> x) -> awaitable<response> { co_return done(str(p), str(x), str(y), std::to_string(t.v)); }));
  b.serve(scope<"/sc">().use_state(B { 9 }).serve(route::any<"/alls/{a}/{b}">([](json_of<J> y, state_of<B> t, path_of<P> p, query_of<Q> x) -> awaitable<response> { t.v *= 2; co_return done(str(p), str(x), str(y), std::to_string(t.v)); })));
  b.serve(route::any<"/ctx/{a}">([](const path_info& p, const query_map& m, const http::header_map& h, http::version v, const connect_info& ci, request& r, const request& cr) -> awaitable<response> { bool same = &p == &r.path() && &m == &r.query() && &h == &r.headers() && &ci == &r.connection() && &cr == &r && v == r.version(); co_return done(std::string(same ? "same" : "other"), std::string(p.get("a").value_or("-")), std::string(m.get("k").value_or("-")), std::string(h.get("X").value_or("-")), std::string(v == http::version::v1_1 ? "1.1" : v == http::version::v1_0 ? "1.0" : "?")); }));
  b.set_request_body_limit(4096); }; }
// reference conversions
static bool num(const std::string& s, long lo, long hi, long& o) { std::size_t i = 0; bool neg = false; if (lo < 0 && i < s.size() && s[i] == '-') { neg = true; ++i; } if (i == s.size() || s.size() - i > 15) return false; long v = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); } if (neg) v = -v; if (v < lo || v > hi) return false; o = v; return true; }
static bool boolean(std::string s, bool& o) { for (char& ch : s) ch = char(std::tolower(ch)); if (s == "true" || s == "1" || s == "t" || s == "y" || s == "yes") { o = true; return true; } if (s == "false" || s == "0" || s == "f" || s == "n" || s == "no") { o = false; return true; } return false; }
static std::string pct(const std::string& s) { static const char* X = "0123456789ABCDEF"; std::string o; for (unsigned char ch : s) if (std::isalnum(ch) || ch == '-' || ch == '.') o += char(ch); else { o += '%'; o += X[ch >> 4]; o += X[ch & 15]; } return o; }
struct Conn { vf::Wire w { server() }; vf::Client cl; Conn() : cl(w.connect()) { } };
static void ask(mc::Chooser& c, Conn& k, const std::string& head, const std::string& body, bool ok, const std::string& saw, const std::string& what, int bad_lo = 400, int bad_hi = 499)
{
  if (c.failed()) return; RUNS = 0; SAW.clear(); k.cl.in.clear(); auto key = what; k.cl.put(head + (head.find("chunked") == head.npos ? "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body : "\r\n" + body)); k.w.settle(k.cl); auto a = vf::read_all(k.cl.in, k.cl.eof, { "POST" });
  if (!a.err.empty() || a.v.size() != 1) { c.fail(key, "no proper answer: " + a.err + show(k.cl.in.substr(0, 100))); return; } auto& r = a.v[0];
  if (ok) { if (RUNS != 1) { c.fail(key, "the handler did not run: " + std::to_string(r.status) + " " + r.body); return; } if (SAW != saw) { c.fail(key, "the handler was given " + show(SAW) + " instead of " + show(saw)); return; } if (r.status != 200 || r.body != "ran") c.fail(key, "answer " + std::to_string(r.status)); }
  else { if (RUNS) { c.fail(key, "the handler ran with " + show(SAW) + " although an argument is not there"); return; } if (r.status < bad_lo || r.status > bad_hi) c.fail(key, "answer " + std::to_string(r.status) + " " + show(r.body)); }
  if (k.cl.eof) { c.fail(key, "connection closed"); }
}
// path segments
MC_SCENARIO_D("path", 1)
{
  static const std::vector<std::string> B = { "x", "0", " a", "\xC3\xA9", "%", "a+b", "{", "." }; auto& second = c.of(B); c.note(q(second)); Conn k; std::uint64_t n = 0; std::vector<std::string> texts; mc::all_strings("", "01-+ x", c.thorough() ? 4 : 3, [&](const std::string& s) { if (!s.empty()) texts.push_back(s); });
  for (auto t : { "2147483647", "2147483648", "-2147483648", "-2147483649", "255", "256", "-1", "4294967296", "18446744073709551616", "9", "00", "-0", "1e1", "0x1", "1.0", "1_", "\xD9\xA1" }) texts.push_back(t);
  for (auto& t : texts) { long v = 0; bool ok = num(t, -2147483648L, 2147483647L, v); std::string saw = str(P { int(v), second }) + ";", pa = pct(t), pb = pct(second), key = "path:" + q(t) + "," + q(second); ask(c, k, "GET /t/" + pa + "/" + pb + " HTTP/1.1\r\n", "", ok, saw, key); ask(c, k, "GET /r/" + pb + "/" + pa + " HTTP/1.1\r\n", "", ok, saw, key + " struct"); bool u = num(t, 0, 255, v); ask(c, k, "GET /u/" + pa + " HTTP/1.1\r\n", "", u, std::to_string(v) + ";", key + " u8"); ask(c, k, "GET /o/" + pa + " HTTP/1.1\r\n", "", false, "", key + " too few", 400, 599); ask(c, k, "GET /v/" + pa + "/" + pb + "/z HTTP/1.1\r\n", "", false, "", key + " too many", 400, 599); n += 5; if (c.failed()) return; }
  c.cases(n); c.observe(second);
}
struct Pair { const char* raw; const char* k; const char* v; };
static const Pair POOL[] = { { "n=5", "n", "5" }, { "n=-1", "n", "-1" }, { "n=x", "n", "x" }, { "n=", "n", "" }, { "n=%31", "n", "1" }, { "s=", "s", "" }, { "s=a%26b%3D", "s", "a&b=" }, { "%73=c", "s", "c" }, { "f=true", "f", "true" }, { "f=false", "f", "false" }, { "f=2", "f", "2" }, { "f=TRUE", "f", "TRUE" }, { "z=1", "z", "1" }, { "N=1", "N", "1" }, { "n", nullptr, nullptr }, { "s=x+y", "s", "x y" } };
static bool fields(const std::vector<const Pair*>& v, Q& o) { std::map<std::string, std::string> m; for (auto p : v) if (p->k) m[p->k] = p->v; if (m.size() != 3 || !m.count("n") || !m.count("s") || !m.count("f")) return false; long n; if (!num(m["n"], -2147483648L, 2147483647L, n)) return false; o.n = int(n); o.s = m["s"]; return boolean(m["f"], o.f); }
// query and form fields: every sequence of pairs
MC_SCENARIO_D("fields", 2)
{
  int n = c.thorough() ? 5 : 4, pool = c.thorough() ? 13 : 16; std::vector<const Pair*> v; for (int i = 0; i < 2; ++i) { int k = c.pick(pool + 1); if (k == pool) { if (i == 0) { v.clear(); } break; } v.push_back(&POOL[k]); } if (v.size() == 1) c.note("short"); Conn k; std::uint64_t cnt = 0;
  auto one = [&](const std::vector<const Pair*>& s) { std::string t; for (auto p : s) t += (t.empty() ? "" : "&") + std::string(p->raw); Q o {}; bool ok = fields(s, o); auto saw = ok ? str(o) + ";" : ""; ask(c, k, "GET /q?" + t + " HTTP/1.1\r\n", "", ok, saw, "query:" + t); ask(c, k, "POST /f HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n", t, ok, saw, "form:" + t); cnt += 2; };
  std::function<void(std::vector<const Pair*>&)> rec = [&](std::vector<const Pair*>& s) { if (c.failed()) return; one(s); if (int(s.size()) < n && s.size() >= 2) for (int i = 0; i < pool; ++i) { if (s.size() >= 3 && !c.thorough() && i % 2) continue; s.push_back(&POOL[i]); rec(s); s.pop_back(); } }; rec(v); c.cases(cnt); std::string t; for (auto p : v) t += p->raw + std::string("&"); c.observe(t);
}
// content types and malformed bodies
MC_SCENARIO_D("forms", 1)
{
  struct C { const char* v; bool form, json; }; static const C CT[] = { { "application/x-www-form-urlencoded", true, false }, { "application/x-www-form-urlencoded; charset=utf-8", true, false }, { "application/json", false, true }, { "application/json; charset=utf-8", false, true }, { "text/plain", false, false }, { "application/x-www-form-urlencodedx", false, false }, { "application/jsonx", false, false }, { "application/", false, false }, { "", false, false }, { nullptr, false, false }, { "application/json,text/plain", false, false } };
  struct F { const char* t; const char* saw; }; static const F FORMS[] = { { "n=1&s=a&f=true", "n=1 s='a' f=1;" }, { "n=%31&s=%25&f=false", "n=1 s='%' f=0;" }, { "n=1&s=%zz&f=true", nullptr }, { "n=1&s=%2&f=true", nullptr }, { "", nullptr }, { "n=1&s=a&f=true&", nullptr }, { "n=1&s=a\x01&f=true", nullptr } };
  struct K { const char* t; const char* saw; }; static const K JS[] = { { "{\"n\":1,\"s\":\"a\",\"v\":[]}", "n=1 s='a' v=;" }, { " {\"v\":[1,-2],\"s\":\"\\u00e9\\\"\",\"n\":-9007199254740993}\n", "n=-9007199254740993 s='\xC3\xA9\"' v=1,-2,;" }, { "{\"n\":1,\"s\":\"a\",\"v\":[],\"x\":{}}", "n=1 s='a' v=;" }, { "{\"n\":1,\"s\":\"a\"}", nullptr }, { "{\"n\":\"1\",\"s\":\"a\",\"v\":[]}", nullptr }, { "{\"n\":1,\"s\":\"a\",\"v\":[]} x", nullptr }, { "{\"n\":1,\"s\":\"a\",\"v\":[]", nullptr }, { "", nullptr }, { "[]", nullptr }, { "null", nullptr }, { "{\"n\":1,\"s\":\"a\",\"v\":[\"x\"]}", nullptr }, { "{'n':1}", nullptr }, { "{\"n\":1.5,\"s\":\"a\",\"v\":[]}", nullptr }, { "{\"n\":1,\"s\":\"\xff\",\"v\":[]}", nullptr } };
  auto& ct = c.of(CT); c.note(ct.v ? ct.v : "none"); Conn k; std::string h = ct.v ? "Content-Type: " + std::string(ct.v) + "\r\n" : ""; std::uint64_t n = 0;
  for (auto& f : FORMS) { if (std::string(f.t).ends_with("&")) continue; ask(c, k, "POST /f HTTP/1.1\r\n" + h, f.t, ct.form && f.saw, f.saw ? f.saw : "", "ctform:" + c.notes() + ":" + f.t); ++n; }
  for (auto& f : JS) { ask(c, k, "POST /j HTTP/1.1\r\n" + h, f.t, ct.json && f.saw, f.saw ? f.saw : "", "ctjson:" + c.notes() + ":" + f.t); ++n; } 
  // every prefix of a valid document or form is not it
  std::string doc = JS[1].t, form = FORMS[1].t; for (std::size_t i = 0; i + 2 < doc.size(); ++i, ++n) ask(c, k, "POST /j HTTP/1.1\r\n" + h, doc.substr(0, i), false, "", "prefix:" + c.notes() + ":" + std::to_string(i)); for (std::size_t i = 0; i + 5 < form.size(); ++i, ++n) ask(c, k, "POST /f HTTP/1.1\r\n" + h, form.substr(0, i), false, "", "fprefix:" + c.notes() + ":" + std::to_string(i)); c.cases(n); c.observe(c.notes());
}
// bodies: exact bytes, taken once
MC_SCENARIO_D("bodies", 1)
{
  static const char* P_[] = { "/b", "/y", "/bytes", "/twice" }; std::string p = c.of(P_); bool ch = c.flip(); c.note(p + (ch ? " chunked" : "")); Conn k; std::uint64_t n = 0; std::vector<std::string> bs; mc::all_strings("", std::string_view("\0a\xff\r", 4), c.thorough() ? 5 : 4, [&](const std::string& s) { bs.push_back(s); }); for (int i = 0; i < 256; ++i) bs.push_back(std::string(3, char(i))); for (std::size_t s : { 100, 511, 512, 513, 4095, 4096 }) { std::string x; for (std::size_t i = 0; i < s; ++i) x += char(i * 31 >> 2); bs.push_back(x); }
  for (auto& b : bs) { std::string h = "POST " + p + " HTTP/1.1\r\n", t = b; if (ch) { h += "Transfer-Encoding: chunked\r\n"; char x[32]; t.clear(); std::size_t half = b.size() / 2; for (auto part : { b.substr(0, half), b.substr(half) }) if (!part.empty()) { std::snprintf(x, sizeof x, "%zx\r\n", part.size()); t += x + part + "\r\n"; } t += "0\r\n\r\n"; } ask(c, k, h, t, true, q(b) + ";" + (p == "/twice" ? "'';" : ""), "body:" + c.notes() + ":" + show(b.substr(0, 20)) + std::to_string(b.size())); ++n; } c.cases(n); c.observe(c.notes());
}
// a body over the limit or cut short reaches no handler
MC_SCENARIO_D("broken", 1)
{
  static const char* P_[] = { "/b", "/y", "/bytes", "/twice", "/f", "/j" }; std::string p = c.of(P_); int k = c.pick(4); c.note(p + " " + std::to_string(k)); RUNS = 0; vf::Wire w(server()); auto cl = w.connect(); std::string ct = p == "/f" ? "Content-Type: application/x-www-form-urlencoded\r\n" : "Content-Type: application/json\r\n", good = p == "/f" ? "n=1&s=a&f=true" : "{\"n\":1,\"s\":\"a\",\"v\":[]}", h = "POST " + p + " HTTP/1.1\r\n" + ct; char x[32]; std::snprintf(x, sizeof x, "%zx\r\n", good.size());
  if (k == 0) { cl.put(h + "Content-Length: " + std::to_string(good.size() + 1) + "\r\n\r\n" + good); } else if (k == 1) cl.put(h + "Transfer-Encoding: chunked\r\n\r\n" + x + good + "\r\n"); else if (k == 2) cl.put(h + "Transfer-Encoding: chunked\r\n\r\n" + x + good + "\r\nzz\r\n"); else cl.put(h + "Transfer-Encoding: chunked\r\n\r\n1001\r\n" + std::string(4097, ' ') + "\r\n0\r\n\r\n"); w.settle(cl); if (k < 2) { cl.half_close(); w.settle(cl); } if (RUNS) c.fail("broken:" + c.notes(), "the handler ran with " + show(SAW)); auto a = vf::read_all(cl.in, cl.eof, { "POST" }); if (!a.v.empty() && a.v[0].status < 400) c.fail("broken:" + c.notes(), "success answer"); c.observe(c.notes());
}
// several extractors: the handler runs exactly when all of them succeed
MC_SCENARIO_D("combined", 2)
{
  int which = c.pick(3); std::string pre = which == 0 ? "/all" : which == 1 ? "/sc/alls" : "/alls"; bool json = which > 0; struct V { const char* t; bool ok; }; static const V PA[] = { { "/7/b", true }, { "/-1/%20", true }, { "/x/b", false }, { "/2147483648/b", false } }, QU[] = { { "?n=1&s=q&f=true", true }, { "?f=false&s=&n=-3", true }, { "", false }, { "?n=1&s=q", false }, { "?n=1&s=q&f=2", false }, { "?n=1&s=q&f=true&g=1", false } }, FO[] = { { "n=2&s=w&f=false", true }, { "s=%20&n=3&f=true", true }, { "n=2&s=w", false }, { "", false } }, JS[] = { { "{\"n\":4,\"s\":\"j\",\"v\":[1]}", true }, { "{\"n\":4,\"s\":\"\",\"v\":[]}", true }, { "{\"n\":4}", false }, { "x", false } };
  auto& pa = c.of(PA); auto& qu = c.of(QU); auto& bo = json ? c.of(JS) : c.of(FO); int ct = c.pick(3); bool ctok = json ? ct == 1 : ct == 0; static const char* CT[] = { "Content-Type: application/x-www-form-urlencoded\r\n", "Content-Type: application/json\r\n", "" }; bool state = which != 2, ok = pa.ok && qu.ok && bo.ok && ctok && state; bool chunk = c.flip(); c.note(pre + pa.t + qu.t + " " + bo.t + " ct" + std::to_string(ct) + (chunk ? " chunked" : ""));
  auto i = [](const void* base, const void* p, std::size_t sz) { return int((static_cast<const char*>(p) - static_cast<const char*>(base)) / long(sz)); }; std::string sp = i(PA, &pa, sizeof(V)) == 0 ? "a=7 b='b'" : "a=-1 b=' '", sq = i(QU, &qu, sizeof(V)) == 0 ? "n=1 s='q' f=1" : "n=-3 s='' f=0", sb = json ? (i(JS, &bo, sizeof(V)) == 0 ? "n=4 s='j' v=1," : "n=4 s='' v=") : i(FO, &bo, sizeof(V)) == 0 ? "n=2 s='w' f=0" : "n=3 s=' ' f=1"; auto saw = which == 0 ? sp + ";" + sq + ";105;" + sb + ";hx;" : sp + ";" + sq + ";" + sb + ";18;";
  std::string body = bo.t, h = "POST " + pre + pa.t + qu.t + " HTTP/1.1\r\nX: hx\r\n" + CT[ct]; if (chunk) { h += "Transfer-Encoding: chunked\r\n"; std::string t; for (char ch : body) t += "1\r\n" + std::string(1, ch) + "\r\n"; body = t + "0\r\n\r\n"; } Conn k; int hi = which == 2 ? 599 : 499; for (int rep = 0; rep < 2; ++rep) ask(c, k, h, body, ok, saw, "combined:" + c.notes() + ":" + std::to_string(rep), 400, hi); if (which == 2 && pa.ok && qu.ok && bo.ok && ctok) ask(c, k, h, body, false, "", "state:" + c.notes(), 500, 599); c.cases(2); c.observe(c.notes());
}
// references to the parts of the request itself
MC_SCENARIO_D("context", 1) { static const char* A_[] = { "v", "a%20b", "%41" }; static const char* AV[] = { "v", "a b", "A" }; int a = c.pick(3); bool qs = c.flip(), x = c.flip(), old = c.flip(); Conn k; if (old) { vf::Wire w(server()); auto cl = w.connect(); RUNS = 0; cl.put("GET /ctx/" + std::string(A_[a]) + (qs ? "?k=%31" : "") + " HTTP/1.0\r\n" + (x ? "X: y\r\n" : "") + "\r\n"); w.settle(cl); auto saw = "same;" + std::string(AV[a]) + ";" + (qs ? "1" : "-") + ";" + (x ? "y" : "-") + ";1.0;"; if (RUNS != 1 || SAW != saw) c.fail("context:" + c.notes(), "given " + show(SAW) + " instead of " + saw); } else ask(c, k, "GET /ctx/" + std::string(A_[a]) + (qs ? "?k=%31" : "") + " HTTP/1.1\r\n" + (x ? "X: y\r\n" : ""), "", true, "same;" + std::string(AV[a]) + ";" + (qs ? "1" : "-") + ";" + (x ? "y" : "-") + ";1.1;", "context:" + c.notes()); c.observe(SAW); }
MC_MAIN
