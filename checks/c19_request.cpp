#include <fitoria/web/async_read_until_eof.hpp>
#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
static std::string low(std::string_view s) { std::string o; for (char ch : s) o += ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch; return o; }
// what a handler was shown
struct Seen { int route = 0; std::string method, pattern, path, params; int version = 0; std::vector<std::pair<std::string, std::string>> query, headers; std::string body; bool complete = false; };
static std::vector<Seen> SEEN;
static std::string sh(const std::vector<std::pair<std::string, std::string>>& v) { std::string s; for (auto& x : v) s += show(x.first) + "=" + show(x.second) + ";"; return s; }
static std::string diff(const Seen& a, const Seen& e)
{
  if (a.route != e.route) return "route " + std::to_string(a.route) + " instead of " + std::to_string(e.route);
  if (a.method != e.method) return "method " + a.method + " instead of " + e.method;
  if (a.version != e.version) return "version";
  if (a.path != e.path) return "path " + show(a.path) + " instead of " + show(e.path);
  if (a.params != e.params) return "parameters " + a.params + " instead of " + e.params;
  if (a.query != e.query) return "query " + sh(a.query) + " instead of " + sh(e.query);
  if (a.headers != e.headers) return "headers " + sh(a.headers) + " instead of " + sh(e.headers);
  if (a.complete != e.complete) return a.complete ? "an incomplete body is presented as complete" : "reading the body fails";
  if (a.complete && a.body != e.body) return "body of " + std::to_string(a.body.size()) + " bytes " + show(a.body.substr(0, 40)) + " instead of " + std::to_string(e.body.size()) + " bytes " + show(e.body.substr(0, 40));
  return "";
}
// how the handler takes the body: in one go, piece by piece, or into a vector
static int HOW = 0;
static auto H(int id)
{
  return [id](request& r) -> awaitable<response> {
    Seen s; s.route = id; s.method = std::string(to_string(r.method())); s.version = r.version() == http::version::v1_0 ? 10 : r.version() == http::version::v1_1 ? 11 : 0; s.path = r.path().match_path();
    for (auto& [k, v] : r.path()) s.params += k + "=" + v + ";"; for (auto& [k, v] : r.query()) s.query.emplace_back(k, v); std::sort(s.query.begin(), s.query.end());
    for (auto& f : r.headers()) s.headers.emplace_back(low({ f.name_string().data(), f.name_string().size() }), std::string(f.value().data(), f.value().size())); std::stable_sort(s.headers.begin(), s.headers.end(), [](auto& a, auto& b) { return a.first < b.first; });
    if (HOW == 0) { auto b = co_await async_read_until_eof<std::string>(r.body()); s.complete = b.has_value(); if (b) s.body = *b; }
    else if (HOW == 1) { for (int n = 0; n < 100000; ++n) { auto d = co_await r.body().async_read_some(); if (!d) { s.complete = true; break; } if (!*d) break; s.body.append(reinterpret_cast<const char*>((*d)->data()), (*d)->size()); } auto again = co_await r.body().async_read_some(); if (s.complete && again) s.complete = false; }
    else { auto b = co_await async_read_until_eof<std::vector<std::uint8_t>>(r.body()); s.complete = b.has_value(); if (b) s.body.assign(b->begin(), b->end()); }
    SEEN.push_back(s); co_return response::ok().set_body(std::to_string(id));
  };
}
static auto server() { return [](auto& b) { b.serve(route::get<"/">(H(1))); b.serve(route::post<"/">(H(2))); b.serve(route::any<"/x/{a}">(H(3))); b.serve(route::put<"/x/{a}">(H(4))); b.serve(route::any<"/w/#r">(H(5))); b.set_request_body_limit(nullopt); }; }
struct Req { std::string text; Seen e; int code = 200; std::string after; bool expect = false; }; // text on the wire, what the handler must see
static void target(mc::Chooser& c, Req& r, std::string& t, const std::string& m)
{
  struct T { const char* t; const char* path; std::vector<std::pair<std::string, std::string>> q; int kind; const char* params; };
  static const T TS[] = { { "/", "/", {}, 0, "" }, { "/?a=1&b=%202+x&c", "/", { { "a", "1" }, { "b", " 2 x" } }, 0, "" }, { "/x/v", "/x/v", {}, 1, "a=v;" }, { "/x/%41%20b?a=1", "/x/A b", { { "a", "1" } }, 1, "a=A b;" }, { "/w/p/q/?z=", "/w/p/q/", { { "z", "" } }, 2, "r=p/q/;" }, { "/no", "/no", {}, 3, "" }, { "/x/%C3%A9", "/x/\xC3\xA9", {}, 1, "a=\xC3\xA9;" }, { "/x/a?q=a%26b%3Dc%25", "/x/a", { { "q", "a&b=c%" } }, 1, "a=a;" } };
  auto& x = c.of(TS); t = x.t; r.e.path = x.path; r.e.query = x.q; r.e.params = x.params; bool get = m == "GET", post = m == "POST", put = m == "PUT";
  r.e.route = x.kind == 0 ? (get ? 1 : post ? 2 : 0) : x.kind == 1 ? (put ? 4 : 3) : x.kind == 2 ? 5 : 0; if (!r.e.route) r.code = 404;
}
static void add(Req& r, std::string& h, const std::string& n, const std::string& raw, std::string v) { h += n + ":" + raw + "\r\n"; r.e.headers.emplace_back(low(n), v); }
static void headers(mc::Chooser& c, Req& r, std::string& h)
{
  switch (c.pick(5)) { case 0: break; case 1: add(r, h, "Host", " h", "h"); break; case 2: add(r, h, "X-A", " 1", "1"); add(r, h, "x-a", "2 \t", "2"); add(r, h, "X-B", "", ""); break; case 3: add(r, h, "hOST", "  a:80", "a:80"); add(r, h, "Cookie", " k=v; l=\"w, x\"", "k=v; l=\"w, x\""); break; case 4: add(r, h, "X-Long", " " + std::string(3000, 'L'), std::string(3000, 'L')); break; }
}
static std::string bytes_of(std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += char((i * 7 + i / 251) & 255); return s; }
static void body(mc::Chooser& c, Req& r, std::string& h, std::string& b, bool big)
{
  auto hex = [](std::size_t n, bool up) { char x[32]; std::snprintf(x, sizeof x, up ? "%zX" : "%zx", n); return std::string(x); };
  auto chunked = [&](std::vector<std::size_t> ns, int style) { add(r, h, "Transfer-Encoding", " chunked", "chunked"); std::size_t tot = 0; for (auto n : ns) tot += n; r.e.body = bytes_of(tot); std::size_t i = 0; for (auto n : ns) { b += hex(n, style == 1); if (style == 1) b += ";ext=\"q;\";y"; b += "\r\n" + r.e.body.substr(i, n) + "\r\n"; i += n; } b += style == 1 ? "000\r\n" : "0\r\n"; if (style == 2) b += "X-Trailer: t\r\n"; b += "\r\n"; };
  auto sized = [&](std::size_t n) { r.e.body = bytes_of(n); add(r, h, "Content-Length", " " + std::to_string(n), std::to_string(n)); b = r.e.body; };
  if (big) { static const std::size_t N[] = { 1000, 65535, 65536, 65537, 131072, 200000 }; int k = c.pick(8); if (k < 6) sized(N[k]); else if (k == 6) chunked({ 65536, 1, 65537 }, 0); else chunked({ 100000, 65535 }, 1); return; }
  switch (c.pick(9)) { case 0: break; case 1: sized(0); break; case 2: sized(1); break; case 3: sized(13); break; case 4: chunked({}, 0); break; case 5: chunked({ 1 }, 0); break; case 6: chunked({ 3, 1, 10 }, 0); break; case 7: chunked({ 11, 2 }, 1); break; case 8: chunked({ 2, 2 }, 2); break; }
}
static Req make(mc::Chooser& c, bool big, bool minimal = false)
{
  Req r; std::string t, h, b; static const std::string M[] = { "GET", "POST", "PUT", "HEAD", "OPTIONS" };
  std::string m = minimal ? "POST" : c.of(M); r.e.method = m; if (minimal) { t = "/x/v"; r.e.path = t; r.e.params = "a=v;"; r.e.route = 3; } else target(c, r, t, m);
  if (!minimal) headers(c, r, h); r.e.version = !minimal && c.flip() ? 10 : 11; body(c, r, h, b, big); if (r.e.version == 10 && h.find("chunked") != h.npos) c.skip(); // no chunked coding in HTTP/1.0
  r.e.complete = true; r.text = m + " " + t + " HTTP/1." + (r.e.version == 10 ? "0" : "1") + "\r\n" + h + "\r\n" + b; std::stable_sort(r.e.headers.begin(), r.e.headers.end(), [](auto& a, auto& x) { return a.first < x.first; }); return r;
}
static void decide(mc::Chooser& c, vf::Wire& w, vf::Client& cl, const Req& r, const std::string& key)
{
  w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, { r.e.method });
  if (!a.err.empty() || a.v.size() != 1) { c.fail(key, "no proper answer (" + a.err + ", " + std::to_string(a.v.size()) + " answers)"); return; }
  if (a.v[0].status != r.code) { c.fail(key, "status " + std::to_string(a.v[0].status) + " instead of " + std::to_string(r.code)); return; }
  if (r.code != 200) { if (!SEEN.empty()) c.fail(key, "a handler ran for an unrouted request"); return; }
  if (SEEN.size() != 1) { c.fail(key, "handlers ran " + std::to_string(SEEN.size()) + " times"); return; }
  auto d = diff(SEEN[0], r.e); if (!d.empty()) c.fail(key, "the handler sees another request: " + d); else if (r.e.method != "HEAD" && a.v[0].body != std::to_string(r.e.route)) c.fail(key, "answer of another route");
}
static void once(mc::Chooser& c, const Req& r, const std::vector<std::size_t>& cuts, const std::string& key)
{
  SEEN.clear(); vf::Wire w(server()); auto cl = w.connect(); std::size_t i = 0; for (auto k : cuts) { cl.put(std::string_view(r.text).substr(i, k - i)); w.settle(cl); i = k; } cl.put(std::string_view(r.text).substr(i)); decide(c, w, cl, r, key);
}
// every request of the grammar in one piece, and byte by byte
MC_SCENARIO_D("requests", 3) { auto r = make(c, false); HOW = c.pick(3); bool slow = r.text.size() < 400 && c.flip(); c.note((slow ? "byte by byte " : "") + show(r.text.substr(0, 300))); std::vector<std::size_t> cuts; if (slow) for (std::size_t i = 1; i < r.text.size(); ++i) cuts.push_back(i); once(c, r, cuts, "request:" + c.notes()); c.observe(c.notes()); }
// every place to cut, and every pair of places
MC_SCENARIO_D("cuts", 2)
{
  auto r = make(c, false, true); HOW = c.pick(3); c.note(show(r.text)); std::size_t n = r.text.size(), a = 1 + std::size_t(c.pick(int(n - 1))); c.note(std::to_string(a)); std::uint64_t k = 1; once(c, r, { a }, "cut:" + c.notes());
  bool pairs = c.thorough() || n < 84; if (pairs) for (std::size_t b = a + 1; b < n && !c.failed(); ++b) { once(c, r, { a, b }, "cut:" + c.notes() + "," + std::to_string(b)); ++k; } c.cases(k); c.observe(c.notes());
}
// large bodies, cut around the sizes of internal buffers
MC_SCENARIO_D("large", 2)
{
  auto r = make(c, true, true); HOW = c.pick(3); auto hd = r.text.find("\r\n\r\n") + 4; static const long P[] = { 0, 1, 511, 512, 513, 4096, 65535, 65536, 65537, 100000, 131072 }; std::vector<std::size_t> cuts; int last = -1; for (int i = 0; i < 2; ++i) { int k = c.pick(12); if (k == 11) break; if (k <= last) c.skip(); last = k; auto at = hd + std::size_t(P[k]); if (at >= r.text.size()) c.skip(); cuts.push_back(at); }
  std::string s; for (auto x : cuts) s += std::to_string(x) + ","; c.note(show(r.text.substr(0, hd)) + " cut " + s); once(c, r, cuts, "large:" + c.notes()); c.observe(c.notes());
}
// a request that ends early is never complete: every prefix, ended by closing one or both directions
MC_SCENARIO_D("truncated", 2)
{
  auto r = make(c, false, true); HOW = c.pick(3); c.note(show(r.text)); std::size_t n = r.text.size(); bool half = c.flip(); std::size_t hd = r.text.find("\r\n\r\n") + 4; c.note(half ? "half" : "full"); std::uint64_t cnt = 0;
  for (std::size_t k = 0; k < n && !c.failed(); ++k) for (int two = 0; two < 2; ++two) {
    SEEN.clear(); vf::Wire w(server()); auto cl = w.connect(); if (two && k > 1) { cl.put(std::string_view(r.text).substr(0, k / 2)); w.settle(cl); cl.put(std::string_view(r.text).substr(k / 2, k - k / 2)); } else cl.put(std::string_view(r.text).substr(0, k)); if (two) w.settle(cl); if (half) cl.half_close(); else cl.shut(); w.settle(cl); ++cnt; auto key = "truncated:" + c.notes() + ":" + std::to_string(k);
    if (k < hd) { if (!SEEN.empty()) { c.fail(key, "a handler runs although the header never ended"); break; } } else if (SEEN.size() > 1 || (SEEN.size() == 1 && SEEN[0].complete)) { c.fail(key, "a body cut off after " + std::to_string(k - hd) + " bytes is presented as complete: " + show(SEEN[0].body)); break; }
    if (half && k < hd && !cl.eof) { c.fail(key, "the connection is left open"); break; }
    if (half && k < hd) { auto a = vf::read_all(cl.in, cl.eof, { "POST" }); for (auto& x : a.v) if (x.status < 400) c.fail(key, "success answer to half a request"); }
  }
  c.cases(cnt); c.observe(c.notes());
}
// texts that are no requests never reach a handler as complete
MC_SCENARIO_D("malformed", 1)
{
  static const char* BAD[] = { "\r\n\r\n\r\n", "GET\r\n\r\n", "GET /\r\n\r\n", "GET / HTTP/1.1 x\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", " GET / HTTP/1.1\r\n\r\n", "G(T / HTTP/1.1\r\n\r\n", "GET / HTTP/2.0\r\n\r\n", "GET / HTTP/1.1x\r\n\r\n", "GET / http/1.1\r\n\r\n", "GET / HTTP/11\r\n\r\n", "GET / HTTP/1.\r\n\r\n", "GET / HTTP/1.1\r\nX\r\n\r\n", "GET / HTTP/1.1\r\n: v\r\n\r\n", "GET / HTTP/1.1\r\nX Y: v\r\n\r\n", "GET / HTTP/1.1\r\nX\x01: v\r\n\r\n", "GET / HTTP/1.1\r\nX: a\x01\r\n\r\n", "GET / HTTP/1.1\r\nX(: v\r\n\r\n",
    "POST / HTTP/1.1\r\nContent-Length: x\r\n\r\nab", "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nab", "POST / HTTP/1.1\r\nContent-Length: 1x\r\n\r\nab", "POST / HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 18446744073709551616\r\n\r\nab", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nab", "POST / HTTP/1.1\r\nContent-Length: 2\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n",
    "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nx\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nabc\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\na\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nFFFFFFFFFFFFFFFFF\r\na\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1 \ra\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nX\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na0\r\n\r\n" };
  auto bad = c.of(BAD); std::string t = bad; HOW = c.pick(3); c.note(show(t)); std::uint64_t n = 0;
  for (std::size_t cut = 0; cut < t.size() && !c.failed(); ++cut) { SEEN.clear(); vf::Wire w(server()); auto cl = w.connect(); cl.put(t.substr(0, cut)); w.settle(cl); cl.put(t.substr(cut)); w.settle(cl); cl.half_close(); w.settle(cl); ++n; auto key = "malformed:" + c.notes() + ":" + std::to_string(cut); for (auto& s : SEEN) if (s.complete) c.fail(key, "a malformed request reaches a handler as complete"); if (!cl.eof) c.fail(key, "the connection is left open"); }
  c.cases(n); c.observe(t);
}
// targets that are not paths: an answer, and no handler
MC_SCENARIO_D("bad-targets", 1)
{
  static const char* T[] = { "/%", "/%4", "/%zz", "/\x80", "/a b", "", "*", "x", "http://h/", "/|", "/?%", "/?a=%g1", "//", "/#f", "/x/%2" }; std::string t = c.of(T); c.note(show(t)); SEEN.clear(); vf::Wire w(server()); auto cl = w.connect(); cl.put("GET " + t + " HTTP/1.1\r\n\r\n"); w.settle(cl); cl.half_close(); w.settle(cl);
  auto a = vf::read_all(cl.in, cl.eof, { "GET" }); if (!a.err.empty() || a.v.size() > 1) c.fail("target:" + c.notes(), "garbled answer " + a.err); if (!SEEN.empty() || (a.v.size() == 1 && a.v[0].status / 100 != 4)) c.fail("target:" + c.notes(), "an invalid target is served"); if (!cl.eof) c.fail("target:" + c.notes(), "the connection is left open"); c.observe(t);
}
// Expect: 100-continue: the interim answer comes before the body is sent, then the request is whole
MC_SCENARIO_D("expect", 2)
{
  Req r; std::string h, b; r.e.method = "POST"; r.e.path = "/x/v"; r.e.params = "a=v;"; r.e.route = 3; r.e.version = 11; r.e.complete = true; static const char* E[] = { "100-continue", "100-Continue", "other" }; int k = c.pick(3); add(r, h, "Expect", std::string(" ") + E[k], E[k]); body(c, r, h, b, false); HOW = c.pick(3); bool wait = c.flip(); c.note(show(h) + (wait ? "wait" : "eager")); std::stable_sort(r.e.headers.begin(), r.e.headers.end(), [](auto& a, auto& x) { return a.first < x.first; });
  auto head = "POST /x/v HTTP/1.1\r\n" + h + "\r\n"; SEEN.clear(); vf::Wire w(server()); auto cl = w.connect(); if (wait) { cl.put(head); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, { "POST" }, true); bool got = a.err.empty() && !a.v.empty() && a.v[0].status == 100; if (got != (k < 2)) { c.fail("expect:" + c.notes(), got ? "unasked interim answer" : "no interim answer"); return; } cl.put(b); } else cl.put(head + b);
  decide(c, w, cl, r, "expect:" + c.notes()); c.observe(c.notes());
}
MC_MAIN
