#include "mc.hpp"
#include "wire.hpp"
#include "aio.hpp"
#include <fitoria/web/scope.hpp>
#include <fitoria/web/test_request.hpp>
#include <fitoria/web/test_response.hpp>
#include <map>
using namespace fitoria; using namespace fitoria::web; using mc::show; using S = std::string; using HV = std::vector<std::pair<S, S>>;
static S low(S s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
static S brief(const S& s) { return s.size() > 60 ? s.substr(0, 20) + "..." + std::to_string(s.size()) + "#" + std::to_string(mc::hash(s) % 100000) : s; }
// what the handler saw
struct View { S method, path, pattern; std::map<S, S> params; std::multimap<S, S> query; HV headers; S body, err; bool operator==(const View&) const = default;
  S text() const { S o = method + " " + path + " (" + pattern + ") "; for (auto& [k, v] : params) o += k + "->" + v + " "; o += "? "; for (auto& [k, v] : query) o += k + "->" + v + " "; for (auto& [k, v] : headers) o += "[" + k + ": " + brief(v) + "]"; return o + " body " + brief(body) + (err.empty() ? "" : " failing: " + err); } };
// what the caller got
struct Got { bool any = false; int status = 0, version = 0; HV headers; S body, err; bool operator==(const Got&) const = default;
  S text() const { if (!any) return "nothing"; S o = std::to_string(status) + " 1." + std::to_string(version - 10) + " "; for (auto& [k, v] : headers) o += "[" + k + ": " + brief(v) + "]"; return o + " body " + brief(body) + (err.empty() ? "" : " failing: " + err); } };
static std::vector<View> SEEN;
// what the handler answers
struct Plan { int status = 200, kind = 0; std::vector<S> pieces; bool v10 = false, headers = false, fail = false, thrown = false, read = true; S ct; };
static Plan PLAN;
static auto handle(request& r) -> awaitable<response>
{
  View v; v.method = S(boost::beast::http::to_string(r.method())); v.path = S(r.path().match_path()); v.pattern = S(r.path().match_pattern()); for (auto& [k, x] : r.path()) v.params[k] = x; for (auto& [k, x] : r.query()) v.query.emplace(k, x); for (auto& f : r.headers()) v.headers.emplace_back(low(S(f.name_string())), S(f.value())); std::stable_sort(v.headers.begin(), v.headers.end());
  if (PLAN.read) { if (auto b = co_await async_read_until_eof<std::string>(r.body()); b) v.body = *b; else v.err = b.error().message(); }
  SEEN.push_back(v); if (PLAN.thrown) throw std::runtime_error("planned");
  auto b = response::ok(); b.set_status(http::status_code(std::uint16_t(PLAN.status))); if (PLAN.v10) b.set_version(http::version::v1_0); if (PLAN.headers) { b.insert_header("X-A", "1"); b.insert_header("x-a", "2"); b.insert_header("Set-Cookie", "c=d, e"); b.set_header("X-Empty", ""); b.set_header(http::field::content_type, "text/plain; charset=utf-8"); }
  vf::Pieces p { PLAN.pieces, PLAN.fail ? std::make_error_code(std::errc::io_error) : std::error_code(), 0, nullptr }; S all; for (auto& x : PLAN.pieces) all += x;
  switch (PLAN.kind) { case 0: co_return b.set_body(); case 1: co_return b.set_body(all); case 2: co_return b.set_body(std::move(p)); default: co_return b.set_stream_body(std::move(p)); }
}
static vf::Wire& wire()
{
  static vf::Wire w([](auto& b) {
    b.set_request_header_limit(2000u).set_request_body_limit(std::uint64_t(100000));
    auto all = [&](auto h) { b.serve(route::any<"/e">(h)); b.serve(route::any<"/p/{x}">(h)); b.serve(route::any<"/p/{x}/q/{y}">(h)); b.serve(route::any<"/w/#r">(h)); }; all([](request& r) -> awaitable<response> { return handle(r); });
  });
  return w;
}
// the request, the same for both ways
struct Req { http::verb m = http::verb::get; S path = "/e"; std::map<S, S> query; HV headers; int kind = 0; std::vector<S> pieces; }; // kind: 0 none, 1 text, 2 stream of unknown size, 3 chunked
static bool unreserved(unsigned char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z') || c == '-' || c == '.' || c == '_' || c == '~'; }
static S enc(std::string_view s, std::string_view keep = "") { S o; char b[8]; for (unsigned char c : s) if (unreserved(c) || keep.find(char(c)) != keep.npos) o += char(c); else { std::snprintf(b, sizeof b, "%%%02X", c); o += b; } return o; }
static Got on_wire(const Req& q)
{
  S t = S(boost::beast::http::to_string(q.m)) + " " + enc(q.path, "/"); if (!q.query.empty()) { t += "?"; bool first = true; for (auto& [k, v] : q.query) { if (!first) t += "&"; first = false; t += enc(k) + "=" + enc(v); } } t += " HTTP/1.1\r\n";
  for (auto& [k, v] : q.headers) t += k + ": " + v + "\r\n"; S all; for (auto& p : q.pieces) all += p; using V = http::verb;
  if (q.kind == 3) { t += "Transfer-Encoding: chunked\r\n\r\n"; char b[32]; for (auto& p : q.pieces) if (!p.empty()) { std::snprintf(b, sizeof b, "%zx\r\n", p.size()); t += b + p + "\r\n"; } t += "0\r\n\r\n"; } else { if (!all.empty() || q.m == V::post || q.m == V::put || q.m == V::options) t += "Content-Length: " + std::to_string(all.size()) + "\r\n"; t += "\r\n" + all; }
  auto& w = wire(); w.settle(); auto cl = w.connect(); cl.put(t); w.settle(cl); cl.half_close(); w.settle(cl);
  Got g; auto a = vf::read_all(cl.in, cl.eof, { S(boost::beast::http::to_string(q.m)) }); if (a.v.empty() && a.partial.status == 0) return g; auto& r = a.v.empty() ? a.partial : a.v[0]; g.any = true; g.status = r.status; g.version = r.version; g.headers = r.h; std::stable_sort(g.headers.begin(), g.headers.end()); g.body = r.body; if (a.v.empty() || !r.complete) g.err = "cut"; return g;
}
static Got in_process(const Req& q, int* calls)
{
  auto& w = wire(); w.settle(); w.escaped.clear(); auto b = test_request_builder(q.m); for (auto& [k, v] : q.headers) b.insert_header(k, v); for (auto& [k, v] : q.query) b.set_query(k, v); S all; for (auto& p : q.pieces) all += p; vf::Pieces ps { q.pieces, {}, 0, nullptr };
  auto tr = [&]() -> test_request { switch (q.kind) { case 0: return b.set_body(); case 1: return b.set_body(all); case 2: return b.set_body(ps); default: return b.set_stream_body(ps); } }();
  auto g = std::make_shared<Got>(); auto n = std::make_shared<int>(0);
  w.srv->serve_request(q.path, std::move(tr), [g, n](test_response r) -> awaitable<void> {
    ++*n; g->any = true; g->err = "never finishes"; g->status = int(r.status().value()); g->version = r.version() == http::version::v1_0 ? 10 : 11; for (auto& f : r.headers()) g->headers.emplace_back(low(S(f.name_string())), S(f.value())); std::stable_sort(g->headers.begin(), g->headers.end());
    if (auto s = co_await r.as_string(); s) { g->body = *s; g->err.clear(); } else g->err = "cut"; });
  w.settle(); *calls = *n; return *g;
}
// the same request both ways
static void both(mc::Chooser& c, const Req& q, const S& key, const char* known = nullptr)
{
  SEEN.clear(); auto a = on_wire(q); auto sa = SEEN; SEEN.clear(); int calls = 0; auto b = in_process(q, &calls); auto sb = SEEN; if (c.failed()) return;
  S all; for (auto& p : q.pieces) all += p; if (all.empty() && q.kind != 3) for (auto* s : { &sa, &sb }) for (auto& v : *s) std::erase_if(v.headers, [](auto& h) { return h.first == "content-length"; }); // a length of zero need not be sent
  auto k = known ? S(known) : key;
  if (sa.size() != sb.size()) c.fail(k, key + ": the handler ran " + std::to_string(sb.size()) + " times in process and " + std::to_string(sa.size()) + " on the wire"); else if (!sa.empty() && !(sa[0] == sb[0])) c.fail(k, key + ": the handler saw in process " + show(sb[0].text()) + " and on the wire " + show(sa[0].text()));
  else if (calls != int(a.any)) c.fail(k, key + ": the caller was given " + std::to_string(calls) + " responses, on the wire " + a.text()); else if (!(a == b)) { if (a.err == "cut" && b.err == "cut" && a.body.substr(0, b.body.size()) == b.body) { } else c.fail(k, key + ": in process " + show(b.text()) + ", on the wire " + show(a.text())); }
  c.observe(a.text() + (sa.empty() ? "" : sa[0].text()));
}
static const http::verb VERBS[] = { http::verb::get, http::verb::post, http::verb::put, http::verb::patch, http::verb::delete_, http::verb::head, http::verb::options };
static std::vector<S> pieces(mc::Chooser& c, int n) { static const S P[] = { "", "a", S("\0\r\n", 3), S(65536, 'b'), S(3000, 'c') }; std::vector<S> v; int k = c.pick(n + 1); for (int i = 0; i < k; ++i) { int j = c.pick(5); v.push_back(P[j]); c.note("p" + std::to_string(j)); } return v; }
// request bodies
MC_SCENARIO_D("request bodies", 2)
{
  PLAN = Plan(); Req q; q.m = c.of(VERBS); q.kind = c.pick(4); c.note(S(boost::beast::http::to_string(q.m)) + " body kind " + std::to_string(q.kind)); if (q.kind) q.pieces = pieces(c, c.thorough() ? 3 : 2); if (c.flip()) { PLAN.read = false; c.note("unread"); } both(c, q, "body:" + c.notes());
}
// response bodies
MC_SCENARIO_D("responses", 3)
{
  PLAN = Plan(); Req q; q.m = c.of(VERBS); static const int ST[] = { 200, 204, 304, 404, 500, 201 }; PLAN.status = c.of(ST); PLAN.kind = c.pick(4); PLAN.headers = c.flip(); PLAN.v10 = c.flip(); c.note(S(boost::beast::http::to_string(q.m)) + " " + std::to_string(PLAN.status) + " kind " + std::to_string(PLAN.kind) + (PLAN.headers ? " headers" : "") + (PLAN.v10 ? " 1.0" : "")); if (PLAN.kind) PLAN.pieces = pieces(c, c.thorough() ? 3 : 2); if (PLAN.kind >= 2 && c.flip()) { PLAN.fail = true; c.note("fails"); }
  both(c, q, "response:" + c.notes(), q.m == http::verb::head && PLAN.kind && PLAN.status != 204 && PLAN.status != 304 ? "head-response-body-expected" : nullptr);
}
// paths and their parameters
MC_SCENARIO_D("paths", 1)
{
  PLAN = Plan(); int shape = c.pick(5); std::uint64_t n = 0; S alpha = c.thorough() ? S("a%2F +?#&=\xc3\xa9:.", 15) : S("a%2 +?#\xc3\xa9", 9);
  auto one = [&](const S& x) { if (c.failed()) return; for (auto p : { S("/p/") + x, S("/p/") + x + "/q/b", "/w/" + x, "/p/a/q/" + x, "/" + x }) { if (shape-- == 0) { Req q; q.path = p; both(c, q, "path:" + show(p)); ++n; } } shape += 5; };
  mc::all_strings("", alpha, c.thorough() ? 3 : 2, one); for (int i = 1; i < 256; ++i) one(S(1, char(i))); one("a/b"); one("a//b"); one("%2f"); one("%41"); one("..") ; one("a/../b"); one("a/./b"); c.cases(n); c.note("shape " + std::to_string(shape));
}
// queries
MC_SCENARIO_D("queries", 1)
{
  PLAN = Plan(); std::uint64_t n = 0; auto special = [](const S& s) { return s.find_first_of("&=+") != s.npos; };
  auto one = [&](const std::map<S, S>& m) { if (c.failed()) return; Req q; q.query = m; S k = "query:"; bool sp = false; for (auto& [a, b] : m) { k += show(a) + "=" + show(b) + "&"; sp = sp || a.find_first_of("&=+") != S::npos || b.find_first_of("&+") != S::npos; } both(c, q, k, sp ? "query-not-encoded" : nullptr); ++n; };
  static const S A[] = { "", "a", "b c", "%", "%41", "#", "?", "/", "\xc3\xa9", S("\0", 1), "a;b", "\"", "\r\n", "&", "+", "=", "x&y=z" }; (void)special;
  int i = c.pick(int(std::size(A))), round = c.pick(2); c.note("name " + show(A[i]));
  if (round == 0) for (auto& v : A) { auto clean = [](const S& s) { return s.find_first_of("&+=") == s.npos; }; if (clean(A[i]) && v.find_first_of("&+") == v.npos) one({ { A[i], v } }); for (auto& n2 : A) if (clean(A[i]) && clean(v) && clean(n2) && n2 != A[i]) one({ { A[i], v }, { n2, "w" } }); }
  else for (auto& v : A) one({ { A[i], v } });
  c.cases(n);
}
// headers
MC_SCENARIO_D("headers", 2)
{
  PLAN = Plan(); Req q; static const std::pair<S, S> H[] = { { "X-A", "1" }, { "x-a", "2" }, { "Host", "h" }, { "Connection", "close" }, { "Connection", "keep-alive" }, { "Cookie", "a=b; c=d" }, { "Content-Type", "text/plain" }, { "X-Empty", "" }, { "Accept", "a, b" }, { "X-Bin", "\xff\x80 z" }, { "Expect", "100-continue" }, { "X-Long", S(900, 'l') }, { "X-Long", S(1100, 'm') } };
  if (c.flip()) { q.m = http::verb::post; q.kind = 1 + c.pick(3); q.pieces = { "bo", "dy" }; c.note("kind" + std::to_string(q.kind)); } int n = c.pick(c.thorough() ? 4 : 3); std::vector<int> used; for (int i = 0; i < n; ++i) { int h = c.pick(int(std::size(H))); c.note("h" + std::to_string(h)); q.headers.push_back(H[h]); if (std::count(used.begin(), used.end(), h)) c.skip(); used.push_back(h); }
  bool expect = std::count(used.begin(), used.end(), 10); if (expect && !q.kind) c.skip(); const char* known = nullptr; if (expect && c.flip()) { PLAN.read = false; c.note("unread"); known = "expect-response-lost"; } // a client must not expect 100 without content
  both(c, q, "headers:" + c.notes(), known);
}
// failures and refusals
MC_SCENARIO_D("failures", 2)
{
  PLAN = Plan(); Req q; int k = c.pick(6); c.note("failure " + std::to_string(k)); q.m = c.flip() ? http::verb::post : http::verb::get; if (q.m == http::verb::post) { q.kind = 1 + c.pick(3); q.pieces = { "bo", "dy" }; c.note("kind" + std::to_string(q.kind)); }
  switch (k) { case 0: PLAN.thrown = true; break; case 1: q.headers = { { "X", S(3000, 'x') } }; break; case 2: q.path = "/none"; break; case 3: q.kind = std::max(q.kind, 1); q.pieces = { S(60000, 'x'), S(60000, 'y') }; break; case 4: PLAN.kind = 2 + c.pick(2); PLAN.pieces = { "x" }; PLAN.fail = true; break; case 5: q.path = "e"; break; }
  both(c, q, "failure:" + c.notes());
}
// several requests in process at once do not disturb each other
MC_SCENARIO_D("at once", 1)
{
  PLAN = Plan(); int n = c.pick(4) + 1; std::vector<Req> qs; S k = "at once:"; auto& w = wire(); w.settle(); SEEN.clear(); auto out = std::make_shared<std::map<int, S>>(); PLAN.kind = 2; PLAN.pieces = { "answer" };
  for (int i = 0; i < n; ++i) { int kind = 1 + c.pick(3); k += std::to_string(kind); auto b = test_request_builder(http::verb::post); b.set_header("X-I", std::to_string(i)); S body = "body" + S(std::size_t(i) * 1000, char('a' + i)); vf::Pieces ps { { body.substr(0, 2), body.substr(2) }, {}, 0, nullptr }; auto tr = [&]() -> test_request { switch (kind) { case 1: return b.set_body(body); case 2: return b.set_body(ps); default: return b.set_stream_body(ps); } }(); w.srv->serve_request("/p/" + std::to_string(i), std::move(tr), [out, i](test_response r) -> awaitable<void> { if (out->count(i)) (*out)[i] += "twice"; auto s = co_await r.as_string(); (*out)[i] = std::to_string(int(r.status().value())) + (s ? *s : "!"); }); if (c.flip()) { w.settle(); k += "."; } }
  w.settle(); c.note(k); for (int i = 0; i < n; ++i) { if ((*out)[i] != "200answer") c.fail(k, "request " + std::to_string(i) + " got " + (*out)[i]); int hits = 0; for (auto& v : SEEN) if (v.path == "/p/" + std::to_string(i)) { ++hits; if (v.body != "body" + S(std::size_t(i) * 1000, char('a' + i))) c.fail(k, "the body of request " + std::to_string(i) + " is wrong"); } if (hits != 1) c.fail(k, "request " + std::to_string(i) + " was handled " + std::to_string(hits) + " times"); } c.observe(k);
}
MC_MAIN
