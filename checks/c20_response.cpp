#include "mc.hpp"
#include "wire.hpp"
#include "aio.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
using Hv = std::vector<std::pair<std::string, std::string>>;
static std::string sh(const Hv& v) { std::string s; for (auto& x : v) s += show(x.first) + "=" + show(x.second) + ";"; return s; }
static std::string fill(std::size_t n, int seed = 0) { std::string s; for (std::size_t i = 0; i < n; ++i) s += char((i * 11 + i / 253 + std::size_t(seed)) & 255); return s; }
// what the handler is told to answer
struct Plan { int status = 200, version = 11; Hv h; int kind = 0; std::string body; std::vector<std::string> pieces; std::error_code fail; bool slow = false; };
static Plan P; static int RUNS;
// pieces that become available only when the harness lets the stream go on
struct Slow { using is_async_readable_stream = void; vf::Pieces p;
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>> { auto ex = co_await net::this_coro::executor; co_await net::post(ex, net::use_awaitable_t<executor_type> {}); auto r = co_await p.async_read_some(); co_await net::post(ex, net::use_awaitable_t<executor_type> {}); co_return r; } };
static auto reply() { return [](request&) -> awaitable<response> {
  ++RUNS; auto b = response::ok(); b.set_status(http::status_code(std::uint16_t(P.status))); b.set_version(P.version == 10 ? http::version::v1_0 : http::version::v1_1); for (auto& [k, v] : P.h) b.insert_header(k, v);
  vf::Pieces p { P.pieces, P.fail }; if (P.kind == 0) co_return b.build(); if (P.kind == 1) co_return b.set_body(P.body); if (P.kind == 2) { if (P.slow) co_return b.set_body(Slow { p }); co_return b.set_body(p); } if (P.slow) co_return b.set_stream_body(Slow { p }); co_return b.set_stream_body(p); }; }
static auto server() { return [](auto& b) { b.serve(route::any<"/">(reply())); b.serve(route::any<"/next">([](request&) -> awaitable<response> { co_return response::ok().set_body("next"); })); }; }
static bool bodyless(int st) { return st / 100 == 1 || st == 204 || st == 304; }
static void run(mc::Chooser& c, const std::string& method, int version, int conn)
{
  auto key = "response:" + c.notes(); RUNS = 0; vf::Wire w(server()); auto cl = w.connect(); std::string head = method + " / HTTP/1." + (version == 10 ? "0" : "1") + "\r\nHost: h\r\n" + (conn == 1 ? "Connection: close\r\n" : conn == 2 ? "Connection: keep-alive\r\n" : "") + "\r\n"; cl.put(head); w.settle(cl);
  bool stay = version == 11 ? conn != 1 : conn == 2; // what the client asked for
  if (RUNS != 1) { c.fail(key, "the handler ran " + std::to_string(RUNS) + " times"); return; }
  std::string body = P.body; for (auto& x : P.pieces) body += x; bool none = bodyless(P.status) || method == "HEAD";
  vf::Resp r; std::size_t i = 0; auto e = vf::read_response(cl.in, i, cl.eof, method, r);
  if (P.fail && P.kind >= 2) {
    if (!none && e.empty() && r.complete && !r.to_close && r.status < 500) { c.fail(key, "a body that failed part way looks complete: " + show(r.body.substr(0, 60))); return; }
    if (!none && r.to_close && !cl.reset && r.status < 500) { c.fail(key, "a body that failed part way ends like a complete one"); return; }
    if (!none && !cl.eof) { c.fail(key, "the connection stays open after a failed body"); return; }
    if (!body.starts_with(r.body) && r.status < 500) c.fail(key, "other bytes than the body's"); return;
  }
  if (bodyless(P.status) && P.kind && !body.empty() && cl.in.empty() && cl.eof) { c.observe(c.notes()); return; } // refusing an impossible reply by closing is fine
  if (!e.empty()) { c.fail(key, "not a proper response (" + e + "): " + show(cl.in.substr(0, 200))); return; }
  if (r.status != P.status || r.version != P.version) { c.fail(key, "status " + std::to_string(r.status) + " version " + std::to_string(r.version)); return; }
  if (!none && r.body != body) { c.fail(key, "body of " + std::to_string(r.body.size()) + " bytes " + show(r.body.substr(0, 40)) + " instead of " + std::to_string(body.size())); return; }
  if (version == 10 && !r.all("transfer-encoding").empty()) { c.fail(key, "a transfer coding is sent to an HTTP/1.0 client"); return; }
  Hv got; for (auto& [k, v] : r.h) if (k != "content-length" && k != "transfer-encoding" && k != "connection") got.emplace_back(k, v); Hv wanted; for (auto& [k, v] : P.h) { std::string l; for (char ch : k) l += ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch; if (l != "content-length" && l != "transfer-encoding") wanted.emplace_back(l, v); }
  auto by = [](auto& a, auto& b) { return a.first < b.first; }; std::stable_sort(got.begin(), got.end(), by); std::stable_sort(wanted.begin(), wanted.end(), by); if (got != wanted) { c.fail(key, "headers " + sh(got) + " instead of " + sh(wanted)); return; }
  if (method == "HEAD" && P.kind == 1 && !bodyless(P.status) && r.get("content-length") != std::to_string(body.size())) { c.fail(key, "HEAD announces " + r.get("content-length") + " bytes instead of " + std::to_string(body.size())); return; }
  if (cl.in.size() != i) { c.fail(key, "followed by " + std::to_string(cl.in.size() - i) + " more bytes: " + show(cl.in.substr(i, 60))); return; }
  if (r.to_close && (!cl.eof || stay == 99)) { c.fail(key, "body without length on an open connection"); return; }
  if (!stay && !cl.eof) { c.fail(key, "the connection stays open although it must close"); return; }
  if (stay && !r.to_close && cl.eof) { c.fail(key, "the connection is closed although it may stay open"); return; }
  if (stay && version == 11 && !cl.eof) { // what follows on the connection is the next answer, from its first byte on
    cl.in.clear(); cl.put("GET /next HTTP/1.1\r\n\r\n"); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, { "GET" }); if (!a.err.empty() || a.v.size() != 1 || a.v[0].body != "next") c.fail(key, "the next answer on the connection is garbled: " + a.err + " " + show(cl.in.substr(0, 100)));
  }
  c.observe(c.notes());
}
static void headers(mc::Chooser& c)
{
  switch (c.pick(5)) { case 0: break; case 1: P.h = { { "X-A", "1" }, { "x-a", "2" }, { "Content-Type", "t/x; q=\"a,b\"" } }; c.note("h1"); break; case 2: P.h = { { "Content-Length", "999" } }; c.note("h-cl"); break; case 3: P.h = { { "Set-Cookie", "a=1" }, { "Set-Cookie", "b=2" }, { "X-E", "" } }; c.note("h2"); break; case 4: P.h = { { "X-L", std::string(5000, 'v') } }; c.note("h-long"); break; }
}
static void body(mc::Chooser& c)
{
  P.kind = c.pick(4); static const char* K[] = { "null", "sized", "stream", "chunked" }; c.note(K[P.kind]); if (P.kind == 0) return;
  if (P.kind == 1) { static const std::size_t N[] = { 0, 1, 5, 65536, 70000 }; auto n = c.of(N); P.body = fill(n); c.note(std::to_string(n)); return; }
  static const int S[] = { 1, 0, 3, 70000 }; int n = c.pick(c.thorough() ? 5 : 4); for (int k = 0; k < n; ++k) { int s = c.of(S); P.pieces.push_back(fill(std::size_t(s), k)); c.note(std::to_string(s)); }
  int f = c.pick(3); if (f) { P.fail = f == 1 ? make_error_code(std::errc::io_error) : std::error_code(net::error::make_error_code(net::error::eof)); c.note(f == 1 ? "!io" : "!eof"); } P.slow = c.flip(); if (P.slow) c.note("slow");
}
static void asked(mc::Chooser& c) { static const char* M[] = { "GET", "HEAD", "POST" }; std::string m = c.of(M); int v = c.flip() ? 10 : 11, k = c.pick(3); static const char* K[] = { "", "close", "keep" }; c.note(m + std::to_string(v) + K[k]); run(c, m, v, k); }
// every body shape over every kind of request
MC_SCENARIO_D("bodies", 3) { P = Plan(); body(c); asked(c); }
// every header set with the main body kinds
MC_SCENARIO_D("headers", 2) { P = Plan(); headers(c); int k = c.pick(4); P.kind = k; if (k == 1) P.body = "abc"; if (k > 1) P.pieces = { "a", "bc" }; c.note("kind" + std::to_string(k)); P.version = c.flip() ? 10 : 11; c.note("v" + std::to_string(P.version)); if (P.version == 10 && k == 3) c.skip(); asked(c); }
// every status code
MC_SCENARIO_D("statuses", 2)
{
  P = Plan(); static std::vector<int> codes = [] { std::vector<int> v { 299, 418, 599, 600, 999 }; for (int i = 100; i < 512; ++i) if (i != 101 && (http::status_code(std::uint16_t(i)).value() == http::status(i)) && (i < 104 || i >= 200) && i % 100 < 52) v.push_back(i); return v; }();
  P.status = c.of(codes); c.note(std::to_string(P.status)); int k = c.pick(6); P.kind = k; if (k == 1) P.body = "abc"; if (k == 4) P.kind = 1; if (k > 1) P.pieces = { "a", "bc" }; if (k == 4) P.pieces.clear(); if (k == 5) { P.kind = 3; P.pieces.clear(); } c.note("kind" + std::to_string(k)); static const char* M[] = { "GET", "HEAD" }; std::string m = c.of(M); int close = c.flip() ? 1 : 0; c.note(m + (close ? " close" : "")); run(c, m, 11, close);
}
MC_MAIN
