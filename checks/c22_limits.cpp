#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
static std::string GOT; static int RUNS, FULL;
static std::string fill(std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += char('a' + (i * 7 + i / 26) % 26); return s; }
static int NEXT;
template <class L, class H> static auto server(L body, H head) { return [=](auto& b) {
  b.serve(route::post<"/read">([](request& r) -> awaitable<response> { ++RUNS; auto d = co_await async_read_until_eof<std::string>(r.body()); if (!d) co_return response::bad_request().build(); ++FULL; GOT = *d; co_return response::ok().set_body("ok"); }));
  b.serve(route::post<"/pieces">([](request& r) -> awaitable<response> { ++RUNS; std::string s; for (;;) { auto d = co_await r.body().async_read_some(); if (!d) break; if (!*d) co_return response::bad_request().build(); s.append(reinterpret_cast<const char*>((*d)->data()), (*d)->size()); } ++FULL; GOT = s; co_return response::ok().set_body("ok"); }));
  b.serve(route::post<"/string">([](std::string s) -> awaitable<response> { ++RUNS; ++FULL; GOT = s; co_return response::ok().set_body("ok"); }));
  b.serve(route::post<"/skip">([](request&) -> awaitable<response> { ++RUNS; co_return response::ok().set_body("ok"); }));
  b.serve(route::get<"/next">([](request&) -> awaitable<response> { ++NEXT; co_return response::ok().set_body("next"); }));
  b.set_request_body_limit(body); b.set_request_header_limit(head); }; }
struct Shape { std::string text; std::string body; std::size_t head; };
static Shape shape(mc::Chooser& c, const std::string& path, std::size_t n, bool small)
{
  Shape s; s.body = fill(n); auto h = "POST " + path + " HTTP/1.1\r\n"; int k = c.pick(small ? 5 : 3); if (k == 0) { h += "Content-Length: " + std::to_string(n) + "\r\n\r\n"; s.head = h.size(); s.text = h + s.body; c.note("sized"); return s; }
  std::vector<std::size_t> parts; if (k == 1) { if (n) parts = { n }; } else if (k == 2) { if (n < 2) c.skip(); parts = { n - 1, 1 }; } else if (k == 3) { if (n < 3) c.skip(); for (std::size_t i = 0; i < n; ++i) parts.push_back(1); } else { if (n < 3) c.skip(); parts = { 1, n - 2, 1 }; }
  h += "Transfer-Encoding: chunked\r\n\r\n"; s.head = h.size(); std::size_t at = 0; char x[32]; for (auto p : parts) { std::snprintf(x, sizeof x, "%zx\r\n", p); h += x + s.body.substr(at, p) + "\r\n"; at += p; } s.text = h + "0\r\n\r\n"; c.note("chunked" + std::to_string(k)); return s;
}
static void decide(mc::Chooser& c, const std::string& key, const std::string& path, bool within, const std::string& body, vf::Client& cl, bool pipelined)
{
  auto a = vf::read_all(cl.in, cl.eof, { "POST", "GET" }); bool reads = path != "/skip";
  if (!a.err.empty() && !(cl.eof && a.err == "more")) { c.fail(key, "garbled answers: " + a.err); return; }
  if (within) { if (RUNS != 1 || (reads && (FULL != 1 || GOT != body))) { c.fail(key, "a request within the limits is not delivered whole"); return; } if (a.v.empty() || a.v[0].status != 200) { c.fail(key, "a request within the limits is refused"); return; } if (pipelined && (a.v.size() != 2 || a.v[1].body != "next")) c.fail(key, "the request after it is not answered"); return; }
  if (FULL) { c.fail(key, "a body over the limit is delivered as complete, " + std::to_string(GOT.size()) + " bytes"); return; }
  if (reads && !a.v.empty() && a.v[0].status < 400) { c.fail(key, "success answer to a request over the limit"); return; }
  if (a.v.empty() && !cl.eof) { c.fail(key, "neither an answer nor the end of the connection"); return; }
  if (a.v.size() > 2 || (a.v.size() == 2 && a.v[1].body != "next") || NEXT > 1) { c.fail(key, "the oversized request disturbs the following one"); return; }
}
static void play(mc::Chooser& c, const std::string& key, const std::string& path, optional<std::uint64_t> lim, optional<std::uint32_t> hlim, const Shape& s, bool within, const std::vector<std::size_t>& cuts, bool pipelined)
{
  RUNS = FULL = NEXT = 0; GOT.clear(); vf::Wire w(server(lim, hlim)); auto other = w.connect(); other.put("GET /next HTTP/1.1\r\n"); w.settle(other); auto cl = w.connect(); auto t = s.text; if (pipelined) t += "GET /next HTTP/1.1\r\n\r\n"; std::size_t at = 0; for (auto k : cuts) { cl.put(std::string_view(t).substr(at, k - at)); w.settle(cl, other); at = k; } cl.put(std::string_view(t).substr(at)); w.settle(cl, other);
  decide(c, key, path, within, s.body, cl, pipelined); if (c.failed()) return;
  NEXT = 0; other.put("\r\n"); w.settle(cl, other); auto o = vf::read_all(other.in, other.eof, { "GET" }); if (o.v.size() != 1 || o.v[0].body != "next" || NEXT != 1) c.fail(key, "another connection is disturbed");
}
static const char* PATHS[] = { "/read", "/pieces", "/string", "/skip" };
// every small limit and size, every cut
MC_SCENARIO_D("body", 3)
{
  std::string p = c.of(PATHS); static const int L[] = { 0, 1, 2, 5, 13, -1 }; int l = c.of(L); static const int D[] = { 0, 1, -1, 2, 9 }; int n = l < 0 ? c.pick(4) * 3 : l + c.of(D); if (n < 0) c.skip(); c.note(p + " limit " + std::to_string(l) + " body " + std::to_string(n)); auto s = shape(c, p, std::size_t(n), true); bool pipe = c.flip(); if (pipe) c.note("+next");
  auto key = "body:" + c.notes(); std::vector<std::size_t> one; for (std::size_t k = 1; k < s.text.size(); ++k) one.push_back(k); auto lim = l < 0 ? optional<std::uint64_t>() : optional<std::uint64_t>(std::uint64_t(l)); bool within = l < 0 || n <= l; std::uint64_t cnt = 2; play(c, key + ":whole", p, lim, 8192, s, within, {}, pipe); if (!c.failed()) play(c, key + ":bytes", p, lim, 8192, s, within, one, pipe);
  for (std::size_t k = c.thorough() ? 1 : s.head - 3; k < s.text.size() && !c.failed(); ++k, ++cnt) play(c, key + ":" + std::to_string(k), p, lim, 8192, s, within, { k }, pipe); c.cases(cnt); c.observe(c.notes());
}
// limits around the read block, and the default
MC_SCENARIO_D("body-large", 2)
{
  std::string p = c.of(PATHS); static const long L[] = { 511, 512, 65535, 65536, 65537, 131072, 1048576 }; long l = c.of(L); static const long D[] = { 0, 1, -1, 65536 }; long n = l + c.of(D); c.note(p + " limit " + std::to_string(l) + " body " + std::to_string(n)); auto s = shape(c, p, std::size_t(n), false); bool within = n <= l; auto key = "body-large:" + c.notes(); std::vector<std::vector<std::size_t>> cs { {}, { s.head }, { s.head + std::size_t(l) - 1 }, { s.head, s.head + 65536 }, { s.head + 512 } }; std::uint64_t cnt = 0;
  for (auto& k : cs) { if (!k.empty() && k.back() >= s.text.size()) continue; if (l > 200000 && &k - cs.data() > 1) break; if (!c.failed()) play(c, key + ":" + std::to_string(&k - cs.data()), p, std::uint64_t(l), 8192, s, within, k, true); ++cnt; } c.cases(cnt); c.observe(c.notes());
}
// header limits: sizes around the limit, in one long field, many fields, or a long target; every way to split around the end
MC_SCENARIO_D("header", 2)
{
  static const int L[] = { 60, 128, 512, 600, 4096, 8192 }; int l = c.of(L); static const int D[] = { 0, -1, -2, -3, 40, 5000 }; int d = c.of(D); int n = d > 0 ? 2 * l + d : l + d; // Beast counts the request line and the fields separately
  int k = c.pick(3); c.note("limit " + std::to_string(l) + " header " + std::to_string(n) + " kind " + std::to_string(k)); std::string h = "POST /read HTTP/1.1\r\nContent-Length: 3\r\n", t; int fixed = int(h.size()) + 2; if (n < fixed + 8) c.skip();
  if (k == 0) { t = h + "X: " + std::string(std::size_t(n - fixed - 5), 'v') + "\r\n\r\n"; } else if (k == 1) { t = "POST /read?" + std::string(std::size_t(n - fixed - 1), 'q') + h.substr(10) + "\r\n"; } else { t = h; int rest = n - fixed; while (rest >= 14) { t += "F: v\r\n"; rest -= 6; } t += "X: " + std::string(std::size_t(rest - 5), 'v') + "\r\n\r\n"; }
  if (int(t.size()) != n) { c.fail("harness", "size " + std::to_string(t.size())); return; } Shape s { t + "abc", "abc", t.size() }; bool within = n <= l; auto key = "header:" + c.notes(); std::vector<std::vector<std::size_t>> cs { {}, { s.head - 1 }, { s.head - 2 }, { s.head - 4, s.head }, { 20 }, { std::size_t(l) < s.text.size() ? std::size_t(l) : 1 }, { std::size_t(l) - 1 < s.text.size() ? std::size_t(l) - 1 : 1 } }; if (n < 700) { std::vector<std::size_t> one; for (std::size_t i = 1; i < s.text.size(); ++i) one.push_back(i); cs.push_back(one); }
  for (auto& x : cs) if (!c.failed()) play(c, key + ":" + std::to_string(&x - cs.data()), "/read", 8192, std::uint32_t(l), s, within, x, within); c.cases(cs.size()); c.observe(c.notes());
}
// the limits apply to each request of a connection anew
MC_SCENARIO_D("again", 1)
{
  int l = 5; std::string t; int last = -1; RUNS = FULL = NEXT = 0; c.note("limit 5"); std::vector<int> ns; for (int i = 0; i < 4; ++i) { int n = 3 + c.pick(4); bool ch = c.flip(); ns.push_back(n); c.note(std::to_string(n) + (ch ? "c" : "")); auto b = fill(std::size_t(n)); t += "POST /read HTTP/1.1\r\n" + (ch ? "Transfer-Encoding: chunked\r\n\r\n" + std::to_string(n) + "\r\n" + b + "\r\n0\r\n\r\n" : "Content-Length: " + std::to_string(n) + "\r\n\r\n" + b); if (n > l) { last = i; break; } }
  vf::Wire w(server(optional<std::uint64_t>(std::uint64_t(l)), optional<std::uint32_t>(200))); auto cl = w.connect(); bool slow = c.flip(); if (slow) for (char ch : t) { cl.put({ &ch, 1 }); w.settle(cl); } else { cl.put(t); w.settle(cl); } auto a = vf::read_all(cl.in, cl.eof, {}); std::size_t good = last < 0 ? 4 : std::size_t(last); std::size_t ok = 0; for (auto& r : a.v) if (r.status == 200) ++ok; if (FULL != int(good) || ok != good) c.fail("again:" + c.notes(), std::to_string(FULL) + " bodies delivered, " + std::to_string(ok) + " successes, instead of " + std::to_string(good)); c.observe(c.notes());
}
MC_MAIN
