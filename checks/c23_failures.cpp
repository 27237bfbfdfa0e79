#include <fitoria/web/middleware/exception_handler.hpp>
#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
// where and what to throw; every place below asks at()
enum Point { none, entry, resumed, body_read, mw_before, mw_after, extractor, conversion, stream_sized, stream_first, stream_later, nested, POINTS };
static const char* PN[] = { "none", "entry", "resumed", "body-read", "mw-before", "mw-after", "extractor", "conversion", "sized-stream", "stream-first", "stream-later", "nested" };
enum Kind { runtime, system_, boost_, integer, bare, derived, KINDS };
static const char* KN[] = { "runtime_error", "system_error", "boost_error", "int", "struct", "derived" };
struct Bare { int x; }; struct Derived : std::exception { const char* what() const noexcept override { return "vf-fault derived"; } };
static int POINT, KIND, RUNS, OK; static bool ARMED; static std::string NAME;
static void at(int p)
{
  if (!ARMED || p != POINT) return; ARMED = false;
  switch (KIND) { case runtime: NAME = "vf-fault runtime"; throw std::runtime_error(NAME); case system_: { std::system_error e(make_error_code(std::errc::io_error), "vf-fault"); NAME = e.what(); throw e; } case boost_: { boost::system::system_error e(net::error::make_error_code(net::error::eof), "vf-fault"); NAME = e.what(); throw e; } case integer: NAME = "int 7"; throw 7; case bare: NAME = "?"; throw Bare { 1 }; default: NAME = "vf-fault derived"; throw Derived(); }
}
template <class Rq, class Rs, class Next> struct MwS { Next next; auto operator()(Rq req) const -> Rs { at(mw_before); auto r = co_await next(req); at(mw_after); co_return r; } };
struct Mw { template <class Rq, class Rs, decay_to<Mw> Self, class Next> friend auto tag_invoke(to_middleware_t<Rq, Rs>, Self&&, Next&& next) { return MwS<Rq, Rs, std::decay_t<Next>> { std::forward<Next>(next) }; } };
struct Ext { int v = 1; friend auto tag_invoke(from_request_t<Ext>, request&) -> awaitable<expected<Ext, response>> { at(extractor); co_return Ext {}; } };
struct Conv { friend auto tag_invoke(to_response_ns::to_response_t, Conv&&) -> response { at(conversion); return response::ok().set_body("conv"); } };
struct Src { using is_async_readable_stream = void; int k, n = 0; auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>> { if (k == 0) at(stream_sized); else if (n == 0) at(stream_first); else if (n == 1) at(stream_later); if (n++ < 2) { auto b = reinterpret_cast<const std::byte*>("ab"); co_return bytes(b, b + 2); } co_return nullopt; } };
static awaitable<int> deep(int n) { if (n == 0) { at(nested); co_return 1; } auto ex = co_await net::this_coro::executor; co_await net::post(ex, net::use_awaitable_t<executor_type> {}); co_return 1 + co_await deep(n - 1); }
template <class S> static auto routes(S s)
{
  return s.serve(route::post<"/h">([](request& r) -> awaitable<response> { ++RUNS; at(entry); co_await deep(3); auto ex = co_await net::this_coro::executor; co_await net::post(ex, net::use_awaitable_t<executor_type> {}); at(resumed); auto b = co_await async_read_until_eof<std::string>(r.body()); at(body_read); co_return response::ok().set_body("h " + (b ? *b : "!")); }))
    .serve(route::post<"/e">([](Ext, std::string b) -> awaitable<response> { ++RUNS; at(entry); co_return response::ok().set_body("e " + b); }))
    .serve(route::post<"/c">([](request&) -> awaitable<Conv> { ++RUNS; at(entry); co_return Conv {}; }))
    .serve(route::post<"/z">([](request&) -> awaitable<response> { ++RUNS; co_return response::ok().set_body(Src { 0 }); }))
    .serve(route::post<"/s">([](request&) -> awaitable<response> { ++RUNS; co_return response::ok().set_stream_body(Src { 1 }); }));
}
static auto server() { return [](auto& b) {
  b.serve(routes(scope<"/n">().use(Mw {}))); b.serve(routes(scope<"/o">().use(middleware::exception_handler {}).use(Mw {}))); b.serve(routes(scope<"/i">().use(Mw {}).use(middleware::exception_handler {})));
  b.serve(route::get<"/ok">([](request&) -> awaitable<response> { ++OK; co_return response::ok().set_body("fine"); })); }; }
static std::string post(const std::string& p) { return "POST " + p + " HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"; }
static std::string fine(const std::string& h, bool zs) { return h == "/h" ? "h abc" : h == "/e" ? "e abc" : h == "/c" ? "conv" : "abab"; }
static void settle(mc::Chooser& c, const std::string& key, vf::Wire& w, auto&... cs) { try { w.settle(cs...); } catch (...) { c.fail(key, "the exception leaves the event loop and would end the server"); } }
static void run(mc::Chooser& c, bool own)
{
  static const char* S[] = { "/n", "/o", "/i" }; static const char* H[] = { "/h", "/e", "/c", "/z", "/s" }; std::string s = c.of(S), h = c.of(H); POINT = c.pick(POINTS); KIND = POINT == none ? 0 : c.pick(KINDS); c.note(s + h + " " + PN[POINT] + " " + KN[KIND]);
  bool applies = POINT == none || POINT == mw_before || POINT == mw_after || (h == "/h" && (POINT == entry || POINT == resumed || POINT == body_read || POINT == nested)) || (h == "/e" && (POINT == entry || POINT == extractor)) || (h == "/c" && (POINT == entry || POINT == conversion)) || (h == "/z" && POINT == stream_sized) || (h == "/s" && (POINT == stream_first || POINT == stream_later)); if (!applies) c.skip();
  int before = c.pick(2), after = c.pick(2), split = c.pick(3); c.note((before ? "after-another " : "") + std::string(after ? "before-another " : "") + std::to_string(split)); auto key = "fault:" + c.notes() + (own ? "" : " default");
  RUNS = OK = 0; ARMED = false; NAME.clear(); vf::Wire w(server(), own); auto other = w.connect(), cl = w.connect(); other.put("GET /ok HT"); settle(c, key, w, other, cl); if (c.failed()) return;
  std::string t; if (before) t += "GET /ok HTTP/1.1\r\n\r\n"; auto at0 = t.size(); t += post(s + h); auto at1 = t.size(); if (after) t += "GET /ok HTTP/1.1\r\n\r\n"; ARMED = true;
  auto cut = split == 0 ? t.size() : split == 1 ? at1 - 1 : at0 + 7; cl.put(t.substr(0, cut)); settle(c, key, w, other, cl); if (c.failed()) return; cl.put(t.substr(cut)); settle(c, key, w, other, cl); if (c.failed()) return;
  bool fired = !ARMED; if (fired != (POINT != none)) { c.fail(key, "the faulty code did not run"); return; }
  bool stream = POINT >= stream_sized && POINT <= stream_later, std_ = KIND != integer && KIND != bare, inside = s == "/o" || (s == "/i" && POINT != mw_before && POINT != mw_after), caught = POINT != none && inside && std_ && !stream;
  auto a = vf::read_all(cl.in, cl.eof, { before ? "GET" : "POST", "POST", "GET" }); std::size_t i = before ? 1 : 0;
  if (before && (a.v.empty() || a.v[0].body != "fine")) { c.fail(key, "the request before is not answered"); return; }
  if (POINT == none || caught) {
    if (!a.err.empty() || a.v.size() != i + 1 + std::size_t(after)) { c.fail(key, "not answered properly: " + a.err); return; } auto& r = a.v[i]; if (caught ? r.status != 500 : r.status != 200 || r.body != fine(h, false)) { c.fail(key, "answer " + std::to_string(r.status) + " " + show(r.body)); return; }
    if (after && a.v[i + 1].body != "fine") { c.fail(key, "the request after is not answered"); return; } if (cl.eof) { c.fail(key, "the connection is closed"); return; } if (!w.escaped.empty()) { c.fail(key, "the exception handler is told although nothing escaped: " + w.escaped[0]); return; }
  } else {
    if (a.v.size() > i && (a.v[i].status < 400 || a.v.size() > i + 1)) { c.fail(key, "a failed request is answered with " + std::to_string(a.v[i].status)); return; } if (!cl.eof) { c.fail(key, "the client is left without an answer on an open connection"); return; }
    if (own) { int n = 0; for (auto& e : w.escaped) n += e == NAME; if (n != 1 || w.escaped.size() != 1) { std::string l; for (auto& e : w.escaped) l += "[" + e + "]"; c.fail(key, "the exception handler was told " + std::to_string(n) + " times: " + l); return; } }
  }
  OK = 0; other.put("TP/1.1\r\n\r\n"); settle(c, key, w, other, cl); auto o = vf::read_all(other.in, other.eof, { "GET" }); if (c.failed()) return; if (o.v.size() != 1 || o.v[0].body != "fine") { c.fail(key, "a connection open at the time is not served"); return; }
  auto late = w.connect(); late.put(post(s + h) + "GET /ok HTTP/1.1\r\n\r\n"); settle(c, key, w, late); auto l = vf::read_all(late.in, late.eof, { "POST", "GET" }); if (c.failed()) return; if (l.v.size() != 2 || l.v[0].status != 200 || l.v[0].body != fine(h, false) || l.v[1].body != "fine") { c.fail(key, "a later connection is not served"); return; } c.observe(c.notes());
}
MC_SCENARIO_D("faults", 3) { run(c, true); }
MC_SCENARIO_D("default-handler", 3) { run(c, false); }
// no route: 404 whatever the request, and the connection goes on
MC_SCENARIO_D("unrouted", 1)
{
  static const char* T[] = { "/", "/n", "/n/", "/n/hh", "/n/h/", "/x", "/o/h/x", "//", "/ok/", "/OK", "/n//h" }; static const char* M[] = { "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD" }; std::string t = c.of(T), m = c.of(M); bool wrong = c.flip(); if (wrong) { t = "/ok"; if (m == "GET") c.skip(); } c.note(m + " " + t); bool body = c.flip(); RUNS = OK = 0; ARMED = false;
  vf::Wire w(server()); auto cl = w.connect(); cl.put(m + " " + t + " HTTP/1.1\r\n" + (body ? "Content-Length: 3\r\n\r\nabc" : "\r\n") + "GET /ok HTTP/1.1\r\n\r\n"); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, { m, "GET" }); auto key = "unrouted:" + c.notes(); if (!a.err.empty() || a.v.size() != 2 || a.v[0].status != 404 || a.v[1].body != "fine") c.fail(key, "not a 404 followed by the next answer: " + show(cl.in.substr(0, 200))); if (RUNS) c.fail(key, "a handler ran"); if (!w.escaped.empty()) c.fail(key, "escaped " + w.escaped[0]); c.observe(c.notes());
}
// two faults on one server, every pair of kinds and points of one handler, one after the other and overlapping
MC_SCENARIO_D("twice", 2)
{
  static const int P[] = { entry, resumed, body_read, mw_before, mw_after, nested }; RUNS = OK = 0; vf::Wire w(server()); std::vector<std::string> names; int n = c.thorough() ? 3 : 2; bool overlap = c.flip(); std::vector<vf::Client> cls; cls.reserve(8); auto key = std::string("twice:");
  if (overlap) for (int i = 0; i < n; ++i) { cls.push_back(w.connect()); cls.back().put(post("/n/h").substr(0, 5 + std::size_t(i) * 20)); w.settle(cls.back()); }
  for (int i = 0; i < n; ++i) { POINT = c.of(P); KIND = c.pick(KINDS); c.note(std::string(PN[POINT]) + " " + KN[KIND]); ARMED = true; NAME.clear(); if (!overlap) cls.push_back(w.connect()); auto& cl = cls[std::size_t(i)]; auto t = post("/n/h"); cl.put(overlap ? t.substr(5 + std::size_t(i) * 20) : t); w.settle(cl); names.push_back(NAME); if (!cl.eof || !cl.in.empty()) { c.fail(key + c.notes(), "the failed request is answered or its connection stays open"); return; } }
  if (w.escaped != names) { std::string l; for (auto& e : w.escaped) l += "[" + e + "]"; c.fail(key + c.notes(), "the exception handler was told " + l); } auto late = w.connect(); late.put(post("/n/h")); w.settle(late); auto l = vf::read_all(late.in, late.eof, { "POST" }); if (l.v.size() != 1 || l.v[0].body != "h abc") c.fail(key + c.notes(), "the server no longer serves"); c.observe(c.notes());
}
MC_MAIN
