#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
static std::vector<std::string> LOG; // handlers that ran, with what they saw
static std::string fill(std::size_t n) { std::string s; while (s.size() < n) s += "GET /n HTTP/1.1\r\n\r\n"; s.resize(n); return s; } // bodies look like requests
struct Waste { using is_async_readable_stream = void; int n = 2; auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>> { if (n-- > 0) { auto b = reinterpret_cast<const std::byte*>("ab"); co_return bytes(b, b + 2); } co_return nullopt; } };
static auto server() { return [](auto& b) {
  b.serve(route::get<"/g">([](request&) -> awaitable<response> { LOG.push_back("g"); co_return response::ok().set_body("answer g"); }));
  b.serve(route::head<"/g">([](request&) -> awaitable<response> { LOG.push_back("hg"); co_return response::ok().set_body("answer g"); }));
  b.serve(route::any<"/n">([](request&) -> awaitable<response> { LOG.push_back("n"); co_return response::no_content().build(); }));
  b.serve(route::post<"/read">([](request& r) -> awaitable<response> { auto d = co_await async_read_until_eof<std::string>(r.body()); LOG.push_back("read " + (d ? *d : "!")); co_return response::ok().set_body("read " + (d ? *d : "!")); }));
  b.serve(route::post<"/skip">([](request&) -> awaitable<response> { LOG.push_back("skip"); co_return response::ok().set_body("answer skip"); }));
  b.serve(route::post<"/some">([](request& r) -> awaitable<response> { auto d = co_await r.body().async_read_some(); LOG.push_back("some"); (void)d; co_return response::ok().set_body("answer some"); }));
  b.serve(route::post<"/echo">([](request& r) -> awaitable<response> { LOG.push_back("echo"); co_return response::ok().set_stream_body(std::move(r.body())); }));
  b.serve(route::get<"/stream">([](request&) -> awaitable<response> { LOG.push_back("stream"); co_return response::ok().set_stream_body(Waste {}); }));
  b.serve(route::get<"/later">([](request&) -> awaitable<response> { auto ex = co_await net::this_coro::executor; co_await net::post(ex, net::use_awaitable_t<executor_type> {}); LOG.push_back("later"); co_return response::ok().set_body("answer later"); }));
  b.set_request_body_limit(nullopt); }; }
struct Item { const char* name; std::string text, method; int status; std::string body; std::string log; int close; bool interim = false; }; // close: 0 stays, 1 after the answer, 2 no proper answer needed
static std::vector<Item> items()
{
  auto sized = [](std::string p, std::string b, std::string h = "") { return "POST " + p + " HTTP/1.1\r\n" + h + "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; };
  auto chunked = [](std::string p, std::vector<std::string> v) { std::string t = "POST " + p + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"; char x[32]; for (auto& s : v) { std::snprintf(x, sizeof x, "%zx\r\n", s.size()); t += x + s + "\r\n"; } return t + "0\r\n\r\n"; };
  auto b = fill(19);
  return {
    { "get", "GET /g HTTP/1.1\r\n\r\n", "GET", 200, "answer g", "g", 0 }, { "read", sized("/read", b), "POST", 200, "read " + b, "read " + b, 0 }, { "skip", sized("/skip", b), "POST", 200, "answer skip", "skip", 0 }, { "skip-chunked", chunked("/skip", { b, "x" }), "POST", 200, "answer skip", "skip", 0 },
    { "head", "HEAD /g HTTP/1.1\r\n\r\n", "HEAD", 200, "", "hg", 0 }, { "none", "GET /nope HTTP/1.1\r\n\r\n", "GET", 404, "?", "", 0 }, { "none-body", sized("/nope", b), "POST", 404, "?", "", 0 }, { "close", "GET /g HTTP/1.1\r\nConnection: close\r\n\r\n", "GET", 200, "answer g", "g", 1 },
    { "no-content", "GET /n HTTP/1.1\r\n\r\n", "GET", 204, "", "n", 0 }, { "echo", chunked("/echo", { "ab", b }), "POST", 200, "ab" + b, "echo", 0 }, { "stream", "GET /stream HTTP/1.1\r\n\r\n", "GET", 200, "abab", "stream", 0 }, { "bad", "BAD\r\n\r\n", "GET", 0, "", "", 2 },
    { "v10", "GET /g HTTP/1.0\r\n\r\n", "GET", 200, "answer g", "g", 1 }, { "v10-keep", "GET /g HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "GET", 200, "answer g", "g", 0 }, { "some", sized("/some", b), "POST", 200, "answer some", "some", 0 }, { "expect", sized("/read", b, "Expect: 100-continue\r\n"), "POST", 200, "read " + b, "read " + b, 0, true }, { "expect-skip", sized("/skip", b, "Expect: 100-continue\r\n"), "POST", 200, "answer skip", "skip", 0, true },
    { "target", "GET /%zz HTTP/1.1\r\n\r\n", "GET", 400, "?", "", 0 }, { "read-chunked", chunked("/read", { "a", b }), "POST", 200, "read a" + b, "read a" + b, 0 }, { "later", "GET /later HTTP/1.1\r\n\r\n", "GET", 200, "answer later", "later", 0 }, { "echo-sized", sized("/echo", b), "POST", 200, b, "echo", 0 },
    { "close-skip", sized("/skip", b, "Connection: close\r\n"), "POST", 200, "answer skip", "skip", 1 }, { "bad-body", "POST /read HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nGET /g HTTP/1.1\r\n\r\n", "POST", 0, "", "read !", 3 }, { "bad-skip", "POST /skip HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nGET /g HTTP/1.1\r\n\r\n", "POST", 200, "answer skip", "skip", 4 } };
}
static void decide(mc::Chooser& c, const std::string& key, const std::vector<const Item*>& seq, vf::Client& cl, bool ended)
{
  std::vector<std::string> log, methods; std::vector<const Item*> due; bool closed = ended, open_answer = false;
  for (auto i : seq) { if (!i->log.empty()) log.push_back(i->log); if (i->close != 2) { due.push_back(i); methods.push_back(i->method); } if (i->close) { closed = true; open_answer = i->close >= 2; break; } }
  std::string ls, ld; for (auto& s : LOG) ls += "[" + s + "]"; for (auto& s : log) ld += "[" + s + "]"; if (ls != ld) { c.fail(key, "handlers ran as " + show(ls) + " instead of " + show(ld)); return; }
  auto a = vf::read_all(cl.in, cl.eof, methods); std::size_t least = due.size();
  if (!due.empty() && due.back()->close >= 3) --least; // after a broken body an answer may or may not make it
  if (!a.err.empty()) { c.fail(key, "garbled answers: " + a.err + ": " + show(cl.in.substr(a.used, 120))); return; }
  if (a.v.size() < least || a.v.size() > due.size() + (open_answer ? 1 : 0)) { c.fail(key, std::to_string(a.v.size()) + " answers to " + std::to_string(due.size()) + " requests"); return; }
  for (std::size_t i = 0; i < a.v.size(); ++i) { if (i >= due.size()) { if (a.v[i].status < 400) c.fail(key, "a malformed request is answered with " + std::to_string(a.v[i].status)); continue; } auto d = due[i]; if (d->status && (a.v[i].status != d->status || (d->body != "?" && a.v[i].body != d->body))) { c.fail(key, "answer " + std::to_string(i) + " (" + d->name + ") is " + std::to_string(a.v[i].status) + " " + show(a.v[i].body.substr(0, 60))); return; } }
  if (closed && !cl.eof) { c.fail(key, "the connection stays open"); return; }
  if (!closed && cl.eof) { c.fail(key, "the connection is closed although it may stay open"); return; }
}
static void play(mc::Chooser& c, const std::string& key, const std::vector<const Item*>& seq, const std::vector<std::size_t>& cuts, int end)
{
  LOG.clear(); vf::Wire w(server()); auto cl = w.connect(); std::string t; for (auto i : seq) t += i->text; std::size_t at = 0;
  for (auto k : cuts) { cl.put(std::string_view(t).substr(at, k - at)); w.settle(cl); at = k; } cl.put(std::string_view(t).substr(at)); if (end != 1) w.settle(cl); if (end) { cl.half_close(); w.settle(cl); } decide(c, key, seq, cl, end != 0);
}
static std::vector<Item> ALL = items();
static std::vector<const Item*> pick(mc::Chooser& c, int n, int pool) { std::vector<const Item*> s; for (int k = 0; k < n; ++k) { auto& i = ALL[std::size_t(c.pick(pool))]; s.push_back(&i); c.note(i.name); if (i.close) break; } return s; }
// sequences of up to four requests: in one piece, one at a time, and byte by byte; left open or ended
MC_SCENARIO_D("sequences", 2)
{
  int n = c.thorough() ? 4 : 3; auto s = pick(c, n, n == 3 ? int(ALL.size()) : 16); if (c.thorough() == false && s.size() < 3 && !s.back()->close) c.skip(); std::size_t tot = 0; std::vector<std::size_t> each, one; for (auto i : s) { tot += i->text.size(); each.push_back(tot); } each.pop_back(); for (std::size_t k = 1; k < tot; ++k) one.push_back(k);
  auto key = "pipeline:" + c.notes(); for (int end = 0; end < 3 && !c.failed(); ++end) play(c, key + ":whole" + std::to_string(end), s, {}, end); if (!c.failed()) play(c, key + ":each", s, each, 2); if (!c.failed() && (c.thorough() || s.size() < 3 || (s[0] != s[1] && s[1] != s[2]))) play(c, key + ":bytes", s, one, 0); c.cases(5); c.observe(c.notes());
}
// pairs of requests, cut in two at every byte
MC_SCENARIO_D("cuts", 2)
{
  auto s = pick(c, 2, int(ALL.size())); std::size_t tot = 0; for (auto i : s) tot += i->text.size(); auto key = "cut:" + c.notes(); for (std::size_t k = 1; k < tot && !c.failed(); ++k) play(c, key + ":" + std::to_string(k), s, { k }, k % 3); c.cases(tot - 1); c.observe(c.notes());
}
// the second request cut in three around the end of the first
MC_SCENARIO_D("around", 2)
{
  auto s = pick(c, 2, int(ALL.size())); if (s.size() < 2) c.skip(); auto first = s[0]->text.size(); auto key = "around:" + c.notes(); std::uint64_t n = 0; for (std::size_t a = first - 6; a <= first + 2; ++a) for (std::size_t b = a + 1; b <= first + 6 && !c.failed(); ++b) { play(c, key + ":" + std::to_string(a) + "," + std::to_string(b), s, { a, b }, 0); ++n; } c.cases(n); c.observe(c.notes());
}
// a large unread or half read body, then another request
MC_SCENARIO_D("large", 1)
{
  static const char* P[] = { "/skip", "/some", "/read", "/echo", "/nope" }; static const std::size_t N[] = { 65535, 65536, 65537, 300000 }; std::string p = c.of(P); auto b = fill(c.of(N)); bool ch = c.flip(); c.note(p + " " + std::to_string(b.size()) + (ch ? " chunked" : "")); char x[32]; std::snprintf(x, sizeof x, "%zx\r\n", b.size());
  Item i { "large", "POST " + p + " HTTP/1.1\r\n" + (ch ? "Transfer-Encoding: chunked\r\n\r\n" + (x + b) + "\r\n0\r\n\r\n" : "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b), "POST", p == "/nope" ? 404 : 200, p == "/nope" ? "?" : p == "/read" ? "read " + b : p == "/echo" ? b : "answer " + p.substr(1), p == "/nope" ? "" : p == "/read" ? "read " + b : p.substr(1), 0 };
  auto head = i.text.find("\r\n\r\n") + 4; static const std::size_t CUT[] = { 0, 1, 65535, 65536, 65537 }; int k = c.pick(6); std::vector<std::size_t> cuts; if (k < 5) { if (head + CUT[k] >= i.text.size()) c.skip(); cuts.push_back(head + CUT[k]); } c.note(std::to_string(k)); play(c, "large:" + c.notes(), { &i, &ALL[0], &ALL[1] }, cuts, 2); c.observe(c.notes());
}
MC_MAIN
