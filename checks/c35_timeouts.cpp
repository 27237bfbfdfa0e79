#include "mc.hpp"
#include "wire.hpp"
#include <fitoria/web/scope.hpp>
#include <fitoria/web/websocket.hpp>
using namespace fitoria; using namespace fitoria::web; using mc::show; using S = std::string;
using Clock = std::chrono::steady_clock; using Ticks = std::chrono::milliseconds;
// ---- time is a variable: the clock reads it, and it moves only when the exploration says so ----
static long long NOW = 1000000; // milliseconds
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(milliseconds(NOW)); } } }
extern "C" int timerfd_create(int, int) { errno = ENOSYS; return -1; } // timers are then looked at on every poll
static constexpr int U = 1000; // one unit of time; moves are made in half units, so nothing is skipped
template <class... C> static void pass(vf::Wire& w, int units, C&... cs) { for (int i = 0; i < 2 * units; ++i) { NOW += U / 2; w.settle(cs...); } }
static std::vector<S> LOG;
static auto nap(int ms) -> awaitable<void> { auto ex = co_await net::this_coro::executor; boost::asio::steady_timer t(ex, Ticks(ms)); boost::system::error_code ec; co_await t.async_wait(boost::asio::redirect_error(boost::asio::use_awaitable_t<executor_type> {}, ec)); }
static auto server(optional<int> limit, bool set = true) { return [=](auto& b) {
  if (set) { if (limit) b.set_request_timeout(Ticks(*limit * U)); else b.set_request_timeout(nullopt); }
  b.serve(route::any<"/get">([](request&) -> awaitable<response> { LOG.push_back("get"); co_return response::ok().set_body("got"); }));
  b.serve(route::any<"/body">([](request& r) -> awaitable<response> { LOG.push_back("body"); S s; for (;;) { auto d = co_await r.body().async_read_some(); if (!d) break; if (!*d) { LOG.push_back("cut"); co_return response::bad_request().set_body("cut"); } s.append(reinterpret_cast<const char*>((*d)->data()), (*d)->size()); } LOG.push_back("all:" + s); co_return response::ok().set_body("took " + s); }));
  b.serve(route::any<"/nap">([](request&) -> awaitable<response> { LOG.push_back("nap"); co_await nap(7 * U / 2); co_return response::ok().set_body("napped"); }));
  b.serve(route::any<"/long">([](request&) -> awaitable<response> { LOG.push_back("long"); co_await nap(25 * U / 2); co_return response::ok().set_body("awake"); }));
  b.serve(route::any<"/big">([](request&) -> awaitable<response> { LOG.push_back("big"); co_return response::ok().set_body(S(4 << 20, 'B')); }));
  b.serve(route::any<"/drip">([](request&) -> awaitable<response> { LOG.push_back("drip"); struct D { using is_async_readable_stream = void; int n = 0; auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>> { if (n++ == 2) co_return nullopt; if (n == 2) co_await nap(7 * U / 2); co_return bytes(1, std::byte('d')); } }; co_return response::ok().set_stream_body(D {}); }));
}; }
struct Unit { const char* name; std::vector<S> pieces; S whole; int answers = -1; }; // answers: the piece after which the answer is due, the last one if negative
static const std::vector<Unit>& units()
{
  auto post = [](S path, S cl) { return "POST " + path + " HTTP/1.1\r\n" + cl + "\r\n\r\n"; };
  static std::vector<Unit> v = [&] { std::vector<Unit> u { { "get", { "GET /get HTTP/1.1\r\nA", ": b\r\n\r\n" }, "" }, { "body", { post("/body", "Content-Length: 6"), "abc", "def" }, "" }, { "chunked", { post("/body", "Transfer-Encoding: chunked"), "2\r\nxy\r\n", "0\r\n\r\n" }, "" }, { "unread", { post("/get", "Content-Length: 4") + "ab", "cd" }, "", 0 }, { "nap", { "GET /nap HTTP/1.1\r\n\r\n" }, "" }, { "none", { "POST /nowhere HTTP/1.1\r\nContent-Length: 3\r\n\r\n", "xyz" }, "", 0 }, { "drip", { "GET /drip HTTP/1.1\r\n", "\r\n" }, "" } }; for (auto& x : u) for (auto& p : x.pieces) x.whole += p; return u; }();
  return v;
}
// what a unit answers, and says in the log, when time stands still as far as it can
struct Alone { S in; std::vector<S> log; };
static const Alone& alone(int k) { auto keep = std::exchange(vf::keep_default_limits, false); struct Back { bool v; ~Back() { vf::keep_default_limits = v; } } back { keep }; static std::map<int, Alone> memo; auto [it, fresh] = memo.try_emplace(k); if (!fresh) return it->second; LOG.clear(); vf::Wire w(server(nullopt)); auto c = w.connect(); c.put(units()[std::size_t(k)].whole); w.settle(c); pass(w, 8, c); it->second = { c.in, LOG }; LOG.clear(); return it->second; }
static int takes(int k) { auto n = S(units()[std::size_t(k)].name); return n == "nap" || n == "drip" ? 7 * U / 2 : 0; }
static S joined(const std::vector<S>& v) { S o; for (auto& x : v) o += x + "|"; return o; }
// The connection's own reference: which bytes came, and when the server gives up
struct Ref {
  std::vector<int> ks; long long limit; // 0: none
  std::size_t unit = 0, piece = 0; long long deadline = 0, busy = 0; S in; bool closed = false; std::vector<S> log; std::vector<S> queue;
  void start() { deadline = limit ? NOW + limit : 0; }
  // the moments inside an advance at which something happens
  void until(long long t) { for (;;) { long long ev = 0; if (!closed && busy && busy <= t) ev = busy; else if (!closed && !busy && deadline && deadline <= t) ev = deadline; if (!ev) return; auto keep = NOW; NOW = ev; if (busy) { busy = 0; finish(); feed(); } else closed = true; NOW = keep; } }
  void finish() { if (units()[std::size_t(ks[unit])].answers < 0) in += alone(ks[unit]).in; log.insert(log.end(), alone(ks[unit]).log.begin(), alone(ks[unit]).log.end()); ++unit; piece = 0; start(); }
  void send(S s) { if (closed) return; queue.push_back(std::move(s)); feed(); }
  void feed() { while (!closed && !busy && !queue.empty() && unit < ks.size()) { queue.erase(queue.begin()); auto& u = units()[std::size_t(ks[unit])]; if (int(piece) == u.answers) in += alone(ks[unit]).in; if (++piece == u.pieces.size()) { if (takes(ks[unit])) busy = NOW + takes(ks[unit]); else finish(); } } }
};
static bool prefix(const S& a, const S& b) { return b.compare(0, a.size(), a) == 0; }
static void one(mc::Chooser& c, optional<int> limit, int n, int ticks, int joins, bool set = true)
{
  int nu = int(units().size()); std::vector<int> ks; for (int i = 0; i < n; ++i) ks.push_back(c.pick(nu)); for (int k : ks) alone(k);
  LOG.clear(); Ref r; r.ks = ks; r.limit = limit ? *limit * U : 0; { vf::Wire w(server(limit, set)); auto cl = w.connect(); r.start(); std::vector<S> all; for (int k : ks) { c.note(units()[std::size_t(k)].name); for (auto& p : units()[std::size_t(k)].pieces) all.push_back(p); }
    S order; std::size_t at = 0; bool bad = false; auto check = [&](const char* when) { if (bad) return; S got; if (cl.in != r.in && !(prefix(r.in, cl.in) && r.busy)) got = "received " + show(cl.in.substr(0, 300)) + " instead of " + show(r.in.substr(0, 300)); else if (cl.eof != r.closed) got = r.closed ? "the connection is still open although its time is over" : "the connection was ended before its time"; if (!got.empty()) { bad = true; c.fail("time:" + std::to_string(limit ? *limit : 0) + ":" + c.notes() + ":" + order, S(when) + ": " + got); } };
    for (;;) { std::vector<char> can; if (at < all.size()) can.push_back('s'); if (joins && at + 1 < all.size()) can.push_back('j'); if (ticks) { can.push_back('4'); can.push_back('7'); if (at >= all.size()) can.push_back('.'); } if (can.empty()) break; char what = can[std::size_t(can.size() == 1 ? 0 : c.pick(int(can.size())))]; if (what == '.') break; order += what;
      if (what == 's') { r.send(all[at]); cl.put(all[at++]); w.settle(cl); } else if (what == 'j') { --joins; r.send(all[at]); r.send(all[at + 1]); cl.put(all[at] + all[at + 1]); at += 2; w.settle(cl); } else { int d = what - '0'; --ticks; r.until(NOW + d * U); pass(w, d, cl); } check("on the way"); if (bad) break; }
    c.note(order); // silence at the end: the server gives up on time and not sooner
    if (!bad && limit) for (int i = 0; i < 2 * (*limit + 8) && !bad; ++i) { r.until(NOW + U / 2); NOW += U / 2; w.settle(cl); check("in the silence at the end"); } else if (!bad) { r.until(NOW + 20 * U); pass(w, 20, cl); r.until(NOW + 100000LL * U); NOW += 100000LL * U; w.settle(cl); w.settle(cl); check("after a very long time"); }
    // a body that was cut off is never taken for a whole one
    std::vector<S> whole, want; for (auto& x : LOG) if (prefix("all:", x)) whole.push_back(x); for (auto& x : r.log) if (prefix("all:", x)) want.push_back(x); if (!bad && whole != want) c.fail("body:" + std::to_string(limit ? *limit : 0) + ":" + c.notes(), "handlers took " + joined(whole) + " for whole bodies instead of " + joined(want));
    c.observe(c.notes()); }
}
// ---- several connections share the server and the clock, and nothing else ----
static void several(mc::Chooser& c, std::vector<int> pool, int ticks)
{
  constexpr int n = 2; std::vector<Ref> r(n); std::vector<std::vector<S>> todo(n); for (int i = 0; i < n; ++i) { int k = pool[std::size_t(c.pick(int(pool.size())))]; alone(k); r[std::size_t(i)].ks = { k }; r[std::size_t(i)].limit = 10 * U; todo[std::size_t(i)] = units()[std::size_t(k)].pieces; c.note(units()[std::size_t(k)].name); }
  LOG.clear(); vf::Wire w(server(10)); std::vector<vf::Client> cl(n); std::vector<std::size_t> at(n, 0); std::vector<bool> open(n, false); S order; bool bad = false;
  auto settle = [&] { w.settle(cl[0], cl[1]); }; auto check = [&](const char* when) { for (std::size_t i = 0; i < n && !bad; ++i) { auto& x = r[i]; auto& y = cl[i]; S got; if (!open[i]) continue; if (y.in != x.in && !(prefix(x.in, y.in) && x.busy)) got = "received " + show(y.in.substr(0, 300)) + " instead of " + show(x.in.substr(0, 300)); else if (y.eof != x.closed) got = x.closed ? "is still open although its time is over" : "was ended before its time"; if (!got.empty()) { bad = true; c.fail("shared time:" + c.notes() + ":" + order, S(when) + ": connection " + std::to_string(i) + " " + got); } } };
  auto tick = [&](int halves) { for (int k = 0; k < halves; ++k) { for (std::size_t i = 0; i < n; ++i) if (open[i]) r[i].until(NOW + U / 2); NOW += U / 2; settle(); } };
  while (!bad) { std::vector<int> can; for (int i = 0; i < n; ++i) if (!open[std::size_t(i)] || at[std::size_t(i)] < todo[std::size_t(i)].size()) can.push_back(i); bool sends = !can.empty(); if (!sends && !ticks) break; if (ticks) { can.push_back(2); can.push_back(3); if (!sends) can.push_back(4); } int a = can[std::size_t(c.pick(int(can.size())))]; if (a == 4) break;
    if (a < 2) { auto i = std::size_t(a); order += a ? 'b' : 'a'; if (!open[i]) { cl[i] = w.connect(); open[i] = true; r[i].start(); } else { r[i].send(todo[i][at[i]]); cl[i].put(todo[i][at[i]++]); } settle(); } else { order += a == 2 ? '4' : '7'; --ticks; tick(a == 2 ? 8 : 14); } check("on the way"); }
  c.note(order); for (int i = 0; i < 36 && !bad; ++i) { tick(1); check("in the silence at the end"); } c.observe(c.notes());
}
// ---- the limit covers reading the answer, too ----
static void big(mc::Chooser& c)
{
  const S head = "HTTP/1.1 200 OK\r\nContent-Length: 4194304\r\n\r\n"; S want = head + S(4 << 20, 'B'); vf::Wire w(server(10)); auto cl = w.connect(); long long deadline = NOW + 10 * U; bool sent = false, read = false, late = false; int ticks = 3; S order;
  while (ticks || !sent || !read) { std::vector<char> can; if (!sent) can.push_back('s'); else if (!read) can.push_back('r'); if (ticks) { can.push_back('4'); can.push_back('7'); if (sent && read) can.push_back('.'); } char a = can[std::size_t(c.pick(int(can.size())))]; if (a == '.') break; order += a; if (a == 's') { sent = true; if (NOW < deadline) { cl.put("GET /big HTTP/1.1\r\n\r\n"); w.settle(); } else late = true; } else if (a == 'r') { if (NOW >= deadline) late = true; w.settle(cl); read = true; if (!late) deadline = NOW + 10 * U; } else { --ticks; for (int i = 0; i < (a == '4' ? 8 : 14); ++i) { NOW += U / 2; if (sent && !read) w.settle(); else w.settle(cl); } } if (sent && read && NOW >= deadline && !cl.eof) { c.fail("answer:" + order + ":open", "the connection stays open beyond its time"); break; } }
  c.note(order); auto key = "answer:" + order; if (late) { if (!prefix(cl.in, want) || cl.in.size() >= want.size() + 0) c.fail(key, cl.in.size() > want.size() ? "more was sent than the answer" : "an answer that nobody read in time was sent in full, or is wrong (" + std::to_string(cl.in.size()) + " bytes)"); else if (!cl.eof) c.fail(key, "the connection stays open although the answer was not read in time"); } else if (cl.in != want) c.fail(key, "an answer read in time arrived wrong or in part: " + std::to_string(cl.in.size()) + " bytes of " + std::to_string(want.size())); c.observe(c.notes());
}
// ---- a handler that works longer than the limit: answered or cut off, but nothing in between and nothing for others ----
static void overlong(mc::Chooser& c)
{
  static const S A = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nawake", G = "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\ngot"; bool more = c.flip(); int before = c.pick(3) * 3, when = c.pick(4) * 4; bool other = c.flip(); c.note(std::to_string(before) + (more ? " more" : "") + (other ? " other" : "") + std::to_string(when));
  vf::Wire w(server(10)); auto cl = w.connect(); pass(w, before, cl); cl.put(S("GET /long HTTP/1.1\r\n\r\n") + (more ? "GET /get HTTP/1.1\r\n\r\n" : "")); w.settle(cl); pass(w, when, cl); vf::Client b; if (other) { b = w.connect(); b.put("GET /get HTTP/1.1\r\n\r\n"); w.settle(b, cl); if (b.in != G || b.eof) c.fail("overlong:" + c.notes(), "another connection received " + show(b.in)); } S all = A + (more ? G : S()); for (int i = 0; i < 60; ++i) { NOW += U / 2; if (other) w.settle(b, cl); else w.settle(cl); if (!prefix(cl.in, all) || (cl.in.size() && cl.in.size() < A.size()) || (cl.in.size() > A.size() && cl.in.size() < all.size())) { c.fail("overlong:" + c.notes(), "received " + show(cl.in)); break; } } if (!cl.eof) c.fail("overlong:" + c.notes() + ":open", "the connection is never given up"); c.observe(c.notes() + show(cl.in));
}
// ---- sockets: the request's limit ends with the upgrade, the socket's own limits begin ----
static S frame(int op, std::string_view p, bool fin = true) { S o; o += char((fin ? 0x80 : 0) | op); o += char(0x80 | int(p.size())); o += S(4, '\0'); return o + S(p); }
static std::vector<S> frames(std::string_view s) { std::vector<S> v; while (s.size() >= 2) { std::size_t n = (unsigned char)s[1] & 127; if (n > 125 || s.size() < 2 + n) { v.push_back("?"); break; } v.push_back(std::to_string((unsigned char)s[0] & 15) + ":" + S(s.substr(2, n))); s.remove_prefix(2 + n); } if (s.size() == 1) v.push_back("?"); return v; }
struct Opt { bool set = false; optional<int> v; };
static auto sockets(Opt idle, Opt hs, bool pings) { return [=](auto& b) { b.set_request_timeout(Ticks(10 * U)); b.serve(route::get<"/ws">([=](websocket ws) -> awaitable<response> {
    if (idle.set) { if (idle.v) ws.set_idle_timeout(Ticks(*idle.v * U)); else ws.set_idle_timeout(nullopt); } if (hs.set) { if (hs.v) ws.set_handshake_timeout(Ticks(*hs.v * U)); else ws.set_handshake_timeout(nullopt); } ws.set_keep_alive_pings(pings);
    co_return ws.set_handler([](websocket::context& x) -> awaitable<void> { for (;;) { auto m = co_await x.async_read(); if (!m) { LOG.push_back("E"); break; } if (auto t = std::get_if<websocket::text_t>(&*m)) { LOG.push_back("T:" + t->value); if (t->value == "bye") { auto r = co_await x.async_close(websocket::close_code::normal); LOG.push_back(r ? "closed" : "close failed"); break; } (void)co_await x.async_write_text(t->value); } else { LOG.push_back("C"); break; } } }); })); }; }
static const S UP = "GET /ws HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
static S after_head(const S& in) { auto p = in.find("\r\n\r\n"); return p == S::npos ? "" : in.substr(p + 4); }
static void idle(mc::Chooser& c)
{
  int kind = c.pick(3); bool pings = kind == 1; Opt limit { true, kind == 2 ? optional<int>() : optional<int>(10) }; int before = c.pick(2) * 7; c.note(kind == 0 ? "idle 10" : kind == 1 ? "idle 10 with pings" : "no idle limit"); if (before) c.note("late upgrade"); int steps = c.thorough() ? 6 : 5; S order; LOG.clear();
  vf::Wire w(sockets(limit, { true, 6 }, pings)); auto cl = w.connect(); pass(w, before, cl); cl.put(UP); w.settle(cl); long long msg = NOW, any = NOW; std::vector<S> sent; std::size_t pongs = 0; bool ended = false, bad = false;
  auto check = [&] { if (bad) return; S got; bool must_close = limit.v && NOW - any >= 10 * U, must_open = !limit.v || (pings ? NOW - any < 5 * U : NOW - msg < 10 * U); if (must_close && !cl.eof) got = "the socket is still open although its client has been silent for the idle limit"; if (must_open && cl.eof) got = "the socket was ended although its client was not silent for long"; if (!got.empty()) { bad = true; c.fail("idle:" + c.notes() + ":" + order, got); } if (cl.eof) ended = true; };
  check(); for (int i = 0; i < steps && !bad && !ended; ++i) { int a = c.pick(6); order += "mpo24."[a]; if (a == 5) break; auto id = std::to_string(i); if (a == 0) { cl.put(frame(1, id)); sent.push_back(id); w.settle(cl); msg = any = NOW; } else if (a == 1) { cl.put(frame(9, id)); w.settle(cl); any = NOW; } else if (a == 2) { auto f = frames(after_head(cl.in)); std::size_t pi = 0; for (auto& x : f) if (x[0] == '9' && pi++ >= pongs) cl.put(frame(10, x.substr(2))); if (pi > pongs) any = NOW; else { cl.put(frame(10, "")); any = NOW; } pongs = pi; w.settle(cl); } else for (int k = 0; k < (a == 3 ? 4 : 8) && !bad; ++k) { NOW += U / 2; w.settle(cl); check(); } check(); }
  c.note(order); // the answers
  if (limit.v) { bool pinged = false; for (auto& f : frames(after_head(cl.in))) pinged |= prefix("9:", f); if (pinged && !pings && !bad) { bad = true; c.fail("idle pings:" + c.notes(), "the server sends pings although they are off"); } if (!pinged && pings && cl.eof && !bad) { bad = true; c.fail("idle pings:" + c.notes(), "the socket was ended without a ping"); } }
  std::vector<S> echoed, seen; for (auto& f : frames(after_head(cl.in))) { if (prefix("1:", f)) echoed.push_back(f.substr(2)); else if (f[0] != '9' && f[0] != ':' && f.substr(0, 2) != "10" && f[0] != '8') { if (!bad) c.fail("idle frames:" + c.notes(), "unexpected frame " + show(f)); bad = true; } } for (auto& x : LOG) if (x[0] == 'T') seen.push_back(x.substr(2)); if (!bad && (echoed != sent || seen != sent)) c.fail("idle answers:" + c.notes(), "sent " + joined(sent) + ", the handler saw " + joined(seen) + ", echoed " + joined(echoed));
  if (!bad && limit.v) { for (int k = 0; k < 24 && !bad; ++k) { NOW += U / 2; w.settle(cl); check(); } if (!bad && std::count(LOG.begin(), LOG.end(), "E") != 1) c.fail("idle report:" + c.notes(), "the handler was told " + joined(LOG)); } else if (!bad) { NOW += 100000LL * U; w.settle(cl); w.settle(cl); check(); cl.put(frame(1, "z")); w.settle(cl); if (!bad && (LOG.empty() || LOG.back() != "T:z")) c.fail("idle long:" + c.notes(), "the socket does not answer after a long silence"); cl.half_close(); w.settle(cl); }
  c.observe(c.notes());
}
static void closing(mc::Chooser& c)
{
  bool none = c.flip(); Opt hs { true, none ? optional<int>() : optional<int>(6) }; int before = c.pick(3) * 8, answer = c.pick(4); int wait = c.pick(3) * 4; c.note((none ? "no limit " : "limit ") + std::to_string(before) + "/" + std::to_string(answer) + "/" + std::to_string(wait)); LOG.clear(); auto key = "closing:" + c.notes();
  // answer: 0 silence, 1 the close in return, 2 messages and then the close in return, 3 messages only
  vf::Wire w(sockets({ true, nullopt }, hs, false)); auto cl = w.connect(); cl.put(UP); w.settle(cl); pass(w, before, cl); cl.put(frame(1, "bye")); w.settle(cl); if (cl.eof) { c.fail(key, "the socket ended early"); return; } bool sent_close = false; for (auto& f : frames(after_head(cl.in))) sent_close |= f[0] == '8'; if (!sent_close) { c.fail(key, "no close frame was sent"); return; }
  for (int k = 0; k < 2 * wait; ++k) { NOW += U / 2; w.settle(cl); } bool over = !none && wait >= 6; if (cl.eof != over) { c.fail(key, over ? "the socket is still open beyond the limit for closing" : "the socket was ended before the limit for closing"); return; } if (over) { if (LOG.back() != "close failed") c.fail(key, "the handler was told " + joined(LOG)); c.observe(c.notes()); return; }
  if (answer >= 2) { cl.put(frame(1, "more") + frame(2, "and more")); w.settle(cl); } if (answer == 1 || answer == 2) { cl.put(frame(8, "\x03\xe8")); cl.half_close(); w.settle(cl); if (LOG.back() != "closed") c.fail(key, "after the close in return the handler was told " + joined(LOG)); c.observe(c.notes()); return; }
  for (int k = 0; k < 24; ++k) { NOW += U / 2; w.settle(cl); } if (none ? LOG.back() != "T:bye" || cl.eof : LOG.back() != "close failed" || !cl.eof) c.fail(key, "in silence: the handler was told " + joined(LOG) + (cl.eof ? ", ended" : ", open")); cl.half_close(); w.settle(cl); c.observe(c.notes());
}
static void settings(mc::Chooser& c)
{
  auto show_opt = [](auto const& o) { return o ? std::to_string(std::chrono::duration_cast<Ticks>(*o).count()) : S("none"); }; optional<Ticks> vals[] = { nullopt, Ticks(1), Ticks(1500), Ticks(5000), Ticks(86400000) }; int a = c.pick(6), b = c.pick(6); bool rvalue = c.flip(), twice = c.flip(); boost::asio::io_context io; auto bd = http_server::builder(vf::Wire::ex(io)); using O = decltype(bd.build().request_timeout()); auto val = [&](int i) -> O { return i == 5 ? O(Ticks(777)) : vals[i] ? O(*vals[i]) : O(); };
  if (twice) { bd.set_request_timeout(Ticks(9)); bd.set_tls_handshake_timeout(Ticks(8)); } if (!rvalue) { bd.set_request_timeout(val(a)); bd.set_tls_handshake_timeout(val(b)); } else { bd = std::move(bd).set_request_timeout(val(a)).set_tls_handshake_timeout(val(b)); } auto s = bd.build(); c.note(show_opt(val(a)) + "," + show_opt(val(b))); if (s.request_timeout() != val(a) || s.tls_handshake_timeout() != val(b)) c.fail("settings:" + c.notes(), "the server says " + show_opt(s.request_timeout()) + "," + show_opt(s.tls_handshake_timeout())); c.observe(c.notes());
}
MC_SCENARIO_D("several", 3) { if (c.thorough()) several(c, { 0, 1, 2, 3, 4, 5, 6 }, 3); else several(c, { 1, 3, 4 }, 2); }
MC_SCENARIO("big answers") { big(c); }
MC_SCENARIO("overlong handlers") { overlong(c); }
MC_SCENARIO("default limit") { vf::keep_default_limits = true; one(c, 5, 1, 3, 1, false); vf::keep_default_limits = false; }
MC_SCENARIO_D("idle sockets", 3) { idle(c); }
MC_SCENARIO("closing sockets") { closing(c); }
MC_SCENARIO("settings") { settings(c); }
MC_SCENARIO_D("single", 2) { one(c, 10, 1, 4, 1); }
MC_SCENARIO_D("pairs", 3) { one(c, 10, 2, c.thorough() ? 4 : 3, c.thorough() ? 2 : 1); }
MC_SCENARIO_D("unlimited", 3) { one(c, nullopt, 2, c.thorough() ? 3 : 2, 1); }
MC_MAIN
