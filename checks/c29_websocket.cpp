#include "mc.hpp"
#include "wire.hpp"
#include <fitoria/web/scope.hpp>
#include <fitoria/web/websocket.hpp>
using namespace fitoria; using namespace fitoria::web; using mc::show; using S = std::string;
// ---- a byte-level client for RFC 6455 ----
static S frame(int op, std::string_view p, bool fin = true, bool masked = true, int rsv = 0, std::uint32_t key = 0x9a03f1c7)
{
  S o; o += char((fin ? 0x80 : 0) | (rsv << 4) | op); int m = masked ? 0x80 : 0;
  if (p.size() < 126) o += char(m | int(p.size())); else if (p.size() < 65536) { o += char(m | 126); o += char(p.size() >> 8); o += char(p.size() & 255); } else { o += char(m | 127); for (int i = 7; i >= 0; --i) o += char((p.size() >> (8 * i)) & 255); }
  if (!masked) return o + S(p); unsigned char k[4] = { static_cast<unsigned char>(key >> 24), static_cast<unsigned char>(key >> 16), static_cast<unsigned char>(key >> 8), static_cast<unsigned char>(key) }; o.append(reinterpret_cast<char*>(k), 4); for (std::size_t i = 0; i < p.size(); ++i) o += char(static_cast<unsigned char>(p[i]) ^ k[i & 3]); return o;
}
static S close_payload(int code, std::string_view why = "") { S s; s += char(code >> 8); s += char(code & 255); return s + S(why); }
static S brief(const S& s) { return s.size() > 24 ? s.substr(0, 8) + "..." + std::to_string(s.size()) + "#" + std::to_string(mc::hash(s) % 100000) : s; }
// what the server sent: "T:", "B:" whole messages, "I:" ping, "O:" pong, "C:code" close; a fault as "!..."
static std::vector<S> events(std::string_view s)
{
  std::vector<S> v; S msg; int kind = 0; std::size_t i = 0;
  while (i < s.size()) {
    if (s.size() - i < 2) { v.push_back("!short"); break; } unsigned b0 = (unsigned char)s[i], b1 = (unsigned char)s[i + 1]; i += 2; if (b0 & 0x70) { v.push_back("!rsv"); break; } if (b1 & 0x80) { v.push_back("!masked"); break; }
    std::uint64_t n = b1 & 0x7f; int more = n == 126 ? 2 : n == 127 ? 8 : 0; if (s.size() - i < std::size_t(more)) { v.push_back("!short"); break; } if (more) { n = 0; for (int k = 0; k < more; ++k) n = n << 8 | (unsigned char)s[i + std::size_t(k)]; i += std::size_t(more); if (n < (more == 2 ? 126u : 65536u)) { v.push_back("!length not minimal"); break; } }
    if (s.size() - i < n) { v.push_back("!short"); break; } S p(s.substr(i, n)); i += n; bool fin = b0 & 0x80; int op = b0 & 15;
    if (op >= 8) { if (!fin || n > 125) { v.push_back("!control"); break; } if (op == 8) { v.push_back("C:" + (n >= 2 ? std::to_string((unsigned char)p[0] << 8 | (unsigned char)p[1]) : S("none"))); if (i < s.size()) v.push_back("!data after close"); break; } if (op == 9) v.push_back("I:" + p); else if (op == 10) v.push_back("O:" + p); else { v.push_back("!opcode"); break; } continue; }
    if ((op == 0) != (kind != 0) || op > 2) { v.push_back("!fragmentation"); break; } if (op) { kind = op; msg.clear(); } msg += p; if (fin) { v.push_back((kind == 1 ? "T:" : "B:") + msg); kind = 0; }
  }
  if (kind) v.push_back("!unfinished message"); return v;
}
static S join(const std::vector<S>& v) { S o; for (auto& x : v) o += brief(x) + "|"; return o; }
// ---- the server ----
static std::vector<S> LOG; // what the socket code saw
static std::vector<int> SCRIPT; static S BIG(5000, 'x'), HUGE_(70000, 'y');
static S text_of(std::string_view s) { return S(s); }
template <class R> static S okerr(const R& r) { return r ? "ok" : "err"; }
static auto echo(websocket::context& ctx) -> awaitable<void>
{
  LOG.push_back("run");
  for (;;) {
    auto m = co_await ctx.async_read();
    if (!m) { LOG.push_back("E"); break; }
    if (auto t = std::get_if<websocket::text_t>(&*m)) { LOG.push_back("T:" + t->value); (void)co_await ctx.async_write_text(t->value); }
    else if (auto b = std::get_if<websocket::binary_t>(&*m)) { LOG.push_back("B:" + S(reinterpret_cast<const char*>(b->value.data()), b->value.size())); (void)co_await ctx.async_write_binary(std::span(b->value.data(), b->value.size())); }
    else { LOG.push_back("C"); break; }
  }
  LOG.push_back("end");
}
enum Act { AText0, AText, ATextBig, ABin, ABinHuge, APing, ARead, AClose, ACloseAway, ACloseTooBig, AThrow, NACT };
static const char* ACT[] = { "t0", "t", "tbig", "b", "bhuge", "ping", "read", "close", "away", "toobig", "throw" };
static auto scripted(websocket::context& ctx) -> awaitable<void>
{
  LOG.push_back("run");
  for (int a : SCRIPT) {
    S r;
    switch (a) {
    case AText0: r = okerr(co_await ctx.async_write_text("")); break; case AText: r = okerr(co_await ctx.async_write_text("t\xc3\xa9")); break; case ATextBig: r = okerr(co_await ctx.async_write_text(BIG)); break;
    case ABin: { std::array<std::byte, 2> b { std::byte(0), std::byte(255) }; r = okerr(co_await ctx.async_write_binary(std::span(b))); break; } case ABinHuge: r = okerr(co_await ctx.async_write_binary(std::span(HUGE_.data(), HUGE_.size()))); break;
    case APing: r = okerr(co_await ctx.async_ping()); break;
    case ARead: { auto m = co_await ctx.async_read(); if (!m) r = "err"; else if (auto t = std::get_if<websocket::text_t>(&*m)) r = "T:" + t->value; else if (auto b = std::get_if<websocket::binary_t>(&*m)) r = "B:" + S(reinterpret_cast<const char*>(b->value.data()), b->value.size()); else r = "C"; break; }
    case AClose: r = okerr(co_await ctx.async_close(websocket::close_code::normal)); break; case ACloseAway: r = okerr(co_await ctx.async_close(websocket::close_code::going_away)); break; case ACloseTooBig: r = okerr(co_await ctx.async_close(websocket::close_code::too_big)); break;
    case AThrow: LOG.push_back("throw"); throw std::runtime_error("ws"); }
    LOG.push_back(S(ACT[a]) + "=" + r);
  }
  LOG.push_back("end");
}
template <class Rq, class Rs, class Next> struct MwS { Next next; auto operator()(Rq req) const -> Rs { auto r = co_await next(req); co_return r.builder().insert_header("X-A", "1").insert_header("Set-Cookie", "a=1").insert_header("Set-Cookie", "b=2").set_header("Sec-WebSocket-Protocol", "chat").build(); } };
struct Mw { template <class Rq, class Rs, decay_to<Mw> Self, class Next> friend auto tag_invoke(to_middleware_t<Rq, Rs>, Self&&, Next&& next) { return MwS<Rq, Rs, std::decay_t<Next>> { std::forward<Next>(next) }; } };
static vf::Wire& wire()
{
  static vf::Wire w([](auto& b) {
    b.serve(route::get<"/ws">([](websocket ws) -> awaitable<response> { co_return ws.set_handler(echo); }));
    b.serve(route::get<"/s">([](websocket ws) -> awaitable<response> { co_return ws.set_handler(scripted); }));
    b.serve(route::get<"/plain">([]() -> awaitable<response> { co_return response::ok().set_header("X-P", "1").set_body("plain"); }));
    b.serve(route::get<"/reject">([](websocket) -> awaitable<response> { co_return response::forbidden().set_body("no"); }));
    b.serve(route::get<"/late">([](websocket ws) -> awaitable<response> { (void)ws.set_handler(echo); co_return response::forbidden().set_body("late"); }));
    b.serve(route::get<"/body">([](websocket ws) -> awaitable<response> { auto r = ws.set_handler(echo); co_return r.builder().set_body("not in a 101"); }));
    b.serve(scope<"/mw">().use(Mw {}).serve(route::get<"/ws">([](websocket ws) -> awaitable<response> { co_return ws.set_handler(echo); })));
    b.serve(route::get<"/throw">([](websocket) -> awaitable<response> { throw std::runtime_error("h"); co_return response::ok().build(); }));
  });
  return w;
}
struct Key { S key, accept; };
static const Key KEYS[] = { { "dGhlIHNhbXBsZSBub25jZQ==", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=" }, { "AAECAwQFBgcICQoLDA0ODw==", "Bz3qJYTGdOe8gUSpLosEdiLKDrk=" } };
// the server ends its side first; then the client ends its own
static void finish(vf::Wire& w, vf::Client& cl) { w.settle(cl); if (cl.eof) { cl.half_close(); w.settle(cl); } }
static S upgrade_req(const S& target, const Key& k = KEYS[0]) { return "GET " + target + " HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + k.key + "\r\n\r\n"; }
// the head of the answer and what came after it
static S head(mc::Chooser& c, const S& key, vf::Client& cl, vf::Resp& r, std::size_t& i)
{
  i = 0; auto e = vf::read_response(cl.in, i, cl.eof, "GET", r); if (!e.empty()) c.fail(key, "the answer is wrong: " + e + ": " + show(cl.in.substr(0, 200))); return e;
}
static S check101(const vf::Resp& r, const Key& k)
{
  auto low = [](S s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32); return s; };
  if (r.status != 101 || r.version != 11) return "status " + std::to_string(r.status); if (r.all("upgrade").size() != 1 || low(r.get("upgrade")) != "websocket") return "Upgrade header"; if (r.all("connection").size() != 1 || low(r.get("connection")) != "upgrade") return "Connection header";
  if (r.all("sec-websocket-accept") != std::vector<S> { k.accept }) return "Sec-WebSocket-Accept " + r.get("sec-websocket-accept"); if (!r.all("sec-websocket-extensions").empty()) return "an extension nobody offered"; return "";
}
// ---- every combination of handshake parts ----
MC_SCENARIO_D("handshake", 4)
{
  static const S TARGET[] = { "/ws", "/plain", "/reject", "/late", "/none", "/mw/ws", "/throw", "/body", "bad" }; static const S CONN[] = { "", "Upgrade", "keep-alive, Upgrade", "keep-alive", "close", "upgrade,close" }; static const S UPG[] = { "", "websocket", "h2c, WebSocket", "h2c", "websocketx" }; static const S VER[] = { "13", "", "12", "013", "13, 8" };
  auto& t = c.of(TARGET); bool get = !c.flip(), v11 = !c.flip(), host = !c.flip(); auto& conn = c.of(CONN); auto& upg = c.of(UPG); int key = c.pick(4); auto& ver = c.of(VER); // key: two good ones, none, too long
  if (key == 1 && (conn != "Upgrade" || ver != "13")) c.skip();
  if (t == "bad" && (key == 1 || !host)) c.skip();
  S q = S(get ? "GET " : "POST ") + (t == "bad" ? "nonsense" : t) + (v11 ? " HTTP/1.1" : " HTTP/1.0") + "\r\n"; if (host) q += "Host: h\r\n"; if (!conn.empty()) q += "Connection: " + conn + "\r\n"; if (!upg.empty()) q += "Upgrade: " + upg + "\r\n"; if (!ver.empty()) q += "Sec-WebSocket-Version: " + ver + "\r\n";
  if (key < 2) q += "Sec-WebSocket-Key: " + KEYS[key].key + "\r\n"; else if (key == 3) q += "Sec-WebSocket-Key: " + KEYS[0].key + "A\r\n"; if (!get) q += "Content-Length: 0\r\n"; q += "\r\n"; c.note(q); auto k = "handshake:" + show(q);
  bool up = get && v11 && (conn == "Upgrade" || conn == "keep-alive, Upgrade" || conn == "upgrade,close") && (upg == "websocket" || upg == "h2c, WebSocket"); bool valid = up && host && key < 2 && ver == "13"; bool wsroute = t == "/ws" || t == "/mw/ws" || t == "/body";
  bool keep = conn == "close" || conn == "upgrade,close" ? false : v11 ? true : (conn == "keep-alive" || conn == "keep-alive, Upgrade");
  // what must be answered
  std::vector<int> st; S body = "*"; bool thrown = false;
  if (t == "bad") st = { 400 }; else if (t == "/none" || !get) st = { 404 }; else if (t == "/plain") { st = { 200 }; body = "plain"; }
  else if (!up) st = { 400 }; else if (t == "/throw") thrown = true; else if (t == "/reject") { st = { 403 }; body = "no"; } else if (t == "/late") { st = { 403 }; body = "late"; }
  else if (valid) st = { 101 }; else if (host && key < 2 && !ver.empty()) st = { 426 }; else st = { 400 };
  auto& w = wire(); w.settle(); LOG.clear(); w.escaped.clear(); auto cl = w.connect(); cl.put(q); w.settle(cl);
  if (thrown) { if (!cl.in.empty() || !cl.eof) c.fail(k, "after a failure of the handler: " + show(cl.in)); if (w.escaped.size() != 1) c.fail(k, "the failure was not reported once"); return; }
  vf::Resp r; std::size_t i; if (!head(c, k, cl, r, i).empty()) return;
  if (std::find(st.begin(), st.end(), r.status) == st.end()) { c.fail(k, "status " + std::to_string(r.status) + " instead of " + std::to_string(st[0])); return; }
  if (r.status != 101) {
    if (body != "*" && r.body != body) c.fail(k, "body " + show(r.body)); if (!LOG.empty()) c.fail(k, "the socket code ran for a request that was not switched"); if (r.status == 426 && r.get("sec-websocket-version") != "13") c.fail(k, "426 without the version to use"); if (!r.get("sec-websocket-accept").empty()) c.fail(k, "an accept key in a refusal");
    if (i != cl.in.size()) c.fail(k, "bytes after the answer: " + show(cl.in.substr(i))); if (keep == cl.eof) { c.fail(k, keep ? "the connection was closed" : "the connection was kept"); return; }
    if (keep) { cl.in.clear(); cl.put("GET /plain HTTP/1.1\r\nConnection: close\r\n\r\n"); w.settle(cl); vf::Resp r2; if (!head(c, k + ":next", cl, r2, i).empty()) return; if (r2.status != 200 || r2.body != "plain") c.fail(k, "the next request got " + std::to_string(r2.status) + " " + show(r2.body)); if (!cl.eof) c.fail(k, "the connection was not closed after the next request"); }
    c.observe(std::to_string(r.status) + std::to_string(keep)); return;
  }
  if (auto e = check101(r, KEYS[key]); !e.empty()) c.fail(k, "101 with wrong " + e);
  if (t == "/mw/ws") { if (r.get("x-a") != "1" || r.all("set-cookie") != std::vector<S> { "a=1", "b=2" } || r.get("sec-websocket-protocol") != "chat") c.fail(k, "headers set on the answer are missing from the 101"); } if (i != cl.in.size()) { c.fail(k, "bytes after the 101: " + show(cl.in.substr(i))); return; }
  cl.in.clear(); cl.put(frame(1, "hi")); w.settle(cl); if (auto e = join(events(cl.in)); e != "T:hi|") { c.fail(k, "echo gives " + show(e)); return; } cl.in.clear(); cl.put(frame(8, close_payload(1000))); finish(w, cl); if (auto e = join(events(cl.in)); e != "C:1000|") c.fail(k, "close gives " + show(e)); if (!cl.eof) c.fail(k, "the connection stays open after the close"); if (join(LOG) != "run|T:hi|C|end|") c.fail(k, "the socket code saw " + show(join(LOG))); if (!w.escaped.empty()) c.fail(k, "session failed with " + w.escaped[0]);
  c.observe("101");
}
MC_SCENARIO_D("handshake cuts", 1)
{
  auto q = upgrade_req("/ws", KEYS[1]); auto cut = std::size_t(c.pick(int(q.size()) + 1)); c.note("cut " + std::to_string(cut)); auto k = "cut:" + std::to_string(cut); auto& w = wire(); w.settle(); LOG.clear(); auto cl = w.connect();
  if (cut == 0) for (char ch : q) { cl.put(S(1, ch)); w.settle(cl); } else { cl.put(q.substr(0, cut)); w.settle(cl); if (cut < q.size() && !cl.in.empty()) c.fail(k, "an answer to half a request"); cl.put(q.substr(cut)); w.settle(cl); }
  vf::Resp r; std::size_t i; if (!head(c, k, cl, r, i).empty()) return; if (auto e = check101(r, KEYS[1]); !e.empty()) { c.fail(k, e); return; } cl.in.clear(); cl.put(frame(2, "x")); w.settle(cl); if (join(events(cl.in)) != "B:x|") c.fail(k, "no echo"); c.observe(c.notes());
}
// ---- what the client sends ----
struct Item { const char* n; std::vector<S> f; std::vector<S> log, out; };
static const std::vector<Item>& items()
{
  static const S b126(126, 'q'), b64k(65536, 'z'), p125(125, 'p');
  static const std::vector<Item> I = {
    { "text0", { frame(1, "") }, { "T:" }, { "T:" } }, { "text", { frame(1, "h\xc3\xa9") }, { "T:h\xc3\xa9" }, { "T:h\xc3\xa9" } }, { "bin", { frame(2, S("\0\xff", 2), true, true, 0, 0) }, { S("B:\0\xff", 4) }, { S("B:\0\xff", 4) } },
    { "frag2", { frame(1, "h\xc3", false), frame(0, "\xa9") }, { "T:h\xc3\xa9" }, { "T:h\xc3\xa9" } }, { "frag3", { frame(2, "a", false), frame(0, "", false), frame(0, "b") }, { "B:ab" }, { "B:ab" } }, { "fragping", { frame(1, "", false), frame(9, "in"), frame(0, "x", false), frame(10, "no"), frame(0, "") }, { "T:x" }, { "O:in", "T:x" } },
    { "ping", { frame(9, "") }, {}, { "O:" } }, { "ping125", { frame(9, p125) }, {}, { "O:" + p125 } }, { "pong", { frame(10, "u") }, {}, {} }, { "t126", { frame(1, b126) }, { "T:" + b126 }, { "T:" + b126 } }, { "b64k", { frame(2, b64k) }, { "B:" + b64k }, { "B:" + b64k } }, { "frag5000", { frame(1, BIG.substr(0, 4096), false), frame(0, BIG.substr(4096)) }, { "T:" + BIG }, { "T:" + BIG } } };
  return I;
}
// how it ends: the bytes, what the socket code must see, what close codes may come back (empty: anything, also nothing)
struct End { const char* n; S bytes; S log; std::vector<S> out; bool eof; };
static const std::vector<End>& ends()
{
  static const std::vector<End> E = {
    { "close1000", frame(8, close_payload(1000)), "C", { "C:1000" }, false }, { "close", frame(8, ""), "C", { "C:none", "C:1000", "C:1005" }, false }, { "close4321", frame(8, close_payload(4321, "why")), "C", { "C:4321" }, false }, { "close+data", frame(8, close_payload(1001)) + frame(1, "late"), "C", { "C:1001" }, false },
    { "eof", "", "E", {}, true }, { "halfframe", frame(1, "abc").substr(0, 7), "E", {}, true }, { "halfmessage", frame(1, "abc", false), "E", {}, true }, { "halfheader", frame(1, "abc").substr(0, 1), "E", {}, true },
    { "unmasked", frame(1, "abc", true, false), "E", { "C:1002" }, false }, { "opcode3", frame(3, "a"), "E", { "C:1002" }, false }, { "opcode11", frame(11, "a"), "E", { "C:1002" }, false }, { "rsv1", frame(1, "a", true, true, 4), "E", { "C:1002" }, false }, { "rsv2", frame(2, "a", true, true, 2), "E", { "C:1002" }, false },
    { "pingfrag", frame(9, "a", false), "E", { "C:1002" }, false }, { "ping126", frame(9, S(126, 'a')), "E", { "C:1002" }, false }, { "cont", frame(0, "a"), "E", { "C:1002" }, false }, { "nested", frame(1, "a", false) + frame(1, "b"), "E", { "C:1002" }, false }, { "utf8", frame(1, "\xff"), "E", { "C:1007" }, false }, { "utf8cut", frame(1, "\xc3"), "E", { "C:1007" }, false }, { "utf8frag", frame(1, "\xc3", false) + frame(0, "a"), "E", { "C:1007" }, false },
    { "close1byte", frame(8, "a"), "E", { "C:1002" }, false }, { "close999", frame(8, close_payload(999)), "E", { "C:1002" }, false }, { "close1005", frame(8, close_payload(1005)), "E", { "C:1002" }, false }, { "closeutf8", frame(8, close_payload(1000, "\xff")), "E", { "C:1007", "C:1002" }, false } };
  return E;
}
static void converse(mc::Chooser& c, const std::vector<int>& seq, const End& e, int how, std::size_t cut = 0)
{
  S k = "messages:"; std::vector<S> parts, log { "run" }, out; for (int i : seq) { auto& it = items()[std::size_t(i)]; k += S(it.n) + ","; parts.insert(parts.end(), it.f.begin(), it.f.end()); log.insert(log.end(), it.log.begin(), it.log.end()); out.insert(out.end(), it.out.begin(), it.out.end()); } parts.push_back(e.bytes); log.push_back(e.log); log.push_back("end");
  static const char* HOW[] = { "whole", "frames", "bytes", "cut" }; k += S(e.n) + ":" + HOW[how] + (how == 3 ? std::to_string(cut) : ""); c.note(k); S all; for (auto& p : parts) all += p;
  auto& w = wire(); w.settle(); LOG.clear(); w.escaped.clear(); auto cl = w.connect(); cl.put(upgrade_req("/ws")); w.settle(cl); vf::Resp r; std::size_t i; if (!head(c, k, cl, r, i).empty()) return; if (r.status != 101) { c.fail(k, "not switched"); return; } cl.in.clear();
  if (how == 0) cl.put(all); else if (how == 1) for (auto& p : parts) { cl.put(p); w.settle(cl); } else if (how == 2) for (char ch : all) { cl.put(S(1, ch)); w.settle(cl); } else { cl.put(all.substr(0, cut)); w.settle(cl); cl.put(all.substr(cut)); }
  w.settle(cl); if (e.eof) { cl.half_close(); w.settle(cl); } finish(w, cl);
  auto got = events(cl.in); if (join(LOG) != join(log)) { c.fail(k, "the socket code saw " + show(join(LOG)) + " instead of " + show(join(log))); return; }
  if (e.out.empty()) { while (!got.empty() && got.back().substr(0, 2) == "C:") got.pop_back(); } else { S last = got.empty() ? "nothing" : got.back(); if (std::find(e.out.begin(), e.out.end(), last) == e.out.end()) { c.fail(k, "ends with " + show(brief(last)) + " instead of " + e.out[0]); return; } got.pop_back(); }
  if (join(got) != join(out)) { c.fail(k, "the client got " + show(join(got)) + " instead of " + show(join(out))); return; } if (!cl.eof) c.fail(k, "the connection stays open"); if (!w.escaped.empty()) c.fail(k, "session failed with " + w.escaped[0]); c.observe(k);
}
MC_SCENARIO_D("messages", 3)
{
  std::vector<int> seq; int n = c.pick(c.thorough() ? 4 : 3), ni = int(items().size()); int e = c.pick(int(ends().size())), how = c.pick(3); for (int i = 0; i < n; ++i) seq.push_back(c.pick(ni)); bool big = false; for (int i : seq) big = big || i >= 10; if (big && how == 2) c.skip(); if (n == 3 && how == 2) c.skip(); converse(c, seq, ends()[std::size_t(e)], how);
}
MC_SCENARIO_D("long sequences", 3)
{
  std::vector<int> seq; int n = c.thorough() ? 4 : 3; for (int i = 0; i < n; ++i) seq.push_back(c.pick(10)); converse(c, seq, ends()[0], 0);
}
MC_SCENARIO_D("cuts", 3)
{
  std::vector<int> seq { c.pick(10) }; int e = c.pick(int(ends().size())); if (c.thorough()) seq.push_back(c.pick(10)); std::size_t n = ends()[std::size_t(e)].bytes.size(); for (int i : seq) for (auto& f : items()[std::size_t(i)].f) n += f.size(); converse(c, seq, ends()[std::size_t(e)], 3, std::size_t(c.pick(int(n) + 1)));
}
// ---- what the socket code sends ----
MC_SCENARIO_D("scripts", 2)
{
  SCRIPT.clear(); S k = "script:"; int n = c.pick(c.thorough() ? 5 : 4); for (int i = 0; i < n; ++i) { SCRIPT.push_back(c.pick(NACT)); k += S(ACT[SCRIPT.back()]) + ","; } int cutm = c.pick(2); k += cutm ? "early" : "late"; c.note(k); // the client speaks before or after
  std::vector<S> log { "run" }, out; S shut; int reads = 0; bool dead = false, thrown = false;
  for (int a : SCRIPT) {
    if (a == AThrow) { log.push_back("throw"); thrown = true; break; }
    if (dead) { log.push_back(S(ACT[a]) + "=err"); continue; }
    switch (a) { case AText0: out.push_back("T:"); break; case AText: out.push_back("T:t\xc3\xa9"); break; case ATextBig: out.push_back("T:" + BIG); break; case ABin: out.push_back(S("B:\0\xff", 4)); break; case ABinHuge: out.push_back("B:" + HUGE_); break; case APing: out.push_back("I:"); break; case ARead: log.push_back("read=" + (++reads % 2 ? S("T:m") + std::to_string(reads) : "B:m" + std::to_string(reads))); continue; case AClose: shut = "C:1000"; break; case ACloseAway: shut = "C:1001"; break; case ACloseTooBig: shut = "C:1009"; break; }
    if (!shut.empty()) dead = true; log.push_back(S(ACT[a]) + "=ok");
  }
  if (!thrown) log.push_back("end"); if (!shut.empty()) out.push_back(shut);
  auto& w = wire(); w.settle(); LOG.clear(); w.escaped.clear(); auto cl = w.connect(); cl.put(upgrade_req("/s")); w.settle(cl); vf::Resp r; std::size_t i; if (!head(c, k, cl, r, i).empty()) return; if (r.status != 101) { c.fail(k, "not switched"); return; } cl.in.erase(0, i);
  // the client sends what will be read, and answers a close
  int sent = 0, want = 0; for (int a : SCRIPT) want += a == ARead; bool answered = false;
  for (int round = 0; round < 3 + n; ++round) {
    if (cutm) { S all; for (; sent < want; ++sent) all += frame(sent % 2 ? 2 : 1, "m" + std::to_string(sent + 1)); cl.put(all); } else if (sent < want && !answered) { cl.put(frame(sent % 2 ? 2 : 1, "m" + std::to_string(sent + 1))); ++sent; }
    w.settle(cl); auto ev = events(cl.in); if (!answered && !ev.empty() && ev.back().substr(0, 2) == "C:") { answered = true; cl.put(frame(8, close_payload(1000))); w.settle(cl); }
  }
  finish(w, cl);
  if (join(LOG) != join(log)) { c.fail(k, "the socket code saw " + show(join(LOG)) + " instead of " + show(join(log))); return; } if (auto g = join(events(cl.in)); g != join(out)) { c.fail(k, "the client got " + show(g) + " instead of " + show(join(out))); return; } if (!cl.eof) c.fail(k, "the connection stays open when the socket code is done"); if (w.escaped.size() != std::size_t(thrown)) c.fail(k, "failures reported: " + std::to_string(w.escaped.size())); c.observe(k);
}
// ---- several sockets at once ----
MC_SCENARIO_D("several", 3)
{
  auto& w = wire(); w.settle(); LOG.clear(); vf::Client cl[3]; S out[3]; int n = c.thorough() ? 7 : 5; S k = "several:";
  for (int i = 0; i < 3; ++i) { cl[i] = w.connect(); cl[i].put(upgrade_req("/ws")); } w.settle(cl[0], cl[1], cl[2]); for (auto& x : cl) { vf::Resp r; std::size_t i; if (!head(c, "several", x, r, i).empty()) return; x.in.erase(0, i); }
  for (int s = 0; s < n; ++s) { int i = c.pick(3); bool settle = s + 1 == n || c.flip(); S m = S(1, char('a' + s)) + S(std::size_t(i) * 130, '-'); k += std::to_string(i) + (settle ? "." : ""); cl[i].put(frame(1, m)); out[i] += brief("T:" + m) + "|"; if (settle) w.settle(cl[0], cl[1], cl[2]); }
  for (int i = 0; i < 3; ++i) if (join(events(cl[i].in)) != out[i]) c.fail(k, "socket " + std::to_string(i) + " got " + show(join(events(cl[i].in)))); c.note(k); c.observe(k);
}
MC_MAIN
