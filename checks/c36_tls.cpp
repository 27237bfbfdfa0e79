#include "mc.hpp"
#include "wire.hpp"
#include <fitoria/web/scope.hpp>
#include <fitoria/web/websocket.hpp>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
using namespace fitoria; using namespace fitoria::web; using mc::show; using S = std::string; using Ticks = std::chrono::milliseconds;
// time is a variable: see c35
static long long NOW = 1000000; static constexpr int U = 1000;
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(milliseconds(NOW)); } } }
extern "C" int timerfd_create(int, int) { errno = ENOSYS; return -1; }
// ---- a certificate whose parts have fixed lengths, so that a cut at byte k means the same in every execution ----
struct Cert { EVP_PKEY* key; X509* x; };
static Cert& cert() { static Cert c = [] { Cert c; c.key = EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519"); c.x = X509_new(); X509_set_version(c.x, 2); ASN1_INTEGER_set(X509_get_serialNumber(c.x), 7); ASN1_TIME_set_string(X509_getm_notBefore(c.x), "20200101000000Z"); ASN1_TIME_set_string(X509_getm_notAfter(c.x), "20490101000000Z"); X509_set_pubkey(c.x, c.key); auto n = X509_get_subject_name(c.x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("h"), -1, -1, 0); X509_set_issuer_name(c.x, n); X509_sign(c.x, c.key, nullptr); return c; }(); return c; }
static net::ssl::context& server_ctx() { static net::ssl::context ctx = [] { net::ssl::context c(net::ssl::context::tls_server); SSL_CTX_use_certificate(c.native_handle(), cert().x); SSL_CTX_use_PrivateKey(c.native_handle(), cert().key); return c; }(); return ctx; }
static SSL_CTX* client_ctx(int v) { static SSL_CTX* c[2]; if (!c[v]) { c[v] = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(c[v], SSL_VERIFY_NONE, nullptr); int p = v ? TLS1_3_VERSION : TLS1_2_VERSION; SSL_CTX_set_min_proto_version(c[v], p); SSL_CTX_set_max_proto_version(c[v], p); SSL_CTX_set1_groups_list(c[v], "X25519"); } return c[v]; }
// ---- the server: a plain and a protected way in, the same handlers behind both ----
static std::vector<S> LOG;
static auto app(optional<int> limit, optional<int> hs, bool set = true) { return [=](auto& b) {
  if (set) { if (limit) b.set_request_timeout(Ticks(*limit * U)); if (hs) b.set_tls_handshake_timeout(Ticks(*hs * U)); else b.set_tls_handshake_timeout(nullopt); } b.set_request_header_limit(2000);
  b.serve(route::any<"/echo/{p}">([](request& r) -> awaitable<response> { S s; LOG.push_back("head " + S(to_string(r.method())) + " " + S(*r.path().get("p"))); for (;;) { auto d = co_await r.body().async_read_some(); if (!d) break; if (!*d) { LOG.push_back("cut"); co_return response::bad_request().set_body("cut"); } s.append(reinterpret_cast<const char*>((*d)->data()), (*d)->size()); } LOG.push_back("all:" + std::to_string(s.size()) + ":" + std::to_string(mc::hash(s))); co_return response::ok().set_header("X-P", *r.path().get("p")).set_body("<" + s + ">"); }));
  b.serve(route::any<"/get">([](request&) -> awaitable<response> { LOG.push_back("get"); co_return response::ok().set_body("got"); }));
  b.serve(route::any<"/big">([](request&) -> awaitable<response> { LOG.push_back("big"); co_return response::ok().set_body(S(300000, 'B')); }));
  b.serve(route::any<"/drip">([](request&) -> awaitable<response> { LOG.push_back("drip"); struct D { using is_async_readable_stream = void; int n = 0; auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>> { auto ex = co_await net::this_coro::executor; co_await net::post(ex, net::use_awaitable_t<executor_type> {}); if (n++ == 3) co_return nullopt; co_return bytes(std::size_t(n * n * 7000), std::byte('d')); } }; co_return response::ok().set_stream_body(D {}); }));
  b.serve(route::get<"/ws">([](websocket ws) -> awaitable<response> { co_return ws.set_handler([](websocket::context& x) -> awaitable<void> { LOG.push_back("run"); for (;;) { auto m = co_await x.async_read(); if (!m) { LOG.push_back("E"); break; } if (auto t = std::get_if<websocket::text_t>(&*m)) { LOG.push_back("T:" + t->value.substr(0, 30)); (void)co_await x.async_write_text(t->value); } else if (auto t = std::get_if<websocket::binary_t>(&*m)) { LOG.push_back("B"); (void)co_await x.async_write_binary(std::span(t->value)); if (t->value.size() == 1) { auto r = co_await x.async_close(websocket::close_code::normal); LOG.push_back(r ? "closed" : "close failed"); break; } } else { LOG.push_back("C"); break; } } }); }));
}; }
struct Both : vf::Wire {
  S tls_name;
  template <class F> explicit Both(F&& f) : vf::Wire(f) { tls_name = std::string(1, '\0') + "vt-" + std::to_string(::getpid()) + "-" + std::to_string(vf::counter()++); if (auto r = srv->bind_local(tls_name, server_ctx()); !r) { std::fprintf(stderr, "bind: %s\n", r.error().message().c_str()); std::_Exit(4); } settle(); }
  vf::Client raw() { std::swap(name, tls_name); auto c = connect(); std::swap(name, tls_name); return c; }
};
// ---- a client that speaks TLS over a byte-level client ----
struct Tls {
  vf::Wire* w; vf::Client c; SSL* ssl; BIO *rb, *wb; S in; bool done = false, failed = false, notified = false; std::size_t fed = 0;
  Tls(Both& b, int version) : w(&b), c(b.raw()), ssl(SSL_new(client_ctx(version))), rb(BIO_new(BIO_s_mem())), wb(BIO_new(BIO_s_mem())) { SSL_set_bio(ssl, rb, wb); SSL_set_connect_state(ssl); }
  Tls(const Tls&) = delete; ~Tls() { SSL_free(ssl); ERR_clear_error(); }
  S out() { S s; char b[16384]; for (int n; (n = BIO_read(wb, b, sizeof b)) > 0;) s.append(b, std::size_t(n)); return s; }
  void step() { if (done || failed) return; int r = SSL_do_handshake(ssl); if (r == 1) done = true; else if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) failed = true; ERR_clear_error(); }
  // takes in what has arrived
  void take() { if (fed < c.in.size()) { BIO_write(rb, c.in.data() + fed, int(c.in.size() - fed)); fed = c.in.size(); } step(); if (!done) return; char b[16384]; for (;;) { int n = SSL_read(ssl, b, sizeof b); if (n > 0) { in.append(b, std::size_t(n)); continue; } int e = SSL_get_error(ssl, n); if (e == SSL_ERROR_ZERO_RETURN) notified = true; else if (e != SSL_ERROR_WANT_READ) failed = true; ERR_clear_error(); return; } }
  void settle() { w->settle(c); take(); }
  void give(const S& s, int how, std::size_t cut = 0) { if (how == 0) { c.put(s); settle(); } else if (how == 1) { for (char x : s) { c.put(S(1, x)); settle(); } } else { c.put(s.substr(0, cut)); settle(); c.put(cut < s.size() ? s.substr(cut) : ""); settle(); } }
  bool shake(int how = 0) { for (int i = 0; i < 10 && !done && !failed; ++i) { step(); give(out(), how); } auto o = out(); if (!o.empty()) give(o, how); return done; }
  S seal(std::string_view s) { if (!s.empty()) SSL_write(ssl, s.data(), int(s.size())); return out(); }
  S seal_bytes(std::string_view s) { for (char x : s) SSL_write(ssl, &x, 1); return out(); }
  S bye() { SSL_shutdown(ssl); return out(); }
};
static S post(S path, S head, S body) { return "POST " + path + " HTTP/1.1\r\n" + head + "\r\n\r\n" + body; }
static S frame(int op, std::string_view p, bool fin = true) { S o; o += char((fin ? 0x80 : 0) | op); if (p.size() < 126) o += char(0x80 | int(p.size())); else if (p.size() < 65536) { o += char(0xfe); o += char(p.size() >> 8); o += char(p.size() & 255); } else { o += char(0xff); for (int i = 7; i >= 0; --i) o += char((p.size() >> (8 * i)) & 255); } o += S("\1\2\3\4"); for (std::size_t i = 0; i < p.size(); ++i) o += char(p[i] ^ char(1 + (i & 3))); return o; }
static const S UP = "GET /ws HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
struct Item { const char* name; S text; bool large = false; S then = ""; }; // then: sent when the first text has been answered
static const std::vector<Item>& items()
{
  static std::vector<Item> v { { "get", "GET /get HTTP/1.1\r\n\r\n" }, { "post", post("/echo/a", "Content-Length: 5", "hello") }, { "chunked", post("/echo/bb", "Transfer-Encoding: chunked", "3\r\nabc\r\n2\r\nde\r\n0\r\n\r\n") }, { "unread", post("/get", "Content-Length: 4", "skip") }, { "nowhere", "GET /no HTTP/1.1\r\n\r\n" }, { "drip", "GET /drip HTTP/1.1\r\n\r\n" }, { "socket", UP, false, frame(1, "one") + frame(9, "ping") + frame(2, "tw", false) + frame(0, "o") + frame(8, "\x03\xe8") }, { "socket closed here", UP, false, frame(1, "one") + frame(2, "x") + frame(8, "\x03\xe8") }, { "close", "GET /get HTTP/1.1\r\nConnection: close\r\n\r\n" }, { "old", "GET /get HTTP/1.0\r\n\r\n" }, { "bad", "GET /get HTTP/1.1\r\nA\x01: b\r\n\r\n" }, { "long head", "GET /get HTTP/1.1\r\nA: " + S(2100, 'a') + "\r\n\r\n" }, { "big post", post("/echo/c", "Content-Length: 100000", S(100000, 'p')), true }, { "big", "GET /big HTTP/1.1\r\n\r\n", true }, { "big socket", UP, true, frame(2, S(70000, 'w')) + frame(1, S(300, 't')) + frame(8, "\x03\xe8") } };
  return v;
}
struct Seen { S in; std::vector<S> log; bool eof; };
static const Seen& plain(const S& text, const S& then = "") { static std::map<S, Seen> memo; auto [it, fresh] = memo.try_emplace(text + then); if (!fresh) return it->second; auto keep = std::move(LOG); LOG.clear(); { vf::Wire w(app(nullopt, nullopt)); auto c = w.connect(); c.put(text); w.settle(c); if (!then.empty()) { c.put(then); w.settle(c); } it->second = { c.in, LOG, c.eof }; c.half_close(); w.settle(c); } LOG = std::move(keep); return it->second; }
static S joined(const std::vector<S>& v) { S o; for (auto& x : v) o += x + "|"; return o; }
// the server still serves: a fresh connection of each kind
static S serves(Both& w) { auto keep = LOG; { Tls t(w, 1); t.shake(); t.give(t.seal(items()[0].text), 0); if (t.in != plain(items()[0].text).in) return "a new protected connection received " + show(t.in); } { auto c = w.connect(); c.put(items()[0].text); w.settle(c); if (c.in != plain(items()[0].text).in) return "a new plain connection received " + show(c.in); } LOG = keep; return ""; }
static void same(mc::Chooser& c, const S& text, int version, int how, std::size_t cut, const S& key, const S& then = "", const S& second = "")
{
  auto& want = plain(text + second, then); LOG.clear(); Both w(app(nullopt, nullopt)); Tls t(w, version); if (!t.shake(how == 1)) { c.fail(key + ":handshake", "the handshake fails"); return; } if (!LOG.empty()) { c.fail(key + ":handshake", "a handler ran before any request"); return; }
  auto s = how == 3 ? t.seal_bytes(text) : t.seal(text); if (!second.empty()) s += t.seal(second); if (how == 2 && cut > s.size()) return; t.give(s, how == 3 ? 0 : how, cut); if (!then.empty()) { auto f = how == 3 ? t.seal_bytes(then) : t.seal(then); t.give(f, how == 3 ? 0 : how, std::min(cut, f.size())); }
  if (t.in != want.in) c.fail(key, "received " + show(t.in.substr(0, 300)) + " (" + std::to_string(t.in.size()) + " bytes) instead of " + show(want.in.substr(0, 300)) + " (" + std::to_string(want.in.size()) + ")"); else if (LOG != want.log) c.fail(key, "the handlers saw " + joined(LOG) + " instead of " + joined(want.log)); else if (want.eof && !t.notified && !t.c.eof) c.fail(key, "the connection stays open, a plain one ends"); else if (!want.eof && (t.notified || t.c.eof)) c.fail(key, "the connection ends, a plain one stays open");
  // an ordinary end is announced, so that it can be told from a cut
  else if (want.eof && (key.find(":close:") != S::npos || key.find(":old:") != S::npos) && !t.notified) c.fail(key, "the end of the connection was not announced to the client");
  t.c.put(t.bye()); t.c.half_close(); t.settle(); if (!t.c.eof) c.fail(key + ":end", "the connection stays open after the client's end");
}
MC_SCENARIO_D("one request", 2) { auto& v = items(); auto& it = v[std::size_t(c.pick(int(v.size())))]; int version = c.pick(2), how = c.pick(4); if (it.large && (how == 1 || how == 3)) how = 0; c.note(it.name); c.note(std::to_string(version) + std::to_string(how)); if (how != 2) { same(c, it.text, version, how, 0, "same:" + S(it.name) + ":" + c.notes(), it.then); c.observe(c.notes()); return; } std::size_t n = it.text.size() + (it.large ? 200 : version ? 22 + 1 : 29); int step = it.large ? 16384 / 2 : c.thorough() ? 1 : 3; for (std::size_t k = 1; k < n; k += std::size_t(step)) { c.cases(1); same(c, it.text, version, 2, k, "same:" + S(it.name) + ":cut" + std::to_string(k) + ":" + c.notes(), it.then); } c.observe(c.notes()); }
MC_SCENARIO_D("two requests", 2) { auto& v = items(); auto& a = v[std::size_t(c.pick(8 < int(v.size()) ? 6 : int(v.size())))]; auto& b = v[std::size_t(c.pick(int(v.size())))]; int version = c.pick(2), how = c.pick(2); if (b.large) how = 0; c.note(a.name); c.note(b.name); c.note(std::to_string(version) + std::to_string(how)); same(c, a.text, version, how, 0, "two:" + S(a.name) + ":" + b.name + ":" + c.notes(), b.then, b.text); c.observe(c.notes()); }
// ---- before the handshake is over nothing is served ----
static S flight_cut(Tls& t, int stage, std::size_t k, bool& past)
{
  // delivers the handshake up to byte k of the client's stage'th flight, returns the rest of that flight
  for (int i = 0;; ++i) { t.step(); auto o = t.out(); if (i == stage) { past = k >= o.size(); t.c.put(o.substr(0, std::min(k, o.size()))); t.settle(); return past ? S() : o.substr(k); } t.give(o, 0); }
}
MC_SCENARIO_D("broken handshakes", 3)
{
  int version = c.pick(2), stage = c.pick(2), what = c.pick(4); static const char* names[] = { "left", "half closed", "plain text instead", "resumed" }; c.note(names[what]); c.note(std::to_string(version) + std::to_string(stage));
  for (std::size_t k = 0;; k += c.thorough() || k < 12 ? 1 : 3) { c.cases(1); LOG.clear(); Both w(app(nullopt, nullopt)); auto key = "handshake:" + c.notes() + ":" + std::to_string(k); bool past = false; { Tls t(w, version); auto rest = flight_cut(t, stage, k, past); if (past && !(k == 0)) break; if (!LOG.empty()) c.fail(key, "a handler ran during the handshake");
      if (what == 0) { t.c.shut(); w.settle(); } else if (what == 1) { t.c.half_close(); t.settle(); if (!t.c.eof) c.fail(key, "the connection stays open"); } else if (what == 2) { t.c.put(items()[0].text + items()[1].text); t.settle(); t.c.put(S(6000, 'x')); t.settle(); if (t.c.in.find("HTTP/1.1") != S::npos) c.fail(key, "an answer in plain text: " + show(t.c.in)); } else { t.c.put(rest); t.settle(); if (!t.shake()) c.fail(key, "the handshake fails after a pause"); t.give(t.seal(items()[1].text), 0); if (t.in != plain(items()[1].text).in) c.fail(key, "received " + show(t.in)); LOG.clear(); } }
    w.settle(); if (!LOG.empty()) c.fail(key, "a handler ran without a handshake: " + joined(LOG)); if (auto e = serves(w); !e.empty()) c.fail(key + ":after", e); }
  c.observe(c.notes());
}
MC_SCENARIO("garbage") { static const std::vector<S> texts { "", "\n", "GET /get HTTP/1.1\r\n\r\n", post("/echo/a", "Content-Length: 5", "hello"), S("\x16\x03\x01\x00\x05hello", 10), S("\x17\x03\x03\x00\x03" "abc", 8), S("\x15\x03\x03\x00\x02\x01\x00", 7), S("\x16\x03\x01\xff\xff", 5) + S(70000, 'z'), S(300, '\0'), UP }; auto& s = texts[std::size_t(c.pick(int(texts.size())))]; int how = c.pick(3); LOG.clear(); Both w(app(nullopt, nullopt)); auto key = "garbage:" + show(s.substr(0, 20)) + ":" + std::to_string(how); { auto r = w.raw(); if (how == 1 && s.size() < 400) for (char x : s) { r.put(S(1, x)); w.settle(r); } else { r.put(s); w.settle(r); } if (how == 2) r.half_close(); w.settle(r); if (!LOG.empty()) c.fail(key, "a handler ran: " + joined(LOG)); if (r.in.find("HTTP") != S::npos) c.fail(key, "an answer in plain text: " + show(r.in)); } if (auto e = serves(w); !e.empty()) c.fail(key + ":after", e); c.observe(key); }
MC_SCENARIO_D("changed handshakes", 2) { int version = c.pick(2), stage = c.pick(2), bit = c.pick(c.thorough() ? 8 : 2); c.note(std::to_string(version) + std::to_string(stage) + std::to_string(bit)); for (std::size_t k = 0;; k += c.thorough() || stage ? 1 : 2) { c.cases(1); LOG.clear(); Both w(app(nullopt, nullopt)); auto key = "changed:" + c.notes() + ":" + std::to_string(k); bool end = false; { Tls t(w, version); for (int i = 0; i <= stage; ++i) { t.step(); auto o = t.out(); if (i == stage) { if (k >= o.size()) { end = true; break; } o[k] = char(o[k] ^ (1 << (c.thorough() ? bit : bit * 5))); } t.give(o, 0); } if (end) break; bool ok = t.shake(); if (ok) t.give(t.seal(items()[1].text), 0); if (!LOG.empty() && t.in != plain(items()[1].text).in) c.fail(key, "a handler ran (" + joined(LOG) + ") but the client received " + show(t.in)); if (t.c.in.find("HTTP/1.1") != S::npos) c.fail(key, "an answer in plain text"); } LOG.clear(); w.settle(); if (auto e = serves(w); !e.empty()) c.fail(key + ":after", e); } c.observe(c.notes()); }
// ---- what was altered, lost, repeated or cut on the way is never served as if it were whole ----
static void altered(mc::Chooser& c, int version, int what, std::size_t k, const S& key, bool& past)
{
  static const S head = "POST /echo/zz HTTP/1.1\r\nContent-Length: 20\r\n\r\n", b1 = "0123456789", b2 = "abcdefghij"; LOG.clear(); Both w(app(10, 6)); { Tls t(w, version); t.shake(); std::vector<S> r { t.seal(head), t.seal(b1), t.seal(b2), t.seal(items()[0].text) }; std::size_t total = r[0].size() + r[1].size() + r[2].size(); S all = r[0] + r[1] + r[2] + r[3];
    if (what <= 1) { if (k >= total) { past = true; return; } all[k] = char(all[k] ^ (what ? 0x80 : 1)); } else if (what == 2) { if (k >= total) { past = true; return; } all.resize(k); } else { static const std::vector<std::vector<int>> orders = [] { std::vector<std::vector<int>> v; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { v.push_back({ a, b }); for (int d = 0; d < 4; ++d) { v.push_back({ a, b, d }); for (int e = 0; e < 4; ++e) v.push_back({ a, b, d, e }); } } return v; }(); if (k >= orders.size()) { past = true; return; } all.clear(); bool good = true; for (std::size_t i = 0; i < orders[k].size(); ++i) { all += r[std::size_t(orders[k][i])]; if (int(i) < 3 && orders[k][i] != int(i)) good = false; } if (good && orders[k].size() >= 3) return; }
    t.give(all, 0); if (what == 2) { t.c.half_close(); t.settle(); if (!t.c.eof) for (int i = 0; i < 24; ++i) { NOW += U / 2; t.settle(); } } for (auto& x : LOG) if (x.substr(0, 4) == "all:" || x == "get") { c.fail(key, "a handler took an altered request for a whole one: " + joined(LOG)); break; } if (t.in.find("200 OK") != S::npos) c.fail(key, "an altered request was answered: " + show(t.in)); if (!t.c.eof && what == 2) c.fail(key, "the connection stays open: " + joined(LOG) + show(t.in)); }
  LOG.clear(); w.settle(); for (auto& x : LOG) if (x.substr(0, 4) == "all:") c.fail(key, "a handler took a cut request for a whole one"); if (auto e = serves(w); !e.empty()) c.fail(key + ":after", e);
}
MC_SCENARIO_D("altered records", 2) { int version = c.pick(2), what = c.pick(4); static const char* names[] = { "low bit", "high bit", "cut", "records" }; c.note(names[what]); c.note(std::to_string(version)); for (std::size_t k = 0;; ++k) { bool past = false; c.cases(1); altered(c, version, what, k, "altered:" + c.notes() + ":" + std::to_string(k), past); if (past) break; } c.observe(c.notes()); }
// ---- the limits of time ----
MC_SCENARIO_D("handshake limit", 3)
{
  int kind = c.pick(3), version = c.pick(2); optional<int> hs = kind == 0 ? optional<int>(6) : kind == 1 ? optional<int>() : optional<int>(3); vf::keep_default_limits = kind == 2; c.note(kind == 0 ? "limit 6" : kind == 1 ? "no limit" : "default"); c.note(std::to_string(version)); LOG.clear(); auto& want = plain(items()[1].text + items()[0].text); Both w(app(kind == 2 ? optional<int>() : optional<int>(10), hs, kind != 2)); vf::keep_default_limits = false; int req = kind == 2 ? 5 : 10; auto t = std::make_unique<Tls>(w, version);
  // pieces: both flights in two parts each, two requests in two parts
  std::vector<S> parts; long long deadline = kind == 1 ? 0 : NOW + *hs * U; int ticks = c.thorough() ? 4 : 3; S order, rest; int at = 0; bool closed = false, bad = false; S sealed;
  auto check = [&] { if (bad) return; if (t->c.eof != closed && !(t->notified && closed)) { bad = true; c.fail("limit:" + c.notes() + ":" + order, closed ? "the connection is still open although its time is over" : "the connection was ended before its time"); } };
  auto pass = [&](int halves) { for (int i = 0; i < halves; ++i) { NOW += U / 2; t->settle(); if (deadline && NOW >= deadline) closed = true; check(); } };
  while (!bad && (at < 8 || ticks)) { int a = at < 8 ? (ticks ? c.pick(3) : 0) : 1 + c.pick(3); if (a == 3) break; if (a) { order += a == 1 ? '2' : '5'; --ticks; pass(a == 1 ? 4 : 10); continue; } order += 's';
    if (at < 4) { if (at % 2 == 0) { t->step(); auto o = t->out(); rest = o.substr(o.size() / 2); t->c.put(o.substr(0, o.size() / 2)); } else t->c.put(rest); t->settle(); if (at == 3 && !closed) { if (!t->done && !t->failed) t->settle(); deadline = NOW + req * U; } } else if (!closed) { auto& x = items()[at < 6 ? 1 : 0].text; if (at % 2 == 0) { sealed = t->seal(x); t->c.put(sealed.substr(0, sealed.size() / 2)); } else t->c.put(sealed.substr(sealed.size() / 2)); t->settle(); if (at % 2) deadline = NOW + req * U; }
    ++at; check(); if (closed && at >= 4) break; }
  c.note(order); if (!bad) { if (kind == 1 && at <= 3) { NOW += 100000LL * U; t->settle(); check(); } else pass(34); } if (!bad && at >= 8 && !want.in.starts_with(t->in)) c.fail("limit answers:" + c.notes(), "received " + show(t->in)); if (!bad && !closed && at >= 8 && t->in != want.in) c.fail("limit answers:" + c.notes(), "received " + show(t->in)); t.reset(); w.settle(); c.observe(c.notes());
}
// ---- protected and plain connections next to each other ----
struct Conn { std::unique_ptr<Tls> t; vf::Client p; int at = 0, kind; S rest; };
static int conn_steps(int kind) { return kind == 2 ? 3 : 5; }
static void act(Both& w, Conn& x) // kinds: 0, 1 protected (1.2, 1.3) posting, 2 plain posting, 3 protected but leaving during the handshake, 4 protected with an altered request
{
  static const S text[] = { post("/echo/zero", "Content-Length: 6", "first!"), post("/echo/one", "Content-Length: 7", "second!"), post("/echo/two", "Content-Length: 6", "third!"), "", post("/echo/four", "Content-Length: 6", "fourth") };
  auto& t = x.t; auto& s = text[x.kind]; if (x.kind == 2) { if (x.at == 0) x.p = w.connect(); else if (x.at == 1) x.p.put(s.substr(0, 30)); else x.p.put(s.substr(30)); ++x.at; return; }
  switch (x.at++) { case 0: t = std::make_unique<Tls>(w, x.kind != 0); break; case 1: t->step(); t->c.put(t->out()); break; case 2: if (x.kind == 3) { t->c.shut(); break; } t->step(); t->c.put(t->out()); break; case 3: if (x.kind == 3) break; t->take(); { auto o = t->seal(s); if (x.kind == 4) o[o.size() - 3] = char(o[o.size() - 3] ^ 4); x.rest = o.substr(o.size() / 2); t->c.put(o.substr(0, o.size() / 2)); } break; case 4: t->c.put(x.rest); break; }
}
MC_SCENARIO_D("side by side", 3)
{
  static const int pool[][2] = { { 0, 1 }, { 1, 2 }, { 1, 3 }, { 1, 4 }, { 2, 3 }, { 2, 4 }, { 3, 4 }, { 0, 2 } }; auto& ks = pool[c.pick(8)]; LOG.clear(); Both w(app(nullopt, nullopt)); std::vector<Conn> x(2); x[0].kind = ks[0]; x[1].kind = ks[1]; S order; auto settle = [&] { for (int i = 0; i < 3; ++i) for (auto& y : x) { if (y.t && y.t->c.fd >= 0) y.t->settle(); else if (y.p.fd >= 0) w.settle(y.p); else w.settle(); } };
  for (;;) { std::vector<int> can; for (int i = 0; i < 2; ++i) if (x[std::size_t(i)].at < conn_steps(x[std::size_t(i)].kind)) can.push_back(i); if (can.empty()) break; int i = can[std::size_t(can.size() == 1 ? 0 : c.pick(2))]; order += char('a' + i); act(w, x[std::size_t(i)]); settle(); } c.note(std::to_string(ks[0]) + std::to_string(ks[1])); c.note(order); auto key = "beside:" + c.notes();
  static const S names[] = { "zero", "one", "two", "", "four" }, bodies[] = { "first!", "second!", "third!", "", "fourth" }; for (auto& y : x) { auto in = y.t ? y.t->in : y.p.in; S want = y.kind < 3 ? plain(post("/echo/" + names[y.kind], "Content-Length: " + std::to_string(bodies[y.kind].size()), bodies[y.kind])).in : ""; if (in != want) c.fail(key, "connection of kind " + std::to_string(y.kind) + " received " + show(in) + " instead of " + show(want)); } for (auto& l : LOG) if (l.find("four") != S::npos && l.substr(0, 4) == "all:") c.fail(key, "an altered request was served"); c.observe(c.notes());
}
MC_MAIN
