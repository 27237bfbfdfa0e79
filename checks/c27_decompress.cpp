#include "mc.hpp"
#include "wire.hpp"
#include "aio.hpp"
#include "zref.hpp"
#include <fitoria/core/dynamic_buffer.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/middleware/decompress.hpp>
using namespace fitoria; using namespace fitoria::web; using mc::show; using namespace vf;
namespace md = fitoria::web::middleware::detail;
struct Done { std::string out; std::error_code ec; bool again_end = false; };
template <class S> static Done go(S s) { Done d; auto [o, e] = vf::drain(s); d.out = o; d.ec = e; if (!e) { auto r = vf::run(s.async_read_some()); d.again_end = !r; } return d; }
static Done inflate_it(Coding k, Pieces p)
{
  if (k == DEFLATE) return go(md::async_inflate_stream(std::move(p))); if (k == GZIP) return go(md::async_gzip_inflate_stream(std::move(p))); return go(md::async_brotli_inflate_stream(std::move(p)));
}
static bool either_prefix(std::string_view a, std::string_view b) { return a.starts_with(b) || b.starts_with(a); }
static std::vector<std::string> pieces(std::string_view s, std::size_t n) { std::vector<std::string> v; for (std::size_t i = 0; i < s.size(); i += n) v.emplace_back(s.substr(i, n)); return v; }
// the stream delivers exactly what the reference says: the bytes, or an error
static void judge(mc::Chooser& c, Coding k, const std::vector<std::string>& v, const Ref& r, std::size_t total, const std::string& key, std::error_code end = {})
{
  if (c.failed()) return; Pieces p; p.v = v; p.end = end; auto d = inflate_it(k, std::move(p));
  if (end) { if (!d.ec) c.fail(key, "an error of the source became a complete body of " + std::to_string(d.out.size()) + " bytes"); else if (r.r != Ref::BAD && d.ec != end) c.fail(key, "error " + d.ec.message() + " instead of " + end.message()); if (!either_prefix(r.data, d.out)) c.fail(key, "wrong bytes"); return; }
  if (total == 0) { if (!d.out.empty()) c.fail(key, "bytes out of nothing"); return; }
  if (r.r == Ref::OK && r.used == total) { if (d.ec) c.fail(key, "a valid body of " + std::to_string(r.data.size()) + " bytes fails with " + d.ec.message() + " after " + std::to_string(d.out.size())); else if (d.out != r.data) c.fail(key, std::to_string(d.out.size()) + " bytes which are not the original " + std::to_string(r.data.size())); else if (!d.again_end) c.fail(key, "a read after the end does not say end"); return; }
  if (!d.ec) c.fail(key, std::string(r.r == Ref::MORE ? "a truncated" : r.r == Ref::BAD ? "a corrupted" : "a body with trailing bytes, a") + " body is delivered as complete: " + std::to_string(d.out.size()) + " bytes"); else if (!either_prefix(r.data, d.out)) c.fail(key, "wrong bytes before the error");
}
struct Comp { std::string orig, z, what; };
static std::vector<Comp> corpus(Coding k, bool big)
{
  std::vector<Comp> v; static const std::size_t SMALL[] = { 0, 1, 2, 5, 40, 300 }, BIG[] = { 65535, 65536, 65537, 131072, 131073, 200000 };
  auto add = [&](std::size_t n, int kind) { auto o = content(kind, n); auto nm = std::to_string(n) + "k" + std::to_string(kind); if (k == BROTLI) { for (int q : { 0, 5, 9 }) v.push_back({ o, shrink(k, o, q), nm + "q" + std::to_string(q) }); } else { for (int l : { 0, 1, 9 }) v.push_back({ o, shrink(k, o, l), nm + "l" + std::to_string(l) }); v.push_back({ o, shrink(k, o, 6, Z_FIXED), nm + "fixed" }); v.push_back({ o, shrink(k, o, 6, Z_HUFFMAN_ONLY), nm + "huff" }); if (k == GZIP) v.push_back({ o, shrink(k, o, 6, 0, true), nm + "fields" }); } };
  if (big) for (auto n : BIG) for (int kind = 0; kind < 3; ++kind) add(n, kind); else for (auto n : SMALL) for (int kind = 0; kind < (n > 1 ? 3 : 1); ++kind) add(n, kind); return v;
}
static const std::vector<Comp>& pool(Coding k, bool big) { static std::vector<Comp> p[3][2]; auto& x = p[k][big]; if (x.empty()) x = corpus(k, big); return x; }
// ---- short bodies: every cut, every pair of cuts, byte by byte, every truncation, every byte changed, trailing bytes
MC_SCENARIO_D("short bodies", 2)
{
  Coding k = Coding(c.pick(3)); auto& P = pool(k, false); auto& x = P[std::size_t(c.pick(int(P.size())))]; auto base = std::string(name(k)) + ":" + x.what; c.note(base); std::uint64_t n = 0; auto& z = x.z; Ref ok = expand(k, z); if (ok.r != Ref::OK || ok.data != x.orig) { std::fprintf(stderr, "reference broken\n"); std::_Exit(4); }
  auto one = [&](const std::vector<std::string>& v, const Ref& r, std::size_t t, const std::string& key, std::error_code e = {}) { ++n; judge(c, k, v, r, t, "short:" + base + ":" + key, e); };
  one({ z }, ok, z.size(), "whole"); one(pieces(z, 1), ok, z.size(), "bytes"); one(pieces(z, 3), ok, z.size(), "threes"); { std::vector<std::string> g; for (auto& s : pieces(z, 1)) { g.push_back(""); g.push_back(s); } g.push_back(""); one(g, ok, z.size(), "gaps"); }
  bool full = z.size() <= (c.thorough() ? 400u : 120u); std::size_t step = full ? 1 : 5;
  for (std::size_t i = 0; i <= z.size(); i += step) { one({ z.substr(0, i), z.substr(i) }, ok, z.size(), "cut" + std::to_string(i)); if (z.size() <= (c.thorough() ? 120u : 60u)) for (std::size_t j = i; j <= z.size(); ++j) one({ z.substr(0, i), z.substr(i, j - i), z.substr(j) }, ok, z.size(), "cut" + std::to_string(i) + "," + std::to_string(j)); }
  auto io = std::make_error_code(std::errc::io_error); std::error_code eof = boost::system::error_code(boost::asio::error::eof);
  for (std::size_t i = 0; i <= z.size(); i += step) { auto t = z.substr(0, i); auto r = expand(k, t); one({ t }, r, i, "trunc" + std::to_string(i)); one(pieces(t, 1), r, i, "trunc" + std::to_string(i) + "bytes"); if (i < z.size()) { one({ t }, r, i, "fail" + std::to_string(i), io); one({ t }, r, i, "faileof" + std::to_string(i), eof); } }
  one({ z }, ok, z.size(), "failend", io);
  for (std::size_t i = 0; i < z.size(); i += step) for (int b = 0; b < (c.thorough() ? 255 : 8); ++b) { auto t = z; t[i] = char(t[i] ^ (c.thorough() ? b + 1 : 1 << b)); auto r = expand(k, t); one({ t }, r, t.size(), "flip" + std::to_string(i) + "^" + std::to_string(b)); if (b == 3) one(pieces(t, 1), r, t.size(), "flip" + std::to_string(i) + "^" + std::to_string(b) + "bytes"); }
  for (std::string g : { std::string("\0", 1), std::string("x"), std::string("\xff"), std::string(100, '\0'), std::string("\x1f\x8b\x08") }) { auto t = z + g; auto r = expand(k, t); if (r.r == Ref::OK && r.used == t.size()) continue; one({ t }, r, t.size(), "trailing" + show(g.substr(0, 3))); one({ z, g }, r, t.size(), "trailing piece" + show(g.substr(0, 3))); one({ z, "", g }, r, t.size(), "trailing late piece" + show(g.substr(0, 3))); one(pieces(t, 1), r, t.size(), "trailing bytes" + show(g.substr(0, 3))); }
  { // a second member: either both are delivered or the body is refused
    auto t = z + z; for (auto& v : { std::vector<std::string> { t }, std::vector<std::string> { z, z }, pieces(t, 1) }) { Pieces p; p.v = v; auto d = inflate_it(k, p); ++n; if (!d.ec && d.out != x.orig + x.orig) c.fail("short:" + base + ":twice", "two streams are delivered as " + std::to_string(d.out.size()) + " bytes"); } }
  c.cases(n); c.observe(base);
}
// ---- big bodies: pieces of every size, cuts and truncations near the ends and the block boundaries
MC_SCENARIO_D("big bodies", 2)
{
  Coding k = Coding(c.pick(3)); auto& P = pool(k, true); auto& x = P[std::size_t(c.pick(int(P.size())))]; auto base = std::string(name(k)) + ":" + x.what; c.note(base); std::uint64_t n = 0; auto& z = x.z; Ref ok { Ref::OK, x.orig, z.size() };
  auto one = [&](const std::vector<std::string>& v, const Ref& r, std::size_t t, const std::string& key) { ++n; judge(c, k, v, r, t, "big:" + base + ":" + key); };
  for (std::size_t s : { 1, 2, 3, 7, 64, 1000, 4096, 32768, 65535, 65536, 65537, 131072, 1 << 20 }) if (z.size() / s <= (c.thorough() ? 70000u : 1500u)) one(pieces(z, s), ok, z.size(), "pieces" + std::to_string(s));
  std::size_t w = c.thorough() ? 24 : 8; std::vector<std::size_t> at; for (std::size_t i = 0; i <= w; ++i) { at.push_back(i); if (z.size() >= i) at.push_back(z.size() - i); for (std::size_t m : { 65536u, 131072u }) { at.push_back(m + i - w / 2); at.push_back(m + 5 + i); } } std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
  for (auto i : at) if (i <= z.size()) { one({ z.substr(0, i), z.substr(i) }, ok, z.size(), "cut" + std::to_string(i)); one({ z.substr(0, i), "", z.substr(i) }, ok, z.size(), "gap" + std::to_string(i)); auto t = z.substr(0, i); auto r = expand(k, t); one({ t }, r, i, "trunc" + std::to_string(i)); if (i < z.size()) { t = z; t[i] = char(t[i] ^ 0x10); r = expand(k, t); one({ t }, r, t.size(), "flip" + std::to_string(i)); } }
  one({ z, "x" }, ok, z.size() + 1, "trailing"); one({ z + "x" }, ok, z.size() + 1, "trailing same"); c.cases(n); c.observe(base);
}
// ---- the output fills the block exactly when a piece ends
MC_SCENARIO_D("exact fill", 3)
{
  Coding k = Coding(c.pick(3)); static const int N[] = { 65536, 131072, 65536 * 3 }; auto n = std::size_t(c.of(N)); int kind = c.pick(3); int lvl = c.pick(3); auto o = content(kind, n); auto z = shrink(k, o, lvl == 0 ? 0 : lvl == 1 ? 1 : 9); Ref ok { Ref::OK, o, z.size() }; std::uint64_t m = 0; std::size_t from = z.size() > 64 ? z.size() - 64 : 0; for (std::size_t i = from; i <= z.size(); ++i) { ++m; judge(c, k, { z.substr(0, i), z.substr(i) }, ok, z.size(), std::string("fill:") + name(k) + ":" + std::to_string(n) + "k" + std::to_string(kind) + "l" + std::to_string(lvl) + ":cut" + std::to_string(z.size() - i)); } { std::vector<std::string> v; if (from) v.push_back(z.substr(0, from)); for (std::size_t i = from; i < z.size(); ++i) v.emplace_back(1, z[i]); ++m; judge(c, k, v, ok, z.size(), std::string("fill:") + name(k) + ":" + std::to_string(n) + "k" + std::to_string(kind) + "l" + std::to_string(lvl) + ":bytes"); } c.cases(m); c.observe(std::to_string(k) + std::to_string(n) + std::to_string(kind) + std::to_string(lvl));
}
// ---- all short texts as compressed data
MC_SCENARIO_D("all texts", 2)
{
  Coding k = Coding(c.pick(3)); int a = c.pick(256); std::uint64_t n = 0; std::string t(1, char(a)); if (k == GZIP) t = std::string("\x1f\x8b\x08\0\0\0\0\0\0\3", 10) + t; auto one = [&](const std::string& s) { ++n; auto r = expand(k, s); judge(c, k, { s }, r, s.size(), std::string("text:") + name(k) + ":" + show(s)); }; one(t); static const unsigned char L[] = { 0, 1, 2, 3, 4, 5, 6, 0x0b, 0x10, 0x20, 0x21, 0x3b, 0x40, 0x7f, 0x80, 0x81, 0xaa, 0xc0, 0xfe, 0xff }; for (int b = 0; b < 256; ++b) { one(t + char(b)); for (auto d : L) { auto s = t + char(b) + char(d); one(s); if (c.thorough()) for (auto e : L) one(s + char(e)); } if (k == GZIP && !c.thorough() && b % 4) continue; } c.cases(n); c.observe(std::to_string(k) + "." + std::to_string(a));
}
// ---- the middleware on a real connection: stacks of codings, unknown ones, damage
struct Seen { bool called = false, has = false; std::string enc, body; std::error_code ec; };
MC_SCENARIO_D("served", 3)
{
  static const char* TOK[] = { "deflate", "gzip", "brotli", "identity", "GZip", "br", "unknown", "deflatex", "" };
  struct St { Seen s; }; auto st = std::make_shared<St>(); int nt = c.pick((c.thorough() ? 3 : 2) + 1); std::vector<std::string> toks; for (int i = 0; i < nt; ++i) toks.push_back(c.of(TOK)); static const char* SEP[] = { ",", ", ", " , " }; std::string sep = nt > 1 ? c.of(SEP) : ","; bool chunked = c.flip(), bytes1 = c.flip(); int damage = c.pick(4); // 0 none 1 truncated 2 trailing 3 empty body
  std::string hdr; for (int i = 0; i < nt; ++i) hdr += (i ? sep : "") + toks[std::size_t(i)]; bool known = true; std::string plain = "abcabcabcabc plain body \x01\xff", body = plain; int layers = 0; auto lower = [](std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32); return s; };
  for (auto& t : toks) { auto l = lower(t); if (l == "deflate") { body = shrink(DEFLATE, body, 9); ++layers; } else if (l == "gzip") { body = shrink(GZIP, body, 9); ++layers; } else if (l == "brotli" || l == "br") { body = shrink(BROTLI, body, 5); ++layers; if (l == "br") known = false; } else if (l != "identity") known = false; }
  if (damage == 1) { if (body.size() < 2) c.skip(); body.pop_back(); } if (damage == 2) body += 'x'; if (damage == 3) body.clear(); if (damage && !layers) c.skip();
  auto key = "served:" + show(hdr) + ":" + (chunked ? "chunked" : "sized") + (bytes1 ? ":bytes" : "") + ":damage" + std::to_string(damage); c.note(key);
  vf::Wire w([st](auto& b) { b.serve(route::post<"/r">([st](request& q) -> awaitable<response> { auto& s = st->s; s = {}; s.called = true; auto h = q.headers().get(http::field::content_encoding); s.has = bool(h); if (h) s.enc = *h; auto r = co_await async_read_until_eof<std::string>(q.body()); if (r) s.body = *r; else s.ec = r.error(); co_return response::ok().set_body("done"); }).use(web::middleware::decompress())).serve(route::post<"/s">([st](std::string body) -> awaitable<response> { st->s.called = true; st->s.body = body; co_return response::ok().set_body("done"); }).use(web::middleware::decompress())); });
  for (std::string path : { "/r", "/s" }) {
    st->s = {}; auto cl = w.connect(); std::string q = "POST " + path + " HTTP/1.1\r\nHost: x\r\n" + (nt ? "Content-Encoding: " + hdr + "\r\n" : ""); if (chunked) { q += "Transfer-Encoding: chunked\r\n\r\n"; char b[32]; for (std::size_t i = 0; i < body.size(); i += 5) { auto p = body.substr(i, 5); std::snprintf(b, sizeof b, "%zx\r\n", p.size()); q += b + p + "\r\n"; } q += "0\r\n\r\n"; } else q += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    q += "POST " + path + " HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nafter";
    if (bytes1) { for (char ch : q) { if (!cl.put(std::string_view(&ch, 1))) break; w.settle(cl); } } else { cl.put(q); } Seen first; w.settle(cl);
    auto a = vf::read_all(cl.in, cl.eof, { "POST", "POST" }); if (a.v.empty()) { c.fail(key + path, "no answer: " + a.err); return; } int s = a.v[0].status;
    // the second request overwrote what was seen, so the first is judged on a connection of its own
    st->s = {}; auto c2 = w.connect(); auto q1 = q.substr(0, q.rfind("POST")); if (bytes1) { for (char ch : q1) { if (!c2.put(std::string_view(&ch, 1))) break; w.settle(c2); } } else c2.put(q1); w.settle(c2); auto& S = st->s; auto b2 = vf::read_all(c2.in, c2.eof, { "POST" }); if (b2.v.size() != 1 || b2.v[0].status != s) { c.fail(key + path, "answers differ: " + b2.err); return; }
    bool valid = damage == 0 || (damage == 3 && false);
    if (!known) { // refused, or passed on unchanged
      if (S.called && path == "/r") { if (!S.has || S.ec || S.body != body) c.fail(key + path, "an unknown coding is neither refused nor passed on unchanged: " + (S.has ? "coding " + S.enc : "no coding") + ", " + std::to_string(S.body.size()) + " of " + std::to_string(body.size()) + " bytes"); } else if (!S.called && (s < 400 || s >= 500)) c.fail(key + path, "status " + std::to_string(s)); }
    else if (valid) { if (!S.called || s != 200) c.fail(key + path, "a valid body is answered with " + std::to_string(s)); else if (S.ec || S.body != plain) c.fail(key + path, "the handler saw " + show(S.body) + " " + S.ec.message()); else if (S.has && layers && S.enc != "identity") c.fail(key + path, "the handler still sees the coding " + S.enc); }
    else if (damage == 3) { if (S.called && !S.ec && !S.body.empty()) c.fail(key + path, "bytes out of nothing"); }
    else if (path == "/r") { if (!S.called) c.fail(key + path, "handler not called"); else if (!S.ec) c.fail(key + path, "a damaged body is complete for the handler"); }
    else if (S.called || s < 400) c.fail(key + path, "a damaged body reached the handler as " + std::to_string(S.body.size()) + " bytes, status " + std::to_string(s));
    // what follows on the connection is still served, or the connection is closed
    if (a.v.size() == 1 && !cl.eof) c.fail(key + path, "the next request is not answered"); if (a.v.size() > 2 || (a.v.size() == 2 && (a.v[1].status != 200 || a.v[1].body != "done"))) c.fail(key + path, "the next request is answered with " + std::to_string(a.v[1].status)); else if (a.v.size() == 1 && !a.err.empty()) c.fail(key + path, a.err);
  }
  c.observe(key);
}
MC_MAIN
