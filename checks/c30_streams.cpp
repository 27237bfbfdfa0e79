#include "mc.hpp"
#include "wire.hpp"
#include "aio.hpp"
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/any_body.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_file_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/async_write_chunks.hpp>
#include <sys/stat.h>
using namespace fitoria; using namespace fitoria::web; using mc::show;
static std::string content(std::size_t n, unsigned seed = 0) { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(((i + seed * 7919u) * 2654435761u) >> 13); return s; }
static std::string str(std::size_t n) { return std::to_string(n); }
static const std::error_code IO = std::make_error_code(std::errc::io_error), EOFC = boost::system::error_code(boost::asio::error::eof);
struct Src { std::vector<std::string> v; std::error_code end; std::string all, key; };
// every sequence of pieces of the given sizes; how it ends
static Src source(mc::Chooser& c, int maxlen, const std::vector<std::size_t>& sizes)
{
  Src s; int n = c.pick(maxlen + 1); for (int i = 0; i < n; ++i) { auto z = sizes[std::size_t(c.pick(int(sizes.size())))]; s.v.push_back(content(z, unsigned(i + 1))); s.all += s.v.back(); s.key += (i ? "+" : "") + str(z); }
  switch (c.pick(3)) { case 1: s.end = IO; s.key += "!io"; break; case 2: s.end = EOFC; s.key += "!eof"; break; } return s;
}
static bool prefix(std::string_view p, std::string_view s) { return s.starts_with(p); }
// ---- collecting into containers, through every way of holding a stream
template <class C> static void collected(mc::Chooser& c, const std::string& key, const Src& s, const expected<C, std::error_code>& r)
{
  if (s.end) { if (r) c.fail(key, "an error of the source became a complete body of " + str(r->size()) + " bytes"); else if (r.error() != s.end) c.fail(key, "error " + r.error().message() + " instead of " + s.end.message()); return; }
  if (!r) { c.fail(key, "fails with " + r.error().message()); return; }
  if (std::string_view(reinterpret_cast<const char*>(r->data()), r->size()) != s.all) c.fail(key, str(r->size()) + " bytes which are not the " + str(s.all.size()) + " of the source");
}
template <class S> static void consume(mc::Chooser& c, const std::string& key, const Src& s, S&& st, int how)
{
  switch (how) {
    case 0: { auto [o, e] = vf::drain(st); if (e != s.end) c.fail(key, "ends with '" + e.message() + "' instead of '" + s.end.message() + "'"); else if (o != s.all) c.fail(key, str(o.size()) + " bytes which are not the " + str(s.all.size()) + " of the source"); else if (!e) for (int i = 0; i < 2; ++i) if (vf::run(st.async_read_some())) c.fail(key, "a read after the end does not say end"); break; }
    case 1: collected<std::string>(c, key, s, vf::run(async_read_until_eof<std::string>(st))); break;
    case 2: collected<bytes>(c, key, s, vf::run(async_read_until_eof<bytes>(st))); break;
    case 3: collected<std::vector<unsigned char>>(c, key, s, vf::run(async_read_until_eof<std::vector<unsigned char>>(std::move(st)))); break;
  }
}
MC_SCENARIO_D("type-erased streams", 3)
{
  int hold = c.pick(7), how = c.pick(4); auto s = source(c, c.thorough() ? 4 : 3, { 0, 1, 2, 17, 4096, 65536 }); int reads = 0; auto key = "erased:" + s.key + ":hold" + str(std::size_t(hold)) + ":how" + str(std::size_t(how)); c.note(key);
  vf::Pieces p; p.v = s.v; p.end = s.end; p.reads = &reads;
  switch (hold) {
    case 0: consume(c, key, s, p, how); break;
    case 1: consume(c, key, s, any_async_readable_stream(p), how); break;
    case 2: { any_async_readable_stream a(std::move(p)); any_async_readable_stream b(std::move(a)); consume(c, key, s, b, how); break; }
    case 3: { any_async_readable_stream a { async_readable_vector_stream(bytes(3)) }; a = any_async_readable_stream(std::move(p)); consume(c, key, s, a, how); break; }
    case 4: { any_body b(any_body::chunked {}, any_async_readable_stream(std::move(p))); consume(c, key, s, b.stream(), how); break; }
    case 5: { any_body a(any_body::sized { s.all.size() }, p); any_body b; b = std::move(a); any_body d(std::move(b)); auto z = std::get_if<any_body::sized>(&d.size()); if (!z || !z->size || *z->size != s.all.size()) c.fail(key, "size lost"); consume(c, key, s, d.stream(), how); break; }
    case 6: { // part read before and the rest after a move
      any_async_readable_stream a(std::move(p)); Src t = s; if (!t.v.empty()) { auto f = vf::run(a.async_read_some()); if (!f || !*f || std::string_view(reinterpret_cast<const char*>((*f)->data()), (*f)->size()) != t.v[0]) { c.fail(key, "first piece wrong"); return; } t.all.erase(0, t.v[0].size()); } any_async_readable_stream b(std::move(a)); consume(c, key, t, b, how); break; }
  }
  int want = int(s.v.size()) + 1; if (!c.failed() && how != 0 && reads != want) c.fail(key, str(std::size_t(reads)) + " reads of the source instead of " + str(std::size_t(want))); c.observe(s.key + str(std::size_t(hold)) + str(std::size_t(how)));
}
// ---- in-memory streams
MC_SCENARIO_D("in-memory streams", 2)
{
  static const std::size_t N[] = { 0, 1, 2, 100, 65535, 65536, 65537, 1000000 }; auto n = c.of(N); int make = c.pick(5), move = c.pick(5), how = c.pick(4); auto key = "memory:" + str(n) + ":make" + str(std::size_t(make)) + ":move" + str(std::size_t(move)) + ":how" + str(std::size_t(how)); c.note(key); Src s; s.all = content(n); auto b0 = reinterpret_cast<const std::byte*>(s.all.data());
  async_readable_vector_stream v = [&]() -> async_readable_vector_stream { switch (make) { case 0: return async_readable_vector_stream(bytes(b0, b0 + n)); case 1: return async_readable_vector_stream(std::span<const char>(s.all)); case 2: return async_readable_vector_stream(std::span<const std::byte>(b0, n)); case 3: { std::vector<std::uint16_t> w(n / 2 + 1, 0x4142); s.all.assign(reinterpret_cast<const char*>(w.data()), w.size() * 2); return async_readable_vector_stream(std::span(w)); } default: { static const char a[3] = { 'x', 0, 'z' }; s.all.assign(a, 3); return async_readable_vector_stream(std::span<const char, 3>(a)); } } }();
  switch (move) { case 0: consume(c, key, s, v, how); break; case 1: { auto w = v; consume(c, key, s, w, how); consume(c, key + ":orig", s, v, how); break; } case 2: { auto w = std::move(v); consume(c, key, s, w, how); break; } case 3: { async_readable_vector_stream w; if (vf::run(w.async_read_some())) c.fail(key, "a default stream is not empty"); w = v; vf::drain(v); consume(c, key, s, w, how); break; } case 4: { async_readable_vector_stream w { bytes(9) }; w = std::move(v); consume(c, key, s, w, how); break; } }
  c.observe(key);
}
// ---- files
struct Dir { std::string d; std::vector<std::string> made; Dir() { char t[] = "/tmp/vf-c30-XXXXXX"; if (!::mkdtemp(t)) { std::perror("mkdtemp"); std::_Exit(4); } d = t; } ~Dir() { for (auto& p : made) ::unlink(p.c_str()); ::rmdir(d.c_str()); } };
static Dir& dir() { static Dir d; return d; }
static std::string put(const std::string& nm, const std::string& data) { auto p = dir().d + "/" + nm; int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); std::size_t o = 0; while (o < data.size()) { auto n = ::write(fd, data.data() + o, data.size() - o); if (n <= 0) { std::perror("write"); std::_Exit(4); } o += std::size_t(n); } ::close(fd); if (std::find(dir().made.begin(), dir().made.end(), p) == dir().made.end()) dir().made.push_back(p); return p; }
static std::string slurp(const std::string& p) { std::string s; int fd = ::open(p.c_str(), O_RDONLY); char b[65536]; for (;;) { auto n = ::read(fd, b, sizeof b); if (n <= 0) break; s.append(b, std::size_t(n)); } ::close(fd); return s; }
static executor_type ex() { return executor_type(vf::ctx().get_executor()); }
static std::size_t LIM = 0; static int OPS = 0, FAILAT = -1; static std::string SHRINK; static std::size_t SHRINK_TO = 0;
static std::size_t limit(std::size_t n) { return LIM && LIM < n ? LIM : n; }
static int fault() { if (FAILAT < 0 || OPS++ != FAILAT) return 0; if (!SHRINK.empty()) { if (::truncate(SHRINK.c_str(), off_t(SHRINK_TO))) std::_Exit(4); return 0; } return ENOSPC; }
struct Env { Env() { auto& e = vf_file_env::get(); e.limit_read = e.limit_write = limit; e.fail_read = e.fail_write = fault; LIM = 0; OPS = 0; FAILAT = -1; SHRINK.clear(); } ~Env() { vf_file_env::get() = {}; } };
static void fds(mc::Chooser& c, const std::string& key) { if (vf_file_env::get().open_fds != 0) { c.fail("fd:" + key, str(std::size_t(vf_file_env::get().open_fds)) + " files left open"); vf_file_env::get().open_fds = 0; } }
static stream_file open_file(const std::string& p, stream_file::flags f) { return stream_file(ex(), p, f); }
MC_SCENARIO_D("reading files", 3)
{
  static const std::size_t N[] = { 0, 1, 100, 65535, 65536, 65537, 131072, 200001 }; static const std::size_t L[] = { 0, 1000, 65535, 40000 }; auto n = c.of(N); auto lim = c.of(L); int how = c.pick(4), win = c.pick(c.thorough() ? 7 : 6), bad = c.pick(3); std::size_t off = 0; optional<std::uint64_t> len; bool whole = false;
  switch (win) { case 0: whole = true; break; case 1: break; case 2: off = n / 2; break; case 3: off = n ? n - 1 : 0; break; case 4: off = n / 3; len = n / 3; break; case 5: off = 0; len = n ? n - 1 : 0; break; case 6: off = n; len = 0; break; }
  std::size_t m = len ? std::size_t(*len) : n - off; auto base = "file:" + str(n) + ":" + str(off) + "+" + (whole ? "all" : len ? str(m) : "rest") + ":limit" + str(lim) + ":how" + str(std::size_t(how)); auto data = content(n); std::uint64_t k = 0;
  std::size_t per = std::min<std::size_t>(lim ? lim : 65536, 65536), ops = (m + per - 1) / per + 1;
  for (std::size_t at = 0; at < (bad ? ops : 1); ++at) {
    auto key = base + (bad == 1 ? ":fail" : bad == 2 ? ":shrink" : "") + (bad ? str(at) : ""); c.note(key); auto p = put("r.bin", data); Env e; LIM = lim; if (bad) FAILAT = int(at); if (bad == 2) { SHRINK = p; SHRINK_TO = off + std::min(m, at * per) / 2; } ++k;
    {
      auto f = open_file(p, stream_file::read_only); async_readable_file_stream s = whole ? async_readable_file_stream(std::move(f)) : async_readable_file_stream(std::move(f), off, len); any_async_readable_stream a(std::move(s)); Src r; r.all = data.substr(off, m); bool hit = bad && at * per < m;
      if (!hit) consume(c, key, r, a, how);
      else { // an error or a file which got shorter: never a complete body
        std::string got; std::error_code ec; bool ok = false; if (how == 0) { auto [o, err] = vf::drain(a); got = o; ec = err; ok = !err; } else if (how == 1) { auto x = vf::run(async_read_until_eof<std::string>(a)); ok = bool(x); if (x) got = *x; else ec = x.error(); } else { auto x = vf::run(async_read_until_eof<bytes>(a)); ok = bool(x); if (x) got.assign(reinterpret_cast<const char*>(x->data()), x->size()); else ec = x.error(); }
        if (ok && got != r.all) c.fail(key, str(got.size()) + " bytes were delivered as the complete " + str(m)); else if (ok && bad == 1) c.fail(key, "the error was swallowed"); else if (!ok && bad == 1 && ec != std::error_code(ENOSPC, std::system_category())) c.fail(key, "error " + ec.message()); else if (!prefix(got, r.all)) c.fail(key, "wrong bytes before the error");
      }
    }
    fds(c, key);
  }
  c.cases(k); c.observe(base + str(std::size_t(bad)));
}
MC_SCENARIO_D("into files", 3)
{
  auto s = source(c, c.thorough() ? 4 : 3, { 0, 1, 100, 65536, 70000 }); static const std::size_t L[] = { 0, 1, 50, 65535 }; auto lim = c.of(L); if (lim == 1 && s.all.size() > 3000) c.skip(); if (lim == 50 && s.all.size() > 140000) c.skip(); bool after = c.flip(); std::size_t ops = 0; std::uint64_t k = 0; auto base = "into:" + s.key + ":limit" + str(lim) + (after ? ":after" : ""); for (auto& v : s.v) if (!v.empty()) ops += (v.size() + std::min<std::size_t>(lim ? lim : 65536, 65536) - 1) / std::min<std::size_t>(lim ? lim : 65536, 65536);
  std::string old = after ? "already there" : "";
  for (int at = -1; at < int(std::min<std::size_t>(ops, c.thorough() ? 300 : 40)); ++at) {
    auto key = base + (at >= 0 ? ":fail" + str(std::size_t(at)) : ""); c.note(key); ++k; auto p = put("w.bin", old); expected<std::size_t, std::error_code> r = unexpected { EOFC }; int reads = 0;
    { Env e; LIM = lim; FAILAT = at; vf::Pieces q; q.v = s.v; q.end = s.end; q.reads = &reads; auto f = open_file(p, stream_file::write_only); if (after) { boost::system::error_code ec; f.seek(0, stream_file::seek_end, ec); } r = vf::run(async_read_into_stream_file(q, f)); }
    auto got = slurp(p); fds(c, key); bool failed = at >= 0; if (!prefix(old, got)) { c.fail(key, "what was there is gone"); return; } got.erase(0, old.size());
    if (failed) { if (r) c.fail(key, "a failed write is reported as " + str(*r) + " bytes written"); else if (r.error() != std::error_code(ENOSPC, std::system_category()) && r.error() != s.end) c.fail(key, "error " + r.error().message()); else if (!prefix(got, s.all)) c.fail(key, "wrong bytes in the file"); continue; }
    if (s.end) { if (r) c.fail(key, "an error of the source is reported as " + str(*r) + " bytes written"); else if (r.error() != s.end) c.fail(key, "error " + r.error().message()); }
    else if (!r) c.fail(key, "fails with " + r.error().message()); else if (*r != s.all.size()) c.fail(key, "reports " + str(*r) + " of " + str(s.all.size()) + " bytes");
    if (got != s.all) c.fail(key, "the file has " + str(got.size()) + " bytes which are not the " + str(s.all.size()) + " of the source"); if (reads != int(s.v.size()) + 1) c.fail(key, str(std::size_t(reads)) + " reads");
  }
  c.cases(k); c.observe(base);
}
// ---- as chunks, to a stream that takes any number of bytes at a time and may fail at any write
struct Sink {
  using executor_type = fitoria::executor_type; std::string* out; std::size_t lim = 0; int* ops; int failat = -1;
  executor_type get_executor() noexcept { return ex(); }
  template <class B, class Tok> auto async_write_some(const B& b, Tok&& tok)
  {
    boost::system::error_code ec; std::size_t n = 0;
    if ((*ops)++ == failat) ec = { EPIPE, boost::system::system_category() };
    else for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) { boost::asio::const_buffer x(*it); auto take = std::min(x.size(), (lim ? lim : std::size_t(-1)) - n); out->append(static_cast<const char*>(x.data()), take); n += take; if (take < x.size()) break; }
    return boost::asio::async_initiate<Tok, void(boost::system::error_code, std::size_t)>([](auto h, boost::system::error_code e, std::size_t m) { boost::asio::post(ex(), boost::asio::append(std::move(h), e, m)); }, tok, ec, n);
  }
};
static int hexval(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
// -> bytes so far; done when the last chunk and nothing else follows; bad when not a chunked body
static std::string dechunk(std::string_view t, bool& done, bool& bad) { std::string o; done = bad = false; for (;;) { std::size_t z = 0, i = 0; while (i < t.size() && hexval(t[i]) >= 0) z = z * 16 + std::size_t(hexval(t[i++])); if (i == t.size()) return o; if (i == 0) { bad = true; return o; } if (i + 1 == t.size() && t[i] == '\r') return o; if (t[i] != '\r' || t[i + 1] != '\n') { bad = true; return o; } t.remove_prefix(i + 2); if (z == 0) { done = t == "\r\n"; bad = !std::string_view("\r\n").starts_with(t); return o; } auto m = std::min(z, t.size()); o.append(t.substr(0, m)); t.remove_prefix(m); if (m < z || t.empty() || t == "\r") return o; if (!t.starts_with("\r\n")) { bad = true; return o; } t.remove_prefix(2); } }
MC_SCENARIO_D("as chunks", 3)
{
  auto s = source(c, c.thorough() ? 4 : 3, { 0, 1, 15, 16, 4096, 65536 }); static const std::size_t L[] = { 0, 1, 7, 65537 }; auto lim = c.of(L); if (lim && lim < 10 && s.all.size() > 5000) c.skip(); auto base = "chunks:" + s.key + ":limit" + str(lim); std::uint64_t k = 0; int total = 0;
  for (int at = -1; at < std::min(total, c.thorough() ? 400 : 60); ++at) {
    auto key = base + (at >= 0 ? ":fail" + str(std::size_t(at)) : ""); c.note(key); ++k; std::string out; int ops = 0, reads = 0; vf::Pieces q; q.v = s.v; q.end = s.end; q.reads = &reads; Sink to { &out, lim, &ops, at }; auto r = vf::run(async_write_chunks(to, q)); bool done, bad; auto got = dechunk(out, done, bad);
    if (bad) { c.fail(key, "not a chunked body: " + show(out.substr(0, 200))); return; }
    if (at >= 0) { if (r) c.fail(key, "a failed write is reported as success"); else if (done && !s.end) c.fail(key, "complete although a write failed"); else if (!prefix(got, s.all)) c.fail(key, "wrong bytes"); continue; }
    total = ops;
    if (s.end) { if (r) c.fail(key, "an error of the source is reported as success"); else if (r.error() != s.end) c.fail(key, "error " + r.error().message()); if (done) c.fail(key, "an error of the source became a complete body of " + str(got.size()) + " bytes"); if (got != s.all) c.fail(key, "wrong bytes before the error"); }
    else if (!r) c.fail(key, "fails with " + r.error().message()); else if (!done) c.fail(key, "no end of the body"); else if (got != s.all) c.fail(key, str(got.size()) + " bytes which are not the " + str(s.all.size()) + " of the source");
    if (reads != int(s.v.size()) + 1) c.fail(key, str(std::size_t(reads)) + " reads");
  }
  c.cases(k); c.observe(base);
}
// ---- from the network: body sizes around the block size, sized and chunked, every way of cutting near the ends, early ends
struct St { int calls = 0; std::string body; std::error_code ec; bool done = false; std::size_t pieces = 0; bool again_end = true; };
MC_SCENARIO_D("from the network", 3)
{
  static const std::size_t N[] = { 0, 1, 100, 65535, 65536, 65537, 131071, 131072, 200001 }; auto n = c.of(N); static const std::size_t CH[] = { 0, 7, 65535, 65536, 65537, 100000 }; auto ch = c.of(CH); if (ch == 7 && n > 1000 && !c.thorough()) c.skip(); int how = c.pick(3), cut = c.pick(7), early = c.pick(4); auto body = content(n);
  auto key = "net:" + str(n) + (ch ? ":chunks" + str(ch) : ":sized") + ":how" + str(std::size_t(how)) + ":cut" + str(std::size_t(cut)) + ":early" + str(std::size_t(early)); c.note(key); if (early && n == 0 && !ch) c.skip();
  auto st = std::make_shared<St>(); static std::shared_ptr<St> cur; cur = st;
  static vf::Wire w([](auto& b) {
    b.set_request_body_limit(std::size_t(1) << 22);
    b.serve(route::post<"/0">([](request& q) -> awaitable<response> { auto s = cur; ++s->calls; for (;;) { auto r = co_await q.body().async_read_some(); if (!r) { s->done = true; break; } if (!*r) { s->ec = r->error(); break; } s->body.append(reinterpret_cast<const char*>((*r)->data()), (*r)->size()); ++s->pieces; } if (s->done) { auto r = co_await q.body().async_read_some(); s->again_end = !r; } co_return response::ok().set_body("done"); }));
    b.serve(route::post<"/1">([](request& q) -> awaitable<response> { auto s = cur; ++s->calls; auto r = co_await async_read_until_eof<std::string>(q.body()); if (r) { s->done = true; s->body = *r; } else s->ec = r.error(); co_return response::ok().set_body("done"); }));
    b.serve(route::post<"/2">([](request& q) -> awaitable<response> { auto s = cur; ++s->calls; auto p = dir().d + "/n.bin"; if (std::find(dir().made.begin(), dir().made.end(), p) == dir().made.end()) dir().made.push_back(p); auto f = open_file(p, stream_file::write_only | stream_file::create | stream_file::truncate); auto r = co_await async_read_into_stream_file(q.body(), f); f.close(); s->body = slurp(p); if (r) { s->done = true; if (*r != s->body.size()) s->again_end = false; } else s->ec = r.error(); co_return response::ok().set_body("done"); }));
  });
  std::string h = "POST /" + str(std::size_t(how)) + " HTTP/1.1\r\nHost: x\r\n", msg; if (ch) { h += "Transfer-Encoding: chunked\r\n\r\n"; msg = h; char b[32]; for (std::size_t i = 0; i < n; i += ch) { auto p = body.substr(i, ch); std::snprintf(b, sizeof b, "%zx\r\n", p.size()); msg += b + p + "\r\n"; } msg += "0\r\n\r\n"; } else msg = h + "Content-Length: " + str(n) + "\r\n\r\n" + body;
  auto hs = msg.find("\r\n\r\n") + 4; std::size_t send = msg.size(); if (early == 1) send = msg.size() - 1; if (early == 2) send = hs + (msg.size() - hs) / 2; if (early == 3) send = hs;
  std::vector<std::size_t> cuts; switch (cut) { case 0: break; case 1: cuts = { hs }; break; case 2: cuts = { hs + 1 }; break; case 3: cuts = { msg.size() - 1 }; break; case 4: cuts = { hs, hs + 65536 }; break; case 5: cuts = { hs + 65535, hs + 65536, hs + 65537 }; break; case 6: for (std::size_t i = 1; i < msg.size(); i += 8191) cuts.push_back(i); break; }
  auto cl = w.connect(); std::size_t o = 0; for (auto x : cuts) { x = std::min(x, send); if (x > o) { cl.put(std::string_view(msg).substr(o, x - o)); w.settle(cl); o = x; } } if (send > o) cl.put(std::string_view(msg).substr(o, send - o)); w.settle(cl); if (early) { cl.half_close(); w.settle(cl); }
  if (early) { if (st->calls > 1) c.fail(key, "called twice"); else if (st->done) c.fail(key, "a body that ended early is complete for the handler: " + str(st->body.size()) + " of " + str(n) + " bytes"); else if (!prefix(st->body, body)) c.fail(key, "wrong bytes before the error"); else if (st->calls == 1 && !st->ec) c.fail(key, "the handler does not learn of the early end"); }
  else { auto a = vf::read_all(cl.in, cl.eof, { "POST" }); if (st->calls != 1 || !st->done) c.fail(key, "the handler does not get the body: " + st->ec.message()); else if (st->body != body) c.fail(key, str(st->body.size()) + " bytes which are not the " + str(n) + " sent"); else if (!st->again_end) c.fail(key, "a read after the end does not say end"); else if (a.v.size() != 1 || a.v[0].status != 200 || a.v[0].body != "done") c.fail(key, "no proper answer: " + a.err); }
  cl.shut(); w.settle(); c.observe(key);
}
MC_MAIN
