#include "mc.hpp"
#include "wire.hpp"
#include "aio.hpp"
#include <fitoria/web/static_file.hpp>
#include <map>
#include <sys/stat.h>
#include <time.h>
using namespace fitoria; using namespace fitoria::web; using mc::show;
using U = unsigned __int128;
// ---- scratch files, removed at exit -------------------------------------------------------------------
struct Dir {
  std::string d; std::vector<std::string> made;
  Dir() { char t[] = "/tmp/vf-c26-XXXXXX"; if (!::mkdtemp(t)) { std::perror("mkdtemp"); std::_Exit(4); } d = t; }
  ~Dir() { for (auto& p : made) ::unlink(p.c_str()); ::rmdir(d.c_str()); }
  std::string put(const std::string& name, const std::string& data, time_t mtime = 1700000000, long ns = 0)
  {
    auto p = d + "/" + name; int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); std::size_t o = 0; while (o < data.size()) { auto n = ::write(fd, data.data() + o, data.size() - o); if (n <= 0) { std::perror("write"); std::_Exit(4); } o += std::size_t(n); } ::close(fd);
    timespec ts[2] = { { mtime, ns }, { mtime, ns } }; ::utimensat(AT_FDCWD, p.c_str(), ts, 0); if (std::find(made.begin(), made.end(), p) == made.end()) made.push_back(p); return p;
  }
};
static Dir& dir() { static Dir d; return d; }
static std::string content(std::size_t n) { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char((i * 2654435761u) >> 13); return s; }
static const std::string& file(std::size_t n, std::string& path) { static std::map<std::size_t, std::pair<std::string, std::string>> m; auto& e = m[n]; if (e.first.empty()) { e.second = content(n); e.first = dir().put(std::to_string(n) + ".bin", e.second); } path = e.first; return e.second; }
// ---- a request to work with ---------------------------------------------------------------------------
static request& base()
{
  static std::optional<request> r; static vf::Wire* w = nullptr;
  if (!r) { w = new vf::Wire([](auto& b) { b.serve(route::get<"/">([](request& q) -> awaitable<response> { r.emplace(q.builder().set_body()); co_return response::ok().build(); })); }); auto cl = w->connect(); cl.put("GET / HTTP/1.1\r\n\r\n"); w->settle(cl); if (!r) { std::fprintf(stderr, "no request\n"); std::_Exit(4); } }
  return *r;
}
static request& with(const std::vector<std::pair<http::field, std::string>>& hs) { auto& r = base(); auto b = r.builder(); b.headers().clear(); for (auto& [f, v] : hs) b.set_header(f, v); r = b.build(); return r; }
struct Got { int st = 0; std::string cr, etag, lm, ar, ct, cd, body; std::error_code ec; int kind = 0; bool opened = false; std::vector<std::size_t> sizes; };
static Got take(response r) { Got g; g.opened = true; g.st = int(r.status().value()); auto h = [&](http::field f) { auto v = r.headers().get(f); return std::string(v ? *v : "-"); }; g.cr = h(http::field::content_range); g.etag = h(http::field::etag); g.lm = h(http::field::last_modified); g.ar = h(http::field::accept_ranges); g.ct = h(http::field::content_type); g.cd = h(http::field::content_disposition); g.kind = int(r.body().size().index()); auto [b, e] = vf::drain(r.body().stream(), &g.sizes); g.body = b; g.ec = e; return g; }
static Got get(const std::string& path, const std::vector<std::pair<http::field, std::string>>& hs) { auto f = static_file::open(executor_type(vf::ctx().get_executor()), path, with(hs)); if (!f) return {}; return take(to_response(std::move(*f))); }
static void fds(mc::Chooser& c, const std::string& key) { if (vf_file_env::get().open_fds != 0) { c.fail("fd:" + key, std::to_string(vf_file_env::get().open_fds) + " files left open"); vf_file_env::get().open_fds = 0; } }
static void whole(mc::Chooser& c, const std::string& key, const Got& g, const std::string& data)
{
  if (g.st != 200) c.fail(key, "status " + std::to_string(g.st) + " instead of 200"); else if (g.cr != "-") c.fail(key, "content-range on 200: " + g.cr); else if (g.ec) c.fail(key, "body fails: " + g.ec.message()); else if (g.body != data) c.fail(key, "body of " + std::to_string(g.body.size()) + " bytes is not the file of " + std::to_string(data.size()));
}
// one or several ranges, as meant by RFC 9110; unsatisfiable ones are dropped
struct R { U a, b; }; // inclusive
static bool number(std::string_view s, U& v) { while (!s.empty() && s[0] == ' ') s.remove_prefix(1); while (!s.empty() && s.back() == ' ') s.remove_suffix(1); if (s.empty() || s.size() > 25) return false; v = 0; for (char ch : s) { if (ch < '0' || ch > '9') return false; v = v * 10 + U(ch - '0'); } return true; }
// -> well formed?
static bool denoted(std::string_view t, U size, std::vector<R>& out)
{
  if (t.empty()) return false;
  for (;;) {
    auto k = t.find(','); auto e = t.substr(0, k); while (!e.empty() && e[0] == ' ') e.remove_prefix(1); while (!e.empty() && e.back() == ' ') e.remove_suffix(1);
    auto d = e.find('-'); if (d == e.npos) return false; U a, b; auto l = e.substr(0, d), r = e.substr(d + 1);
    if (l.empty()) { if (!number(r, b)) return false; if (b > 0 && size > 0) out.push_back({ b >= size ? U(0) : size - b, size - 1 }); }
    else { if (!number(l, a)) return false; if (r.empty()) { if (a < size) out.push_back({ a, size - 1 }); } else { if (!number(r, b) || b < a) return false; if (a < size) out.push_back({ a, b < size ? b : size - 1 }); } }
    if (k == t.npos) return true; t.remove_prefix(k + 1);
  }
}
static std::string dec(U v) { std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return s; }
// a recorded finding, reported at the end of a case so that it does not hide anything else
static std::string KNOWN;
static void known(mc::Chooser& c) { if (!KNOWN.empty() && !c.failed()) c.fail("content-range-total-is-range-length", KNOWN); KNOWN.clear(); }
// what a range request may be answered with
static void range_answer(mc::Chooser& c, const std::string& key, const Got& g, const std::string& text, const std::string& data)
{
  std::vector<R> rs; bool wf = denoted(text, data.size(), rs); U size = data.size();
  if (g.st == 416) { if (!g.body.empty() && g.body == data) c.fail(key, "416 with the file"); if (g.cr != "bytes */" + dec(size)) c.fail(key, "416 with content-range " + g.cr);
    // refusing is right when nothing is satisfiable; a range which reaches past the end is refused by the
    // repository's own tests, so it may be either
    if (wf && rs.size() == 1 && text.find(',') == text.npos) { U a = 0, b = 0; auto d = text.find('-'); bool past = text.find(' ') != text.npos || d != 0 && d + 1 < text.size() && number(std::string_view(text).substr(d + 1), b) && b >= size; for (std::size_t k = 0, m = 0; k < text.size(); k += m + 1) { m = std::min(text.find('-', k), text.size()) - k; if (number(std::string_view(text).substr(k, m), a) && a >> 64) past = true; } /* does not fit 64 bits: refused */ if (!past) c.fail(key, "416 for a satisfiable range"); }
    return; }
  if (g.st == 200) { whole(c, key, g, data); if (wf && rs.size() == 1 && text.find(',') == text.npos) c.fail(key, "200 for a satisfiable range"); return; }
  if (g.st == 400) { if (wf) c.fail(key, "400 for a well formed range"); return; }
  if (g.st != 206) { c.fail(key, "status " + std::to_string(g.st)); return; }
  if (!wf) { c.fail(key, "206 for malformed ranges"); return; } if (rs.empty()) { c.fail(key, "206 although nothing is satisfiable"); return; }
  if (g.ec) { c.fail(key, "body fails: " + g.ec.message()); return; }
  // Content-Range names one of the ranges and the body is exactly that
  for (auto& r : rs) { auto head = "bytes " + dec(r.a) + "-" + dec(r.b) + "/"; if (!g.cr.starts_with(head)) continue; auto want = std::string_view(data).substr(std::size_t(r.a), std::size_t(r.b - r.a + 1)); if (g.body != want) { c.fail(key, "body of " + std::to_string(g.body.size()) + " bytes is not the range of " + std::to_string(want.size())); return; } auto tot = g.cr.substr(head.size()); if (tot == dec(size)) return; if (tot == dec(r.b - r.a + 1)) { if (KNOWN.empty()) KNOWN = key + ": " + g.cr + " for a file of " + dec(size); } else c.fail(key, "content-range " + g.cr + " for a file of " + dec(size)); return; }
  c.fail(key, "content-range " + g.cr + " is none of the ranges asked for");
}
static std::vector<std::size_t> sizes(bool t) { std::vector<std::size_t> v { 0, 1, 2, 3, 10, 65535, 65536, 65537, 131072, 131073 }; if (t) for (std::size_t x : { 4, 5, 7, 131071, 196608, 200000, 1048576 }) v.push_back(x); return v; }
MC_SCENARIO_D("ranges", 2)
{
  auto S = sizes(c.thorough()); std::size_t n = c.of(S); std::string path; auto& data = file(n, path); c.note("size" + std::to_string(n));
  std::vector<std::string> B; auto add = [&](U v) { auto s = dec(v); if (std::find(B.begin(), B.end(), s) == B.end()) B.push_back(s); };
  for (U d = 0; d < 3; ++d) { add(d); add(n + d); if (n >= d) add(n - d); add(n / 2 + d); add(65535 + d); } U two = 1; for (U p : { two << 31, two << 32, two << 63, two << 64 }) { add(p - 2); add(p - 1); add(p); } add(two << 80);
  std::string l = B[std::size_t(c.pick(int(B.size())))]; std::uint64_t k = 0;
  auto one = [&](const std::string& t, const char* unit = "bytes") { if (c.failed()) return; ++k; auto key = "range:size" + std::to_string(n) + ":" + unit + "=" + show(t); mc::Exact x(t); auto g = get(path, { { http::field::range, std::string(unit) + "=" + t } }); if (!g.opened) { c.fail(key, "not opened"); return; } if (std::string_view(unit) == "bytes" || std::string_view(unit) == "Bytes") range_answer(c, key, g, t, data); else if (g.st != 416 && g.st != 200) c.fail(key, "status " + std::to_string(g.st) + " for an unknown unit"); fds(c, key); };
  one(l + "-"); one("-" + l); for (auto& r : B) one(l + "-" + r); one(l); one(l + "--"); one("--" + l); one(l + "-x"); one("x-" + l); one("+" + l + "-"); one(l + "-" + l, "Bytes"); one(l + "-" + l, "lines"); one(l + "-" + l, "byte"); one(l + "-" + l, "bytess");
  known(c); c.cases(k); c.observe(c.notes() + l);
}
MC_SCENARIO_D("range texts", 1)
{
  static const std::size_t S[] = { 0, 1, 2, 3, 11 }; std::size_t n = c.of(S); std::string path; auto& data = file(n, path); static const char A[] = "01-, "; std::string first(1, A[c.pick(5)]); std::uint64_t k = 0;
  mc::all_strings(first, "012-, =", c.thorough() ? 6 : 5, [&](const std::string& t) { if (c.failed()) return; ++k; auto key = "range:size" + std::to_string(n) + ":bytes=" + show(t); auto g = get(path, { { http::field::range, "bytes=" + t } }); if (!g.opened) c.fail(key, "not opened"); else range_answer(c, key, g, t, data); fds(c, key); }); known(c); c.cases(k); c.observe(first + std::to_string(n));
}
// validators
static std::string date_of(time_t t) { tm x; ::gmtime_r(&t, &x); static const char* W[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }; static const char* M[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; char b[80]; std::snprintf(b, sizeof b, "%s, %02d %s %d %02d:%02d:%02d GMT", W[x.tm_wday], x.tm_mday, M[x.tm_mon], x.tm_year + 1900, x.tm_hour, x.tm_min, x.tm_sec); return b; }
MC_SCENARIO_D("validators", 2)
{
  static const std::size_t S[] = { 0, 1, 70000 }; static const time_t T[] = { 0, 1, 951782400, 1700000000, 2147483648 }; static const long NS[] = { 0, 1, 999999999 }; std::size_t n = c.of(S); time_t t = c.of(T); long ns = c.of(NS); auto data = content(n); auto path = dir().put("v.txt", data, t, ns); auto key = "validator:size" + std::to_string(n) + ":t" + std::to_string(t) + "." + std::to_string(ns); c.note(key); std::uint64_t k = 0;
  auto g0 = get(path, {}); whole(c, key, g0, data); if (c.failed()) return; auto& tag = g0.etag; if (tag.size() < 3 || tag[0] != '"' || tag.back() != '"') { c.fail(key, "etag " + tag); return; } if (g0.lm != date_of(t)) { c.fail(key, "last-modified " + g0.lm + " instead of " + date_of(t)); return; } if (g0.ar != "bytes") c.fail(key, "accept-ranges " + g0.ar); if (g0.ct != "text/plain" || g0.cd != "inline") c.fail(key, "content type " + g0.ct + " " + g0.cd);
  auto op = tag.substr(1, tag.size() - 2);
  struct V { std::string t; int r; }; // 1 match 0 none -1 malformed
  std::vector<V> el { { tag, 1 }, { "W/" + tag, 1 }, { "\"" + op.substr(0, op.size() - 1) + "\"", 0 }, { "\"" + op + "0\"", 0 }, { "W/\"x\"", 0 }, { "\"\"", 0 }, { "\"0" + op + "\"", 0 } };
  std::vector<V> texts { { "*", 1 }, { "\"\"\"", -1 }, { "x", -1 }, { op, -1 }, { "\"" + op, -1 }, { op + "\"", -1 }, { "w/" + tag, -1 }, { "W/", -1 }, { "W" + tag, -1 } };
  for (auto& a : el) { texts.push_back(a); for (auto& b : el) { texts.push_back({ a.t + ", " + b.t, a.r | b.r }); texts.push_back({ a.t + "," + b.t, a.r | b.r }); texts.push_back({ b.t + ", \"q\", " + a.t, a.r | b.r }); } texts.push_back({ a.t + ", x", -1 }); texts.push_back({ "x, " + a.t, -1 }); }
  static const char* RG[] = { "", "bytes=0-0", "bytes=5-2", "bytes=99999999-" };
  for (auto& v : texts) for (auto rg : RG) {
    if (c.failed()) return; ++k; auto kk = key + ":" + show(v.t) + ":" + rg; std::vector<std::pair<http::field, std::string>> hs { { http::field::if_none_match, v.t } }; if (*rg) hs.emplace_back(http::field::range, rg); auto g = get(path, hs);
    if (v.r == 1) { if (g.st != 304) c.fail(kk, "status " + std::to_string(g.st) + " instead of 304"); else if (!g.body.empty()) c.fail(kk, "304 with a body"); else if (g.etag != tag) c.fail(kk, "304 with etag " + g.etag); else if (g.cr != "-") c.fail(kk, "304 with content-range"); }
    else if (v.r < 0) { if (g.st != 400) c.fail(kk, "status " + std::to_string(g.st) + " instead of 400"); else if (g.body.size() == n && n) c.fail(kk, "400 with the file"); }
    else if (!*rg) whole(c, kk, g, data); else range_answer(c, kk, g, rg + 6, data);
    if ((g.st == 200 || g.st == 206) && (g.etag != tag || g.lm != g0.lm)) c.fail(kk, "etag " + g.etag + ", last-modified " + g.lm); fds(c, kk);
  }
  // the tag tells versions of the file apart
  auto p2 = dir().put("w.txt", data + "x", t, ns); if (get(p2, {}).etag == tag) c.fail(key, "a file one byte longer has the same etag"); if (n) { auto p3 = dir().put("w.txt", data.substr(1), t, ns); if (get(p3, {}).etag == tag) c.fail(key, "a file one byte shorter has the same etag"); } for (int d : { 1, 2, 60, 3600, 86400 }) { auto p4 = dir().put("w.txt", data, t + d, ns); if (get(p4, {}).etag == tag) c.fail(key, "a file changed " + std::to_string(d) + " s later has the same etag"); } auto p5 = dir().put("w.txt", data, t, ns); if (get(p5, {}).etag != tag) c.fail(key, "the same file has another etag");
  // without a request: always the whole file
  { auto f = static_file::open(executor_type(vf::ctx().get_executor()), path); if (!f) c.fail(key, "not opened"); else { auto g = take(to_response(std::move(*f))); whole(c, key + ":plain", g, data); if (g.etag != tag || g.lm != g0.lm) c.fail(key, "plain: other validators"); } }
  known(c); fds(c, key); c.cases(k); c.observe(key);
}
// ---- the file system decides how much each read gets, or fails it --------------------------------------
static mc::Chooser* CH; static int RD, FREE, FAILAT; static std::string TRUNC; static std::size_t TRUNC_TO; static int TRUNC_AT;
static std::size_t lim(std::size_t n) { int i = RD; if (i >= FREE) return n; switch (CH->pick(n > 2 ? 4 : n > 1 ? 2 : 1)) { case 0: CH->note("all"); return n; case 1: CH->note("1"); return 1; case 2: CH->note("-1"); return n - 1; default: CH->note("half"); return n / 2; } }
static int failing() { int i = RD++; if (i == TRUNC_AT && !TRUNC.empty()) { if (::truncate(TRUNC.c_str(), off_t(TRUNC_TO))) std::_Exit(4); } return i == FAILAT ? EIO : 0; }
struct Env { Env(mc::Chooser& c, int free, int failat) { CH = &c; RD = 0; FREE = free; FAILAT = failat; TRUNC.clear(); TRUNC_AT = -1; auto& e = vf_file_env::get(); e.limit_read = [](std::size_t n) { --RD; auto r = lim(n); ++RD; return r; }; e.fail_read = failing; e.open_fds = 0; } ~Env() { auto& e = vf_file_env::get(); e.limit_read = nullptr; e.fail_read = nullptr; } };
static void reading(mc::Chooser& c, bool wire, int free)
{
  static const std::size_t S[] = { 1, 2, 3, 65536, 65537, 140000 }; std::size_t n = c.of(S); c.note("size" + std::to_string(n));
  struct Rg { std::size_t a, b; bool use; }; std::vector<Rg> rs { { 0, n - 1, false }, { 0, n - 1, true } }; if (n > 1) { rs.push_back({ 0, 0, true }); rs.push_back({ n - 1, n - 1, true }); rs.push_back({ 1, n - 1, true }); } if (n > 65537) { rs.push_back({ 1, 65536, true }); rs.push_back({ 1, 65537, true }); rs.push_back({ 65536, 131071, true }); rs.push_back({ 3, n - 2, true }); }
  auto r = c.of(rs); if (r.use) c.note(std::to_string(r.a) + "-" + std::to_string(r.b)); int failat = c.pick(free + 2) - 1; if (failat >= 0) c.note("fail" + std::to_string(failat)); static const std::size_t KEEP[] = { 0, 1, 65536 }; int tr = failat < 0 ? c.pick(free + 2) - 1 : -1; std::size_t keep = tr >= 0 ? c.of(KEEP) : 0; if (tr >= 0) c.note("cut" + std::to_string(tr) + "to" + std::to_string(keep)); bool grow = tr < 0 && failat < 0 && c.flip(); if (grow) c.note("grow"); bool head = wire && c.flip(); if (head) c.note("head");
  std::string path; std::string data; if (tr >= 0 || grow) { data = content(n); path = dir().put("t.bin", data); } else data = file(n, path);
  auto want = data.substr(r.a, r.b - r.a + 1); auto text = "bytes=" + std::to_string(r.a) + "-" + std::to_string(r.b);
  Env env(c, free, failat); if (grow) { TRUNC = path; TRUNC_TO = n + 100; TRUNC_AT = 0; } if (tr >= 0) { TRUNC = path; TRUNC_TO = std::min(keep, n); TRUNC_AT = tr; }
  auto key = std::string(wire ? "served:" : "read:");
  if (!wire) {
    auto g = get(path, r.use ? std::vector<std::pair<http::field, std::string>> { { http::field::range, text } } : std::vector<std::pair<http::field, std::string>> {}); key += c.notes(); if (g.st != (r.use ? 206 : 200)) { c.fail(key, "status " + std::to_string(g.st)); return; }
    if (!std::string_view(want).starts_with(std::string_view(g.body)) && tr < 0) c.fail(key, "bytes which are not in the range"); if (failat >= 0 && RD > failat) { if (!g.ec) c.fail(key, "a failed read looks like the end of a body"); } else if (tr < 0) { if (g.ec) c.fail(key, "body fails: " + g.ec.message()); else if (g.body != want) c.fail(key, std::to_string(g.body.size()) + " bytes instead of " + std::to_string(want.size())); } else if (!g.ec && g.body.size() != want.size()) c.fail(key, "a file which became shorter gives a complete body of " + std::to_string(g.body.size()) + " bytes instead of " + std::to_string(want.size())); else if (g.body != want.substr(0, g.body.size())) c.fail(key, "other bytes"); fds(c, key);
  } else {
    vf::Wire w([&](auto& b) { auto h = [path](const request& q) -> awaitable<std::variant<static_file, response>> { if (auto f = static_file::open(co_await net::this_coro::executor, path, q)) co_return std::move(*f); co_return response::not_found().build(); }; b.serve(route::get<"/">(h)).serve(route::head<"/">(h)); });
    auto cl = w.connect(); std::string m = head ? "HEAD" : "GET"; cl.put(m + " / HTTP/1.1\r\n" + (r.use ? "Range: " + text + "\r\n" : "") + "\r\n"); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, { m }); key += c.notes();
    bool bad = failat >= 0 && RD > failat; auto full = a.err.empty() && a.v.size() == 1;
    if (full) { auto& x = a.v[0]; if (x.status != (r.use ? 206 : 200)) c.fail(key, "status " + std::to_string(x.status)); else if (head) { if (!x.body.empty()) c.fail(key, "HEAD with a body"); } else if (bad) c.fail(key, "a failed read is sent as a complete response of " + std::to_string(x.body.size()) + " bytes"); else if (x.body != want) c.fail(key, (tr >= 0 ? std::string("a file which became shorter is sent as a complete response of ") : std::string("complete response of ")) + std::to_string(x.body.size()) + " bytes instead of " + std::to_string(want.size())); }
    else if (!bad && tr < 0) c.fail(key, "answer: " + a.err + " after " + std::to_string(cl.in.size())); else if (!cl.eof) c.fail(key, "the response is incomplete and the connection stays open"); else if (a.v.size() || !std::string_view(want).starts_with(a.partial.body)) c.fail(key, "bytes which are not in the range: " + a.err);
    if (!w.escaped.empty()) { bool ok = true; for (auto& e : w.escaped) if (e.find("end of stream") == e.npos && !bad && tr < 0) ok = false; if (!ok) c.fail(key, "escaped " + w.escaped[0]); } cl.shut(); w.settle();
    if (vf_file_env::get().open_fds != 0) fds(c, key);
  }
  c.observe(c.notes());
}
MC_SCENARIO_D("reads", 3) { reading(c, false, c.thorough() ? 4 : 3); }
MC_SCENARIO_D("served reads", 3) { reading(c, true, c.thorough() ? 3 : 2); }
// types by extension, missing files
MC_SCENARIO_D("names", 0)
{
  struct N { const char* f; const char* ct; bool inl; }; static const N NS[] = { { "a.html", "text/html", true }, { "a.js", "text/javascript", true }, { "a.json", "application/json", true }, { "a.png", "image/png", true }, { "a.tmp", "application/octet-stream", false }, { "noext", "application/octet-stream", false }, { "a b.zip", "application/zip", false }, { "x.tar.gz", "", false } };
  std::uint64_t n = 0; for (auto& x : NS) { ++n; auto p = dir().put(x.f, "data"); auto f = static_file::open(executor_type(vf::ctx().get_executor()), p); auto key = std::string("name:") + show(x.f); if (!f) { c.fail(key, "not opened"); continue; } auto et = f->etag().to_string(); auto g = take(to_response(std::move(*f))); whole(c, key, g, "data"); if (*x.ct && x.inl && std::string_view(x.f) != "a.js" && g.ct != x.ct) c.fail(key, "content type " + g.ct); if (g.cd != (x.inl ? std::string("inline") : "attachment; filename=\"" + std::string(x.f) + "\"")) c.fail(key, "content disposition " + g.cd); if (g.etag != et) c.fail(key, "etag differs");
    auto f2 = static_file::open(executor_type(vf::ctx().get_executor()), p, with({})); if (!f2) { c.fail(key, "not opened"); continue; } f2->set_content_type(mime::text_css()); g = take(to_response(std::move(*f2))); if (g.ct != "text/css") c.fail(key, "content type set is not used: " + g.ct);
    auto f3 = static_file::open(executor_type(vf::ctx().get_executor()), dir().d + "/none-" + x.f); if (f3) c.fail(key, "a missing file is opened"); auto f4 = static_file::open(executor_type(vf::ctx().get_executor()), dir().d + "/none-" + x.f, with({ { http::field::range, "bytes=0-1" } })); if (f4) c.fail(key, "a missing file is opened"); else if (f4.error() != std::errc::no_such_file_or_directory) c.fail(key, "error " + f4.error().message());
    fds(c, key); } c.cases(n); c.observe("names");
}
MC_MAIN
