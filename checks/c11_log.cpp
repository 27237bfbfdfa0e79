#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <fmt/chrono.h>
#include "mc.hpp"
using namespace fitoria; using namespace fitoria::log; using mc::show;
static const char* NAME[] = { "TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL" };
MC_SCENARIO("filter-at-least")
{
  int a = c.pick(7), b = c.pick(7); auto k = std::to_string(a) + ":" + std::to_string(b); c.note(k);
  c.check(filter::at_least(level(a)).is_allowed(level(b)) == (b != 6 && b >= a), "atleast:" + k, "threshold filter"); c.check(filter::all().is_allowed(level(b)) == (b != 6), "all:" + k, "filter::all"); c.observe(k);
  // thresholds taken from the environment
  static const char* E[] = { "trace", "Debug", "INFO", "warning", "ErRoR", "fatal", "off", "", "bogus", "info " };
  for (auto e : E) { ::setenv("CPP_LOG", e, 1); int t = 6; for (int i = 0; i < 6; ++i) if (!strcasecmp(e, NAME[i])) t = i; c.check(filter::from_env().is_allowed(level(b)) == (b != 6 && b >= t), std::string("env:") + show(e) + ":" + std::to_string(b), "filter taken from the environment"); }
  ::unsetenv("CPP_LOG"); c.check(!filter::from_env().is_allowed(level(b)), "noenv:" + std::to_string(b), "no environment variable means no level"); c.cases(11);
}
MC_SCENARIO("filter-set")
{
  int l[3]; for (auto& x : l) x = c.pick(7); c.note(std::to_string(l[0]) + std::to_string(l[1]) + std::to_string(l[2]));
  for (int n = 0; n <= 3; ++n) { auto f = n == 0 ? filter(std::initializer_list<level> {}) : n == 1 ? filter({ level(l[0]) }) : n == 2 ? filter({ level(l[0]), level(l[1]) }) : filter({ level(l[0]), level(l[1]), level(l[2]) });
    auto g = f; // copies answer alike
    for (int b = 0; b < 7; ++b) { bool w = false; for (int i = 0; i < n; ++i) w |= l[i] == b; w &= b != 6; c.check(f.is_allowed(level(b)) == w && g.is_allowed(level(b)) == w, [&] { return "set:" + c.notes() + ":" + std::to_string(n) + ":" + std::to_string(b); }, "filter built from a list"); } }
  c.cases(28); c.observe(c.notes());
}
MC_SCENARIO_D("level-names", 2)
{
  int l = c.pick(6); std::string s = NAME[l]; int m = c.pick(4);
  c.check(to_string(level(l)) == s && fmt::format("{}", level(l)) == s && to_level(s) == level(l), "name:" + s, "name of the level");
  std::uint64_t n = 0; std::vector<std::string> v;
  if (m == 0) for (unsigned b = 0; b < (1u << s.size()); ++b) { auto t = s; for (std::size_t i = 0; i < t.size(); ++i) if (b >> i & 1) t[i] = char(t[i] | 32); v.push_back(t); }
  if (m == 1) for (std::size_t i = 0; i < s.size(); ++i) for (int x = 0; x < 256; ++x) { auto t = s; t[i] = char(x); v.push_back(t); }
  if (m == 2) for (int x = 0; x < 256; ++x) { v.push_back(s + char(x)); v.push_back(char(x) + s); }
  if (m == 3) for (std::size_t i = 0; i <= s.size(); ++i) { v.push_back(s.substr(0, i)); v.push_back(s.substr(i)); v.push_back(s + s.substr(i)); }
  for (auto& t : v) { auto w = level::off; for (int i = 0; i < 6; ++i) if (t.size() == std::strlen(NAME[i]) && !strncasecmp(t.c_str(), NAME[i], t.size()) && t.find('\0') == t.npos) w = level(i); mc::Exact e(t); if (to_level(e.sv()) != w) c.fail("tolevel:" + show(t), "text converts to another level"); ++n; }
  for (int x = 6; x < 256; ++x) c.check(to_string(level(x)) == "UNKNOWN", "unknown:" + std::to_string(x), "a number outside the levels has a name"); c.cases(n); c.note(s); c.observe(s + std::to_string(m));
}
// rendering ------------------------------------------------------------------------------------
static record_ptr rec(long long t, int line, int col, std::string_view file, std::string_view fn, int lv, std::string msg)
{
  auto r = std::make_shared<record>(record::clock_t::time_point(std::chrono::duration_cast<record::clock_t::duration>(std::chrono::nanoseconds(t))), source_location::current(), level(lv), std::move(msg));
  r->line = std::uint32_t(line); r->column = std::uint32_t(col); r->file_name = file; r->function_name = fn; return r;
}
static std::string base(std::string_view f) { std::string o; for (char ch : f) if (ch == '/' || ch == '\\') o.clear(); else o += ch; return o; }
static formatter mk(int pat, int nl, int fs, int st)
{
  formatter::builder b;
  switch (pat) { case 1: b.set_pattern("{MSG:}"); break; case 2: b.set_pattern("{LV:}|{FILE:}|{FUNC:}|{LINE:}|{COL:}|{MSG:}|{TIME:%FT%TZ}"); break; case 3: b.set_pattern("{{{MSG:}}}{MSG:}"); break; case 4: b.set_pattern("{FUNC:}{LV:}"); break; default: break; }
  if (nl < 3) b.set_newline_style(newline_style(nl)); if (fs < 2) b.set_file_name_style(file_name_style(fs));
  if (st == 1) b.set_color_level_style(); if (st == 2) b.set_level_style([](level l) { return l == level::error ? fmt::text_style(fmt::emphasis::bold) : fmt::text_style(); });
  return b.build();
}
static std::string want(const record& r, int pat, int nl, int fs, int st)
{
  std::string lv = int(r.lv) < 6 ? NAME[int(r.lv)] : "UNKNOWN";
  if (st == 1) { static const int C[][3] = { { 255, 255, 255 }, { 0, 255, 255 }, { 50, 205, 50 }, { 255, 255, 0 }, { 255, 0, 0 }, { 255, 0, 255 }, { 0, 0, 0 } }; auto& q = C[int(r.lv)]; char b[64]; std::snprintf(b, sizeof b, "\x1b[38;2;%03d;%03d;%03dm", q[0], q[1], q[2]); lv = b + lv + "\x1b[0m"; }
  if (st == 2 && r.lv == level::error) lv = "\x1b[1m" + lv + "\x1b[0m";
  std::string file = fs == 0 ? std::string(r.file_name) : base(r.file_name), fn(r.function_name), ln = std::to_string(r.line), co = std::to_string(r.column), tm = fmt::format("{:%FT%TZ}", r.time), o;
  switch (pat) { case 0: o = "[" + tm + " " + lv + " " + fn + "] " + r.msg + " [" + file + ":" + ln + ":" + co + "]"; break; case 1: o = r.msg; break; case 2: o = lv + "|" + file + "|" + fn + "|" + ln + "|" + co + "|" + r.msg + "|" + tm; break; case 3: o = "{" + r.msg + "}" + r.msg; break; case 4: o = fn + lv; break; }
  return o + (nl == 1 ? "\r\n" : nl == 2 ? "\r" : "\n");
}
MC_SCENARIO_D("messages", 2)
{
  int pat = c.pick(5); static const char A[] = { 'a', '{', '}', '%', '\x1b', '\n', char(0xC3), '\0', ':', 'M' }; std::string_view al(A, sizeof A); int f = c.pick(int(al.size())); std::uint64_t n = 0; c.note(std::to_string(pat) + " " + show(al.substr(f, 1)));
  std::vector<formatter> fm; for (int st = 0; st < 3; ++st) fm.push_back(mk(pat, 3, 2, st));
  mc::all_strings(std::string(1, A[f]), al, c.thorough() ? 4 : 3, [&](const std::string& s) { for (int st = 0; st < 3; ++st) { auto r = rec(1700000000123456789LL, 7, 9, "/x/y.cpp", "fn(int)", 4, s); auto g = fm[st].format(r), w = want(*r, pat, 0, 1, st); if (g != w) c.fail("msg:" + std::to_string(pat) + ":" + std::to_string(st) + ":" + show(s), "rendered '" + show(g) + "' instead of '" + show(w) + "'"); if (r->msg != s) c.fail("msgkept:" + show(s), "formatting changes the record"); ++n; } });
  c.cases(n); c.observe(c.notes());
}
MC_SCENARIO("components")
{
  int pat = c.pick(5), nl = c.pick(4), fs = c.pick(3), st = c.pick(3), lv = c.pick(6);
  static const char* F[] = { "", "a.cpp", "/a/b.cpp", "C:\\x\\y.cpp", "/a\\b/c\\d", "a/", "\\", "{}/{x}" }; static const char* FN[] = { "f", "void g<int>(T*) [with {x}]" }; static const int L[] = { 0, 1, 65536, 2147483647 }; static const long long T[] = { 0, 1, 999999999, 1700000000000000000LL };
  c.note(std::to_string(pat) + std::to_string(nl) + std::to_string(fs) + std::to_string(st) + std::to_string(lv)); auto f = mk(pat, nl, fs, st); std::uint64_t n = 0;
  for (auto fl : F) for (auto fn : FN) for (int ln : L) for (int co : L) for (auto t : T) { auto r = rec(t, ln, co, fl, fn, lv, "m{}"); auto g = f.format(r), w = want(*r, pat, nl, fs, st); if (g != w) { c.fail("comp:" + c.notes() + ":" + show(fl), "rendered '" + show(g) + "' instead of '" + show(w) + "'"); } ++n; }
  c.cases(n); c.observe(c.notes());
}
MC_SCENARIO_D("file-name", 1)
{
  static const std::string_view A("/\\a.:", 5); int f = c.pick(5); std::uint64_t n = 0; c.note(std::string(1, A[f]));
  mc::all_strings(std::string(1, A[f]), A, 6, [&](const std::string& s) { mc::Exact e(s); if (get_file_name(file_name_style::full_path, e.sv()) != s) c.fail("full:" + s, "full path"); if (get_file_name(file_name_style::file_name_only, e.sv()) != base(s)) c.fail("base:" + show(s), "file name"); ++n; }); c.cases(2 * n); c.observe(std::uint64_t(f));
  for (int x = 0; x < 3; ++x) c.check(get_newline(newline_style(x)) == (x == 0 ? "\n" : x == 1 ? "\r\n" : "\r"), "newline:" + std::to_string(x), "newline text");
}
MC_SCENARIO("record")
{
  int lv = c.pick(7); auto here = source_location::current(); record r(record::clock_t::time_point(std::chrono::seconds(5)), here, level(lv), "text"); c.observe(std::uint64_t(lv));
  c.check(r.lv == level(lv) && r.msg == "text" && r.line == here.line() && r.column == here.column() && r.file_name == here.file_name() && r.function_name == here.function_name() && r.time.time_since_epoch() == std::chrono::seconds(5), "record:" + std::to_string(lv), "a record does not hold what it was made from");
}
MC_MAIN
