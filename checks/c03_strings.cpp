#include <fitoria/core/from_string.hpp>
#include <fitoria/core/strings.hpp>
#include <fitoria/core/fixed_string.hpp>
#include "mc.hpp"
#include <cmath>
#include <limits>
#include <optional>
#include <set>
using namespace fitoria;
using mc::Exact; using mc::show;
using i128 = __int128;

static std::optional<i128> ref_int(std::string_view s, bool sign)
{
  bool neg = false; std::size_t i = 0;
  if (sign && !s.empty() && s[0] == '-') { neg = true; ++i; }
  if (i == s.size()) return {};
  i128 v = 0;
  for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return {}; v = v * 10 + (s[i] - '0'); if (v > (i128(1) << 100)) v = i128(1) << 100; }
  return neg ? -v : v;
}
template <class T> static void one_int(mc::Chooser& c, const char* tn, std::string_view s)
{
  Exact e(s); auto r = from_string<T>(e.sv()); auto w = ref_int(s, std::is_signed_v<T>);
  bool ok = w && *w >= i128(std::numeric_limits<T>::min()) && *w <= i128(std::numeric_limits<T>::max());
  auto key = [&] { return std::string("int:") + tn + ":" + show(s); };
  if (r.has_value() != ok) c.fail(key(), ok ? "a valid integer is rejected" : "an invalid or out-of-range integer is accepted");
  else if (ok && i128(*r) != *w) c.fail(key(), "wrong value");
  else if (!ok && !r.error()) c.fail(key(), "the error code says success");
}
template <class T> static void ints(mc::Chooser& c, const char* tn)
{
  static const char A[] = { '0', '1', '2', '9', '-', '+', ' ', 'a', '8', '.', '\0', char(0xB1) };
  std::string_view al(A, sizeof A);
  int f = c.pick(int(al.size()) + 2); c.note(std::string(tn) + " " + std::to_string(f));
  std::uint64_t n = 0;
  if (f < int(al.size())) mc::all_strings(std::string(1, al[f]), al, c.thorough() ? 5 : 4, [&](const std::string& s) { one_int<T>(c, tn, s); ++n; });
  else if (f == int(al.size())) { one_int<T>(c, tn, ""); n = 1; }
  else { // every boundary of the type, its neighbours, and the same spelled with defects
    std::set<std::string> ss;
    auto str = [](i128 v) { bool ng = v < 0; std::string o; unsigned __int128 u = ng ? -(unsigned __int128)v : (unsigned __int128)v; do { o.insert(o.begin(), char('0' + int(u % 10))); u /= 10; } while (u); return (ng ? "-" : "") + o; };
    for (int b : { 0, 7, 8, 15, 16, 31, 32, 63, 64, 65 }) for (int sg : { -1, 1 }) for (int d = -130; d <= 130; ++d) ss.insert(str(sg * (i128(1) << b) + d));
    for (auto& s0 : ss) for (const char* pre : { "", " ", "0", "00", "+", "-", "--", "0x" }) for (const char* post : { "", " ", "0", ".", "e1", "u", "\n" }) { one_int<T>(c, tn, pre + s0 + post); ++n; }
  }
  c.cases(n); c.observe(std::string(tn) + std::to_string(f));
}
MC_SCENARIO_D("int8", 1) { ints<std::int8_t>(c, "i8"); }
MC_SCENARIO_D("uint8", 1) { ints<std::uint8_t>(c, "u8"); }
MC_SCENARIO_D("int16", 1) { ints<std::int16_t>(c, "i16"); }
MC_SCENARIO_D("uint16", 1) { ints<std::uint16_t>(c, "u16"); }
MC_SCENARIO_D("int32", 1) { ints<std::int32_t>(c, "i32"); }
MC_SCENARIO_D("uint32", 1) { ints<std::uint32_t>(c, "u32"); }
MC_SCENARIO_D("int64", 1) { ints<std::int64_t>(c, "i64"); }
MC_SCENARIO_D("uint64", 1) { ints<std::uint64_t>(c, "u64"); }

// floating point: decimal grammar by hand, value by the C library
static int ref_float_syntax(std::string_view s) // 0 no, 1 number, 2 inf/nan
{
  std::size_t i = 0; if (i < s.size() && s[i] == '-') ++i;
  auto ci = [&](const char* w) { return cmp_eq_ci(s.substr(i), w); };
  if (ci("inf") || ci("infinity") || ci("nan")) return 2;
  if (s.size() >= i + 5 && cmp_eq_ci(s.substr(i, 4), "nan(") && s.back() == ')') { for (char ch : s.substr(i + 4, s.size() - i - 5)) if (!std::isalnum((unsigned char)ch) && ch != '_') return 0; return 2; }
  int d = 0; while (i < s.size() && std::isdigit((unsigned char)s[i])) { ++i; ++d; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && std::isdigit((unsigned char)s[i])) { ++i; ++d; } }
  if (!d) return 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; int k = 0; while (i < s.size() && std::isdigit((unsigned char)s[i])) { ++i; ++k; } if (!k) return 0; }
  return i == s.size();
}
template <class T> static void one_float(mc::Chooser& c, const char* tn, std::string_view s)
{
  // libstdc++'s own long double from_chars calls strlen on its input's copy: give it a terminator just behind the text
  std::string zt(s); Exact e(std::is_same_v<T, long double> ? std::string_view(zt.c_str(), zt.size() + 1) : s); auto r = from_string<T>(e.sv().substr(0, s.size())); int k = s.find('\0') != s.npos ? 0 : ref_float_syntax(s);
  auto key = [&] { return std::string("float:") + tn + ":" + show(s); };
  if (k == 0) { if (r) c.fail(key(), "invalid text is accepted"); else if (!r.error()) c.fail(key(), "error code says success"); return; }
  std::string z(s); T w; if constexpr (std::is_same_v<T, float>) w = std::strtof(z.c_str(), nullptr); else if constexpr (std::is_same_v<T, double>) w = std::strtod(z.c_str(), nullptr); else w = std::strtold(z.c_str(), nullptr);
  if (k == 2) { if (!r || std::isnan(*r) != std::isnan(w) || (!std::isnan(w) && *r != w)) c.fail(key(), "infinity or NaN not converted"); return; }
  bool nz = false; for (char ch : z) { if (ch == 'e' || ch == 'E') break; if (ch >= '1' && ch <= '9') nz = true; }
  if (std::isinf(w) || (w == 0 && nz)) { if (r) c.fail(key(), "an unrepresentable number is accepted"); return; }
  if (!r) { if (std::fpclassify(w) != FP_SUBNORMAL) c.fail(key(), "a valid number is rejected"); return; }
  if (*r != w || std::signbit(*r) != std::signbit(w)) c.fail(key(), "wrong value");
}
template <class T> static void floats(mc::Chooser& c, const char* tn)
{
  std::string_view al("0" "1" "9" "." "-" "+" "e" "E" " " "n" "a" "i" "f" "x");
  int f = c.pick(int(al.size()) + 2); std::uint64_t n = 0; c.note(std::string(tn) + " " + std::to_string(f));
  if (f < int(al.size())) mc::all_strings(std::string(1, al[f]), al, c.thorough() ? 5 : 4, [&](const std::string& s) { one_float<T>(c, tn, s); ++n; });
  else if (f == int(al.size())) { one_float<T>(c, tn, ""); n = 1; }
  else for (const char* m : { "1", "0", "4", "3.40282347", "3.40282357", "1.17549435", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "9007199254740993", "0.1", "123456789012345678901234567890", "1.18973149535723176502e4932", "16777217" })
    for (const char* ex : { "", "e0", "e1", "e-1", "e38", "e39", "e-38", "e-60", "e308", "e309", "e-308", "e-400", "e4932", "e5000", "e-5000", "e99999999999", "e-99999999999", "f", " ", "e", "e+", "p1" })
      for (const char* sg : { "", "-", "+", " ", "--" }) { one_float<T>(c, tn, std::string(sg) + m + ex); ++n; }
  c.cases(n); c.observe(std::string(tn) + std::to_string(f));
}
MC_SCENARIO_D("float", 1) { floats<float>(c, "float"); }
MC_SCENARIO_D("double", 1) { floats<double>(c, "double"); }
MC_SCENARIO_D("long double", 1) { floats<long double>(c, "long_double"); }

MC_SCENARIO_D("bool", 1)
{
  std::string_view al("truefalsyno01TYN 2"); std::string a; for (char ch : al) if (a.find(ch) == a.npos) a += ch;
  int f = c.pick(int(a.size()) + 1); std::uint64_t n = 0; c.note(std::to_string(f));
  static const std::set<std::string> T { "1", "t", "true", "y", "yes" }, F { "0", "f", "false", "n", "no" };
  auto one = [&](const std::string& s) {
    ++n; std::string l = s; for (auto& ch : l) if (ch >= 'A' && ch <= 'Z') ch += 32;
    Exact e(s); auto r = from_string<bool>(e.sv()); bool t = T.count(l), fl = F.count(l);
    if (r.has_value() != (t || fl) || (r && *r != t)) c.fail("bool:" + show(s), "wrong boolean conversion");
  };
  if (f < int(a.size())) mc::all_strings(std::string(1, a[f]), a, c.thorough() ? 5 : 4, one);
  else { one(""); for (auto& w : T) for (const char* p : { "", " ", "x" }) for (const char* q : { "", " ", "\n", "x", "1" }) one(p + w + q);
    for (auto w : F) for (unsigned m = 0; m < (1u << w.size()); ++m) { auto v = w; for (std::size_t i = 0; i < v.size(); ++i) if (m >> i & 1) v[i] = char(std::toupper(v[i])); one(v); one(v + " "); }
    for (auto w : T) for (unsigned m = 0; m < (1u << w.size()); ++m) { auto v = w; for (std::size_t i = 0; i < v.size(); ++i) if (m >> i & 1) v[i] = char(std::toupper(v[i])); one(v); } }
  c.cases(n); c.observe(std::uint64_t(f));
}
MC_SCENARIO_D("identity", 1)
{
  std::string_view al("a \t0\n\xff", 6); int f = c.pick(7); std::uint64_t n = 0;
  mc::all_strings(f < 6 ? std::string(1, al[f]) : std::string(), al, f < 6 ? 3 : 0, [&](const std::string& s) {
    ++n; auto v = from_string<std::string_view>(s); auto t = from_string<std::string>(s);
    if (!v || *v != s || v->data() != s.data() || !t || *t != s) c.fail("identity:" + show(s), "text is not preserved"); });
  c.cases(n); c.observe(std::uint64_t(f));
}
static char low(char ch) { return ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch; }
MC_SCENARIO_D("case-insensitive", 1)
{
  static const char A[] = { 'a', 'A', 'z', 'Z', '0', '@', '[', '`', '{', char(0x80), char(0xC0), char(0xE0), char(0xFF), '\0' };
  std::string_view al(A, sizeof A); int f = c.pick(int(al.size()) + 2); std::uint64_t n = 0; c.note(std::to_string(f));
  auto pair = [&](const std::string& l, const std::string& r) {
    ++n; Exact a(l), b(r); bool eq = l.size() == r.size(); bool ascii = true;
    for (std::size_t i = 0; eq && i < l.size(); ++i) if (low(l[i]) != low(r[i])) eq = false;
    for (char ch : l + r) if (ch < 0) ascii = false;
    if (cmp_eq_ci(a.sv(), b.sv()) != eq) { c.fail("cmp_eq_ci:" + show(l) + ":" + show(r), "case-insensitive equality"); return; }
    auto o = cmp_tw_ci(a.sv(), b.sv()), p = cmp_tw_ci(b.sv(), a.sv());
    if ((o == 0) != eq || (o < 0) != (p > 0)) { c.fail("cmp_tw_ci:" + show(l) + ":" + show(r), "case-insensitive order is inconsistent"); return; }
    if (ascii) { std::string x, y; for (char ch : l) x += low(ch); for (char ch : r) y += low(ch); if (o != (x <=> y)) c.fail("cmp_tw_ci:" + show(l) + ":" + show(r), "case-insensitive order"); }
  };
  if (f == int(al.size()) + 1) { for (int i = 0; i < 256; ++i) for (int j = 0; j < 256; ++j) { pair(std::string(1, char(i)), std::string(1, char(j))); pair(std::string("q") + char(i) + "r", std::string("Q") + char(j) + "R"); } }
  else {
    int d = 3;
    mc::all_strings(f < int(al.size()) ? std::string(1, al[f]) : std::string(), al, f < int(al.size()) ? d - 1 : 0, [&](const std::string& l) { mc::all_strings("", al, d, [&](const std::string& r) { pair(l, r); }); });
  }
  c.cases(n); c.observe(std::uint64_t(f));
}
MC_SCENARIO_D("trim-split", 1)
{
  static const char A[] = { ' ', '\t', '\n', '\v', '\f', '\r', ',', ';', 'a', '\0', char(0x85), char(0xA0) };
  std::string_view al(A, sizeof A); int f = c.pick(int(al.size()) + 1); std::uint64_t n = 0; c.note(std::to_string(f));
  auto sp = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
  mc::all_strings(f < int(al.size()) ? std::string(1, al[f]) : std::string(), al, f < int(al.size()) ? (c.thorough() ? 5 : 4) : 0, [&](const std::string& s) {
    ++n; Exact e(s); auto v = e.sv(); auto key = [&](const char* w) { return std::string(w) + ":" + show(s); };
    auto rng = [&](auto pred, bool l, bool r) { std::size_t i = 0, j = v.size(); if (r) while (j > i && pred(v[j - 1])) --j; if (l) while (i < j && pred(v[i])) ++i; return v.substr(i, j - i); };
    auto same = [](std::string_view x, std::string_view y) { return x.size() == y.size() && (x.empty() || x.data() == y.data()); };
    if (!same(ltrim(v), rng(sp, true, false))) c.fail(key("ltrim"), "ltrim");
    if (!same(rtrim(v), rng(sp, false, true))) c.fail(key("rtrim"), "rtrim");
    if (!same(trim(v), rng(sp, true, true))) c.fail(key("trim"), "trim");
    auto isa = [](char ch) { return ch == 'a' || ch == ','; };
    if (!same(ltrim(v, isa), rng(isa, true, false)) || !same(rtrim(v, isa), rng(isa, false, true)) || !same(trim(v, isa), rng(isa, true, true))) c.fail(key("trim-pred"), "trim with a predicate");
    for (const char* d : { ",", ",;", "a", "", " ", ";a," }) {
      std::vector<std::string_view> w; std::size_t b = 0; std::string_view dl(d);
      for (std::size_t i = 0; i <= v.size(); ++i) if (i == v.size() || dl.find(v[i]) != dl.npos) { auto t = v.substr(b, i - b); while (!t.empty() && sp(t.front())) t.remove_prefix(1); while (!t.empty() && sp(t.back())) t.remove_suffix(1); w.push_back(t); b = i + 1; }
      auto g = split_of(v, d); bool ok = g.size() == w.size(); for (std::size_t i = 0; ok && i < g.size(); ++i) ok = same(g[i], w[i]);
      if (!ok) c.fail(key((std::string("split_of:") + show(d)).c_str()), "split_of");
    }
  });
  for (int i = 0; i < 256; ++i) if (is_space(char(i)) != sp(char(i))) c.fail("is_space:" + std::to_string(i), "is_space");
  c.cases(n); c.observe(std::uint64_t(f));
}
template <std::size_t N, std::size_t K> static void fixed(mc::Chooser& c, std::string_view al)
{
  char a[N + 1] {}, b[K + 1] {}; std::string x, y;
  for (std::size_t i = 0; i < N; ++i) { a[i] = c.of(al); x += a[i]; }
  for (std::size_t i = 0; i < K; ++i) { b[i] = c.of(al); y += b[i]; }
  const char(&ra)[N + 1] = a; const char(&rb)[K + 1] = b;
  basic_fixed_string<char, N> s(ra); basic_fixed_string<char, K> t(rb); auto st = s + t; auto ts = t + s;
  auto key = "fixed_string:" + show(x) + ":" + show(y);
  std::string_view vs = s, vt = t, v1 = st, v2 = ts;
  c.check(vs == x && vt == y && s.size() == N && vs.size() == N && std::string(s.begin(), s.end()) == x && std::string(s.data(), N) == x, key, "content not preserved");
  c.check(v1 == x + y && v2 == y + x && st.size() == N + K, key, "concatenation");
  const auto cs = s; c.check(std::string(cs.begin(), cs.end()) == x, key, "const iteration");
  c.observe(key);
}
MC_SCENARIO("fixed_string") { int k = c.pick(6); std::string_view al("a/\0", 3); switch (k) { case 0: fixed<1, 1>(c, al); break; case 1: fixed<2, 1>(c, al); break; case 2: fixed<1, 3>(c, al); break; case 3: fixed<3, 3>(c, al); break; case 4: fixed<4, 2>(c, al); break; case 5: fixed<2, 5>(c, al); break; }
  constexpr auto p = basic_fixed_string("abc"); constexpr auto q = basic_fixed_string("/d"); static_assert(std::string_view(p + q) == "abc/d"); static_assert((p + q).size() == 5); }
MC_MAIN
