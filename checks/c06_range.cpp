#include <fitoria/http/header/range.hpp>
#include "mc.hpp"
#include <optional>
#include <vector>
using namespace fitoria; using http::header::range;
using mc::Exact; using mc::show; using sv = std::string_view; using u128 = unsigned __int128;
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static sv tr(sv s) { while (!s.empty() && sp(s.front())) s.remove_prefix(1); while (!s.empty() && sp(s.back())) s.remove_suffix(1); return s; }
static std::vector<sv> cut(sv s, char d) { std::vector<sv> o; for (;;) { auto p = s.find(d); o.push_back(tr(s.substr(0, p))); if (p == s.npos) return o; s.remove_prefix(p + 1); } }
static std::optional<u128> num(sv s) { if (s.empty()) return {}; u128 v = 0; for (char c : s) { if (c < '0' || c > '9') return {}; v = v * 10 + (c - '0'); if (v >> 64) v = u128(1) << 64; } if (v >> 64) return {}; return v; }
struct Sub { u128 off, len; };
// what a text denotes for a representation of the given size (nothing: not a range / not satisfiable / not representable)
static std::optional<std::pair<std::string, std::vector<Sub>>> ref(sv s, u128 size)
{
  auto a = cut(s, '='); if (a.size() != 2) return {};
  std::vector<Sub> o;
  if (a[1].starts_with("-")) { auto n = num(a[1].substr(1)); if (!n || *n == 0 || size == 0) return {}; u128 l = *n < size ? *n : size; o.push_back({ size - l, l }); }
  else for (auto t : cut(a[1], ',')) {
    auto b = cut(t, '-'); if (b.size() != 2) return {}; auto x = num(b[0]); if (!x) return {};
    if (b[1].empty()) { if (*x >= size) return {}; o.push_back({ *x, size - *x }); continue; }
    auto y = num(b[1]); if (!y || *x > *y) return {}; if (*y + 1 >> 64) return {}; o.push_back({ *x, *y - *x + 1 });
  }
  return std::pair { std::string(a[0]), o };
}
static void one(mc::Chooser& c, sv text, std::uint64_t size)
{
  Exact x(text); auto w = ref(text, size); auto r = range::parse(x.sv(), size);
  auto bad = [&](const std::string& m) { c.fail("range:" + show(text) + ":" + std::to_string(size), m); };
  if (r.has_value() != w.has_value()) return bad(w ? "a satisfiable range is rejected" : "accepted although it denotes no bytes of the representation: offset " + std::to_string((*r)[0].offset) + " length " + std::to_string((*r)[0].length));
  if (!w) return;
  if (r->unit() != w->first || r->size() != w->second.size()) return bad("unit or number of ranges");
  std::size_t i = 0; for (auto& e : *r) { auto& q = w->second[i]; if (u128(e.offset) != q.off || u128(e.length) != q.len || (*r)[i] != e || r->at(i) != e) return bad("range " + std::to_string(i) + " is offset " + std::to_string(e.offset) + " length " + std::to_string(e.length)); ++i; }
  if (i != w->second.size() || std::size_t(r->cend() - r->cbegin()) != i) return bad("iteration");
}
MC_SCENARIO_D("texts", 2)
{
  sv al("0129-,= b+", 10); int a = c.pick(10), b = c.pick(10); std::uint64_t n = 0; c.note(std::to_string(a) + "," + std::to_string(b));
  static const std::uint64_t sizes[] = { 0, 1, 2, 9, 10, 100 };
  mc::all_strings(std::string("b=") + al[a] + al[b], al, c.thorough() ? 5 : 4, [&](const std::string& s) { for (auto z : sizes) { ++n; one(c, s, z); } });
  mc::all_strings({ al[a], al[b] }, al, 3, [&](const std::string& s) { for (auto z : sizes) { ++n; one(c, s, z); } });
  if (!a && !b) for (std::string s : { "", "b", "=", "b=", "=-1", " b = 0 - 1 , 2 - ", "b=-" }) for (auto z : sizes) { ++n; one(c, s, z); }
  c.cases(n); c.observe(std::uint64_t(a * 10 + b));
}
// all boundary numbers in all range forms against all boundary sizes
static std::vector<std::string> nums()
{
  std::vector<std::string> o { "", "00", "007", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "+1", " 3" };
  for (u128 b : { u128(0), u128(1) << 8, u128(1) << 31, u128(1) << 32, u128(1) << 63, u128(1) << 64 }) for (int d = -3; d <= 3; ++d) { if (d < 0 && b < u128(-d)) continue; u128 v = b + d; if (v >> 64) continue; std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); o.push_back(s); }
  return o;
}
static std::vector<std::uint64_t> sizes() { std::vector<std::uint64_t> o; for (u128 b : { u128(0), u128(1) << 8, u128(1) << 31, u128(1) << 32, u128(1) << 63, u128(1) << 64 }) for (int d = -3; d <= 3; ++d) { if (d < 0 && b < u128(-d)) continue; u128 v = b + d; if (!(v >> 64)) o.push_back(std::uint64_t(v)); } return o; }
MC_SCENARIO_D("boundaries", 2)
{
  static auto N = nums(); static auto Z = sizes(); auto z = c.of(Z); auto& a = c.of(N); std::uint64_t n = 0; c.note(a + "/" + std::to_string(z));
  one(c, "bytes=-" + a, z); one(c, "bytes=" + a + "-", z); one(c, "bytes=" + a, z); n += 3;
  for (auto& b : N) { one(c, "bytes=" + a + "-" + b, z); one(c, "bytes=0-0," + a + "-" + b, z); one(c, "bytes=" + a + "-" + b + ", 1-", z); one(c, "bytes=" + a + "-," + b + "-", z); n += 4; }
  c.cases(n); c.observe(a + "/" + std::to_string(z));
}
MC_SCENARIO_D("bytes", 1)
{
  int b = c.pick(256); std::uint64_t n = 0; c.note(std::to_string(b));
  for (std::string base : { "bytes=0-1", "bytes=-5", "bytes=1-, 3-4" }) for (std::size_t i = 0; i <= base.size(); ++i) { auto s = base; s.insert(i, 1, char(b)); one(c, s, 10); if (i < base.size()) { s = base; s[i] = char(b); one(c, s, 10); } n += 2; }
  c.cases(n); c.observe(std::uint64_t(b));
}
// small sizes and all small ranges: the denoted offsets are in bounds exactly as RFC 9110 says
MC_SCENARIO("small")
{
  int size = c.pick(8), k = c.pick(3), x = c.pick(10), y = c.pick(10); std::string t = k == 0 ? "-" + std::to_string(x) : k == 1 ? std::to_string(x) + "-" : std::to_string(x) + "-" + std::to_string(y);
  c.note(t + "/" + std::to_string(size)); auto r = range::parse("bytes=" + t, std::uint64_t(size));
  std::string want, got, rep = std::string("abcdefgh").substr(0, std::size_t(size));
  if (k == 0) want = rep.substr(std::size_t(std::max(0, size - x))); else if (k == 1) want = x < size ? rep.substr(std::size_t(x)) : "";
  if (k < 2) { if (r) { if ((*r)[0].offset > rep.size() || (*r)[0].length == 0) got = "!"; else got = rep.substr((*r)[0].offset, (*r)[0].length), got += (*r)[0].offset + (*r)[0].length > rep.size() ? "!" : ""; } c.check(got == want, "small:" + t + ":" + std::to_string(size), "denotes '" + got + "' instead of '" + want + "'"); }
  else c.check(r.has_value() == (x <= y) && (!r || (int((*r)[0].offset) == x && int((*r)[0].length) == y - x + 1)), "small:" + t + ":" + std::to_string(size), "closed range");
  c.observe(t + "/" + std::to_string(size));
}
MC_MAIN
