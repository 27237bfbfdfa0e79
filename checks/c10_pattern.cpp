#include <fitoria/web/path_parser.hpp>
#include "mc.hpp"
#include "pattern_ref.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
template <bool W> static void one(mc::Chooser& c, std::string_view s)
{
  mc::Exact e(s); path_parser<W> p; bool got = p.parse(e.sv()); std::vector<RT> w; bool want = ref(s, W, w);
  auto k = [&](const char* t) { return std::string(t) + (W ? ":w:" : ":n:") + show(s); };
  if (got != want) { c.fail(k("accept"), want ? "a valid pattern is rejected" : "an invalid pattern is accepted"); return; }
  if (!got) return;
  std::vector<RT> g; for (auto& t : p.get()) if (!(t.kind == path_token_kind::static_ && t.value.empty())) { if (!g.empty() && g.back().k == t.kind && t.kind == path_token_kind::static_) g.back().v += t.value; else g.push_back({ t.kind, t.value }); }
  bool same = g.size() == w.size(); for (std::size_t i = 0; same && i < g.size(); ++i) same = g[i].k == w[i].k && g[i].v == w[i].v;
  if (!same) { std::string m = "tokens:"; for (auto& t : g) m += " " + std::to_string(int(t.k)) + "'" + t.v + "'"; c.fail(k("tokens"), m); return; }
  // the parser object can be reused: a second parse starts afresh
  p.parse("/zz/{q}"); if (p.parse(e.sv()) != want) c.fail(k("reuse"), "a reused parser answers differently");
  auto t2 = p.get(); std::string a, b; for (auto& t : t2) a += t.value; for (auto& t : w) b += t.v; if (a != b) c.fail(k("reuse"), "a reused parser yields other tokens");
}
static void both(mc::Chooser& c, std::string_view s) { one<false>(c, s); one<true>(c, s); }
MC_SCENARIO_D("texts", 2)
{
  static const std::string_view A = "/{}#ab%4"; int n = c.thorough() ? 8 : 7; int a = c.pick(8), b = c.pick(8); std::string pre { A[a], A[b] }; c.note(show(pre)); std::uint64_t k = 0;
  mc::all_strings(pre, A, n - 2, [&](const std::string& s) { both(c, s); ++k; }); if (!a && !b) { both(c, ""); for (char x : A) both(c, std::string(1, x)); }
  c.cases(k * 2); c.observe(pre);
}
// deeper, over whole pieces
MC_SCENARIO_D("pieces", 2)
{
  static const char* P[] = { "/", "{a}", "{b}", "{ab}", "a", "b", "#a", "#b", "%41", "{", "}", "#", "{a-b}", "{%41}", ".", "{a" };
  int n = c.thorough() ? 6 : 5; int a = c.pick(16), b = c.pick(16); c.note(std::string(P[a]) + P[b]); std::uint64_t k = 0; std::string s;
  std::function<void(int)> rec = [&](int d) { both(c, s); ++k; if (d == 0) return; for (auto p : P) { auto z = s.size(); s += p; rec(d - 1); s.resize(z); } };
  s = std::string(P[a]) + P[b]; rec(n - 2); c.cases(k * 2); c.observe(s);
}
// every byte value in each kind of position
MC_SCENARIO_D("bytes", 1)
{
  int b = c.pick(256); std::string x(1, char(b)); c.note(std::to_string(b));
  for (auto s : { x, "/" + x, "/a" + x, "/a" + x + "b", "/{" + x + "}", "/{a" + x + "b}", "/{a}" + x, "/{a}/" + x, "/#" + x, "/#a" + x + "b", "/%" + x + "1", "/%1" + x, "/%" + x, "/#%" + x + "1", "/{%1" + x + "}", x + "/{a}", x + "{a}", "/" + x + "{a}", x + "#a" }) both(c, s);
  c.cases(38); c.observe(std::uint64_t(b));
}
// many names: duplicates at any distance
MC_SCENARIO_D("names", 2)
{
  int n = 2 + c.pick(5); int i = c.pick(n), j = c.pick(n); bool w = c.flip(); std::string s;
  for (int q = 0; q < n; ++q) { std::string nm = "n" + std::to_string(q == j ? i : q); if (w && q == n - 1) s += "/#" + nm; else s += "/{" + nm + "}"; }
  c.note(s); both(c, s); c.observe(s);
}
// compile time and run time agree
constexpr char CA[] = "/{}#a%4"; constexpr int CN = 7;
constexpr bool ct_runtime_form(int idx, int len, bool w)
{ std::string s; for (int i = 0; i < len; ++i) { s += CA[idx % CN]; idx /= CN; } if (w) return path_parser<true>().parse(std::string_view(s)); return path_parser<false>().parse(std::string_view(s)); }
constexpr int pw(int n) { int r = 1; while (n--) r *= CN; return r; }
template <int L> constexpr auto table() { std::array<unsigned char, pw(L)> t {}; for (int i = 0; i < pw(L); ++i) t[i] = ct_runtime_form(i, L, false) | ct_runtime_form(i, L, true) << 1; return t; }
template <int L, int I> constexpr auto fs() { basic_fixed_string<char, L> f; int x = I; for (int i = 0; i < L; ++i) { f.str[i] = CA[x % CN]; x /= CN; } return f; }
template <int L, int... I> constexpr auto ttable(std::integer_sequence<int, I...>) { return std::array<unsigned char, sizeof...(I)> { (unsigned char)(path_parser<false>().template parse<fs<L, I>()>() | path_parser<true>().template parse<fs<L, I>()>() << 1)... }; }
template <class T> static void cmp(mc::Chooser& c, const T& t, int L, const char* what)
{
  for (std::size_t i = 0; i < t.size(); ++i) { std::string s; int x = int(i); for (int k = 0; k < L; ++k) { s += CA[x % CN]; x /= CN; } path_parser<false> n; path_parser<true> w; unsigned r = n.parse(s) | w.parse(s) << 1; if (r != t[i]) c.fail(std::string(what) + ":" + show(s), "compile-time and run-time answers differ"); }
  c.cases(t.size() * 2);
}
MC_SCENARIO_D("compile-time", 1)
{
  static constexpr auto t1 = table<1>(); static constexpr auto t2 = table<2>(); static constexpr auto t3 = table<3>(); static constexpr auto t4 = table<4>();
  static constexpr auto f2 = ttable<2>(std::make_integer_sequence<int, pw(2)>()); static constexpr auto f3 = ttable<3>(std::make_integer_sequence<int, pw(3)>());
  int w = c.pick(6); c.observe(std::uint64_t(w));
  switch (w) { case 0: cmp(c, t1, 1, "ct"); break; case 1: cmp(c, t2, 2, "ct"); break; case 2: cmp(c, t3, 3, "ct"); break; case 3: cmp(c, t4, 4, "ct"); break; case 4: cmp(c, f2, 2, "ctp"); break; case 5: cmp(c, f3, 3, "ctp"); break; }
}
MC_MAIN
