#include "mc.hpp"
#include "wire.hpp"
#include "aio.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
// a custom type, by value and by constness
struct Cust { std::string s; bool moved = false; Cust(std::string x) : s(std::move(x)) {} Cust(const Cust&) = default; Cust(Cust&& o) noexcept : s(std::move(o.s)) { o.moved = true; } Cust& operator=(const Cust&) = default;
  friend auto tag_invoke(to_response_ns::to_response_t, Cust c) -> response { return response::accepted().set_header(http::field::content_type, "x/custom").set_body(c.s); } };
struct Exp { int st = 0; std::string ct; std::string body; int kind = 1; }; // what must come out; kind 0 null 1 sized 2 chunked
static std::string CTT = "text/plain", CTO = "application/octet-stream";
template <class T> static std::string raw(const std::vector<T>& v) { return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T)); }
static Exp of(const std::string& s) { return { 200, CTT, s }; }
template <class T> static Exp of(const std::vector<T>& v) { return { 200, CTO, raw(v) }; }
static Exp of(const Cust& c) { return { 202, "x/custom", c.s }; }
static void same(mc::Chooser& c, const std::string& what, response r, const Exp& e)
{
  auto ct = r.headers().get(http::field::content_type); auto [b, ec] = vf::drain(r.body().stream()); int k = int(r.body().size().index()); auto key = what + ":" + c.notes();
  if (int(r.status().value()) != e.st) c.fail(key, "status " + std::to_string(int(r.status().value())) + " instead of " + std::to_string(e.st)); else if (ec) c.fail(key, "body fails with " + ec.message()); else if (b != e.body) c.fail(key, "body " + show(b.substr(0, 60)) + " (" + std::to_string(b.size()) + ") instead of " + show(e.body.substr(0, 60)) + " (" + std::to_string(e.body.size()) + ")"); else if (k != e.kind) c.fail(key, "body kind " + std::to_string(k)); else if (std::string(ct.value_or("")) != e.ct) c.fail(key, "content type " + std::string(ct.value_or("-")) + " instead of " + e.ct); else if (r.headers().size() != (e.ct.empty() ? 0u : 1u)) c.fail(key, "other headers");
}
template <class T> static void all_ways(mc::Chooser& c, const std::string& what, const T& v, const Exp& e)
{
  same(c, what + " rvalue", to_response(T(v)), e); T copy(v); same(c, what + " lvalue", to_response(copy), e); const T cc(v); same(c, what + " const", to_response(cc), e); same(c, what + " again", to_response(copy), e);
}
static void strings(int n, auto f) { mc::all_strings("", std::string_view("\0a\xff\r", 4), n, f); for (int i = 0; i < 256; ++i) f(std::string(1, char(i))); for (std::size_t k : { 15, 16, 17, 65535, 65536, 65537, 200000 }) { std::string s; for (std::size_t i = 0; i < k; ++i) s += char(i * 7 ^ (i >> 9)); f(s); } }
MC_SCENARIO_D("leaves", 0)
{
  std::uint64_t n = 0; strings(c.thorough() ? 7 : 5, [&](const std::string& s) { if (c.failed()) return; ++n; all_ways(c, "string " + show(s.substr(0, 8)), s, of(s)); all_ways(c, "custom", Cust(s), of(Cust(s))); bytes b; for (char ch : s) b.push_back(std::byte(ch)); all_ways(c, "bytes " + show(s.substr(0, 8)), b, of(b)); all_ways(c, "u8", std::vector<std::uint8_t>(s.begin(), s.end()), of(std::vector<std::uint8_t>(s.begin(), s.end()))); all_ways(c, "char", std::vector<char>(s.begin(), s.end()), of(std::vector<char>(s.begin(), s.end()))); if (s.size() < 100) { std::vector<std::uint16_t> w; std::vector<int> i; std::vector<double> d; for (char ch : s) { w.push_back(std::uint16_t(ch * 257)); i.push_back(ch * 65537 + 1); d.push_back(ch / 3.0); } all_ways(c, "u16", w, of(w)); all_ways(c, "int", i, of(i)); all_ways(c, "double", d, of(d)); } }); c.cases(n); c.observe(std::to_string(n));
}
// sums: the alternative actually held, nested up to the depth
using Leaf = std::string; using Vec = std::vector<std::uint8_t>;
static Leaf sleaf(mc::Chooser& c) { static const std::string S[] = { "", "s", std::string("\0x", 2) }; auto& s = c.of(S); c.note("s" + std::to_string(s.size())); return s; }
static Vec vleaf(mc::Chooser& c) { static const Vec S[] = { {}, { 0x76 }, { 0, 255 } }; auto& s = c.of(S); c.note("v" + std::to_string(s.size())); return s; }
static std::pair<Cust, Exp> cleaf(mc::Chooser& c) { Cust x(c.flip() ? "" : "cu"); c.note("c"); return { x, of(x) }; }
using V1 = std::variant<Leaf, Vec>; using E1 = expected<Leaf, Vec>; using E2 = expected<Vec, Cust>; using VV = std::variant<V1, Cust, E1, Leaf>; using EV = expected<V1, E2>; using VE = std::variant<E1, E2, Vec>; using EE = expected<E1, expected<Cust, Leaf>>; using SS = std::variant<Leaf, Leaf>; using ES = expected<Leaf, Leaf>;
static std::pair<V1, Exp> v1(mc::Chooser& c) { if (c.flip()) { auto v = vleaf(c); return { V1(v), of(v) }; } auto s = sleaf(c); return { V1(s), of(s) }; }
static std::pair<E1, Exp> e1(mc::Chooser& c) { if (c.flip()) { c.note("err"); auto v = vleaf(c); return { E1(unexpected { v }), of(v) }; } auto s = sleaf(c); return { E1(s), of(s) }; }
static std::pair<E2, Exp> e2(mc::Chooser& c) { if (c.flip()) { c.note("err"); auto [x, e] = cleaf(c); return { E2(unexpected { x }), e }; } auto v = vleaf(c); return { E2(v), of(v) }; }
MC_SCENARIO_D("sums", 1)
{
  switch (c.pick(9)) {
  case 0: { c.note("variant"); auto [v, e] = v1(c); all_ways(c, "sum", v, e); break; } case 1: { c.note("expected"); auto [v, e] = e1(c); all_ways(c, "sum", v, e); break; } case 2: { c.note("expected2"); auto [v, e] = e2(c); all_ways(c, "sum", v, e); break; }
  case 3: { c.note("variant of"); switch (c.pick(4)) { case 0: { auto [v, e] = v1(c); all_ways(c, "sum", VV(v), e); break; } case 1: { auto [x, e] = cleaf(c); all_ways(c, "sum", VV(x), e); break; } case 2: { auto [v, e] = e1(c); all_ways(c, "sum", VV(v), e); break; } default: { auto s = sleaf(c); all_ways(c, "sum", VV(s), of(s)); } } break; }
  case 4: { c.note("expected of"); if (c.flip()) { c.note("err"); auto [v, e] = e2(c); all_ways(c, "sum", EV(unexpected { v }), e); } else { auto [v, e] = v1(c); all_ways(c, "sum", EV(v), e); } break; }
  case 5: { c.note("variant of expected"); int k = c.pick(3); if (k == 0) { auto [v, e] = e1(c); all_ways(c, "sum", VE(v), e); } else if (k == 1) { auto [v, e] = e2(c); all_ways(c, "sum", VE(v), e); } else { auto v = vleaf(c); all_ways(c, "sum", VE(v), of(v)); } break; }
  case 6: { c.note("expected of expected"); if (c.flip()) { c.note("err"); if (c.flip()) { c.note("err"); auto s = sleaf(c); all_ways(c, "sum", EE(unexpected { expected<Cust, Leaf>(unexpected { s }) }), of(s)); } else { auto [x, e] = cleaf(c); all_ways(c, "sum", EE(unexpected { expected<Cust, Leaf>(x) }), e); } } else { auto [v, e] = e1(c); all_ways(c, "sum", EE(v), e); } break; }
  case 7: { c.note("same types"); auto s = sleaf(c); all_ways(c, "sum", c.flip() ? SS(std::in_place_index<1>, s) : SS(std::in_place_index<0>, s), of(s)); break; }
  default: { c.note("same in expected"); auto s = sleaf(c); bool err = c.flip(); if (err) c.note("err"); all_ways(c, "sum", err ? ES(unexpected { s }) : ES(s), of(s)); } }
  c.observe(c.notes());
}
// responses pass through untouched, also inside sums
static response make(mc::Chooser& c, Exp& e)
{
  static const int ST[] = { 200, 204, 404, 500, 299 }; e.st = c.of(ST); auto b = response::ok(); b.set_status(http::status_code(std::uint16_t(e.st))); if (c.flip()) { e.ct = "x/y"; b.set_header(http::field::content_type, "x/y"); } int k = c.pick(4); c.note(std::to_string(e.st) + e.ct + std::to_string(k)); e.kind = k == 3 ? 1 : k; e.body = k == 0 ? "" : "abc"; if (k == 0) return b.build(); if (k == 1) return b.set_body("abc"); if (k == 2) return b.set_stream_body(vf::Pieces { { "a", "", "bc" } }); return b.set_body(vf::Pieces { { "ab", "c" } });
}
MC_SCENARIO_D("responses", 1)
{
  Exp e; int k = c.pick(6); c.note("in" + std::to_string(k)); using VR = std::variant<std::string, response>; using ER = expected<std::string, response>; using RE = expected<response, std::string>; using DR = expected<VR, ER>;
  switch (k) { case 0: same(c, "response", to_response(make(c, e)), e); break; case 1: same(c, "response", to_response(VR(make(c, e))), e); break; case 2: same(c, "response", to_response(ER(unexpected { make(c, e) })), e); break; case 3: same(c, "response", to_response(RE(make(c, e))), e); break; case 4: same(c, "response", to_response(DR(unexpected { ER(unexpected { make(c, e) }) })), e); break; default: same(c, "response", to_response(DR(VR(make(c, e)))), e); } c.observe(c.notes());
}
// the same through a served handler
static VV PLAN; static std::uint64_t NO;
MC_SCENARIO_D("served", 1)
{
  Exp e; std::string what; switch (c.pick(4)) { case 0: { auto [v, x] = v1(c); PLAN = v; e = x; break; } case 1: { auto [v, x] = cleaf(c); PLAN = v; e = x; break; } case 2: { auto [v, x] = e1(c); PLAN = v; e = x; break; } default: { auto s = sleaf(c); PLAN = s; e = of(s); } }
  vf::Wire w([&](auto& b) { b.serve(route::get<"/">([]() -> awaitable<VV> { co_return PLAN; })); b.serve(route::get<"/c">([]() -> awaitable<Cust> { co_return Cust("custom"); })); b.serve(route::get<"/s">([]() -> awaitable<std::string> { co_return "plain"; })); b.serve(route::get<"/e">([](request&) -> awaitable<expected<response, std::string>> { co_return unexpected { std::string("bad") }; })); });
  auto cl = w.connect(); cl.put("GET / HTTP/1.1\r\n\r\nGET /c HTTP/1.1\r\n\r\nGET /s HTTP/1.1\r\n\r\nGET /e HTTP/1.1\r\n\r\n"); w.settle(cl); auto a = vf::read_all(cl.in, cl.eof, {}); auto key = "served:" + c.notes(); if (!a.err.empty() || a.v.size() != 4) { c.fail(key, "answers " + a.err); return; } if (a.v[0].status != e.st || a.v[0].body != e.body || a.v[0].get("content-type") != e.ct) c.fail(key, "answer " + std::to_string(a.v[0].status) + " " + show(a.v[0].body)); if (a.v[1].status != 202 || a.v[1].body != "custom" || a.v[2].body != "plain" || a.v[2].get("content-type") != CTT || a.v[3].body != "bad" || a.v[3].status != 200) c.fail(key, "other routes"); c.observe(c.notes());
}
MC_MAIN
