#include <fitoria/web/error.hpp>
#include <fitoria/web/middleware/detail/brotli_error.hpp>
#include <fitoria/core/from_string.hpp>
#include <fitoria/core/expected.hpp>
#include "mc.hpp"
#include <set>
using namespace fitoria; using web::error; using web::middleware::detail::brotli_error;
static const int WE[] = { int(error::route_already_exists), int(error::route_not_exists), int(error::unexpected_content_type), int(error::extractor_field_name_not_found) };
static const int BE[] = { int(brotli_error::error), int(brotli_error::need_more_input), int(brotli_error::need_more_output), int(brotli_error::init), int(brotli_error::unknown) };
struct C { int lib; int v; };
static std::vector<int> unknown() { std::vector<int> r { -1, 1000, 2147483647 }; auto add = [&](int v) { for (int d : { 1 << 8, 1 << 16, 1 << 24, int(0x80000000u) }) r.push_back(v ^ d); }; for (int v : WE) add(v); for (int v : BE) add(v); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
static std::vector<C> all() { std::vector<C> r; for (int v : WE) r.push_back({ 0, v }); for (int v : BE) r.push_back({ 1, v }); for (int v : unknown()) { r.push_back({ 0, v }); r.push_back({ 1, v }); } return r; }
static bool isn(const C& x) { if (x.lib == 0) return std::count(std::begin(WE), std::end(WE), x.v); return std::count(std::begin(BE), std::end(BE), x.v); }
static std::error_code mk(const C& x, int how)
{
  if (x.lib == 0) { auto e = error(x.v); if (how == 0) return make_error_code(e); if (how == 1) return std::error_code(e); std::error_code c; c = e; return c; }
  auto e = brotli_error(x.v); if (how == 0) return make_error_code(e); if (how == 1) return std::error_code(e); std::error_code c; c = e; return c;
}
MC_SCENARIO("pairs")
{
  auto v = all(); auto x = v[c.pick(int(v.size()))], y = v[c.pick(int(v.size()))]; int hx = c.pick(3), hy = c.pick(3);
  auto a = mk(x, hx), b = mk(y, hy); auto k = std::to_string(x.lib) + "." + std::to_string(x.v) + "/" + std::to_string(y.lib) + "." + std::to_string(y.v); c.note(k); c.observe(k);
  c.check(a.value() == x.v, "value:" + k, "numeric value lost"); c.check(std::string_view(a.category().name()) == (x.lib ? "fitoria.web.brotli_error" : "fitoria.web.error"), "category:" + k, "category name");
  bool same = x.lib == y.lib && x.v == y.v;
  c.check((a == b) == same && (a != b) == !same, "equal:" + k, "two codes compare equal although they differ, or the reverse"); c.check((a.category() == b.category()) == (x.lib == y.lib), "cat:" + k, "category identity");
  c.check((std::hash<std::error_code>()(a) == std::hash<std::error_code>()(b)) || !same, "hash:" + k, "hash");
  if (isn(x)) c.check(!a.message().empty(), "message:" + k, "a library error has no message"); else c.check(a.message().empty(), "message:" + k, "an unknown value borrows another error's message");
  if (isn(x) && isn(y) && x.lib == y.lib) c.check((a.message() == b.message()) == same, "distinct:" + k, "two errors share a message");
  c.check(!(a == std::errc::invalid_argument) && a != std::error_code(x.v, std::generic_category()) && a != std::error_code(x.v, std::system_category()), "generic:" + k, "a library error equals a generic one");
  // the code survives being carried and thrown
  expected<int, std::error_code> ex = unexpected { a }; c.check(!ex && ex.error() == b == same, "carried:" + k, "identity lost in expected");
  try { throw std::system_error(a); } catch (std::system_error& e) { c.check((e.code() == b) == same, "thrown:" + k, "identity lost in system_error"); }
}
// number conversion reports its cause
template <class T> static void num(mc::Chooser& c, const char* tn)
{
  static const std::string_view A("129-+ ax", 8); int f = c.pick(9); std::uint64_t n = 0; c.note(tn); c.observe(std::string(tn) + std::to_string(f));
  auto one = [&](const std::string& s) { mc::Exact e(s); auto r = from_string<T>(e.sv()); ++n; std::size_t i = 0; if (std::is_signed_v<T> && !s.empty() && s[0] == '-') i = 1; std::size_t j = i; while (j < s.size() && s[j] >= '0' && s[j] <= '9') ++j;
    bool whole = j == s.size() && j > i; if (r) { if (!whole) c.fail(std::string("accept:") + tn + ":" + mc::show(s), "malformed number accepted"); return; }
    auto w = std::make_error_code(whole ? std::errc::result_out_of_range : std::errc::invalid_argument); bool ok = r.error() == w || (!whole && j - i >= 3 && r.error() == std::errc::result_out_of_range);
    if (!ok) c.fail(std::string("cause:") + tn + ":" + mc::show(s), "reported " + r.error().message() + " instead of " + w.message()); };
  if (f < 8) mc::all_strings(std::string(1, A[f]), A, 5, one); else { one(""); for (auto s : { "127", "128", "255", "256", "-128", "-129", "32767", "32768", "65535", "65536", "4294967295", "4294967296", "99999999999999999999999", "-99999999999999999999999" }) one(s); }
  c.cases(n);
}
MC_SCENARIO_D("cause-int8", 1) { num<std::int8_t>(c, "i8"); }
MC_SCENARIO_D("cause-uint8", 1) { num<std::uint8_t>(c, "u8"); }
MC_SCENARIO_D("cause-int16", 1) { num<std::int16_t>(c, "i16"); }
MC_SCENARIO_D("cause-int32", 1) { num<std::int32_t>(c, "i32"); }
MC_SCENARIO_D("cause-uint64", 1) { num<std::uint64_t>(c, "u64"); }
MC_SCENARIO_D("cause-bool", 1)
{
  static const std::string_view A("10tTfFyYnrueals", 15); int f = c.pick(15); c.note(std::string(1, A[f])); std::uint64_t n = 0;
  mc::all_strings(std::string(1, A[f]), A, 3, [&](const std::string& s) { ++n; auto r = from_string<bool>(s); if (!r && r.error() != std::errc::invalid_argument) c.fail("cause:bool:" + s, "wrong cause"); }); c.cases(n); c.observe(std::uint64_t(f));
}
MC_MAIN
