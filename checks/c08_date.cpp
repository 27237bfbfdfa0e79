#include <fitoria/http/header/date.hpp>
#include "mc.hpp"
using namespace fitoria; using http::header::date; using SC = chrono::utc_clock; using FC = std::chrono::file_clock; using namespace std::chrono;
static long long fdiv(long long a, long long b) { long long q = a / b; return q - (a % b < 0); }
// IMF-fixdate by plain counting: days -> civil date
static std::string ref(long long sec)
{
  static const char* WD[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }; static const char* MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  long long d = fdiv(sec, 86400), t = sec - d * 86400; int wd = int(((d % 7) + 11) % 7);
  long long y = 1970; auto leap = [](long long q) { return (q % 4 == 0 && q % 100 != 0) || q % 400 == 0; };
  while (d < 0) { --y; d += leap(y) ? 366 : 365; } while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; ++y; }
  int ml[] = { 31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }, m = 0; while (d >= ml[m]) d -= ml[m++];
  char b[64]; std::snprintf(b, sizeof b, "%s, %02lld %s %04lld %02lld:%02lld:%02lld GMT", WD[wd], d + 1, MN[m], y, t / 3600, t / 60 % 60, t % 60); return b;
}
static void one(mc::Chooser& c, long long sec, long long sub)
{
  auto tp = time_point<SC>(duration_cast<SC::duration>(seconds(sec)) + SC::duration(sub)); date d(tp);
  auto key = [&](const char* w) { return std::string(w) + ":" + std::to_string(sec) + "+" + std::to_string(sub); };
  auto s = d.to_string(), w = ref(sec);
  if (s != w) { c.fail(key("print"), "printed '" + s + "' instead of '" + w + "'"); return; }
  if (d.utc_time() != tp) { c.fail(key("time"), "the instant is not preserved"); return; }
  if (sec < -2776000000LL) return; // the file clock (epoch 2174, nanoseconds in 64 bits) represents nothing before 1882
  auto f = d.file_time(); date e(f);
  if (e.to_string() != w || e.utc_time() != tp || e.file_time() != f || !(e == d)) c.fail(key("file"), "going through the file clock changes the instant");
#if defined(FITORIA_HAS_STD_CHRONO_PARSE)
  auto p = date::parse(w); if (!p || p->to_string() != w) c.fail(key("parse"), "parsing the printed date");
#endif
}
// every representable day: the clocks count nanoseconds in 64 bits
// every day from 1700 to 2260 at the edges of the day
MC_SCENARIO_D("every-day", 1)
{
  int blk = c.pick(c.thorough() ? 2045 : 512); int step = c.thorough() ? 1 : 4; c.note(std::to_string(blk)); std::uint64_t n = 0; long long first = -98615 + 100LL * blk * step; // 1700-01-01
  for (long long d = first; d < first + 100 * step && d < 105900; ++d) for (long long t : { 0LL, 1LL, 43200LL, 86399LL }) { ++n; one(c, d * 86400 + t, (d & 1) ? 0 : 999999999); }
  c.cases(n); c.observe(std::uint64_t(blk));
}
// every second of some days
MC_SCENARIO_D("every-second", 2)
{
  static const long long D[] = { 0, -1, 11016, 19782, 18321, 24855, -25567 }; long long d = c.of(D); int h = c.pick(24); std::uint64_t n = 0; c.note(std::to_string(d) + " " + std::to_string(h));
  for (int s = 0; s < 3600; ++s) { ++n; one(c, d * 86400 + h * 3600 + s, s % 3 == 0 ? 0 : s % 3 == 1 ? 1 : 999999999); }
  c.cases(n); c.observe(std::to_string(d) + std::to_string(h));
}
MC_SCENARIO("compare")
{
  static const long long T[] = { -86400000000001LL, -1, 0, 1, 999999999, 1000000000, 1700000000000000000LL, 1700000000000000001LL }; auto a = c.of(T), b = c.of(T); c.note(std::to_string(a) + "," + std::to_string(b));
  date x { time_point<SC>(SC::duration(a)) }, y { time_point<SC>(SC::duration(b)) }; auto key = "compare:" + std::to_string(a) + ":" + std::to_string(b);
  c.check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x <=> y) == (a <=> b), key, "order of dates differs from the order of instants"); c.observe(key);
}
MC_MAIN
