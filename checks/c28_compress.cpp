#include "mc.hpp"
#include "aio.hpp"
#include "zref.hpp"
#include <fitoria/core/dynamic_buffer.hpp>
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_gzip_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
using namespace fitoria; using namespace fitoria::web; using mc::show; using namespace vf;
namespace md = fitoria::web::middleware::detail;
struct Done { std::string out; std::error_code ec; bool again_end = false; };
template <class S> static Done go(S s) { Done d; auto [o, e] = vf::drain(s); d.out = o; d.ec = e; if (!e) { auto r = vf::run(s.async_read_some()); d.again_end = !r; } return d; }
static Done compress(Coding k, Pieces p, bool erased)
{
  if (erased) { if (k == DEFLATE) return go(any_async_readable_stream(md::async_deflate_stream(any_async_readable_stream(std::move(p))))); if (k == GZIP) return go(any_async_readable_stream(md::async_gzip_deflate_stream(any_async_readable_stream(std::move(p))))); return go(any_async_readable_stream(md::async_brotli_deflate_stream(any_async_readable_stream(std::move(p))))); }
  if (k == DEFLATE) return go(md::async_deflate_stream(std::move(p))); if (k == GZIP) return go(md::async_gzip_deflate_stream(std::move(p))); return go(md::async_brotli_deflate_stream(std::move(p)));
}
static void judge(mc::Chooser& c, Coding k, const std::vector<std::string>& v, std::error_code end, const std::string& key)
{
  std::string all; for (auto& s : v) all += s; int reads = 0; Pieces p; p.v = v; p.end = end; p.reads = &reads; auto d = compress(k, std::move(p), v.size() % 2);
  if (end) { if (!d.ec) c.fail(key, "an error of the source became a complete stream of " + std::to_string(d.out.size()) + " bytes"); else if (d.ec != end) c.fail(key, "error " + d.ec.message() + " instead of " + end.message()); else { auto r = expand(k, d.out); if (r.r == Ref::OK) c.fail(key, "a complete stream before the error"); else if (r.r == Ref::BAD || r.data != all.substr(0, r.data.size())) c.fail(key, "wrong bytes before the error"); } return; }
  if (d.ec) { c.fail(key, "fails with " + d.ec.message()); return; } auto r = expand(k, d.out);
  if (r.r == Ref::MORE) c.fail(key, "the stream is incomplete: " + std::to_string(r.data.size()) + " of " + std::to_string(all.size()) + " bytes"); else if (r.r == Ref::BAD) c.fail(key, "the stream is corrupt after " + std::to_string(r.data.size()) + " of " + std::to_string(all.size()) + " bytes"); else if (r.used != d.out.size()) c.fail(key, "bytes after the end of the stream"); else if (r.data != all) c.fail(key, "expands to " + std::to_string(r.data.size()) + " bytes which are not the " + std::to_string(all.size()) + " of the source"); else if (!d.again_end) c.fail(key, "a read after the end does not say end");
  if (d.out.size() > all.size() + all.size() / 8 + 64 * (v.size() + 2)) c.fail(key, "much larger than the source: " + std::to_string(d.out.size()));
}
static std::error_code enderr(int e) { return e == 0 ? std::error_code() : e == 1 ? std::make_error_code(std::errc::io_error) : std::error_code(boost::system::error_code(boost::asio::error::eof)); }
MC_SCENARIO_D("pieces", 3)
{
  Coding k = Coding(c.pick(3)); c.note(name(k)); static const std::size_t SZ[] = { 0, 1, 3, 100, 65535, 65536, 65537, 70000, 131072, 200000 }; int n = c.pick((c.thorough() ? 3 : 2) + 1), e = c.pick(3); std::vector<std::string> v; std::string key = std::string("pieces:") + name(k);
  for (int i = 0; i < n; ++i) { auto z = c.of(SZ); int kind = z > 1 ? c.pick(3) : 2; v.push_back(content(kind, z)); key += ":" + std::to_string(z) + "k" + std::to_string(kind); } if (e) key += e == 1 ? ":io" : ":eof"; c.note(key); judge(c, k, v, enderr(e), key); c.observe(key);
}
MC_SCENARIO_D("short pieces", 3)
{
  Coding k = Coding(c.pick(3)); static const std::string P[] = { "", "a", "bc", std::string("\0\xff", 2), "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" }; int n = c.pick((c.thorough() ? 7 : 5) + 1), e = c.pick(3); std::vector<std::string> v; std::string key = std::string("short:") + name(k);
  for (int i = 0; i < n; ++i) { auto& s = c.of(P); v.push_back(s); key += ":" + show(s.substr(0, 2)) + std::to_string(s.size()); } if (e) key += e == 1 ? ":io" : ":eof"; c.note(key); judge(c, k, v, enderr(e), key); c.observe(key);
}
// one body cut into pieces of every size
MC_SCENARIO_D("piece sizes", 3)
{
  Coding k = Coding(c.pick(3)); int kind = c.pick(3); static const std::size_t N[] = { 1, 64, 1000, 65536, 65537, 131072, 131073, 300000, 1 << 20 }; static const std::size_t P[] = { 1, 2, 7, 64, 1000, 4096, 32768, 65535, 65536, 65537, 131072, 1 << 21 }; auto n = c.of(N); auto p = c.of(P); if (n / p > 20000) c.skip(); bool gaps = c.flip(); auto body = content(kind, n); std::vector<std::string> v; for (std::size_t i = 0; i < n; i += p) { v.push_back(body.substr(i, p)); if (gaps) v.push_back(""); }
  std::string key = std::string("sizes:") + name(k) + ":k" + std::to_string(kind) + ":" + std::to_string(n) + "/" + std::to_string(p) + (gaps ? ":gaps" : ""); c.note(key); judge(c, k, v, {}, key); c.observe(key);
}
// every length of a first piece that makes the output cross a multiple of the output block
MC_SCENARIO_D("around the output block", 2)
{
  Coding k = Coding(c.pick(3)); int from = c.pick(c.thorough() ? 64 : 24); static const int SECOND[] = { 0, 1, 65536 }; auto s = c.of(SECOND); std::uint64_t n = 0; for (std::size_t z = 65536 - 96 + std::size_t(from) * (c.thorough() ? 3 : 8); n < (c.thorough() ? 3 : 8) && !c.failed(); ++z, ++n) { auto body = content(2, z + std::size_t(s)); std::vector<std::string> v { body.substr(0, z) }; if (s) v.push_back(body.substr(z)); judge(c, k, v, {}, std::string("block:") + name(k) + ":" + std::to_string(z) + "+" + std::to_string(s)); } c.cases(n); c.observe(std::to_string(from) + name(k));
}
MC_MAIN
