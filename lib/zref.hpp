// The standard libraries used directly, as the reference for compressed bodies.
#pragma once
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <zlib.h>
#include <string>
#include <string_view>
#include <vector>
namespace vf {
enum Coding { DEFLATE, GZIP, BROTLI };
inline const char* name(Coding k) { return k == DEFLATE ? "deflate" : k == GZIP ? "gzip" : "brotli"; }
struct Ref { enum R { OK, MORE, BAD } r; std::string data; std::size_t used = 0; };
inline Ref expand(Coding k, std::string_view s)
{
  Ref o { Ref::MORE, {} }; static std::vector<unsigned char> b(1 << 16);
  if (k == BROTLI) {
    auto d = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr); std::size_t in = s.size(); auto p = reinterpret_cast<const std::uint8_t*>(s.data());
    for (;;) { std::size_t out = b.size(); auto q = b.data(); auto r = BrotliDecoderDecompressStream(d, &in, &p, &out, &q, nullptr); o.data.append(reinterpret_cast<char*>(b.data()), b.size() - out); if (r == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT) continue; o.r = r == BROTLI_DECODER_RESULT_SUCCESS ? Ref::OK : r == BROTLI_DECODER_RESULT_ERROR ? Ref::BAD : Ref::MORE; break; }
    BrotliDecoderDestroyInstance(d); o.used = s.size() - in; return o;
  }
  z_stream z {}; if (inflateInit2(&z, k == GZIP ? 31 : -15) != Z_OK) std::abort(); z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(s.data())); z.avail_in = unsigned(s.size());
  for (;;) { z.next_out = b.data(); z.avail_out = unsigned(b.size()); int r = inflate(&z, Z_NO_FLUSH); o.data.append(reinterpret_cast<char*>(b.data()), b.size() - z.avail_out); if (r == Z_STREAM_END) { o.r = Ref::OK; break; } if (r == Z_BUF_ERROR || (r == Z_OK && z.avail_in == 0 && z.avail_out > 0)) break; if (r != Z_OK) { o.r = Ref::BAD; break; } }
  o.used = s.size() - z.avail_in; inflateEnd(&z); return o;
}
// level 0..9 (0: stored; brotli quality), strategy as zlib's, header fields for gzip
inline std::string shrink(Coding k, std::string_view s, int level, int strategy = 0, bool fields = false)
{
  std::string o;
  if (k == BROTLI) { auto e = BrotliEncoderCreateInstance(nullptr, nullptr, nullptr); BrotliEncoderSetParameter(e, BROTLI_PARAM_QUALITY, std::uint32_t(level)); std::size_t in = s.size(); auto p = reinterpret_cast<const std::uint8_t*>(s.data()); std::vector<std::uint8_t> b(1 << 16); while (!BrotliEncoderIsFinished(e)) { std::size_t out = b.size(); auto q = b.data(); if (!BrotliEncoderCompressStream(e, BROTLI_OPERATION_FINISH, &in, &p, &out, &q, nullptr)) std::abort(); o.append(reinterpret_cast<char*>(b.data()), b.size() - out); } BrotliEncoderDestroyInstance(e); return o; }
  z_stream z {}; if (deflateInit2(&z, level, Z_DEFLATED, k == GZIP ? 31 : -15, 9, strategy) != Z_OK) std::abort();
  gz_header h {}; if (fields && k == GZIP) { h.text = 1; h.time = 12345; h.os = 3; h.extra = (Bytef*)"ex\0\0"; h.extra_len = 4; h.name = (Bytef*)"file.txt"; h.comment = (Bytef*)"comment"; h.hcrc = 1; deflateSetHeader(&z, &h); }
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(s.data())); z.avail_in = unsigned(s.size()); std::vector<unsigned char> b(1 << 16); for (;;) { z.next_out = b.data(); z.avail_out = unsigned(b.size()); int r = deflate(&z, Z_FINISH); o.append(reinterpret_cast<char*>(b.data()), b.size() - z.avail_out); if (r == Z_STREAM_END) break; if (r != Z_OK) std::abort(); } deflateEnd(&z); return o;
}
// reproducible contents: 0 zeros, 1 text with repeats, 2 incompressible
inline std::string content(int kind, std::size_t n)
{
  std::string s(n, '\0'); if (kind == 1) for (std::size_t i = 0; i < n; ++i) s[i] = "the quick brown fox; "[(i + i / 37) % 21]; if (kind == 2) { std::uint64_t x = 88172645463325252ull; for (auto& ch : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ch = char(x >> 11); } } return s;
}
}
