#include <fitoria/encoding/base64.hpp>
#include "mc.hpp"
#include <optional>
#include <vector>
#include <deque>
using namespace fitoria; using namespace fitoria::encoding::base64;
using mc::Exact; using mc::show;
static const char* STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char* URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string ref_enc(std::string_view s, const char* al, bool pad)
{
  std::string o; std::size_t i = 0;
  for (; i < s.size(); i += 3) {
    unsigned v = 0, k = 0; for (; k < 3 && i + k < s.size(); ++k) v |= unsigned((unsigned char)s[i + k]) << (16 - 8 * k);
    for (unsigned j = 0; j < k + 1; ++j) o += al[v >> (18 - 6 * j) & 63];
    if (pad) o.append(3 - k, '=');
  }
  return o;
}
// strict up to unused bits and optional padding: groups of 4; a last group of 2 or 3 may lack its padding
static std::optional<std::string> ref_dec(std::string_view s, const char* al)
{
  std::size_t n = s.find('='); std::string_view d = s.substr(0, n), p = n == s.npos ? std::string_view() : s.substr(n);
  for (char ch : p) if (ch != '=') return {};
  std::size_t r = d.size() % 4; if (r == 1) return {};
  if (!p.empty() && (r == 0 || r + p.size() != 4)) return {};
  std::string o; unsigned v = 0, bits = 0;
  for (char ch : d) { const char* q = ch ? std::strchr(al, ch) : nullptr; if (!q) return {}; v = v << 6 | unsigned(q - al); bits += 6; if (bits >= 8) { bits -= 8; o += char(v >> bits & 255); } }
  return o;
}
template <class Enc> static std::string enc(std::string_view s, std::optional<padding> p, int split)
{
  std::string o; Enc e = p ? Enc(*p) : Enc(); Exact x(s); auto v = x.sv();
  if (split < 0) e.encode(v.begin(), v.end(), std::back_inserter(o));
  else { e.encode_next(v.begin(), v.begin() + split, std::back_inserter(o)); e.encode_next(v.begin() + split, v.end(), std::back_inserter(o)); e.encode_rest(std::back_inserter(o)); }
  return o;
}
template <class Dec, class Byte> static std::optional<std::string> dec(std::string_view s, int split)
{
  Exact x(s); auto b = reinterpret_cast<const Byte*>(x.sv().data()), e = b + s.size(); Dec d;
  // the output has exactly room for what the text can hold at most
  std::vector<char> room((s.size() / 4) * 3 + 3); char* p = room.data();
  if (split < 0) { try { p = d.decode(b, e, p); } catch (std::invalid_argument&) { return {}; } }
  else { p = d.decode_next(b, b + split, p); if (!d.is_error()) p = d.decode_next(b + split, e, p); if (!d.is_done()) return {}; }
  return std::string(room.data(), p - room.data());
}
template <class Enc, class Dec> static void round(mc::Chooser& c, const std::string& s, const char* al, const char* tag)
{
  auto key = [&](const char* w) { return std::string(w) + ":" + tag + ":" + show(s); };
  for (int p = 0; p < 3; ++p) {
    std::optional<padding> pd; if (p) pd = p == 1 ? padding::yes : padding::no;
    auto w = ref_enc(s, al, p != 2);
    for (int sp = -1; sp <= int(s.size()); ++sp) if (enc<Enc>(s, pd, sp) != w) { c.fail(key("encode"), "encoding is " + enc<Enc>(s, pd, sp) + " instead of " + w); return; }
    for (int sp = -1; sp <= int(w.size()); ++sp) { auto r = dec<Dec, char>(w, sp), r2 = dec<Dec, std::uint8_t>(w, sp); if (!r || *r != s || !r2 || *r2 != s) { c.fail(key("roundtrip"), "decoding the encoding does not give the bytes back"); return; } }
  }
  for (int p = 0; p < 3; ++p) { // one object used for several messages
    auto m = [&] { return p == 0 ? Enc() : Enc(p == 1 ? padding::yes : padding::no); };
    Enc e = m(); std::string a, b, b2; e.encode(s.begin(), s.end(), std::back_inserter(a)); e.encode(s.begin(), s.end(), std::back_inserter(b));
    static const std::string F = "\xFBo\x01"; e.encode(F.begin(), F.end(), std::back_inserter(b2)); e.encode_rest(std::back_inserter(b2));
    if (a != ref_enc(s, al, p != 2) || a != b || b2 != ref_enc(F, al, p != 2)) c.fail(key("reuse"), "a reused encoder gives another text");
    Dec d; std::string o1, o2; try { d.decode(a.begin(), a.end(), std::back_inserter(o1)); std::string bad = "A"; try { std::string x; d.decode(bad.begin(), bad.end(), std::back_inserter(x)); } catch (std::invalid_argument&) { } d.decode(b.begin(), b.end(), std::back_inserter(o2)); } catch (std::invalid_argument&) { o1 = "?"; }
    if (o1 != s || o2 != s) c.fail(key("reuse-decoder"), "a reused decoder gives another result");
  }
}
template <class Dec> static void text(mc::Chooser& c, const std::string& s, const char* al, const char* tag)
{
  auto w = ref_dec(s, al);
  for (int sp = -1; sp <= int(s.size()); sp += (s.size() > 4 ? int(s.size()) + 1 : 1)) for (int k = 0; k < 3; ++k) {
    auto r = k == 0 ? dec<Dec, char>(s, sp) : k == 1 ? dec<Dec, std::uint8_t>(s, sp) : dec<Dec, signed char>(s, sp);
    if (r.has_value() != w.has_value()) { c.fail(std::string("decode:") + tag + ":" + show(s), w ? "a valid text is rejected" : "an invalid text is accepted as " + show(*r)); return; }
    if (w && *r != *w) { c.fail(std::string("decode:") + tag + ":" + show(s), "decoded to " + show(*r) + " instead of " + show(*w)); return; }
  }
}
// every byte string of length 0..2, and of length 3 with every pair of bytes at every pair of positions
MC_SCENARIO_D("encode-exhaustive", 1)
{
  int a = c.pick(256); c.note(std::to_string(a)); std::uint64_t n = 0;
  auto one = [&](const std::string& s) { ++n; round<standard_encoder, standard_decoder>(c, s, STD, "std"); round<url_encoder, url_decoder>(c, s, URL, "url"); };
  if (a == 0) one("");
  one(std::string(1, char(a)));
  for (int b = 0; b < 256; ++b) one({ char(a), char(b) });
  if (c.thorough()) for (int b = 0; b < 256; ++b) for (int k = 0; k < 256; k += 5) { one({ char(a), char(b), char(k) }); }
  else for (int b = 0; b < 256; b += 3) for (int k : { 0, 1, 63, 64, 127, 128, 255 }) { one({ char(a), char(b), char(k) }); }
  c.cases(n); c.observe(std::uint64_t(a));
}
MC_SCENARIO_D("encode-long", 1)
{
  static const char A[] = { 0, 1, 62, char(0xFB), char(0xFF), char(0x80), '=' }; std::string_view al(A, sizeof A);
  int a = c.pick(7); std::uint64_t n = 0; c.note(std::to_string(a));
  mc::all_strings(std::string(1, al[a]), al, c.thorough() ? 6 : 4, [&](const std::string& s) { ++n; round<standard_encoder, standard_decoder>(c, s, STD, "std"); round<url_encoder, url_decoder>(c, s, URL, "url"); });
  c.cases(n); c.observe(std::uint64_t(a));
}
// every text over a covering alphabet, and every byte value in every position of a group
MC_SCENARIO_D("decode-texts", 1)
{
  static const char A[] = { 'A', 'Q', '/', '_', '+', '-', '=', '9', 'z', ' ', '\n', char(0x80), char(0xC1), '\0' }; std::string_view al(A, sizeof A);
  int a = c.pick(int(al.size()) + 1); std::uint64_t n = 0; c.note(std::to_string(a));
  mc::all_strings(a < int(al.size()) ? std::string(1, al[a]) : std::string(), al, a < int(al.size()) ? (c.thorough() ? 5 : 4) : 0, [&](const std::string& s) { ++n; text<standard_decoder>(c, s, STD, "std"); text<url_decoder>(c, s, URL, "url"); });
  c.cases(n); c.observe(std::uint64_t(a));
}
MC_SCENARIO_D("decode-padding", 1)
{
  int a = c.pick(5); std::uint64_t n = 0; std::string_view al("A=zQ9"); c.note(std::to_string(a));
  mc::all_strings(std::string(1, al[a]), al, c.thorough() ? 8 : 7, [&](const std::string& s) { ++n; text<standard_decoder>(c, s, STD, "std"); });
  c.cases(n); c.observe(std::uint64_t(a));
}
MC_SCENARIO_D("decode-bytes", 1)
{
  int a = c.pick(256); std::uint64_t n = 0; c.note(std::to_string(a));
  for (int pos = 0; pos < 8; ++pos) for (std::string base : { "QUJD", "QUI=", "QQ==", "QUI", "QQ", "QUJDQUJD", "QUJDQUI=", "QUJDQQ==", "Q" }) if (pos <= int(base.size())) {
    std::string s = base; if (pos < int(s.size())) s[pos] = char(a); else s += char(a);
    ++n; text<standard_decoder>(c, s, STD, "std"); text<url_decoder>(c, s, URL, "url");
    s = base; s.insert(std::size_t(pos), 1, char(a)); ++n; text<standard_decoder>(c, s, STD, "std"); text<url_decoder>(c, s, URL, "url"); }
  for (int b = 0; b < 256; ++b) { std::string s = { char(a), char(b) }; ++n; text<standard_decoder>(c, s, STD, "std"); text<url_decoder>(c, s, URL, "url"); s = std::string("Q") + char(a) + char(b); ++n; text<standard_decoder>(c, s, STD, "std"); s += "="; ++n; text<url_decoder>(c, s, URL, "url"); s = std::string("QU") + char(a) + char(b); ++n; text<standard_decoder>(c, s, STD, "std"); text<url_decoder>(c, s, URL, "url"); }
  c.cases(n); c.observe(std::uint64_t(a));
}
MC_MAIN
