#include <fitoria/http/status_code.hpp>
#include <fitoria/http/version.hpp>
#include "mc.hpp"
#include <map>
using namespace fitoria; using namespace fitoria::http;
// the IANA registry entries the library names
static const std::map<int, status> NAMED = {
  { 100, status::continue_ }, { 101, status::switching_protocols }, { 102, status::processing }, { 200, status::ok }, { 201, status::created }, { 202, status::accepted }, { 203, status::non_authoritative_information }, { 204, status::no_content }, { 205, status::reset_content }, { 206, status::partial_content }, { 207, status::multi_status }, { 208, status::already_reported }, { 226, status::im_used },
  { 300, status::multiple_choices }, { 301, status::moved_permanently }, { 302, status::found }, { 303, status::see_other }, { 304, status::not_modified }, { 305, status::use_proxy }, { 307, status::temporary_redirect }, { 308, status::permanent_redirect },
  { 400, status::bad_request }, { 401, status::unauthorized }, { 402, status::payment_required }, { 403, status::forbidden }, { 404, status::not_found }, { 405, status::method_not_allowed }, { 406, status::not_acceptable }, { 407, status::proxy_authentication_required }, { 408, status::request_timeout }, { 409, status::conflict }, { 410, status::gone }, { 411, status::length_required }, { 412, status::precondition_failed }, { 413, status::payload_too_large }, { 414, status::uri_too_long }, { 415, status::unsupported_media_type }, { 416, status::range_not_satisfiable }, { 417, status::expectation_failed }, { 421, status::misdirected_request }, { 422, status::unprocessable_entity }, { 423, status::locked }, { 424, status::failed_dependency }, { 426, status::upgrade_required }, { 428, status::precondition_required }, { 429, status::too_many_requests }, { 431, status::request_header_fields_too_large }, { 451, status::unavailable_for_legal_reasons },
  { 500, status::internal_server_error }, { 501, status::not_implemented }, { 502, status::bad_gateway }, { 503, status::service_unavailable }, { 504, status::gateway_timeout }, { 505, status::http_version_not_supported }, { 506, status::variant_also_negotiates }, { 507, status::insufficient_storage }, { 508, status::loop_detected }, { 510, status::not_extended }, { 511, status::network_authentication_required } };
static void code(mc::Chooser& c, int v)
{
  status_code s(v); auto k = [&](const char* w) { return std::string(w) + ":" + std::to_string(v); };
  c.check(int(s.value()) == v, k("value"), "the numeric value is not the one given");
  auto it = NAMED.find(v);
  if (it != NAMED.end()) { c.check(s.value() == it->second && s == status_code(it->second), k("name"), "the named status has another code"); c.check(int(status_code(it->second).value()) == v, k("named"), "the constant does not have its registered code"); }
  auto cl = v >= 100 && v < 200 ? status_class::informational : v >= 200 && v < 300 ? status_class::successful : v >= 300 && v < 400 ? status_class::redirection : v >= 400 && v < 500 ? status_class::client_error : v >= 500 && v < 600 ? status_class::server_error : status_class::unknown;
  c.check(s.category() == cl, k("class"), "class differs from the hundreds digit");
  c.check(fmt::format("{}", s) == std::to_string(v), k("text"), [&] { return "printed as " + fmt::format("{}", s); });
  c.check(fmt::format("{:>6}|", s) == std::string(v > 99999 ? 0 : 6 - std::to_string(v).size(), ' ') + std::to_string(v) + "|", k("width"), "format spec");
  for (int w : { 0, 100, 199, 200, 201, 404, 500, 600, 999, v ^ 1, v ^ 256, v ^ 32768 }) c.check((s == status_code(w)) == (v == w) && (s != status_code(w)) == (v != w), [&] { return "eq:" + std::to_string(v) + ":" + std::to_string(w); }, "equality of codes");
}
MC_SCENARIO_D("codes", 1)
{
  int b = c.pick(256); c.note(std::to_string(b * 256)); for (int i = 0; i < 256; ++i) code(c, b * 256 + i); c.cases(256 * 12); c.observe(std::uint64_t(b));
}
MC_SCENARIO_D("code-pairs", 1)
{
  int a = c.pick(700); c.note(std::to_string(a)); for (int b = 0; b < 700; ++b) if ((status_code(a) == status_code(b)) != (a == b)) c.fail("pair:" + std::to_string(a) + ":" + std::to_string(b), "equality of codes"); c.cases(700); c.observe(std::uint64_t(a));
}
MC_SCENARIO_D("versions", 1)
{
  struct V { version v; unsigned wire; const char* s; } T[] = { { version::v0_9, 9, "0.9" }, { version::v1_0, 10, "1.0" }, { version::v1_1, 11, "1.1" }, { version::v2_0, 20, "2.0" }, { version::v3_0, 30, "3.0" }, { version::unknown, 11, "unknown" } };
  int b = c.pick(256 + 6);
  if (b < 6) { auto& t = T[b]; c.note(t.s);
    c.check(to_string(t.v) == t.s && fmt::format("{}", t.v) == t.s, std::string("vtext:") + t.s, "text of the version"); c.check(detail::to_impl_version(t.v) == t.wire, std::string("vwire:") + t.s, "wire number");
    if (t.v != version::unknown) c.check(detail::from_impl_version(detail::to_impl_version(t.v)) == t.v, std::string("vround:") + t.s, "round trip");
    for (auto& u : T) c.check((to_string(u.v) == to_string(t.v)) == (u.v == t.v), std::string("vdist:") + t.s, "two versions share their text"); c.cases(6); }
  else for (unsigned i = 0; i < 256; ++i) { unsigned n = unsigned(b - 6) * 256 + i; auto w = version::unknown; for (auto& t : T) if (t.v != version::unknown && t.wire == n) w = t.v; c.check(detail::from_impl_version(n) == w, "vfrom:" + std::to_string(n), "wire number maps to another version"); }
  if (b >= 6) c.cases(256); c.observe(std::uint64_t(b));
}
MC_MAIN
