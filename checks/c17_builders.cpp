#include <fitoria/web/response.hpp>
#include <fitoria/web/request.hpp>
#include <fitoria/web/test_request.hpp>
#include "mc.hpp"
#include "aio.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
struct Obj { int a = 7; std::string s = "q"; };
static void tag_invoke(const boost::json::value_from_tag&, boost::json::value& jv, const Obj& o) { jv = { { "a", o.a }, { "s", o.s } }; }
using Hv = std::vector<std::pair<std::string, std::string>>;
static std::string low(std::string_view s) { std::string o; for (char ch : s) o += ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch; return o; }
struct Model {
  int status = 200, version = 11; http::verb method = http::verb::get; Hv h; std::vector<std::pair<std::string, std::string>> q; int kind = 0; std::size_t size = 0; bool sized = false; std::string body;
  void set(const std::string& n, const std::string& v) { std::erase_if(h, [&](auto& x) { return x.first == low(n); }); h.emplace_back(low(n), v); }
  void ins(const std::string& n, const std::string& v) { h.emplace_back(low(n), v); }
  void setq(const std::string& n, const std::string& v) { std::erase_if(q, [&](auto& x) { return x.first == n; }); q.emplace_back(n, v); }
};
static std::string sh(const Hv& v) { std::string s; for (auto& x : v) s += show(x.first) + "=" + show(x.second) + ";"; return s; }
static Hv of(const http::header_map& h) { Hv v; for (auto& f : h) v.emplace_back(low({ f.name_string().data(), f.name_string().size() }), std::string(f.value().data(), f.value().size())); return v; }
// equal as multimaps: the order of the values of one name counts, the order of different names does not
static bool same(Hv a, Hv b) { auto lt = [](auto& x, auto& y) { return x.first < y.first; }; std::stable_sort(a.begin(), a.end(), lt); std::stable_sort(b.begin(), b.end(), lt); return a == b; }
static int vnum(http::version v) { return v == http::version::v1_0 ? 10 : v == http::version::v1_1 ? 11 : 0; }
template <class B> static bool body_ok(mc::Chooser& c, B& b, const Model& m, const std::string& key)
{
  if constexpr (requires { b.stream(); }) {
    int k = int(b.size().index()); if (k != m.kind) { c.fail(key, "body kind " + std::to_string(k) + " instead of " + std::to_string(m.kind)); return false; }
    if (k == 1) { auto& s = std::get<1>(b.size()).size; if (s.has_value() != m.sized || (s && *s != m.size)) { c.fail(key, "declared size is wrong"); return false; } }
    auto [t, e] = vf::drain(b.stream()); if (e || t != m.body) { c.fail(key, "body is " + show(t) + " instead of " + show(m.body)); return false; }
  } else { auto [t, e] = vf::drain(b); if (e || t != m.body) { c.fail(key, "body is " + show(t) + " instead of " + show(m.body)); return false; } }
  return true;
}
template <class R> static bool look(mc::Chooser& c, R& r, Model m, bool with_body = true)
{
  auto key = c.notes(); auto bad = [&](std::string s) { c.fail(key, s); return false; };
  if constexpr (requires { r.status(); }) { if (int(r.status().value()) != m.status) return bad("status " + std::to_string(int(r.status().value())) + " instead of " + std::to_string(m.status)); }
  if constexpr (requires { r.method(); }) { if (r.method() != m.method) return bad("method differs"); }
  if constexpr (requires { r.query(); }) { std::vector<std::pair<std::string, std::string>> q; for (auto& [k, v] : r.query()) q.emplace_back(k, v); std::sort(q.begin(), q.end()); auto w = m.q; std::sort(w.begin(), w.end()); if (q != w) return bad("query " + sh(q) + " instead of " + sh(w)); }
  if (vnum(r.version()) != m.version) return bad("version " + std::to_string(vnum(r.version())) + " instead of " + std::to_string(m.version));
  if (!same(of(r.headers()), m.h)) return bad("headers " + sh(of(r.headers())) + " instead of " + sh(m.h));
  if constexpr (requires { r.connection(); }) if (r.path().match_pattern() != "/{k}" || r.path().match_path() != "/v" || r.path().size() != 1 || r.path().at("k") != "v") return bad("path information lost");
  return with_body ? body_ok(c, r.body(), m, key) : true;
}
// one setter call, on the builder as an lvalue or as an rvalue
template <class B> static void setter(mc::Chooser& c, B& b, Model& m)
{
  constexpr bool st = requires { b.set_status(http::status::ok); }, ver = requires { b.set_version(http::version::v1_0); }, me = requires { b.set_method(http::verb::get); }, qu = requires { b.set_query("a", "b"); };
  int op = c.pick(10); bool rv = op < 9 && c.flip(); auto tag = [&](std::string s) { c.note((rv ? "&&" : "") + s); };
#define CALL(x) do { if (rv) { auto&& r_ = std::move(b).x; if (&r_ != &b) c.fail(c.notes(), "the setter does not return its builder"); } else { auto& r_ = b.x; if (&r_ != &b) c.fail(c.notes(), "the setter does not return its builder"); } } while (0)
  switch (op) {
  case 0: if constexpr (st) { tag("status404"); CALL(set_status(http::status::not_found)); m.status = 404; } else { tag("method=put"); CALL(set_method(http::verb::put)); m.method = http::verb::put; } break;
  case 1: if constexpr (ver) { tag("version1.0"); CALL(set_version(http::version::v1_0)); m.version = 10; } else { tag("method=options"); CALL(set_method(http::verb::options)); m.method = http::verb::options; } break;
  case 2: tag("set:x-a=1"); CALL(set_header("x-a", "1")); m.set("x-a", "1"); break;
  case 3: tag("insert:X-A=2"); CALL(insert_header("X-A", "2")); m.ins("X-A", "2"); break;
  case 4: tag("set:F(ct)=t/x"); CALL(set_header(http::field::content_type, "t/x")); m.set("content-type", "t/x"); break;
  case 5: tag("insert:F(ct)=t/y"); CALL(insert_header(http::field::content_type, "t/y")); m.ins("content-type", "t/y"); break;
  case 6: if constexpr (qu) { tag("query:k=v"); CALL(set_query("k", "v")); m.setq("k", "v"); } else { tag("status=599"); CALL(set_status(http::status_code(599))); m.status = 599; } break;
  case 7: if constexpr (qu) { tag("query:k=w"); CALL(set_query("k", "w")); m.setq("k", "w"); } else { tag("version1.1"); CALL(set_version(http::version::v1_1)); m.version = 11; } break;
  case 8: if constexpr (qu && ver) { tag("method=put"); CALL(set_method(http::verb::put)); m.method = http::verb::put; } else if constexpr (qu) { tag("headers().set"); b.headers().set("y", "3"); m.set("y", "3"); b.query().set("k2", ""); m.setq("k2", ""); } else { tag("set:content-TYPE=t/z"); CALL(set_header("content-TYPE", "t/z")); m.set("content-type", "t/z"); } break;
  case 9: c.note("move"); B x = std::move(b); b = std::move(x); break;
  }
}
// every way to finish
template <class B> static auto finish(mc::Chooser& c, B& b, Model& m)
{
  constexpr bool any = requires { b.set_stream_body(vf::Pieces {}); };
  auto put = [&](const char* n, int kind, std::string body, bool sized) { c.note(n); m.kind = kind; m.body = body; m.sized = sized; m.size = body.size(); };
  static const std::byte raw[] = { std::byte(0), std::byte(255), std::byte('a') };
  switch (c.pick(any ? 10 : 9)) {
  case 0: c.note("build"); return b.build(); // keeps what the builder had
  case 1: put("body()", 0, "", false); return b.set_body();
  case 2: put("body-sv", 1, "hello", true); return b.set_body("hello");
  case 3: put("body-sv-empty", 1, "", true); return b.set_body(std::string_view());
  case 4: put("body-span", 1, std::string("\0\377a", 3), true); return b.set_body(std::span<const std::byte>(raw));
  case 5: put("body-span3", 1, std::string("\0\377a", 3), true); return b.set_body(std::span<const std::byte, 3>(raw));
  case 6: put("body-stream", 1, "xyz", false); return b.set_body(vf::Pieces { { "x", "", "yz" } });
  case 7: put("json-value", 1, "[1,null]", true); m.set("content-type", "application/json"); return b.set_json(boost::json::value { 1, nullptr });
  case 8: put("json-object", 1, "{\"a\":7,\"s\":\"q\"}", true); m.set("content-type", "application/json"); return b.set_json(Obj {});
  default: if constexpr (any) { put("stream-body", 2, "xyz", false); return b.set_stream_body(vf::Pieces { { "x", "", "yz" } }); } else return b.build();
  }
}
template <class B> static void go(mc::Chooser& c, B b, Model m)
{
  int n = c.thorough() ? 3 : 2, done = 0;
  for (; done < n && !c.failed(); ++done) { if (!c.flip()) break; setter(c, b, m); }
  auto r = finish(c, b, m); if (c.failed()) return;
  // taking the built message apart and rebuilding it changes nothing that is not set again
  int again = c.pick(done < n ? 4 : 3);
  if (again == 0) { look(c, r, m); c.observe(c.notes()); return; }
  if (!look(c, r, m, false)) return; c.note("rebuild");
  auto b2 = r.builder();
  if (again == 2) setter(c, b2, m); if (again == 3) { setter(c, b2, m); auto r2 = finish(c, b2, m); if (!c.failed()) look(c, r2, m); c.observe(c.notes()); return; }
  auto r2 = b2.build(); if (!c.failed()) look(c, r2, m); c.observe(c.notes());
}
MC_SCENARIO_D("response", 4) { go(c, response::ok(), Model {}); }
MC_SCENARIO_D("test-request", 4) { go(c, test_request::post(), Model { .method = http::verb::post }); }
// a web request only comes from the server; its builder is reached by taking one apart: a middleware rewriting it
static request one_request()
{
  std::optional<request> slot;
  vf::Wire w([&](auto& b) { b.serve(route::post<"/{k}">([&](request& r) -> awaitable<response> { slot.emplace(std::move(r)); co_return response::ok().build(); })); });
  auto cl = w.connect(); cl.put("POST /v?z=1 HTTP/1.1\r\nhost: h\r\n\r\n"); w.settle(cl);
  if (!slot) throw std::runtime_error("the request did not reach its handler"); return std::move(*slot);
}
MC_SCENARIO_D("request", 4) { auto r = one_request(); go(c, r.builder(), Model { .method = http::verb::post, .h = { { "host", "h" } }, .q = { { "z", "1" } } }); }
// every named factory yields its status
struct F { const char* n; response_builder (*f)(); int code; };
#define R(n, code) { #n, &response::n, code }
static const F FS[] = { R(continue_, 100), R(switching_protocols, 101), R(processing, 102), R(early_hints, 103), R(ok, 200), R(created, 201), R(accepted, 202), R(non_authoritative_information, 203), R(no_content, 204), R(reset_content, 205), R(partial_content, 206), R(multi_status, 207), R(already_reported, 208), R(im_used, 226), R(multiple_choices, 300), R(moved_permanently, 301), R(found, 302), R(see_other, 303), R(not_modified, 304), R(use_proxy, 305), R(temporary_redirect, 307), R(permanent_redirect, 308), R(bad_request, 400), R(unauthorized, 401), R(payment_required, 402), R(forbidden, 403), R(not_found, 404), R(method_not_allowed, 405), R(not_acceptable, 406), R(proxy_authentication_required, 407), R(request_timeout, 408), R(conflict, 409), R(gone, 410), R(length_required, 411), R(precondition_failed, 412), R(payload_too_large, 413), R(uri_too_long, 414), R(unsupported_media_type, 415), R(range_not_satisfiable, 416), R(expectation_failed, 417), R(misdirected_request, 421), R(unprocessable_entity, 422), R(locked, 423), R(failed_dependency, 424), R(too_early, 425), R(upgrade_required, 426), R(precondition_required, 428), R(too_many_requests, 429), R(request_header_fields_too_large, 431), R(unavailable_for_legal_reasons, 451), R(internal_server_error, 500), R(not_implemented, 501), R(bad_gateway, 502), R(service_unavailable, 503), R(gateway_timeout, 504), R(http_version_not_supported, 505), R(variant_also_negotiates, 506), R(insufficient_storage, 507), R(loop_detected, 508), R(not_extended, 510), R(network_authentication_required, 511) };
MC_SCENARIO_D("factories", 1)
{
  auto& f = c.of(FS); c.note(f.n); auto b = f.f(); Model m; m.status = f.code;
  if (c.flip()) setter(c, b, m); auto r = finish(c, b, m); if (!c.failed()) look(c, r, m); c.observe(c.notes());
}
struct G { const char* n; test_request_builder (*f)(); http::verb v; };
#define T(n) { #n, &test_request::n, http::verb::n }
static const G GS[] = { T(get), T(post), T(put), T(patch), T(delete_), T(head), T(options) };
MC_SCENARIO_D("request-factories", 1) { auto& f = c.of(GS); c.note(f.n); Model m; m.method = f.v; auto b = f.f(); auto r = finish(c, b, m); if (!c.failed()) look(c, r, m); c.observe(c.notes()); }
// copies of a response show the same message, and letting one go does not affect the other
MC_SCENARIO("copies")
{
  auto b = response::created(); Model m; m.status = 201; b.set_header("x-a", "1"); m.set("x-a", "1"); auto r = finish(c, b, m); int how = c.pick(4); c.note(std::to_string(how)); std::optional<response> a;
  if (how == 0) a = r; if (how == 1) { a.emplace(); *a = r; } if (how == 2) { a = r; r = response(); } if (how == 3) { a = response::not_found().build(); auto t = std::move(r); *a = std::move(t); }
  if (how < 2 && !look(c, r, m, false)) return; look(c, *a, m); response d; Model e; look(c, d, e); c.observe(c.notes());
}
MC_MAIN
