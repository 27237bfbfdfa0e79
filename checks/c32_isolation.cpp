#include <fitoria/web/state_of.hpp>
#include "mc.hpp"
#include "wire.hpp"
using namespace fitoria; using namespace fitoria::web; using mc::show;
// Handlers may wait at a gate, which the exploration opens at any later step.
struct Gate { std::shared_ptr<net::steady_timer> t; };
static std::vector<std::pair<std::string, std::shared_ptr<boost::asio::steady_timer>>> WAITING; // connection id, its gate
static std::map<std::string, std::string> LOG; // what the handlers of each connection saw
struct Shared { int v; };
static auto server() { return [](auto& b) {
  auto h = [](std::string what) { return [what](request& r) -> awaitable<response> {
    auto id = r.headers().get("X-Id"); std::string me = id ? std::string(*id) : "?"; auto& L = LOG[me]; auto par = r.path().get("p"); auto q = r.query().get("q"); auto s = r.state<Shared>();
    std::string head = what + " " + std::string(to_string(r.method())) + " " + r.path().match_path() + " p=" + (par ? std::string(*par) : "-") + " q=" + (q ? std::string(*q) : "-") + " s=" + (s ? std::to_string(s->v) : "-"); L += "<" + head;
    auto wait = [&]() -> awaitable<void> { auto ex = co_await net::this_coro::executor; auto t = std::make_shared<boost::asio::steady_timer>(ex, std::chrono::hours(1000)); WAITING.emplace_back(me, t); boost::system::error_code ec; co_await t->async_wait(boost::asio::redirect_error(boost::asio::use_awaitable_t<executor_type> {}, ec)); };
    if (what == "gate") co_await wait(); std::string body; for (;;) { auto d = co_await r.body().async_read_some(); if (!d) break; if (!*d) { L += "!>"; co_return response::bad_request().set_body("broken body"); } body.append(reinterpret_cast<const char*>((*d)->data()), (*d)->size()); if (what == "slow") co_await wait(); }
    if (what == "throw") { L += "throw>"; throw std::runtime_error("fault of " + me); }
    auto par2 = r.path().get("p"); auto q2 = r.query().get("q"); L += " body=" + body + " p=" + (par2 ? std::string(*par2) : "-") + " q=" + (q2 ? std::string(*q2) : "-") + ">";
    if (what == "stream") { struct S { using is_async_readable_stream = void; std::string s; std::size_t i = 0; auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>> { auto ex = co_await net::this_coro::executor; co_await net::post(ex, net::use_awaitable_t<executor_type> {}); if (i >= s.size()) co_return nullopt; auto b = reinterpret_cast<const std::byte*>(s.data() + i++); co_return bytes(b, b + 1); } }; co_return response::ok().set_header("X-For", me).set_stream_body(S { head + "|" + body }); }
    co_return response::ok().set_header("X-For", me).set_body(head + "|" + body); }; };
  b.serve(scope<"/s">().use_state(Shared { 7 }).serve(route::any<"/{p}">(h("plain")).use_state(Shared { 8 })).serve(route::any<"/g/{p}">(h("gate"))).serve(route::any<"/w/{p}">(h("slow"))).serve(route::any<"/t/{p}">(h("throw"))).serve(route::any<"/m/{p}">(h("stream"))));
  b.set_request_body_limit(64); }; }
struct Step { int op; std::string bytes; }; // 0 send, 1 open own gates, 2 half close, 3 close for good
struct Script { const char* name; std::vector<Step> steps; };
static std::vector<Script> scripts(const std::string& id)
{
  auto H = "X-Id: " + id + "\r\n"; auto b = "body-of-" + id; auto cl = "Content-Length: " + std::to_string(b.size()) + "\r\n"; auto post = [&](std::string p) { return "POST " + p + " HTTP/1.1\r\n" + H + cl + "\r\n" + b; }; std::string get = "GET /s/" + id + "?q=" + id + id + " HTTP/1.1\r\n" + H + "\r\n", p1 = post("/s/" + id + "?q=x" + id), pg = post("/s/g/" + id), pw = post("/s/w/" + id + "?q=" + id), pm = post("/s/m/" + id);
  auto cut = [](std::string s, std::size_t k) { return std::pair(s.substr(0, k), s.substr(k)); }; auto [p1a, p1b] = cut(p1, p1.size() - 4); auto [pwa, pwb] = cut(pw, pw.size() - 4); auto [ga, gb] = cut(get, 12); auto [pma, pmb] = cut(pm, pm.size() - 2); std::string chunked = "POST /s/" + id + " HTTP/1.1\r\n" + H + "Transfer-Encoding: chunked\r\n\r\n3\r\nab" + id.substr(0, 1) + "\r\n", over = "POST /s/" + id + " HTTP/1.1\r\n" + H + "Transfer-Encoding: chunked\r\n\r\n60\r\n" + std::string(96, 'o') + "\r\n0\r\n\r\n";
  return { { "two", { { 0, get }, { 0, p1 }, { 2, "" } } }, { "split", { { 0, ga }, { 0, gb + p1a }, { 0, p1b } } }, { "gate", { { 0, pg + get }, { 1, "" }, { 0, get } } }, { "slow", { { 0, pwa }, { 1, "" }, { 0, pwb }, { 1, "" } } }, { "abandon", { { 0, p1a }, { 3, "" } } }, { "gone-at-gate", { { 0, pg }, { 3, "" }, { 1, "" } } }, { "throw", { { 0, get }, { 0, post("/s/t/" + id) } } }, { "bad", { { 0, ga }, { 0, "\x01\x02\r\n\r\n" } } }, { "stream", { { 0, pma }, { 0, pmb + ga }, { 0, gb } } }, { "chunked", { { 0, chunked }, { 0, "1\r\nz\r\n" }, { 0, "0\r\n\r\n" + get } } }, { "over", { { 0, ga }, { 0, gb + over } } }, { "half", { { 0, pwa }, { 2, "" }, { 1, "" } } } };
}
static void open(const std::string& id) { auto w = std::move(WAITING); WAITING.clear(); for (auto& [k, t] : w) if (k == id) t->cancel(); else WAITING.emplace_back(k, t); }
struct Seen { std::string in; bool eof = false; std::string log, escaped; bool operator==(const Seen&) const = default; };
static void go(vf::Client& cl, const std::string& id, const Step& s) { if (s.op == 0) cl.put(s.bytes); else if (s.op == 1) open(id); else if (s.op == 2) cl.half_close(); else cl.shut(); }
static const char* IDS[] = { "a", "bb", "ccc" };
static Seen finish(const std::string& id, vf::Client& cl, vf::Wire& w) { Seen s { cl.in, cl.eof, LOG[id], "" }; for (auto& e : w.escaped) if (e == "fault of " + id) s.escaped += e + ";"; return s; }
// what the connection sees when it is alone
static const Seen& alone(int who, int k)
{
  static std::map<std::pair<int, int>, Seen> memo; auto [it, fresh] = memo.try_emplace({ who, k }); if (!fresh) return it->second; LOG.clear(); WAITING.clear(); { vf::Wire w(server()); auto cl = w.connect(); auto sc = scripts(IDS[who])[std::size_t(k)]; for (auto& s : sc.steps) { go(cl, IDS[who], s); w.settle(cl); } it->second = finish(IDS[who], cl, w); } WAITING.clear(); return it->second;
}
static void run(mc::Chooser& c, int n, std::vector<int> pool)
{
  std::vector<int> ks; std::vector<Script> sc; std::vector<const Seen*> want; for (int i = 0; i < n; ++i) { ks.push_back(pool[std::size_t(c.pick(int(pool.size())))]); sc.push_back(scripts(IDS[i])[std::size_t(ks.back())]); c.note(sc.back().name); want.push_back(&alone(i, ks.back())); }
  LOG.clear(); WAITING.clear(); { vf::Wire w(server()); std::vector<vf::Client> cl; cl.reserve(3); for (int i = 0; i < n; ++i) cl.push_back(w.connect()); std::vector<std::size_t> at(std::size_t(n), 0); std::string order; auto settle = [&] { if (n == 2) w.settle(cl[0], cl[1]); else w.settle(cl[0], cl[1], cl[2]); };
    // settle after every step, or let two steps be pending at once
    bool lazy = (n == 2 || c.thorough()) && c.flip(); if (lazy) c.note("lazy"); int pending = 0;
    for (;;) { std::vector<int> can; for (int i = 0; i < n; ++i) if (at[std::size_t(i)] < sc[std::size_t(i)].steps.size()) can.push_back(i); if (can.empty()) break; int i = can[std::size_t(can.size() == 1 ? 0 : c.pick(int(can.size())))]; order += char('a' + i); auto& st = sc[std::size_t(i)].steps[at[std::size_t(i)]++]; if (lazy && (st.op != 0 || (pending && order[order.size() - 2] == order.back()))) settle(); go(cl[std::size_t(i)], IDS[i], st); if (!lazy || st.op || ++pending == 2) { settle(); pending = 0; } }
    settle(); c.note(order); auto key = "isolation:" + c.notes();
    for (int i = 0; i < n; ++i) { auto s = finish(IDS[i], cl[std::size_t(i)], w); auto& x = *want[std::size_t(i)]; if (s == x) continue; c.fail(key, std::string("connection ") + IDS[i] + (s.in != x.in ? " receives " + show(s.in.substr(0, 300)) + " instead of " + show(x.in.substr(0, 300)) : s.eof != x.eof ? (s.eof ? " is closed" : " stays open") : s.log != x.log ? "'s handlers saw " + show(s.log) + " instead of " + show(x.log) : " has other exceptions: " + s.escaped)); break; }
    c.observe(c.notes()); }
  WAITING.clear();
}
MC_SCENARIO_D("two", 3) { run(c, 2, { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }); }
MC_SCENARIO_D("three", 4) { if (c.thorough()) run(c, 3, { 0, 2, 3, 4, 5, 6, 8, 10 }); else run(c, 3, { 2, 4, 6 }); }
MC_MAIN
