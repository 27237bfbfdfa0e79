#define VF_POOL 1
#include "mc.hpp"
#include <fitoria/log.hpp>
#include <fitoria/log/async_stream_file_writer.hpp>
#include <fitoria/log/sync_stream_file_writer.hpp>
#include "sched.hpp"
#include <boost/asio/post.hpp>
#include <boost/asio/this_coro.hpp>
#include <fstream>
#include <sys/stat.h>
namespace L = fitoria::log; using mc::show;
static std::string str(std::size_t n) { return std::to_string(n); }
// what one writer saw; touched only by what the logger runs, hence ordered by the code under test or reported as a race
struct Seen { std::vector<std::string> recs; std::string bad; bool open = false; };
static std::string sig(const L::record_ptr& r) { return r ? std::to_string(int(r->lv)) + "|" + r->msg + "|" + std::to_string(r->line) + "|" + std::string(r->file_name.substr(r->file_name.rfind('/') + 1)) : "null"; }
// kinds: 0 immediate, 1 suspends in the middle, 2 suspends twice, 3 throws at once, 4 throws after suspending
struct W : L::async_writer {
  Seen* s; int kind; unsigned canary = 0xfeedbeef; W(Seen* x, int k) : s(x), kind(k) { } ~W() override { canary = 0; }
  auto async_write(L::record_ptr rec) -> L::awaitable<void> override
  {
    if (s->open) s->bad = "two records are being written at once"; s->open = true; auto g = sig(rec);
    if (kind == 3) { s->recs.push_back(g); s->open = false; throw std::runtime_error("writer"); }
    for (int i = 0; i < (kind == 1 || kind == 4 ? 1 : kind == 2 ? 2 : 0); ++i) co_await boost::asio::post(boost::asio::use_awaitable_t<L::executor_type>());
    if (canary != 0xfeedbeef) s->bad = "a writer is used after its end"; if (sig(rec) != g) s->bad = "the record changed while it was written"; s->recs.push_back(g); s->open = false; if (kind == 4) throw std::runtime_error("writer");
  }
};
static int FORMATTED = 0; struct Arg { int v; };
template <> struct fmt::formatter<Arg> : fmt::formatter<int> { template <class C> auto format(Arg a, C& c) const { ++FORMATTED; return fmt::formatter<int>::format(a.v, c); } };
static const std::string FILE_ = [] { std::string f = __FILE__; return f.substr(f.rfind('/') + 1); }();
struct Hist { std::vector<std::string> want; unsigned line; };
// one log call; appends what a writer must see
static void put(L::async_logger& l, L::level lv, const std::string& m, std::vector<std::string>* want) { auto loc = fitoria::source_location::current(); if (want) want->push_back(std::to_string(int(lv)) + "|" + m + "|" + std::to_string(loc.line()) + "|" + FILE_); l.log(loc, lv, "{}", m); }
static std::string join(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += (o.empty() ? "" : " ") + s; return o.empty() ? "nothing" : o; }
static void judge(mc::Chooser& c, const std::string& key, const Seen& s, const std::vector<std::string>& want)
{
  if (!s.bad.empty()) c.fail(key, s.bad); else if (s.open) c.fail(key, "a record was not written to its end"); else if (s.recs != want) c.fail(key, "written: " + join(s.recs) + "; logged: " + join(want));
}
static int preempt(mc::Chooser& c, int q, int t) { static bool warm = false; if (!warm) { warm = true; Seen a[2]; vf::sched::warm_up([&] { auto l = L::async_logger::builder().set_max_buffer_size(1).build(); l->add_writer(std::make_shared<W>(&a[0], 1)); l->add_writer(std::make_shared<W>(&a[1], 2)); for (int i = 0; i < 4; ++i) put(*l, L::level::info, "x", nullptr); l.reset(); }); } return c.thorough() ? t : q; }
// ---- log some records and destroy the logger at any moment
MC_SCENARIO_D("log and destroy", 3)
{
  int buf = c.pick(3), n = c.pick(c.thorough() ? 5 : 4), nw = c.pick(3); std::vector<int> kinds; for (int i = 0; i < nw; ++i) kinds.push_back(c.pick(i == 0 ? 5 : 2)); auto key = "destroy:buffer" + str(std::size_t(buf)) + ":records" + str(std::size_t(n)); for (auto k : kinds) key += ":w" + str(std::size_t(k)); c.note(key);
  std::vector<Seen> seen(std::size_t(nw), Seen {}); std::vector<std::string> want;
  vf::sched::run(c, preempt(c, 3, n > 2 ? 4 : 5), [&] { auto l = L::async_logger::builder().set_max_buffer_size(std::size_t(buf)).build(); for (int i = 0; i < nw; ++i) l->add_writer(std::make_shared<W>(&seen[std::size_t(i)], kinds[std::size_t(i)])); for (int i = 0; i < n; ++i) put(*l, L::level(i % 6), "m" + str(std::size_t(i)), &want); l.reset(); });
  for (auto& s : seen) judge(c, key, s, want); std::string o; for (auto& s : seen) o += join(s.recs); c.observe(key + o );
}
// ---- writers attached while records are under way: each sees at least what was logged afterwards, each record once, in order
MC_SCENARIO_D("writers attached later", 4)
{
  int buf = c.pick(2), before = c.pick(3), after = c.pick(2) + 1, k1 = c.pick(2), k2 = c.pick(2), more = c.pick(2); auto key = "attach:buffer" + str(std::size_t(buf)) + ":" + str(std::size_t(before)) + "+" + str(std::size_t(after)) + ":w" + str(std::size_t(k1)) + ":w" + str(std::size_t(k2)) + ":more" + str(std::size_t(more)); c.note(key); Seen a, b, x[6]; std::vector<std::string> w1, w2;
  vf::sched::run(c, preempt(c, 2, 3), [&] { auto l = L::async_logger::builder().set_max_buffer_size(std::size_t(buf)).build(); l->add_writer(std::make_shared<W>(&a, k1)); for (int i = 0; i < before; ++i) put(*l, L::level::info, "b" + str(std::size_t(i)), &w1); l->add_writer(std::make_shared<W>(&b, k2)); if (more) for (auto& s : x) l->add_writer(std::make_shared<W>(&s, 0)); for (int i = 0; i < after; ++i) put(*l, L::level::info, "a" + str(std::size_t(i)), &w2); l.reset(); });
  auto all = w1; all.insert(all.end(), w2.begin(), w2.end()); judge(c, key + ":first", a, all); auto late = [&](const Seen& s) { auto r = s.recs; bool tail = r.size() >= w2.size() && r.size() <= all.size() && std::equal(r.rbegin(), r.rend(), all.rbegin()); if (!s.bad.empty()) c.fail(key, s.bad); else if (!tail) c.fail(key, "a writer attached later saw: " + join(r) + "; logged: " + join(w1) + " and then " + join(w2)); }; late(b); if (more) for (auto& s : x) late(s); c.observe(key + join(b.recs));
}
// ---- two threads log
static volatile int DONE; VF_RAW static bool two_done() { return DONE >= 1; } VF_RAW static void mark() { DONE = DONE + 1; }
static int JOIN;
MC_SCENARIO_D("two threads", 4)
{
  int buf = c.pick(3), n1 = 1 + c.pick(2), n2 = 1 + c.pick(2), k = c.pick(2); if (!c.thorough() && n1 + n2 > 3) c.skip(); auto key = "threads:buffer" + str(std::size_t(buf)) + ":" + str(std::size_t(n1)) + "," + str(std::size_t(n2)) + ":w" + str(std::size_t(k)); c.note(key); Seen s; std::vector<std::string> w1, w2; std::shared_ptr<L::async_logger> l; DONE = 0;
  std::function<void()> second = [&] { for (int i = 0; i < n2; ++i) put(*l, L::level::warning, "t" + str(std::size_t(i)), &w2); __tsan_release(&JOIN); mark(); };
  // the second thread is started by the first, so that it sees the logger
  static volatile int GO; GO = 0; struct G { VF_RAW static bool go() { return GO != 0; } VF_RAW static void set() { GO = 1; } };
  static int START;
  vf::sched::run(c, preempt(c, 3, 4), [&] { l = L::async_logger::builder().set_max_buffer_size(std::size_t(buf)).build(); l->add_writer(std::make_shared<W>(&s, k)); __tsan_release(&START); G::set(); for (int i = 0; i < n1; ++i) put(*l, L::level::info, "m" + str(std::size_t(i)), &w1); vf::sched::wait_until(two_done); __tsan_acquire(&JOIN); l.reset(); }, { [&] { vf::sched::wait_until(G::go); __tsan_acquire(&START); second(); } });
  if (!s.bad.empty()) c.fail(key, s.bad); std::vector<std::string> g1, g2; for (auto& r : s.recs) (r.find("|t") != r.npos ? g2 : g1).push_back(r); if (g1 != w1 || g2 != w2) c.fail(key, "written: " + join(s.recs) + "; logged: " + join(w1) + " and " + join(w2)); c.observe(key + join(s.recs));
}
// ---- the global logger is set, replaced and removed; log objects use the one in force
MC_SCENARIO_D("global logger", 4)
{
  int n = c.thorough() ? 5 : 4; std::vector<int> ops; for (int i = 0; i < n; ++i) ops.push_back(c.pick(5)); int buf = c.pick(2), kind = c.pick(2); std::string key = "global:buffer" + str(std::size_t(buf)) + ":w" + str(std::size_t(kind)); for (auto o : ops) key += o == 0 ? ":log" : o == 1 ? ":set" : o == 2 ? ":none" : o == 3 ? ":keep" : ":low"; c.note(key); std::vector<Seen> seen(12); std::vector<std::vector<std::string>> want(12); int formatted = -1, expect_formatted = 0; std::string err;
  vf::sched::run(c, preempt(c, 1, 2), [&] {
    auto& g = L::registry::global(); int cur = -1, made = 0; FORMATTED = 0; std::shared_ptr<L::async_logger> kept; auto mk = [&] { auto l = L::async_logger::builder().set_filter(L::filter::at_least(L::level::warning)).set_max_buffer_size(std::size_t(buf)).build(); cur = made++; l->add_writer(std::make_shared<W>(&seen[std::size_t(cur)], kind)); return l; };
    g.set_default_logger(mk());
    for (auto o : ops) {
      if (o == 0) { L::error("e{}", Arg { made }); unsigned ln = __LINE__; if (cur >= 0) { want[std::size_t(cur)].push_back("4|e" + std::to_string(made) + "|" + std::to_string(ln) + "|" + FILE_); ++expect_formatted; } L::log(L::level::warning, "w{}", 1); ln = __LINE__; if (cur >= 0) want[std::size_t(cur)].push_back("3|w1|" + std::to_string(ln) + "|" + FILE_); }
      else if (o == 1) g.set_default_logger(mk()); else if (o == 2) { g.set_default_logger(nullptr); cur = -1; } else if (o == 3) { kept = mk(); g.set_default_logger(kept); }
      else { L::info("i{}", Arg { 1 }); L::trace("t{}", Arg { 1 }); L::log(L::level::debug, "d{}", Arg { 1 }); }
      if (bool(g.default_logger()) != (cur >= 0)) err = "the logger in force is not the one set";
    }
    g.set_default_logger(nullptr); kept.reset(); formatted = FORMATTED; });
  if (!err.empty()) c.fail(key, err); for (std::size_t i = 0; i < 12; ++i) judge(c, key + ":logger" + str(i), seen[i], want[i]); if (formatted != expect_formatted) c.fail(key, str(std::size_t(formatted)) + " records were formatted instead of " + str(std::size_t(expect_formatted))); c.observe(key);
}
// ---- the file writers: whole lines, in order, whatever the file takes at a time
static std::size_t LIM; static std::size_t lim(std::size_t n) { return LIM && LIM < n ? LIM : n; }
struct Dir { std::string d; Dir() { char t[] = "/tmp/vf-c31-XXXXXX"; if (!::mkdtemp(t)) { std::perror("mkdtemp"); std::_Exit(4); } d = t; } ~Dir() { ::unlink((d + "/a").c_str()); ::unlink((d + "/b").c_str()); ::rmdir(d.c_str()); } };
static Dir& dir() { static Dir d; return d; }
static std::vector<std::string> lines(const std::string& p) { std::ifstream f(p, std::ios::binary); std::string all((std::istreambuf_iterator<char>(f)), {}); std::vector<std::string> v; std::string cur; for (char ch : all) { cur += ch; if (ch == '\n') { v.push_back(cur); cur.clear(); } } if (!cur.empty()) v.push_back(cur); return v; }
static bool line_ok(const std::string& l, const std::string& lv, const std::string& msg, unsigned ln) // [TIME LV FUNC] MSG [FILE:LINE:COL]
{
  auto e = "] " + msg + " [" + FILE_ + ":" + std::to_string(ln) + ":"; auto p = l.find(e); return l.starts_with("[2") && p != l.npos && l.substr(0, p).find("Z " + lv + " ") != l.npos && l.ends_with("]\n") && l.find_first_not_of("0123456789", p + e.size()) == l.size() - 2;
}
MC_SCENARIO_D("file writers", 4)
{
  static const std::size_t LM[] = { 0, 7, 60 }; int which = c.pick(3), n = c.pick(4), buf = c.pick(2); LIM = c.of(LM); bool old = c.flip(); if (which == 0 && LIM) c.skip(); auto key = "file:" + str(std::size_t(which)) + ":records" + str(std::size_t(n)) + ":buffer" + str(std::size_t(buf)) + ":limit" + str(LIM) + (old ? ":old" : ""); c.note(key); static const char* NM[] = { "TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL" };
  auto a = dir().d + "/a", b = dir().d + "/b"; ::unlink(a.c_str()); ::unlink(b.c_str()); if (old) { std::ofstream(a) << "old\n"; std::ofstream(b) << "old\n"; } vf_file_env::get().limit_write = lim; unsigned ln = 0; static const std::string M[] = { "first", "", "third {} with\tall \xff", "x" };
  vf::sched::run(c, preempt(c, LIM == 7 ? 1 : 2, LIM == 7 ? 2 : 3), [&] { auto l = L::async_logger::builder().set_max_buffer_size(std::size_t(buf)).build(); if (which != 1) l->add_writer(L::make_sync_stream_file_writer(a)); if (which != 0) l->add_writer(L::make_async_stream_file_writer(b)); for (int i = 0; i < n; ++i) { l->log(fitoria::source_location::current(), L::level(i), "{}", M[i]); ln = __LINE__; } l.reset(); });
  for (int f = 0; f < 2; ++f) if (f == 0 ? which != 1 : which != 0) { auto v = lines(f ? b : a); if (old) { if (v.empty() || v[0] != "old\n") { c.fail(key, "what was in the file is gone"); return; } v.erase(v.begin()); } if (v.size() != std::size_t(n)) { c.fail(key, str(v.size()) + " lines of " + str(std::size_t(n)) + " in file " + str(std::size_t(f))); return; } for (int i = 0; i < n; ++i) if (!line_ok(v[std::size_t(i)], NM[i], M[i], ln)) c.fail(key, "line " + str(std::size_t(i)) + " is " + show(v[std::size_t(i)])); }
  if (vf_file_env::get().open_fds) { c.fail(key, "files left open"); vf_file_env::get().open_fds = 0; } c.observe(key);
}
MC_MAIN
