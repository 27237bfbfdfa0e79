// A small stateless explorer: a scenario body asks the Chooser for every decision (operation, argument,
// fault, byte split, which pending work runs next ...); the explorer re-runs the body for every sequence of
// answers.  Everything the body does must be a function of those answers: a different number of
// alternatives on a replayed prefix is a hard error.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#ifdef BOOST_ENABLE_ASSERT_HANDLER
namespace boost {
// Beast 1.83 asserts n >= 5 for a last chunk that need not have so many bytes yet; the code below copes
inline void assertion_failed(char const* e, char const* fn, char const* file, long line) { if (!std::strcmp(e, "n >= 5")) return; std::fprintf(stderr, "%s:%ld: %s: Boost assertion failed: %s\n", file, line, fn, e); std::abort(); }
inline void assertion_failed_msg(char const* e, char const* m, char const* fn, char const* file, long line) { std::fprintf(stderr, "%s (%s)\n", e, m); assertion_failed(e, fn, file, line); }
}
#endif

namespace mc {

// not std::chrono: a harness may put a clock of its own in its place
inline double real_time() { timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
struct Skip { };                 // prune this execution (not counted)
struct Fail { };                 // stop this execution, failure already recorded

inline std::string esc(std::string_view s)
{
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}
// printable form for keys and messages: no blanks, no quotes
inline std::string show(std::string_view s)
{
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c <= 0x20 || c >= 0x7f || c == '%') { std::snprintf(b, sizeof b, "%%%02X", c); o += b; }
    else o += char(c);
  }
  return o;
}
inline std::uint64_t hash(std::string_view s, std::uint64_t h = 1469598103934665603ull)
{
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 29; return h;
}

// a copy of s in a heap block of exactly its size, so that the sanitizer sees any access outside it
struct Exact {
  char* p; std::size_t n;
  explicit Exact(std::string_view s) : p(static_cast<char*>(std::malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) std::memcpy(p, s.data(), n); }
  Exact(const Exact&) = delete; ~Exact() { std::free(p); }
  std::string_view sv() const { return { n ? p : p + 1, n }; }
};
// calls f for every string over alphabet of length 0..n starting with prefix
template <class F> void all_strings(std::string prefix, std::string_view alphabet, int n, F&& f)
{
  f(static_cast<const std::string&>(prefix));
  if (n <= 0) return;
  for (char ch : alphabet) { prefix.push_back(ch); all_strings(prefix, alphabet, n - 1, f); prefix.pop_back(); }
}
struct Shared { // lives in a mapped file so that the driver can read the case that crashed or hung
  volatile std::uint64_t execs; volatile std::uint32_t scenario, depth;
  volatile std::uint16_t choice[4000]; char note[2048];
};

struct Violation { std::string key, msg, note; std::uint32_t scenario; std::vector<int> choices; };

class Explorer;

class Chooser {
  friend class Explorer;
  struct Pt { int v, n; };
  std::vector<Pt> pts_; std::size_t pos_ = 0, replay_len_ = 0; int dev_left_ = 0, budget_ = 0;
  std::string note_; bool failed_ = false; std::string fkey_, fmsg_;
  Explorer* ex_ = nullptr; bool quiet_ = false;
public:
  int pick(int n);
  template <class A> auto& of(A& a) { return a[pick(int(std::size(a)))]; }
  bool flip() { return pick(2) != 0; }
  // 0 is the default answer; each other answer costs one deviation
  int dev(int n) { int r = pick(dev_left_ > 0 ? n : 1); if (r) --dev_left_; return r; }
  void devs(int k) { dev_left_ = k; }
  int dev_left() const { return dev_left_; }
  void note(std::string_view s);
  const std::string& notes() const { return note_; }
  void observe(std::string_view s);
  void observe(std::uint64_t h);
  // a decision enumerated by a plain loop inside the body: n further cases were decided
  void cases(std::uint64_t n);
  bool failed() const { return failed_; }
  // key identifies the failing input / call site / history
  void fail(const std::string& key, const std::string& msg)
  { if (!failed_) { failed_ = true; fkey_ = key; fmsg_ = msg; } }
  template <class K, class M> bool check(bool ok, K&& key, M&& msg)
  { if (!ok) fail(str(key), str(msg)); return ok; }
  template <class K, class M> void require(bool ok, K&& key, M&& msg)
  { if (!ok) { fail(str(key), str(msg)); throw Fail {}; } }
  [[noreturn]] void skip() { throw Skip {}; }
  int tier() const;
  bool thorough() const { return tier() > 0; }
  void pts_for_replay(int v) { pts_.push_back({ v, 0 }); replay_len_ = pts_.size(); }
  const std::string& fail_key() const { return fkey_; }
  const std::string& fail_msg() const { return fmsg_; }
private:
  template <class T> static std::string str(T&& t)
  { if constexpr (std::is_invocable_v<T>) return std::string(t()); else return std::string(t); }
};

struct Scenario { std::string name; std::function<void(Chooser&)> body; int shard_depth; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Reg {
  Reg(std::string n, std::function<void(Chooser&)> b, int sd = 2) { scenarios().push_back({ std::move(n), std::move(b), sd }); }
};
inline int g_tier = 0;
inline int Chooser::tier() const { return g_tier; }

class Explorer {
public:
  Shared* sh = nullptr; int shards = 1, shard = 0; double budget = 1e9;
  std::unordered_set<std::uint64_t> states; bool states_capped = false;
  std::vector<Violation> viols; std::vector<std::string> samples; std::size_t nviol = 0;
  struct Stat { std::string name; std::uint64_t execs = 0, edges = 0, skipped = 0, maxdepth = 0, outcomes = 0, inner = 0; bool done = true; };
  std::vector<Stat> stats; std::unordered_set<std::uint64_t> outcome; std::uint64_t inner = 0;
  std::uint32_t cur = 0; std::uint64_t prefix_no = 0; bool mine = true; int sdepth = 2;
  double t0 = real_time();

  void on_depth(Chooser& c)
  {
    // called when decision number sdepth has been taken: this prefix belongs to exactly one shard
    (void)c;
    if (shards > 1 && !mine) throw Skip {};
  }
  void run_one(Scenario& s, Chooser& c)
  {
    c.ex_ = this; c.pos_ = 0; c.note_.clear(); c.failed_ = false; c.dev_left_ = c.budget_;
    sh->depth = 0; sh->note[0] = 0; sh->execs = sh->execs + 1;
    try { s.body(c); }
    catch (Fail&) { }
    catch (Skip&) { throw; }
    catch (std::exception& e) { c.fail("exception:" + s.name + ":" + show(c.note_), std::string("unexpected exception: ") + e.what()); }
    catch (...) { c.fail("exception:" + s.name + ":" + show(c.note_), "unexpected exception of unknown type"); }
    if (c.pos_ < c.replay_len_) { std::fprintf(stderr, "divergence: replay used %zu of %zu choices in %s\n", c.pos_, c.replay_len_, s.name.c_str()); std::_Exit(3); }
  }
  void explore(std::uint32_t idx)
  {
    auto& s = scenarios()[idx]; cur = idx; sh->scenario = idx; sdepth = s.shard_depth;
    Stat st; st.name = s.name; Chooser c; std::uint64_t no = 0; outcome.clear(); inner = 0;
    std::vector<int> lastprefix; bool first = true;
    for (;;) {
      // shard by the prefix of the first sdepth decisions
      bool skipped = false; mine = true;
      {
        std::vector<int> pre;
        for (std::size_t i = 0; i < c.pts_.size() && i < std::size_t(sdepth); ++i) pre.push_back(c.pts_[i].v);
        if (first || pre != lastprefix) { if (!first) ++no; lastprefix = pre; first = false; }
        // a prefix still being extended has unknown later decisions: they are all 0, hence the same number
        mine = int(hash(std::to_string(no)) % std::uint64_t(shards)) == shard;
      }
      c.replay_len_ = c.pts_.size();
      try { run_one(s, c); } catch (Skip&) { skipped = true; }
      c.pts_.resize(c.pos_);
      if (c.pts_.size() >= lastprefix.size()) {
        lastprefix.clear();
        for (std::size_t i = 0; i < c.pts_.size() && i < std::size_t(sdepth); ++i) lastprefix.push_back(c.pts_[i].v);
      }
      if (!skipped && mine) {
        ++st.execs; st.edges += c.pts_.size() - std::min(c.pts_.size(), c.replay_len_ ? c.replay_len_ - 1 : 0);
        st.maxdepth = std::max<std::uint64_t>(st.maxdepth, c.pts_.size());
        if (samples.size() < 3 || (st.execs == 500 && samples.size() < 12)) if (!c.note_.empty()) samples.push_back(s.name + ": " + c.note_.substr(0, 300));
        if (c.failed_) {
          ++nviol; bool dup = false;
          for (auto& v : viols) if (v.key == c.fkey_) dup = true;
          if (!dup && viols.size() < 400) {
            Violation v { c.fkey_, c.fmsg_, c.note_, idx, {} };
            for (auto& p : c.pts_) v.choices.push_back(p.v);
            viols.push_back(v);
          }
        }
      } else if (skipped) ++st.skipped;
      while (!c.pts_.empty() && c.pts_.back().v + 1 >= c.pts_.back().n) c.pts_.pop_back();
      if (c.pts_.empty()) break;
      ++c.pts_.back().v;
      if ((st.execs & 63) == 0 || shards > 1)
        if (real_time() - t0 > budget) { st.done = false; break; }
    }
    st.outcomes = outcome.size(); st.inner = inner;
    stats.push_back(st);
  }
};

inline int Chooser::pick(int n)
{
  if (n <= 0) { std::fprintf(stderr, "pick(%d)\n", n); std::_Exit(3); }
  int v = 0;
  if (pos_ < replay_len_) {
    if (pts_[pos_].n == 0) pts_[pos_].n = n; // replay from a file
    if (pts_[pos_].n != n || pts_[pos_].v >= n) { std::fprintf(stderr, "divergence at decision %zu: %d alternatives, had %d (choice %d)\n", pos_, n, pts_[pos_].n, pts_[pos_].v); std::_Exit(3); }
    v = pts_[pos_].v;
  } else {
    if (pos_ < pts_.size()) pts_.resize(pos_);
    pts_.push_back({ 0, n });
  }
  if (pos_ < 4000) { ex_->sh->choice[pos_] = std::uint16_t(v); ex_->sh->depth = std::uint32_t(pos_ + 1); }
  ++pos_;
  if (int(pos_) == ex_->sdepth) ex_->on_depth(*this);
  return v;
}
inline void Chooser::note(std::string_view s)
{
  if (note_.size() > 4000) return;
  if (!note_.empty()) note_ += ' ';
  note_ += s;
  auto n = std::min<std::size_t>(note_.size(), sizeof(ex_->sh->note) - 1);
  std::memcpy(ex_->sh->note, note_.data(), n); ex_->sh->note[n] = 0;
}
inline void Chooser::observe(std::uint64_t h)
{
  h ^= (ex_->cur + 1) * 0x9e3779b97f4a7c15ull;
  if (ex_->mine) { if (ex_->outcome.size() < 300000) ex_->outcome.insert(h); if (ex_->states.size() < 400000) ex_->states.insert(h); else ex_->states_capped = true; }
}
inline void Chooser::cases(std::uint64_t n) { if (ex_->mine) ex_->inner += n; }
inline void Chooser::observe(std::string_view s) { observe(hash(s)); }

inline int run_main(int argc, char** argv)
{
  std::string out, shf, replay; Explorer ex; std::string only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--shared") shf = nx();
    else if (a == "--shards") ex.shards = std::stoi(nx()); else if (a == "--shard") ex.shard = std::stoi(nx());
    else if (a == "--tier") g_tier = nx() == "thorough" ? 1 : 0; else if (a == "--budget") ex.budget = std::stod(nx());
    else if (a == "--replay") replay = nx(); else if (a == "--only") only = nx();
    else if (a == "--list") { for (auto& s : scenarios()) std::printf("%s\n", s.name.c_str()); return 0; }
  }
  if (!shf.empty()) {
    int fd = ::open(shf.c_str(), O_RDWR | O_CREAT, 0600); if (::ftruncate(fd, sizeof(Shared))) return 4;
    ex.sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); ::close(fd);
  } else ex.sh = static_cast<Shared*>(std::calloc(1, sizeof(Shared)));
  if (!replay.empty()) { // "<scenario>:c0,c1,..."
    auto p = replay.rfind(':'); auto name = replay.substr(0, p); Chooser c; ex.shards = 1;
    for (std::uint32_t i = 0; i < scenarios().size(); ++i) if (scenarios()[i].name == name) {
      ex.cur = i; ex.sh->scenario = i; ex.sdepth = 1 << 30; ex.stats.push_back({});
      auto cs = replay.substr(p + 1); char* e = cs.data();
      while (*e) { long v = std::strtol(e, &e, 10); c.pts_for_replay(int(v)); if (*e) ++e; }
      try { ex.run_one(scenarios()[i], c); } catch (Skip&) { std::puts("SKIPPED"); return 0; }
      std::printf("case: %s\n", c.notes().c_str());
      if (c.failed()) { std::printf("FAIL key=%s\n%s\n", c.fail_key().c_str(), c.fail_msg().c_str()); return 1; }
      std::puts("PASS"); return 0;
    }
    std::fprintf(stderr, "no scenario %s\n", name.c_str()); return 4;
  }
  for (std::uint32_t i = 0; i < scenarios().size(); ++i) if (only.empty() || scenarios()[i].name == only) ex.explore(i);
  FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
  std::fprintf(f, "{\"scenarios\":[");
  for (std::size_t i = 0; i < ex.stats.size(); ++i) { auto& s = ex.stats[i];
    std::fprintf(f, "%s{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"max_depth\":%llu,\"distinct_states\":%llu,\"pruned\":%llu,\"inner_cases\":%llu,\"complete\":%s}", i ? "," : "", esc(s.name).c_str(),
      (unsigned long long)s.execs, (unsigned long long)s.edges, (unsigned long long)s.maxdepth, (unsigned long long)s.outcomes, (unsigned long long)s.skipped, (unsigned long long)s.inner, s.done ? "true" : "false"); }
  std::fprintf(f, "],\"nviol\":%zu,\"violations\":[", ex.nviol);
  for (std::size_t i = 0; i < ex.viols.size(); ++i) { auto& v = ex.viols[i];
    std::fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"note\":\"%s\",\"scenario\":\"%s\",\"choices\":[", i ? "," : "", esc(v.key).c_str(), esc(v.msg.substr(0, 3000)).c_str(), esc(v.note).c_str(), esc(scenarios()[v.scenario].name).c_str());
    for (std::size_t j = 0; j < v.choices.size(); ++j) std::fprintf(f, "%s%d", j ? "," : "", v.choices[j]);
    std::fprintf(f, "]}"); }
  std::fprintf(f, "],\"samples\":[");
  for (std::size_t i = 0; i < ex.samples.size(); ++i) std::fprintf(f, "%s\"%s\"", i ? "," : "", esc(ex.samples[i]).c_str());
  std::fprintf(f, "],\"states_capped\":%s,\"states\":[", ex.states_capped ? "true" : "false");
  bool fst = true; for (auto h : ex.states) { std::fprintf(f, "%s%llu", fst ? "" : ",", (unsigned long long)h); fst = false; }
  std::fprintf(f, "]}\n"); if (f != stdout) std::fclose(f);
  return 0;
}
}
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name) \
  static void MC_CAT(mc_body_, __LINE__)(mc::Chooser&); \
  static mc::Reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_body_, __LINE__)); \
  static void MC_CAT(mc_body_, __LINE__)([[maybe_unused]] mc::Chooser& c)
#define MC_MAIN int main(int argc, char** argv) { return mc::run_main(argc, argv); }
#define MC_SCENARIO_D(name, d) \
  static void MC_CAT(mc_body_, __LINE__)(mc::Chooser&); \
  static mc::Reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_body_, __LINE__), d); \
  static void MC_CAT(mc_body_, __LINE__)([[maybe_unused]] mc::Chooser& c)
