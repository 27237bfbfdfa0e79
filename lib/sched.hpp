// A controlled scheduler for code that runs on asio's system thread pool.  Every piece of posted work and
// every user thread runs on a thread of its own, one at a time; which one runs next is decided by the
// explorer whenever the running one finishes, blocks, or is about to take a mutex; the default is to go
// on with the running one and else in the order of arrival, and the number of deviations from that is bounded.
// The hand-over is invisible to ThreadSanitizer, so that it sees only the synchronisation of the code under
// test and reports an unordered pair of accesses in any explored schedule.
#pragma once
#include "mc.hpp"
#include <boost/asio/detail/scheduler_operation.hpp>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <chrono>
#include <functional>
#include <future>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }
#define VF_RAW __attribute__((disable_sanitizer_instrumentation, noinline))
namespace vf::sched {
enum St : int { IDLE, READY, ON_MUTEX, ON_FUTEX, WAITING, ON_COND };
constexpr int K = 12, MAXP = 256; // threads; thread 0 is the user's
struct Th { volatile int go, st; volatile bool used; void* volatile on; volatile unsigned val; volatile int timed, timeout; void (*volatile fn)(void*); void* volatile arg; void* volatile owner; pthread_t id; bool (*volatile pred)(); };
inline Th th[K]; inline volatile int back; inline volatile bool on = false; inline thread_local int me = -1;
struct Pend { boost::asio::detail::scheduler_operation* volatile op; void* volatile owner; volatile unsigned no; }; inline Pend pend[MAXP]; inline volatile int npend = 0; inline volatile unsigned nposted = 0;
inline std::atomic<int> gate;
VF_RAW inline long raw(long n, long a, long b, long c) { long r; register long r10 asm("r10") = 0; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory"); return r; }
VF_RAW inline void wake(volatile int* f) { asm volatile("" ::: "memory"); __sync_synchronize(); *f = 1; __sync_synchronize(); raw(SYS_futex, long(f), FUTEX_WAKE_PRIVATE, 1); }
VF_RAW inline void wait(volatile int* f) { while (!*f) raw(SYS_futex, long(f), FUTEX_WAIT_PRIVATE, 0); __sync_synchronize(); *f = 0; }
VF_RAW inline void yield_as(int st) { int m = me; th[m].st = st; wake(&back); wait(&th[m].go); }
VF_RAW inline void point() { if (on && me >= 0) yield_as(READY); }
VF_RAW inline void* loop(void* a) { int i = int(reinterpret_cast<long>(a)); me = i; for (;;) { wait(&th[i].go); auto f = th[i].fn; f(th[i].arg); th[i].st = IDLE; wake(&back); } }
VF_RAW inline void resume(int i) { wake(&th[i].go); wait(&back); }
VF_RAW inline bool mutex_free(void* m) { return *static_cast<volatile int*>(m) == 0; }
VF_RAW inline bool runnable(int i) { auto& t = th[i]; switch (t.st) { case READY: return true; case ON_MUTEX: return mutex_free(t.on); case ON_FUTEX: return *static_cast<volatile unsigned*>(t.on) != t.val; case WAITING: return t.pred(); } return false; }
VF_RAW inline bool idle(int i) { return th[i].st == IDLE; }
VF_RAW inline bool timed(int i) { return (th[i].st == ON_FUTEX || th[i].st == ON_COND) && th[i].timed; }
VF_RAW inline void set_timeout(int i) { th[i].timeout = 1; th[i].st = READY; }
VF_RAW inline int pending() { return npend; }
VF_RAW inline void assign(int i, void (*f)(void*), void* a, void* o) { th[i].owner = o; th[i].fn = f; th[i].arg = a; th[i].st = READY; }
VF_RAW inline void* owner() { return th[me].owner; }
VF_RAW inline void push(boost::asio::detail::scheduler_operation* op, void* o) { if (npend == MAXP) { raw(SYS_write, 2, long("too much work\n"), 14); raw(SYS_exit_group, 4, 0, 0); } pend[npend].op = op; pend[npend].owner = o; pend[npend].no = nposted++; npend = npend + 1; }
VF_RAW inline void take(int k, boost::asio::detail::scheduler_operation*& op, void*& o) { op = pend[k].op; o = pend[k].owner; for (int i = k; i + 1 < npend; ++i) { pend[i].op = pend[i + 1].op; pend[i].owner = pend[i + 1].owner; pend[i].no = pend[i + 1].no; } npend = npend - 1; }
inline void run_op(void* a) { __tsan_acquire(a); auto op = static_cast<boost::asio::detail::scheduler_operation*>(a); boost::system::error_code ec; op->complete(owner(), ec, 0); }
inline void run_fn(void* a) { __tsan_acquire(a); (*static_cast<std::function<void()>*>(a))(); }
inline void pass_gate(void*) { gate.fetch_add(1, std::memory_order_acq_rel); }
inline void start() { static bool done = false; if (done) return; done = true; for (long i = 0; i < K; ++i) pthread_create(&th[i].id, nullptr, loop, reinterpret_cast<void*>(i)); }
inline void all_pass() { gate.fetch_add(1, std::memory_order_acq_rel); for (int i = 0; i < K; ++i) { assign(i, pass_gate, nullptr, nullptr); resume(i); } gate.fetch_add(1, std::memory_order_acq_rel); }
[[noreturn]] inline void die(const char* what) { std::printf("%s\n", what); std::fflush(stdout); std::_Exit(98); }
VF_RAW inline void enable(bool b) { on = b; }
inline void run(mc::Chooser* cp, int deviations, std::function<void()> body, std::vector<std::function<void()>> further = {});
inline void run(mc::Chooser& c, int deviations, std::function<void()> body, std::vector<std::function<void()>> further = {}) { run(&c, deviations, std::move(body), std::move(further)); }
// a run nobody explores, so that what happens only the first time is over
inline void warm_up(const std::function<void()>& body) { for (int i = 0; i < 3; ++i) run(nullptr, 0, body); }
// waits, on a user thread, until pred holds; pred must be uninstrumented
VF_RAW inline void wait_until(bool (*pred)()) { if (pred()) return; th[me].pred = pred; yield_as(WAITING); }
// runs the user thread's body and everything it posts; the explorer decides the order.
// further: work which another user thread does, startable at any time
inline void run(mc::Chooser* cp, int deviations, std::function<void()> body, std::vector<std::function<void()>> further)
{
  start(); all_pass(); enable(true); int left = deviations; int rr = 0; std::size_t nf = 0; std::function<void()> b = std::move(body);
  __tsan_release(&b); assign(0, run_fn, &b, nullptr); for (auto& f : further) __tsan_release(&f); int cur = 0;
  auto free_thread = [&]() -> int { for (int k = 0; k < K - 1; ++k) { int i = 1 + (rr + k) % (K - 1); if (idle(i)) { rr = i; return i; } } return -1; };
  for (long steps = 0;; ++steps) {
    if (steps > 5000) die("no end: the work goes on for ever");
    // alternatives: keep running cur; other ready threads; further user threads; pending work; a timeout
    struct Alt { int kind, i; }; std::vector<Alt> alt; bool cont = !idle(cur) && runnable(cur); if (cont) alt.push_back({ 0, cur });
    for (int i = 0; i < K; ++i) if (!(cont && i == cur) && !idle(i) && runnable(i)) alt.push_back({ 0, i });
    int ft = free_thread(); if (ft >= 0) { if (nf < further.size()) alt.push_back({ 1, int(nf) }); for (int k = 0; k < pending(); ++k) alt.push_back({ 2, k }); }
    bool some = !alt.empty(); for (int i = 0; i < K; ++i) if (timed(i)) alt.push_back({ 3, i });
    if (alt.empty()) { bool blocked = false; for (int i = 0; i < K; ++i) if (!idle(i)) blocked = true; if (blocked) die("deadlock: blocked with nothing left to run"); break; }
    int k = cp && left > 0 ? cp->pick(int(alt.size())) : 0; if (k > 0) --left;
    auto a = alt[std::size_t(k)]; int who = a.i;
    if (a.kind == 1) { who = ft; assign(who, run_fn, &further[nf++], nullptr); } else if (a.kind == 2) { boost::asio::detail::scheduler_operation* op; void* o; take(a.i, op, o); who = ft; assign(who, run_op, op, o); } else if (a.kind == 3) set_timeout(a.i);
    cur = who; resume(who);
  }
  enable(false); all_pass();
}
VF_RAW inline bool futex_wait(unsigned* a, unsigned v, bool has_timeout) { while (*const_cast<volatile unsigned*>(a) == v) { th[me].on = a; th[me].val = v; th[me].timed = has_timeout; th[me].timeout = 0; yield_as(ON_FUTEX); if (th[me].timeout) { th[me].timed = 0; return false; } } return true; }
// condition variables: a waiter runs again when it was signalled (the first one that came) or its time-out was chosen
VF_RAW inline bool cond_wait(void* c, bool has_timeout) { th[me].on = c; th[me].timed = has_timeout; th[me].timeout = 0; yield_as(ON_COND); return !th[me].timeout; }
VF_RAW inline void cond_wake(void* c, bool all) { for (int i = 0; i < K; ++i) if (th[i].st == ON_COND && th[i].on == c) { th[i].st = READY; if (!all) return; } }
VF_RAW inline bool controlled() { return on && me >= 0; }
VF_RAW inline void block_on(void* m) { th[me].on = m; yield_as(ON_MUTEX); }
}
void vf_pool_post(boost::asio::detail::scheduler_operation* op, void* o) { __tsan_release(op); vf::sched::push(op, o); }
// what std::future and std::promise wait on
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool t, chrono::seconds, chrono::nanoseconds) { if (!vf::sched::controlled()) { fprintf(stderr, "uncontrolled wait\n"); _Exit(4); } return vf::sched::futex_wait(a, v, t); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool t, chrono::seconds, chrono::nanoseconds) { if (!vf::sched::controlled()) { fprintf(stderr, "uncontrolled wait\n"); _Exit(4); } return vf::sched::futex_wait(a, v, t); }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (!vf::sched::controlled()) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) sched_yield(); return r; }
  vf::sched::point(); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) vf::sched::block_on(m); return r;
}

// outside the scheduler's control a wait is a short one without reason, which condition variables allow
inline int vf_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const timespec* until)
{
  pthread_mutex_unlock(m); bool woken = true; if (vf::sched::controlled()) woken = vf::sched::cond_wait(c, until); else { sched_yield(); if (until) { timespec n; clock_gettime(clock, &n); woken = n.tv_sec < until->tv_sec || (n.tv_sec == until->tv_sec && n.tv_nsec < until->tv_nsec); } }
  pthread_mutex_lock(m); return woken ? 0 : ETIMEDOUT;
}
extern "C" {
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return vf_cond_wait(c, m, CLOCK_REALTIME, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return vf_cond_wait(c, m, CLOCK_REALTIME, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return vf_cond_wait(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { vf::sched::cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { vf::sched::cond_wake(c, true); return 0; }
// what atomics wait on
VF_RAW long syscall(long n, ...) noexcept
{
  va_list v; va_start(v, n); long a[6]; for (auto& x : a) x = va_arg(v, long); va_end(v);
  if (n == SYS_futex && vf::sched::controlled() && ((a[1] & 127) == FUTEX_WAIT || (a[1] & 127) == FUTEX_WAIT_BITSET)) { if (*reinterpret_cast<volatile unsigned*>(a[0]) != unsigned(a[2])) { errno = EAGAIN; return -1; } if (!vf::sched::futex_wait(reinterpret_cast<unsigned*>(a[0]), unsigned(a[2]), a[3] != 0)) { errno = ETIMEDOUT; return -1; } return 0; }
  long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5]; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); if (r < 0 && r > -4096) { errno = int(-r); return -1; } return r;
}
}
