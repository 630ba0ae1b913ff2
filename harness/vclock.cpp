#include "vclock.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
namespace {
std::atomic<bool> g_on{false};
std::atomic<int64_t> g_off{0};      // added to CLOCK_MONOTONIC (ns)
std::atomic<int> g_wait{0};         // parked waiters
std::atomic<uint64_t> g_gen{0};     // tick generation
std::atomic<uint64_t> g_idle{0};    // last generation completely worked off
int (*g_hook)(void*, void*, int64_t*) = nullptr;
bool g_lost = false;                // nobody waits in a controllable way
using cg_t = int (*)(clockid_t, struct timespec*);
using cw_t = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
using tw_t = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
template <class T> T Real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
cg_t real_cg() { static cg_t f = Real<cg_t>("clock_gettime"); return f; }
cw_t real_cw() { static cw_t f = Real<cw_t>("pthread_cond_clockwait"); return f; }
int64_t ns(const timespec& t) { return t.tv_sec * 1000000000LL + t.tv_nsec; }
int ControlledWait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* abs) {
  if (g_hook != nullptr) {
    timespec cur;
    clock_gettime(clk, &cur);
    int64_t lack = ns(*abs) - ns(cur);
    return g_hook(c, m, &lack);
  }
  static thread_local bool first = true;
  static thread_local uint64_t consumed = 0;
  if (first) { first = false; consumed = g_gen.load(); }
  if (consumed == g_gen.load()) g_idle = consumed;   // all granted periods have been worked off
  g_wait++;
  int rc = 0;
  for (int slice = 0;; ++slice) {
    timespec now;
    real_cg()(CLOCK_MONOTONIC, &now);
    int64_t t = ns(now) + 300000;  // 0.3 ms slices
    timespec to{(time_t)(t / 1000000000LL), (long)(t % 1000000000LL)};
    rc = real_cw()(c, m, CLOCK_MONOTONIC, &to);
    if (rc == 0) break;                       // notified
    if (g_gen.load() != consumed) {           // tick granted: the period has elapsed
      consumed++;
      timespec cur;
      clock_gettime(clk, &cur);
      const int64_t lack = ns(*abs) - ns(cur);
      if (lack > 0) g_off += lack + 1000;
      rc = ETIMEDOUT;
      break;
    }
    // A notification may fall between two slices: wake up spuriously so that the caller looks at its condition.
    if (slice >= 10) { rc = 0; break; }
    if (!g_on.load()) { rc = ETIMEDOUT; timespec cur; clock_gettime(clk, &cur); if (ns(cur) >= ns(*abs)) break; }
  }
  g_wait--;
  return rc;
}
}  // namespace
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  const int rc = real_cg()(id, ts);
  if (rc == 0 && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)) {
    const int64_t off = g_off.load();
    if (off) {
      const int64_t t = ns(*ts) + off;
      ts->tv_sec = t / 1000000000LL;
      ts->tv_nsec = t % 1000000000LL;
    }
  }
  return rc;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs) {
  if (!g_on.load()) return real_cw()(c, m, clk, abs);
  return ControlledWait(c, m, clk, abs);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
  static tw_t f = Real<tw_t>("pthread_cond_timedwait");
  if (!g_on.load()) return f(c, m, abs);
  return ControlledWait(c, m, CLOCK_REALTIME, abs);
}
namespace vclk {
void Enable(bool on) { g_on = on; }
void Advance(int64_t d) { g_off += d; }
void Hook(int (*h)(void*, void*, int64_t*)) { g_hook = h; }
int Waiting() { return g_wait.load(); }
bool WaitIdle(int ms) {
  for (int i = 0; i < ms * 20; ++i) { if (g_wait.load() > 0) return true; usleep(50); }
  return g_wait.load() > 0;
}
void Tick() {
  if (!WaitIdle(g_lost ? 5 : 3000)) { g_lost = true; return; }
  const uint64_t g = ++g_gen;
  for (int i = 0; i < 400000 && g_idle.load() < g; ++i) usleep(50);
}
}  // namespace vclk
