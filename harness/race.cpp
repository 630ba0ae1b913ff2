// Happens-before check of the memory accesses of the library.  The library is compiled with the compiler's
// thread instrumentation, but linked with this runtime instead of the usual one: it follows the schedule
// driver's locks, thread starts and joins and the atomic operations with vector clocks, and reports the
// first pair of conflicting accesses that no synchronisation orders.  Only accesses made inside library
// calls count (race_on).
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#define NS __attribute__((no_sanitize_thread))
extern "C" char __executable_start;
namespace {
enum { kMaxT = 40, kPages = 1 << 14, kSync = 1 << 12 };
struct Cell { uint32_t wclk, rclk[2]; uint32_t wpc, rpc; uint8_t wtid, rtid[2]; };
struct Page { uintptr_t no; Cell c[4096]; };
struct Vc { uint32_t c[kMaxT]; };
Page* g_pages[kPages];
struct Sync { void* a; Vc v; } g_sync[kSync];
Vc g_vc[kMaxT];
int g_n = 0;
bool g_active = false, g_found = false;
char g_what[200];
thread_local int t_ign = 1;      // > 0: accesses of this thread do not count
thread_local int t_id = -1;
thread_local uintptr_t t_lo = 0, t_hi = 0;    // own stack
NS Cell* At(uintptr_t a) {
  const uintptr_t no = a >> 12;
  size_t h = (no * 0x9E3779B97F4A7C15ull) >> 50;
  for (size_t i = 0; i < kPages; ++i, h = (h + 1) & (kPages - 1)) {
    if (g_pages[h] == nullptr) {
      g_pages[h] = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      g_pages[h]->no = no;
    }
    if (g_pages[h]->no == no) return &g_pages[h]->c[a & 4095];
  }
  return nullptr;
}
NS Vc* SyncOf(void* a) {
  size_t h = ((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 52;
  for (size_t i = 0; i < kSync; ++i, h = (h + 1) & (kSync - 1)) {
    if (g_sync[h].a == nullptr) g_sync[h].a = a;
    if (g_sync[h].a == a) return &g_sync[h].v;
  }
  return nullptr;
}
NS void Join(Vc& d, const Vc& s) { for (int i = 0; i < kMaxT; ++i) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
NS uint32_t Rel(void* pc) { return (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start); }
NS void Report(const char* k, uint32_t pc, uint32_t other) {
  if (g_found) return;
  g_found = true;
  snprintf(g_what, sizeof g_what, "%s at %x and %x", k, pc, other);
}
NS void Access(void* p, size_t n, bool wr, void* pc) {
  if (t_ign > 0 || !g_active || t_id < 0 || g_found) return;
  uintptr_t a = (uintptr_t)p;
  if (a >= t_lo && a < t_hi) return;
  const Vc& me = g_vc[t_id];
  const uint32_t where = Rel(pc);
  for (size_t i = 0; i < n; ++i) {
    Cell* c = At(a + i);
    if (c == nullptr) return;
    if (c->wclk && c->wtid != t_id && c->wclk > me.c[c->wtid]) { Report(wr ? "write/write" : "read/write", where, c->wpc); return; }
    if (wr) {
      for (int k = 0; k < 2; ++k)
        if (c->rclk[k] && c->rtid[k] != t_id && c->rclk[k] > me.c[c->rtid[k]]) { Report("write/read", where, c->rpc); return; }
      c->wtid = (uint8_t)t_id; c->wclk = me.c[t_id]; c->wpc = where; c->rclk[0] = c->rclk[1] = 0;
    } else {
      int k = c->rclk[0] == 0 || c->rtid[0] == t_id || c->rclk[0] <= me.c[c->rtid[0]] ? 0 : 1;
      c->rtid[k] = (uint8_t)t_id; c->rclk[k] = me.c[t_id]; c->rpc = where;
    }
  }
}
NS void Clear(void* p, size_t n) {
  if (!g_active) return;
  for (size_t i = 0; i < n; ++i) { Cell* c = At((uintptr_t)p + i); if (c) memset(c, 0, sizeof *c); }
}
NS void Acquire(void* a) { if (g_active && t_id >= 0) { Vc* v = SyncOf(a); if (v) Join(g_vc[t_id], *v); } }
NS void Release(void* a) { if (g_active && t_id >= 0) { Vc* v = SyncOf(a); if (v) { Join(*v, g_vc[t_id]); ++g_vc[t_id].c[t_id]; } } }
}  // namespace
extern "C" {
NS void race_begin() {
  for (int i = 0; i < kPages; ++i) if (g_pages[i]) { munmap(g_pages[i], sizeof(Page)); g_pages[i] = nullptr; }
  memset(g_sync, 0, sizeof g_sync); memset(g_vc, 0, sizeof g_vc);
  g_n = 1; t_id = 0; g_vc[0].c[0] = 1; g_found = false; g_active = true;
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  t_lo = (uintptr_t)lo; t_hi = t_lo + sz;
}
NS const char* race_end() { g_active = false; return g_found ? g_what : nullptr; }
NS void race_acquire(void* a) { Acquire(a); }
NS void race_release(void* a) { Release(a); }
NS int race_fork() {           // called by the parent; the child adopts the returned number
  if (!g_active || t_id < 0 || g_n >= kMaxT) return -1;
  const int k = g_n++;
  g_vc[k] = g_vc[t_id]; g_vc[k].c[k] = 1;
  ++g_vc[t_id].c[t_id];
  return k;
}
NS void race_adopt(int k, int tracked) {
  t_id = k; t_ign = tracked ? 0 : 1;
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  t_lo = (uintptr_t)lo; t_hi = t_lo + sz;
}
NS void race_joined(int k) { if (g_active && t_id >= 0 && k >= 0) Join(g_vc[t_id], g_vc[k]); }
NS int race_ignored(int d) { t_ign += d; return t_ign; }
// ---- what the compiler calls ----
NS void __tsan_init() {}
NS void __tsan_func_entry(void*) {}
NS void __tsan_func_exit() {}
#define RW(n) \
NS void __tsan_read##n(void* p) { Access(p, n, false, __builtin_return_address(0)); } \
NS void __tsan_write##n(void* p) { Access(p, n, true, __builtin_return_address(0)); } \
NS void __tsan_unaligned_read##n(void* p) { Access(p, n, false, __builtin_return_address(0)); } \
NS void __tsan_unaligned_write##n(void* p) { Access(p, n, true, __builtin_return_address(0)); } \
NS void __tsan_volatile_read##n(void* p) {} \
NS void __tsan_volatile_write##n(void* p) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
NS void __tsan_read_range(void* p, unsigned long n) { Access(p, n, false, __builtin_return_address(0)); }
NS void __tsan_write_range(void* p, unsigned long n) { Access(p, n, true, __builtin_return_address(0)); }
NS void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access(p, sizeof *p, true, __builtin_return_address(0)); }
NS void __tsan_vptr_read(void** p) { Access(p, sizeof *p, false, __builtin_return_address(0)); }
#define AT(b, T) \
NS T __tsan_atomic##b##_load(const volatile T* a, int) { T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); Acquire((void*)a); return r; } \
NS void __tsan_atomic##b##_store(volatile T* a, T v, int) { Release((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
NS T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { Acquire((void*)a); Release((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
NS T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { Acquire((void*)a); Release((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
NS T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { Acquire((void*)a); Release((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
NS T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { Acquire((void*)a); Release((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
NS T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { Acquire((void*)a); Release((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
NS T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { Acquire((void*)a); Release((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
NS int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { Acquire((void*)a); Release((void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
NS int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { Acquire((void*)a); Release((void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
NS void __tsan_atomic_thread_fence(int) { Acquire((void*)1); Release((void*)1); }
NS void __tsan_atomic_signal_fence(int) {}
// initialisation of function local objects
int (*g_gacq)(long long int*);
void (*g_grel)(long long int*);
NS int __cxa_guard_acquire(long long int* g) noexcept(false) {
  if (!g_gacq) g_gacq = (int (*)(long long int*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  const int r = g_gacq(g); Acquire(g); return r;
}
NS void __cxa_guard_release(long long int* g) noexcept {
  if (!g_grel) g_grel = (void (*)(long long int*))dlsym(RTLD_NEXT, "__cxa_guard_release");
  Release(g); g_grel(g);
}
}
NS void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); Clear(p, n); return p; }
NS void* operator new[](size_t n) { return operator new(n); }
NS void operator delete(void* p) noexcept { free(p); }
NS void operator delete(void* p, size_t) noexcept { free(p); }
NS void operator delete[](void* p) noexcept { free(p); }
NS void operator delete[](void* p, size_t) noexcept { free(p); }
