// A controlled OpenMP runtime.  The implementation under test is compiled with -fopenmp -fsanitize=thread and
// linked against THIS file instead of libgomp and libtsan: every GOMP_* entry point is a scheduling decision of the
// explorer (exactly one virtual thread runs at a time), every instrumented memory access goes to a vector-clock
// happens-before race detector.  Virtual threads are real threads (own stack and thread-local storage) passing a token.
#include "omp_sched.hpp"
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <set>
typedef unsigned long long ull;
extern "C" { void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); }
namespace omps {
enum { MAXT = 4, CELLS = 1 << 16 };
int threads = 2; int (*choose)(int, int) = nullptr; ull (*draws)() = nullptr; Report rep;
struct VC { uint32_t c[MAXT]; };
struct Th { sem_t go; pthread_t pt; bool done = false; void *waiting = nullptr; bool atBarrier = false; void (*fn)(void *) = nullptr; void *data = nullptr; VC vc; int singles = 0, loops = 0; };
struct Loop { bool init = false; long next, end, incr, chunk; int left = 0; };
static bool region = false, quiet = true; static int team = 0, cur = 0; static Th th[MAXT]; static std::map<int, Loop> loops; static int singlesDone = 0; static std::map<const void *, VC> syncs; static std::map<void *, int> locks; static Loop *wsOf[MAXT];
static __thread int me = 0;
// ---- shadow memory: one cell per 8 bytes, a clock per byte, thread and kind
struct Cell { uintptr_t g; uint32_t gen; uint32_t r[8][MAXT], w[8][MAXT]; };
static Cell *cells; static uint32_t gen = 1; static std::set<std::string> *seen;
static Cell *cell(uintptr_t g, bool make) {
  if (!cells) cells = (Cell *)__real_calloc(CELLS, sizeof(Cell));
  uint64_t h = (g >> 3) * 0x9E3779B97F4A7C15ull; size_t i = h >> 48;
  for (int k = 0; k < CELLS; k++, i = (i + 1) % CELLS) { Cell &c = cells[i]; if (c.gen != gen) { if (!make) return nullptr; __real_memset(&c, 0, sizeof c); c.gen = gen; c.g = g; return &c; } if (c.g == g) return &c; }
  return nullptr;
}
static void problem(const std::string &s) { if (!seen) seen = new std::set<std::string>; if (rep.problems.size() < 20) rep.problems.push_back(s); }
static void clearRange(void *p, size_t n) { if (!region) return; bool q = quiet; quiet = true; const uintptr_t a = (uintptr_t)p; for (uintptr_t g = a & ~7ull; g < a + n; g += 8) if (Cell *c = cell(g, false)) { __real_memset(c->r, 0, sizeof c->r); __real_memset(c->w, 0, sizeof c->w); } quiet = q; }
static void acc(const void *p, size_t n, bool wr) {
  if (quiet || !region) return;
  rep.accesses++;
  if (team < 2) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    Cell *c = cell(a & ~7ull, true); const int lo = a & 7, hi = int(e - (a & ~7ull) < 8 ? e - (a & ~7ull) : 8);
    if (!c) return;
    for (int b = lo; b < hi; b++) {
      for (int t = 0; t < team; t++) if (t != me) {
        if (c->w[b][t] > th[me].vc.c[t] || (wr && c->r[b][t] > th[me].vc.c[t])) {
          quiet = true; static int reported; const bool ww = c->w[b][t] > th[me].vc.c[t];
          if (reported++ < 1000000) problem(std::string("data race: unordered ") + (wr ? "write" : "read") + " and " + (ww ? "write" : "read") + " of the same shared byte by two threads of a parallel loop");
          quiet = false; c->w[b][t] = c->r[b][t] = 0;
        }
      }
      (wr ? c->w : c->r)[b][me] = th[me].vc.c[me];
    }
    a = (a & ~7ull) + 8;
  }
}
static void acquire(const void *a) { if (!region) return; bool q = quiet; quiet = true; auto it = syncs.find(a); if (it != syncs.end()) for (int i = 0; i < MAXT; i++) if (it->second.c[i] > th[me].vc.c[i]) th[me].vc.c[i] = it->second.c[i]; quiet = q; }
static void release(const void *a) { if (!region) return; bool q = quiet; quiet = true; VC &v = syncs[a]; for (int i = 0; i < MAXT; i++) if (th[me].vc.c[i] > v.c[i]) v.c[i] = th[me].vc.c[i]; th[me].vc.c[me]++; quiet = q; }
// ---- scheduling
static bool runnable(int t) { return !th[t].done && !th[t].waiting && !th[t].atBarrier; }
static void switchTo(int t) { if (t == cur) return; rep.switches++; const int self = me; cur = t; sem_post(&th[t].go); if (!th[self].done || self == 0) while (sem_wait(&th[self].go)) {} }
static int pick() {  // the running thread first, then the others in order
  int en[MAXT], n = 0; if (runnable(me)) en[n++] = me; for (int t = 0; t < team; t++) if (t != me && runnable(t)) en[n++] = t;
  if (!n) return -1;
  const int k = n > 1 ? choose(n, 0) : 0; rep.trace = rep.trace * 1000003 + en[k] + 1; return en[k];
}
static void reschedule() {
  const bool q = quiet; quiet = true;
  const int t = pick();
  if (t < 0) {
    bool all = true; for (int i = 0; i < team; i++) all &= th[i].done;
    if (!all) { fprintf(stderr, "deadlock among the threads of a parallel region\n"); abort(); }
    if (me != 0) { cur = 0; sem_post(&th[0].go); }
    quiet = q; return;
  }
  switchTo(t); quiet = q;
}
void point() { if (region && team > 1) reschedule(); }
bool inRegion() { return region; }
int self() { return region ? me : 0; }
Quiet::Quiet() : old(quiet) { quiet = true; }
Quiet::~Quiet() { quiet = old; }
void reset() { rep = Report(); region = false; quiet = true; }
static void *threadMain(void *p) {
  me = int((intptr_t)p); while (sem_wait(&th[me].go)) {}
  quiet = false; th[me].fn(th[me].data); quiet = true; th[me].done = true;
  int t = pick(); if (t < 0) t = 0;
  cur = t; rep.switches++; sem_post(&th[t].go); return nullptr;
}
static void parallel(void (*fn)(void *), void *data, int n) {
  if (region) { fn(data); return; }   // nested parallelism is serialised
  team = n > 0 ? (n < MAXT ? n : int(MAXT)) : threads; gen++; syncs.clear(); locks.clear(); singlesDone = 0; me = 0; cur = 0; rep.regions++; if (team > 1) rep.teamRegions++;
  const ull d0 = draws ? draws() : 0;
  for (int t = 0; t < team; t++) { th[t].done = false; th[t].waiting = nullptr; th[t].atBarrier = false; th[t].fn = fn; th[t].data = data; th[t].singles = th[t].loops = 0; wsOf[t] = nullptr; __real_memset(&th[t].vc, 0, sizeof(VC)); th[t].vc.c[t] = 1; sem_init(&th[t].go, 0, 0); }
  region = true; quiet = true;
  for (int t = 1; t < team; t++) if (pthread_create(&th[t].pt, nullptr, threadMain, (void *)(intptr_t)t)) abort();
  if (team > 1) reschedule();
  quiet = false; fn(data); quiet = true; th[0].done = true;
  for (;;) { bool all = true; for (int t = 0; t < team; t++) all &= th[t].done; if (all) break; const int t = pick(); if (t < 0) { fprintf(stderr, "deadlock among the threads of a parallel region\n"); abort(); } cur = t; sem_post(&th[t].go); while (sem_wait(&th[0].go)) {} }
  for (int t = 1; t < team; t++) pthread_join(th[t].pt, nullptr);
  region = false; me = 0;
  if (draws && draws() != d0) problem("random numbers are drawn inside a parallel loop: results depend on the schedule and the engine is shared");
  for (auto &l : locks) if (l.second) problem("a lock is still held at the end of a parallel region");
}
static void loopInit(Loop &l, long s, long e, long incr, long chunk) { l.init = true; l.next = s; l.end = e; l.incr = incr; l.chunk = chunk; if (chunk <= 0) { bool q = quiet; quiet = true; problem("a parallel loop asks for chunks of no iterations (never terminates)"); quiet = q; l.chunk = 1; } }
static bool loopNext(Loop &l, long *s, long *e) {
  point();
  if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
  *s = l.next; long n = l.next + l.chunk * l.incr; if (l.incr > 0 ? n > l.end : n < l.end) n = l.end; *e = n; l.next = n; rep.chunks++;
  return true;
}
}
using namespace omps;
extern "C" {
// ---- libgomp interface
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { loops.clear(); parallel(fn, data, n); }
static void ploop(void (*fn)(void *), void *data, unsigned n, long s, long e, long incr, long chunk) { if (region) abort(); loops.clear(); loopInit(loops[0], s, e, incr, chunk); for (int t = 0; t < MAXT; t++) { } parallel(fn, data, n); }
static Loop *curLoop() { if (!wsOf[me]) wsOf[me] = &loops[0]; return wsOf[me]; }
static bool lstart(long s, long e, long incr, long chunk, long *is, long *ie) { bool q = quiet; quiet = true; Loop &l = loops[1 + th[me].loops++]; if (!l.init) loopInit(l, s, e, incr, chunk); wsOf[me] = &l; bool r = loopNext(l, is, ie); quiet = q; return r; }
static bool lnext(long *is, long *ie) { bool q = quiet; quiet = true; bool r = loopNext(*curLoop(), is, ie); quiet = q; return r; }
#define PL(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); } \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return lstart(s, e, i, c, is, ie); } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { return lnext(is, ie); }
PL(dynamic) PL(guided) PL(static) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
#define PR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); } \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return lstart(s, e, i, 1, is, ie); } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { return lnext(is, ie); }
PR(runtime) PR(nonmonotonic_runtime) PR(maybe_nonmonotonic_runtime)
// unsigned long long loops (upward loops within the range of long)
#define PU(name) bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return lstart(long(s), long(e), long(i), long(c), (long *)is, (long *)ie); } \
  bool GOMP_loop_ull_##name##_next(ull *is, ull *ie) { return lnext((long *)is, (long *)ie); }
PU(dynamic) PU(guided) PU(static) PU(nonmonotonic_dynamic) PU(nonmonotonic_guided)
void GOMP_loop_end_nowait() { }
void GOMP_barrier();
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_barrier() {
  if (!region || team < 2) return;
  bool q = quiet; quiet = true; th[me].atBarrier = true;
  int waiting = 0, alive = 0; for (int t = 0; t < team; t++) { waiting += th[t].atBarrier; alive += !th[t].done; }
  if (waiting == alive) { VC m; __real_memset(&m, 0, sizeof m); for (int t = 0; t < team; t++) for (int i = 0; i < MAXT; i++) if (th[t].vc.c[i] > m.c[i]) m.c[i] = th[t].vc.c[i]; for (int t = 0; t < team; t++) { th[t].vc = m; th[t].vc.c[t]++; th[t].atBarrier = false; } }
  reschedule(); quiet = q;
}
static void lock(void *l) { if (!region) return; bool q = quiet; quiet = true; point(); while (locks[l]) { th[me].waiting = l; reschedule(); } locks[l] = me + 1; acquire(l); quiet = q; }
static void unlock(void *l) { if (!region) return; bool q = quiet; quiet = true; release(l); locks[l] = 0; for (int t = 0; t < team; t++) if (th[t].waiting == l) th[t].waiting = nullptr; quiet = q; }
static char critL, atomL;
void GOMP_critical_start() { lock(&critL); } void GOMP_critical_end() { unlock(&critL); }
void GOMP_critical_name_start(void **p) { lock(p); } void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomL); } void GOMP_atomic_end() { unlock(&atomL); }
bool GOMP_single_start() { bool q = quiet; quiet = true; const bool r = th[me].singles++ == singlesDone; if (r) singlesDone++; quiet = q; return r; }
typedef void *omp_l; void omp_init_lock(omp_l *) {} void omp_destroy_lock(omp_l *) {} void omp_set_lock(omp_l *p) { lock(p); } void omp_unset_lock(omp_l *p) { unlock(p); }
int omp_get_thread_num() { return region ? me : 0; } int omp_get_num_threads() { return region ? team : 1; } int omp_get_max_threads() { return threads; } int omp_get_num_procs() { return threads; } int omp_in_parallel() { return region && team > 1; } void omp_set_num_threads(int) {} void omp_set_dynamic(int) {} void omp_set_nested(int) {} double omp_get_wtime() { return 0; } int omp_get_thread_limit() { return MAXT; } int omp_get_level() { return region; }
// ---- compiler instrumentation
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); } void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); } void __tsan_vptr_read(void **p) { acc(p, 8, false); }
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void pre(const volatile void *p, int mo) { if (region && !quiet) { point(); if (mo != 0 && mo != 3) acquire((const void *)p); } }
static void post(const volatile void *p, int mo) { if (region && !quiet && mo != 0 && mo != 1 && mo != 2) release((const void *)p); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int mo) { pre(a, mo); return *a; } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { if (region && !quiet) point(); *a = v; post(a, mo); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = v; post(a, mo); return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = o + v; post(a, mo); return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = o - v; post(a, mo); return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = o & v; post(a, mo); return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = o | v; post(a, mo); return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = o ^ v; post(a, mo); return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { pre(a, mo); T o = *a; *a = ~(o & v); post(a, mo); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { pre(a, mo); T o = *a; if (o == *e) { *a = v; post(a, mo); return 1; } *e = o; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, mo, f); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int mo, int) { pre(a, mo); T o = *a; if (o == e) *a = v; post(a, mo); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// function-local statics
int __cxa_guard_acquire(uint64_t *g) { if (*(volatile char *)g) return 0; bool q = quiet; if (region) { quiet = true; while (locks[g] && locks[g] != me + 1) { th[me].waiting = g; reschedule(); } if (*(volatile char *)g) { quiet = q; return 0; } locks[g] = me + 1; quiet = q; } return 1; }
void __cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; if (region) { bool q = quiet; quiet = true; release(g); locks[g] = 0; for (int t = 0; t < team; t++) if (th[t].waiting == g) th[t].waiting = nullptr; quiet = q; } }
void __cxa_guard_abort(uint64_t *g) { if (region) locks[g] = 0; }
// mutexes
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (region && locks[m]) return 16; lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlock(m); return 0; }
// library calls that access or recycle memory
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { acc(d, n, true); return __real_memset(d, v, n); }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) clearRange(p, malloc_usable_size(p)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) clearRange(p, malloc_usable_size(p)); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p) clearRange(p, malloc_usable_size(p)); return p; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (p) clearRange(p, malloc_usable_size(p)); return p; }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) clearRange(*p, malloc_usable_size(*p)); return r; }
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
void *operator new(size_t n, std::align_val_t a) { return __wrap_aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a)); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); } void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
