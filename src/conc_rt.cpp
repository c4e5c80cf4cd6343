// Runtime for code compiled with -fsanitize=thread instrumentation (compile step only; the sanitizer's own runtime is not linked).
// Each instrumented access of a scheduled thread arrives here.  Accesses to the thread's own stack, thread-local storage (carved out
// of the same mapping) and to heap blocks it allocated itself are private; everything else is shared memory and a potential scheduling
// point.  Exactly one of the two threads runs at any time (baton passing), so an execution is a pure function of the schedule.
#include "conc_rt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

namespace
{
const size_t STK = 8u << 20;
struct Blk { uintptr_t p; size_t n; };
struct Thr
{
  char *stk = nullptr;
  sem_t sem;
  bool done = true, blocked = false;
  void (*f)(void *) = nullptr;
  void *arg = nullptr;
  Blk *blk = nullptr;
  size_t nb = 0, cb = 0;
};
Thr T[2];
RtConfig cfg;
RtResult *res;
volatile bool active = false;
int running = 0;
__thread int self = -1;
__thread volatile bool inside = false;  // volatile: the compiler may not drop the stores around its own memmove

// hash set of logged granules per thread
struct Log { uintptr_t *key; int *val; size_t cap; } L[2];

void add_blk(Thr &t, void *p, size_t n)
{
  if (t.nb == t.cb) { t.cb = t.cb ? 2 * t.cb : 256; t.blk = (Blk *)realloc(t.blk, t.cb * sizeof(Blk)); }
  size_t i = t.nb++;
  while (i > 0 && t.blk[i - 1].p > (uintptr_t)p) { t.blk[i] = t.blk[i - 1]; --i; }
  t.blk[i] = { (uintptr_t)p, n };
}
long find_blk(Thr &t, uintptr_t a)
{
  size_t lo = 0, hi = t.nb;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (t.blk[m].p <= a) lo = m + 1; else hi = m; }
  if (lo == 0) return -1;
  return a < t.blk[lo - 1].p + t.blk[lo - 1].n ? (long)lo - 1 : -1;
}
void hand_over(int to)
{
  running = to;
  sem_post(&T[to].sem);
  int me = self;
  while (sem_wait(&T[me].sem) && errno == EINTR) {}
}
void log_access(uintptr_t g, int fl)
{
  Log &l = L[self];
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 40;
  for (size_t i = h % l.cap;; i = (i + 1) % l.cap)
  {
    if (l.key[i] == g) { if ((l.val[i] | fl) != l.val[i]) { l.val[i] |= fl; cfg.log[self][l.val[i] >> 8].flags |= fl; } return; }
    if (!l.key[i])
    {
      if (res->nlog[self] >= cfg.cap) return;
      l.key[i] = g;
      l.val[i] = fl | (int)(res->nlog[self] << 8);
      cfg.log[self][res->nlog[self]++] = { g, fl };
      return;
    }
  }
}
bool is_point(uintptr_t g)
{
  if (cfg.all_points) return true;
  size_t lo = 0, hi = cfg.npoints;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (cfg.points[m] < g) lo = m + 1; else hi = m; }
  return lo < cfg.npoints && cfg.points[lo] == g;
}
inline void access(uintptr_t a, size_t n, int fl)
{
  if (self < 0 || !active || inside) return;
  Thr &t = T[self];
  if (a >= (uintptr_t)t.stk && a < (uintptr_t)t.stk + STK) return;
  if (t.nb && find_blk(t, a) >= 0) return;
  inside = true;
  res->naccess[self]++;
  if (fl & 2)
  {
    if (cfg.wseen && (size_t)res->nwrites[self] < cfg.wcap) cfg.wseen[res->nwrites[self]] = a;
    res->nwrites[self]++;
  }
  bool pt = false;
  for (uintptr_t g = a & ~7ull; g < a + (n ? n : 1); g += 8)
  {
    if (cfg.record) log_access(g, fl);
    if (!pt && is_point(g)) pt = true;
  }
  if (pt)
  {
    long i = res->npoints++;
    if ((i == cfg.preempt[0] || i == cfg.preempt[1] || i == cfg.preempt[2]) && !T[1 - self].done) hand_over(1 - self);
  }
  inside = false;
}
// the running thread cannot continue (lock held by the other one)
void yield_blocked()
{
  static int spins;
  if (self < 0 || !active) { usleep(100); return; }
  if (T[1 - self].done || ++spins > 100000)
  {
    if (T[1 - self].done && ++spins < 1000) return;
    res->blocked = true;
    _exit(77);
  }
  hand_over(1 - self);
}
void *body(void *p)
{
  int me = (int)(intptr_t)p;
  while (sem_wait(&T[me].sem) && errno == EINTR) {}
  self = me;
  T[me].f(T[me].arg);
  self = -1;
  T[me].done = true;
  if (!T[1 - me].done) { running = 1 - me; sem_post(&T[1 - me].sem); }
  return nullptr;
}
}  // namespace

void rt_run(const RtConfig &c, void (*f0)(void *), void *a0, void (*f1)(void *), void *a1, RtResult &r)
{
  cfg = c;
  res = &r;
  void (*f[2])(void *) = { f0, f1 };
  void *a[2] = { a0, a1 };
  pthread_t th[2];
  for (int i = 0; i < 2; ++i)
  {
    sem_init(&T[i].sem, 0, 0);
    T[i].nb = 0;
    T[i].f = f[i];
    T[i].arg = a[i];
    T[i].done = !f[i];
    if (cfg.record)
    {
      L[i].cap = 1 << 16;
      L[i].key = (uintptr_t *)calloc(L[i].cap, sizeof(uintptr_t));
      L[i].val = (int *)calloc(L[i].cap, sizeof(int));
    }
  }
  active = true;
  for (int i = 0; i < 2; ++i)
    if (f[i])
    {
      if (!T[i].stk) T[i].stk = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, T[i].stk, STK);
      if (pthread_create(&th[i], &at, body, (void *)(intptr_t)i)) _exit(76);
      pthread_attr_destroy(&at);
    }
  int first = f[1] ? cfg.first : 0;
  running = first;
  sem_post(&T[first].sem);
  for (int i = 0; i < 2; ++i) if (f[i]) pthread_join(th[i], nullptr);
  active = false;
}

// ------------------------------------------------------------------------------------------------ allocation
static void *rt_alloc(size_t n, size_t al)
{
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) abort();
  if (self >= 0 && active && !inside) { inside = true; add_blk(T[self], p, n); inside = false; }
  return p;
}
static void rt_free(void *p)
{
  if (!p) return;
  if (self >= 0 && active && !inside)
  {
    Thr &t = T[self];
    long i = find_blk(t, (uintptr_t)p);
    if (i >= 0 && t.blk[i].p == (uintptr_t)p)
    {
      inside = true;
      memmove(t.blk + i, t.blk + i + 1, (t.nb - i - 1) * sizeof(Blk));
      --t.nb;
      inside = false;
    }
    else return;  // freed by another thread than its owner: keep the memory, so that no address is reused within an execution
  }
  free(p);
}
void *operator new(size_t n) { return rt_alloc(n, 0); }
void *operator new[](size_t n) { return rt_alloc(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return rt_alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return rt_alloc(n, (size_t)a); }
void operator delete(void *p) noexcept { rt_free(p); }
void operator delete[](void *p) noexcept { rt_free(p); }
void operator delete(void *p, size_t) noexcept { rt_free(p); }
void operator delete[](void *p, size_t) noexcept { rt_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { rt_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { rt_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { rt_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { rt_free(p); }

// ------------------------------------------------------------------------------------------------ instrumentation entry points
#define A(p) ((uintptr_t)(p))
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { access(A(p), n, 1); } \
  void __tsan_write##n(void *p) { access(A(p), n, 2); } \
  void __tsan_unaligned_read##n(void *p) { access(A(p), n, 1); } \
  void __tsan_unaligned_write##n(void *p) { access(A(p), n, 2); } \
  void __tsan_volatile_read##n(void *p) { access(A(p), n, 1); } \
  void __tsan_volatile_write##n(void *p) { access(A(p), n, 2); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(A(p), n, 1); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(A(p), n, 2); } \
  void __tsan_read_write##n(void *p) { access(A(p), n, 3); } \
  void __tsan_unaligned_read_write##n(void *p) { access(A(p), n, 3); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(A(p), n, 1); }
void __tsan_write_range(void *p, size_t n) { access(A(p), n, 2); }
void __tsan_vptr_update(void **p, void *) { access(A(p), 8, 2); }
void __tsan_vptr_read(void **p) { access(A(p), 8, 1); }

#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int) { access(A(p), sizeof(ty), 1); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 2); __atomic_store_n(p, v, 5); } \
  ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 3); return __atomic_exchange_n(p, v, 5); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 3); return __atomic_fetch_add(p, v, 5); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 3); return __atomic_fetch_sub(p, v, 5); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 3); return __atomic_fetch_and(p, v, 5); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 3); return __atomic_fetch_or(p, v, 5); } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int) { access(A(p), sizeof(ty), 3); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int, int) { access(A(p), sizeof(ty), 3); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int, int) { access(A(p), sizeof(ty), 3); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// block copies are not instrumented by the compiler
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(A(s), n, 1); access(A(d), n, 2); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(A(s), n, 1); access(A(d), n, 2); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(A(d), n, 2); return __real_memset(d, c, n); }

// locks: never block while holding the baton
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { while (pthread_mutex_trylock(m) == EBUSY) yield_blocked(); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { while (pthread_rwlock_tryrdlock(m) == EBUSY) yield_blocked(); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { while (pthread_rwlock_trywrlock(m) == EBUSY) yield_blocked(); return 0; }
int __wrap___cxa_guard_acquire(char *g)
{
  for (;;)
  {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    if (!g[1]) { g[1] = 1; return 1; }
    yield_blocked();
  }
}
void __wrap___cxa_guard_release(char *g) { g[1] = 0; __atomic_store_n(g, 1, __ATOMIC_RELEASE); }
void __wrap___cxa_guard_abort(char *g) { g[1] = 0; }
}
