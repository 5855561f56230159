// See sched.hpp.  Compiled without instrumentation; uses no templates, so that no instrumented code is reached from here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace sched;
typedef unsigned long ul;
typedef unsigned __int128 u128;

static __thread int me = 0;          // 0: not tracked
static __thread bool inside = false; // in this runtime
static Run* R = nullptr;
static int N = 0, current = 0;
static int state[MAXT + 1];          // 0 running or ready, 1 blocked, 2 finished
static uintptr_t blocked_on[MAXT + 1];
static uint32_t VC[MAXT + 1][MAXT + 1];
static char *stack_lo[MAXT + 1], *stack_hi[MAXT + 1];

static void futex_wait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1000, nullptr, nullptr, 0); }
static void finish_run() { fflush(nullptr); _exit(0); }

// ---- memory: never reused, at the same addresses in every run ----
static char* arena[MAXT + 1]; static size_t arena_at[MAXT + 1], arena_end[MAXT + 1];
static const size_t ARENA = size_t(1) << 36;
static void* take(size_t n, size_t align) {
  const int t = me;
  if (!arena[t]) {
    arena[t] = static_cast<char*>(mmap(reinterpret_cast<void*>(0x100000000000ul + t * ARENA), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
    if (arena[t] == MAP_FAILED) { if (write(2, "arena\n", 6)) {} _exit(3); }
    arena_at[t] = 4096;
  }
  if (align < 16) align = 16;
  size_t at = (arena_at[t] + 16 + align - 1) & ~(align - 1);
  if (n > ARENA / 2 || at + n > ARENA) { errno = ENOMEM; return nullptr; }
  *reinterpret_cast<size_t*>(arena[t] + at - 16) = n;
  arena_at[t] = (at + n + 15) & ~size_t(15);
  return arena[t] + at;
}
static void touch(uintptr_t a, size_t n, bool write, void* pc);
extern "C" {
void* malloc(size_t n) { return take(n, 16); }
void free(void* p) { if (p && me && !inside) touch(reinterpret_cast<uintptr_t>(p), *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16), true, __builtin_return_address(0)); }
void* calloc(size_t a, size_t b) { return b && a > ARENA / b ? nullptr : take(a * b, 16); }   // fresh pages are zero
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  const size_t o = *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16); void* q = take(n, 16);
  if (q) { char* d = static_cast<char*>(q); const char* s = static_cast<const char*>(p); for (size_t i = 0; i < (o < n ? o : n); ++i) d[i] = s[i]; }
  return q;
}
void* memalign(size_t a, size_t n) { return take(n, a); }
void* aligned_alloc(size_t a, size_t n) { return take(n, a); }
int posix_memalign(void** p, size_t a, size_t n) { *p = take(n, a); return *p ? 0 : ENOMEM; }
void* valloc(size_t n) { return take(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16) : 0; }
}

// ---- scheduler ----
static void report(bool* flag, const char* s) { if (!R->race && !R->deadlock) { *flag = true; strncpy(R->text, s, sizeof(R->text) - 1); } }
static void hand_over(int to) {
  if (to == me && state[me] != 2) return;
  __atomic_store_n(&current, to, __ATOMIC_SEQ_CST); futex_wake(&current);
  if (state[me] == 2) return;
  int c; while ((c = __atomic_load_n(&current, __ATOMIC_SEQ_CST)) != me) futex_wait(&current, c);
}
// the running thread stops here; who goes on?
static void choose() {
  Point p; p.nenabled = 0; p.current = state[me] == 0 ? me : 0;
  if (p.current) p.enabled[p.nenabled++] = me;
  for (int t = 1; t <= N; ++t) if (t != me && state[t] == 0) p.enabled[p.nenabled++] = t;
  if (!p.nenabled) {
    for (int t = 1; t <= N; ++t) if (state[t] == 1) { report(&R->deadlock, "all threads wait for each other"); finish_run(); }
    __atomic_store_n(&current, -1, __ATOMIC_SEQ_CST); futex_wake(&current); return;   // all are done
  }
  if (p.nenabled == 1) { hand_over(p.enabled[0]); return; }
  if (R->npoints >= CAP) { R->toolong = true; finish_run(); }
  int i = 0;
  if (R->npoints < R->nprefix) {
    i = R->prefix[R->npoints];
    if (i >= p.nenabled) { R->diverged = true; finish_run(); }
  }
  p.pick = i; R->point[R->npoints++] = p;
  hand_over(p.enabled[i]);
}
void sched::point() { if (!me) return; inside = true; choose(); inside = false; }

// ---- synchronisation objects ----
struct Sync { uintptr_t addr; uint32_t vc[MAXT + 1]; int users; int owner; int readers; int count; };
static Sync sync_[4096];
static Sync* obj(uintptr_t a) {
  for (size_t i = (a >> 3) & 4095, n = 0; n < 4096; i = (i + 1) & 4095, ++n) { if (sync_[i].addr == a) return &sync_[i]; if (!sync_[i].addr) { sync_[i].addr = a; return &sync_[i]; } }
  R->unsupported = true; finish_run(); return nullptr;
}
static bool is_shared(uintptr_t a) { for (int i = 0; i < R->nshared; ++i) if (R->shared[i] == a) return true; return false; }
// a synchronisation operation is about to happen
static Sync* sync_op(uintptr_t a) {
  ++R->syncs;
  if (is_shared(a)) choose();
  Sync* s = obj(a); s->users |= 1 << me;
  if ((s->users & (s->users - 1)) && !is_shared(a) && R->nshared < NSYNC) { R->shared[R->nshared++] = a; R->found_shared = true; }
  return s;
}
static void acquire(Sync* s) { for (int t = 1; t <= N; ++t) if (s->vc[t] > VC[me][t]) VC[me][t] = s->vc[t]; }
static void release(Sync* s) { for (int t = 1; t <= N; ++t) if (VC[me][t] > s->vc[t]) s->vc[t] = VC[me][t]; ++VC[me][me]; }
static void wait_on(uintptr_t a) { state[me] = 1; blocked_on[me] = a; choose(); }
static void wake_all(uintptr_t a) { for (int t = 1; t <= N; ++t) if (state[t] == 1 && blocked_on[t] == a) state[t] = 0; }
struct In { bool on; In() : on(me && !inside) { if (on) inside = true; } ~In() { if (on) inside = false; } };

static int lock(uintptr_t a, bool try_, bool shared_) {
  In in; if (!in.on) return 0;
  Sync* s = sync_op(a);
  while (s->owner || (!shared_ && s->readers)) {
    if (s->owner == me && !shared_) { ++s->count; return 0; }    // recursive, or a self-deadlock the caller would see in any run
    if (try_) return EBUSY;
    wait_on(a);
  }
  if (shared_) ++s->readers; else { s->owner = me; s->count = 1; }
  acquire(s); return 0;
}
static int unlock(uintptr_t a) {
  In in; if (!in.on) return 0;
  Sync* s = sync_op(a);
  if (s->owner == me) { if (--s->count > 0) return 0; s->owner = 0; } else if (s->readers) --s->readers;
  release(s); wake_all(a); return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), false, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), true, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return unlock(reinterpret_cast<uintptr_t>(m)); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), true, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), false, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return unlock(reinterpret_cast<uintptr_t>(m)); }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { return lock(reinterpret_cast<uintptr_t>(m), false, false); }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { return unlock(reinterpret_cast<uintptr_t>(m)); }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { if (me) { R->unsupported = true; finish_run(); } return 0; }
int sched_yield() noexcept { if (me && !inside) { In in; choose(); } return 0; }

int pthread_once(pthread_once_t* once, void (*f)()) {
  int* st = reinterpret_cast<int*>(once);
  if (!me || inside) { if (*st != 2) { f(); *st = 2; } return 0; }
  const uintptr_t a = reinterpret_cast<uintptr_t>(once);
  {
    In in;
    if (*st == 2) { acquire(obj(a)); return 0; }     // done for good: nothing can change that
    Sync* s = sync_op(a);
    while (s->owner) wait_on(a);
    acquire(s);
    if (*st == 2) return 0;
    s->owner = me;
  }
  try { f(); } catch (...) { In in; Sync* s = obj(a); s->owner = 0; release(s); wake_all(a); throw; }
  In in; Sync* s = obj(a); *st = 2; s->owner = 0; release(s); wake_all(a); return 0;
}
// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  if (!me || inside) return !*done;
  In in; const uintptr_t a = reinterpret_cast<uintptr_t>(g);
  if (*done) { acquire(obj(a)); return 0; }
  Sync* s = sync_op(a);
  while (s->owner && s->owner != me) wait_on(a);
  acquire(s);
  if (*done) return 0;
  s->owner = me; return 1;
}
void __cxa_guard_release(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g); *done = 1;
  if (!me || inside) return;
  In in; const uintptr_t a = reinterpret_cast<uintptr_t>(g); Sync* s = obj(a); s->owner = 0; release(s); wake_all(a);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!me || inside) return;
  In in; const uintptr_t a = reinterpret_cast<uintptr_t>(g); Sync* s = obj(a); s->owner = 0; release(s); wake_all(a);
}
}

// ---- races ----
struct Cell { uint32_t w; uint8_t wt, wmask, rmask[MAXT + 1]; uint32_t r[MAXT + 1]; };   // of 8 bytes, the masks say which
struct Page { uintptr_t number; Cell* cells; };
static const size_t NPAGES = 1 << 16;
static Page* pages = nullptr; static Cell* const SKIP = reinterpret_cast<Cell*>(1);
struct Map { uintptr_t lo, hi; };
static Map ro[4096]; static int nro = 0;
static void read_maps() {
  const int fd = open("/proc/self/maps", O_RDONLY); static char b[1 << 20]; size_t n = 0; ssize_t k;
  while (n < sizeof b - 1 && (k = read(fd, b + n, sizeof b - 1 - n)) > 0) n += k;
  close(fd); b[n] = 0;
  for (char* p = b; *p;) { ul lo, hi; char perm[8]; if (sscanf(p, "%lx-%lx %7s", &lo, &hi, perm) == 3 && perm[1] != 'w' && nro < 4096) ro[nro++] = {lo, hi}; char* e = strchr(p, '\n'); if (!e) break; p = e + 1; }
}
static Cell* cells_of(uintptr_t page) {
  size_t i = (page * 0x9E3779B97F4A7C15ul) >> 48, n = 0;
  for (; n < NPAGES; i = (i + 1) & (NPAGES - 1), ++n) {
    if (pages[i].number == page) return pages[i].cells;
    if (!pages[i].number) break;
  }
  if (n == NPAGES) { R->unsupported = true; finish_run(); }
  Cell* c = nullptr;
  for (int k = 0; k < nro; ++k) if (ro[k].lo <= (page << 12) && (page << 12) < ro[k].hi) c = SKIP;
  if (!c) c = static_cast<Cell*>(mmap(nullptr, 512 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (c == MAP_FAILED) { R->unsupported = true; finish_run(); }
  pages[i] = {page, c}; return c;
}
static void race(uintptr_t a, bool wr, int other, bool other_wr, void* pc) {
  Dl_info v, f; char name[300] = "memory", where[300] = "?";
  if (dladdr(reinterpret_cast<void*>(a), &v) && v.dli_sname) snprintf(name, sizeof name, "%s", v.dli_sname);
  if (dladdr(pc, &f) && f.dli_sname) snprintf(where, sizeof where, "%s", f.dli_sname);
  char s[1000]; snprintf(s, sizeof s, "data race: %s by thread %d in %s, %s by thread %d, unordered, at %s (0x%lx)", wr ? "write" : "read", me, where, other_wr ? "write" : "read", other, name, ul(a));
  report(&R->race, s);
}
static void touch(uintptr_t a, size_t n, bool wr, void* pc) {
  if (!me || inside || !n || R->race) return;
  if (a >= reinterpret_cast<uintptr_t>(stack_lo[me]) && a < reinterpret_cast<uintptr_t>(stack_hi[me])) return;
  inside = true;
  ++R->accesses; R->bytes += n;
  const int t = me;
  while (n) {
    Cell* c = cells_of(a >> 12); size_t in_page = 4096 - (a & 4095); if (in_page > n) in_page = n;
    if (c != SKIP) {
      c += (a & 4095) >> 3;
      for (uintptr_t x = a, e = a + in_page; x < e; x = (x & ~uintptr_t(7)) + 8, ++c) {
        const unsigned lo = x & 7, hi = (x & ~uintptr_t(7)) + 8 <= e ? 8 : e & 7, mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
        if (c->w && c->wt != t && (c->wmask & mask) && c->w > VC[t][c->wt]) { race(x, wr, c->wt, true, pc); inside = false; return; }
        if (wr) {
          for (int u = 1; u <= N; ++u) if (u != t && (c->rmask[u] & mask) && c->r[u] > VC[t][u]) { race(x, true, u, false, pc); inside = false; return; }
          c->wmask = c->wt == t && c->w == VC[t][t] ? c->wmask | mask : mask; c->w = VC[t][t]; c->wt = t;
        } else { c->rmask[t] = c->r[t] == VC[t][t] ? c->rmask[t] | mask : mask; c->r[t] = VC[t][t]; }
      }
    }
    a += in_page; n -= in_page;
  }
  inside = false;
}
#define PC __builtin_return_address(0)
#define RW(n) \
  void __tsan_read##n(void* p) { touch(reinterpret_cast<uintptr_t>(p), n, false, PC); } \
  void __tsan_write##n(void* p) { touch(reinterpret_cast<uintptr_t>(p), n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { touch(reinterpret_cast<uintptr_t>(p), n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { touch(reinterpret_cast<uintptr_t>(p), n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { touch(reinterpret_cast<uintptr_t>(p), n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { touch(reinterpret_cast<uintptr_t>(p), n, true, PC); }
extern "C" {
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, ul n) { touch(reinterpret_cast<uintptr_t>(p), n, false, PC); }
void __tsan_write_range(void* p, ul n) { touch(reinterpret_cast<uintptr_t>(p), n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch(reinterpret_cast<uintptr_t>(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { touch(reinterpret_cast<uintptr_t>(p), 8, false, PC); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch(reinterpret_cast<uintptr_t>(s), n, false, PC); touch(reinterpret_cast<uintptr_t>(d), n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch(reinterpret_cast<uintptr_t>(s), n, false, PC); touch(reinterpret_cast<uintptr_t>(d), n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch(reinterpret_cast<uintptr_t>(d), n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { touch(reinterpret_cast<uintptr_t>(a), n, false, PC); touch(reinterpret_cast<uintptr_t>(b), n, false, PC); return __real_memcmp(a, b, n); }
}
// atomic operations: one at a time, in the order of the schedule
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
struct At { bool on; Sync* s; int mo; At(const volatile void* p, int m) : on(me && !inside), s(nullptr), mo(m) { if (on) { inside = true; s = sync_op(reinterpret_cast<uintptr_t>(p)); if (acq(m)) acquire(s); } }
  ~At() { if (on) { if (rel(mo)) release(s); inside = false; } } };
#define ATOM(n, T) \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { At a(p, mo); return *p; } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { At a(p, mo == __ATOMIC_SEQ_CST ? __ATOMIC_RELEASE : mo); *p = v; } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int mo) { At a(p, mo); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { At a(p, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { At a(p, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { At a(p, mo); T o = *p; if (o == e) *p = v; return o; }
extern "C" {
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, ul) ATOM(128, u128)
void __tsan_atomic_thread_fence(int mo) { if (!me || inside) return; static char fence; At a(&fence, mo); }
void __tsan_atomic_signal_fence(int) {}
}

// ---- a run ----
struct Start { int tid; void (*body)(int, void*); void* arg; };
static void* thread_main(void* p) {
  Start s = *static_cast<Start*>(p);
  int c; while ((c = __atomic_load_n(&current, __ATOMIC_SEQ_CST)) != s.tid) futex_wait(&current, c);
  me = s.tid;
  s.body(s.tid, s.arg);
  inside = true; state[s.tid] = 2; choose(); me = 0; inside = false;
  return nullptr;
}
void sched::run(Run* r, int n, void (*body)(int, void*), void* arg) {
  R = r; N = n; R->npoints = 0; R->found_shared = R->complete = R->race = R->deadlock = R->toolong = R->unsupported = R->diverged = false;
  pages = static_cast<Page*>(mmap(nullptr, NPAGES * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (int t = 1; t <= n; ++t) { state[t] = 0; for (int u = 1; u <= n; ++u) VC[t][u] = t == u; }
  static Start st[MAXT + 1]; pthread_t th[MAXT + 1];
  current = 0;
  for (int t = 1; t <= n; ++t) { st[t] = {t, body, arg}; me = t; take(0, 16); me = 0; 
    const size_t SZ = size_t(16) << 20; pthread_attr_t at; pthread_attr_init(&at);
    stack_lo[t] = static_cast<char*>(mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); stack_hi[t] = stack_lo[t] + SZ;
    pthread_attr_setstack(&at, stack_lo[t], SZ);
    if (pthread_create(&th[t], &at, thread_main, &st[t])) { R->unsupported = true; finish_run(); } }
  read_maps();
  // who goes first is a choice, too
  int first = 1;
  if (n > 1) { Point p; p.current = 0; p.nenabled = n; for (int t = 1; t <= n; ++t) p.enabled[t - 1] = t; p.pick = R->nprefix ? R->prefix[0] : 0; first = p.enabled[p.pick]; R->point[R->npoints++] = p; }
  __atomic_store_n(&current, first, __ATOMIC_SEQ_CST); futex_wake(&current);
  int c; while ((c = __atomic_load_n(&current, __ATOMIC_SEQ_CST)) != -1) futex_wait(&current, c);
  R->complete = true;
}
