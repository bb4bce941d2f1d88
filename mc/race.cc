#include "race.hh"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
}

namespace race {

int team = 1;
long regions = 0, switches = 0;

namespace {

const int MAXT = 16;
const size_t STACK = 1 << 18;
const size_t SLOTS = 1 << 20;

enum { READY, WAITING, DONE };          // waiting for a barrier or a lock

struct Thread {
  ucontext_t ctx;
  char *stack = nullptr;
  int state = DONE;
  const void *want = nullptr;           // lock waited for
  uint64_t locks = 0;                   // bit set of held locks
  long lo = 0, hi = 0;
};

Thread th[MAXT];
int size_ = 0, cur = 0;
bool active = false, busy = false;
ucontext_t back;
void (*body)(void *);
void *arg;
char message[400];
bool bad = false;
int at_barrier = 0;

struct Shadow { uintptr_t addr; uint32_t epoch; uint16_t readers, writers; uint64_t locks; };
Shadow *shadow = nullptr;
uint32_t epoch = 1;

const void *lock_name[64]; int lock_owner[64]; int nlocks = 0;

struct Loop { bool on = false; bool ull = false; uint64_t next = 0, end = 0; int64_t inc = 1; uint64_t chunk = 1; int left = 0; int serial = 0; } loop;
int loop_serial[MAXT];
bool single_taken[64]; int single_serial[MAXT];

void *deferred[1 << 16]; int ndeferred = 0;

void entry() {
  body(arg);
  th[cur].state = DONE;
  swapcontext(&th[cur].ctx, &back);
}

// back to the scheduler
void leave() { switches++; swapcontext(&th[cur].ctx, &back); }

int lock_index(const void *p) {
  for (int i = 0; i < nlocks; i++) if (lock_name[i] == p) return i;
  if (nlocks == 64) { report("too many locks"); return 0; }
  lock_name[nlocks] = p; lock_owner[nlocks] = -1;
  return nlocks++;
}

} // namespace

bool in_region() { return active; }
int self() { return active ? cur : 0; }
const char *error() { return bad ? message : nullptr; }
void reset() { bad = false; message[0] = 0; }
void report(const char *m) { if (!bad) { bad = true; snprintf(message, sizeof message, "%s", m); } }

Quiet::Quiet(): old(busy) { busy = true; }
Quiet::~Quiet() { busy = old; }

void yield() {
  if (!active || busy) return;
  leave();
}

void acquire(const void *p) {
  if (!active) return;
  yield();
  int i = lock_index(p);
  while (lock_owner[i] >= 0) { th[cur].state = WAITING; th[cur].want = p; leave(); }
  lock_owner[i] = cur; th[cur].locks |= uint64_t(1) << i;
}
void release(const void *p) {
  if (!active) return;
  int i = lock_index(p);
  lock_owner[i] = -1; th[cur].locks &= ~(uint64_t(1) << i);
  for (int t = 0; t < size_; t++) if (th[t].state == WAITING && th[t].want == p) { th[t].state = READY; th[t].want = nullptr; }
  yield();
}
void barrier() {
  if (!active) return;
  th[cur].state = WAITING; th[cur].want = nullptr;
  at_barrier++;
  leave();
}

void run(void (*fn)(void *), void *data, int n) {
  if (active) { // nested region: the thread alone
    int s = size_, c = cur; (void)s; (void)c;
    fn(data);
    return;
  }
  if (n <= 0) n = team;
  if (n > MAXT) n = MAXT;
  if (!shadow) shadow = (Shadow *)calloc(SLOTS, sizeof(Shadow));
  epoch++; regions++;
  body = fn; arg = data; size_ = n; nlocks = 0; at_barrier = 0; loop.on = false; ndeferred = 0;
  __real_memset(single_taken, 0, sizeof single_taken); __real_memset(loop_serial, 0, sizeof loop_serial); __real_memset(single_serial, 0, sizeof single_serial);
  loop.serial = 0;
  for (int t = 0; t < n; t++) {
    if (!th[t].stack) th[t].stack = (char *)malloc(STACK);
    getcontext(&th[t].ctx);
    th[t].ctx.uc_stack.ss_sp = th[t].stack; th[t].ctx.uc_stack.ss_size = STACK; th[t].ctx.uc_link = nullptr;
    th[t].state = READY; th[t].locks = 0; th[t].want = nullptr;
    makecontext(&th[t].ctx, entry, 0);
  }
  cur = -1;
  for (;;) {
    int ready[MAXT], k = 0, alive = 0;
    // the current thread first: a departure from the default answer is a preemption
    if (cur >= 0 && th[cur].state == READY) ready[k++] = cur;
    for (int t = 0; t < n; t++) {
      if (th[t].state != DONE) alive++;
      if (th[t].state == READY && t != cur) ready[k++] = t;
    }
    if (!alive) break;
    if (!k) {
      if (at_barrier == alive && alive == n) {
        for (int t = 0; t < n; t++) th[t].state = READY;
        at_barrier = 0; epoch++; cur = -1;
        continue;
      }
      report("deadlock in a parallel region");
      fprintf(stderr, "deadlock in a parallel region\n");
      abort();
    }
    int c = k == 1 ? 0 : int(vp::choose_schedule(unsigned(k)));
    cur = ready[c];
    active = true;
    swapcontext(&back, &th[cur].ctx);
    active = false;
  }
  size_ = 0; cur = 0;
  for (int i = 0; i < ndeferred; i++) free(deferred[i]);
  ndeferred = 0;
}

void access(const void *p, size_t n, bool write) {
  if (!active || busy) return;
  uintptr_t a = uintptr_t(p);
  // the stack of a thread is its own
  Thread& me = th[cur];
  if (a >= uintptr_t(me.stack) && a < uintptr_t(me.stack) + STACK) return;
  busy = true;
  for (size_t i = 0; i < n; i++) {
    uintptr_t b = a + i;
    size_t h = size_t((b * 0x9e3779b97f4a7c15ull) >> 44) & (SLOTS - 1);
    while (shadow[h].epoch == epoch && shadow[h].addr != b) h = (h + 1) & (SLOTS - 1);
    Shadow& s = shadow[h];
    if (s.epoch != epoch) { s.addr = b; s.epoch = epoch; s.readers = s.writers = 0; s.locks = ~uint64_t(0); }
    s.locks &= me.locks;
    uint16_t bit = uint16_t(1u << cur), others = uint16_t(~bit);
    if (!s.locks && ((s.writers & others) || (write && (s.readers & others)))) {
      if (!bad) { bad = true; snprintf(message, sizeof message, "data race: threads %d and another one access the same memory, one of them writing (%s of %zu bytes)", cur, write ? "write" : "read", n); }
      break;
    }
    if (write) s.writers |= bit; else s.readers |= bit;
  }
  busy = false;
}

void *alloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void dealloc(void *p) {
  if (p && active && ndeferred < (1 << 16)) { deferred[ndeferred++] = p; return; }
  free(p);
}

// work sharing: one loop at a time per team
bool loop_start(bool ull, uint64_t a, uint64_t b, int64_t inc, uint64_t chunk, uint64_t *lo, uint64_t *hi);
bool loop_next(uint64_t *lo, uint64_t *hi) {
  yield();
  uint64_t next = loop.next, end = loop.end;
  if (loop.inc > 0 ? (loop.ull ? next >= end : int64_t(next) >= int64_t(end)) : (loop.ull ? next <= end : int64_t(next) <= int64_t(end))) return false;
  uint64_t n = next + uint64_t(loop.inc) * loop.chunk;
  if (loop.inc > 0 ? (loop.ull ? n > end : int64_t(n) > int64_t(end)) : (loop.ull ? n < end : int64_t(n) < int64_t(end))) n = end;
  *lo = next; *hi = n; loop.next = n;
  return true;
}
bool loop_start(bool ull, uint64_t a, uint64_t b, int64_t inc, uint64_t chunk, uint64_t *lo, uint64_t *hi) {
  int s = ++loop_serial[cur];
  if (s > loop.serial) { loop.serial = s; loop.ull = ull; loop.next = a; loop.end = b; loop.inc = inc; loop.chunk = chunk ? chunk : 1; }
  return loop_next(lo, hi);
}
void loop_init(bool ull, uint64_t a, uint64_t b, int64_t inc, uint64_t chunk) {
  loop.serial = 0; loop.ull = ull; loop.next = a; loop.end = b; loop.inc = inc; loop.chunk = chunk ? chunk : 1;
}

} // namespace race

using namespace race;

void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }

static char atomic_lock, critical_lock;

extern "C" {

int omp_get_thread_num() { return self(); }
int omp_get_num_threads() { return race::active ? race::size_ : 1; }
int omp_get_max_threads() { return team; }
int omp_in_parallel() { return race::active && race::size_ > 1; }
void omp_set_num_threads(int n) { team = n; }
int omp_get_num_procs() { return 8; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run(fn, data, int(n)); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { acquire(&critical_lock); }
void GOMP_critical_end() { release(&critical_lock); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start() { acquire(&atomic_lock); }
void GOMP_atomic_end() { release(&atomic_lock); }
bool GOMP_single_start() {
  yield();
  if (!race::active) return true;
  int s = single_serial[race::cur]++;
  if (s >= 64 || single_taken[s]) return false;
  return single_taken[s] = true;
}

#define PLOOP(KIND) \
void GOMP_parallel_loop_##KIND(void (*fn)(void *), void *data, unsigned n, long a, long b, long inc, long chunk, unsigned) { \
  loop_init(false, uint64_t(a), uint64_t(b), inc, uint64_t(chunk)); run_loop(fn, data, int(n)); } \
bool GOMP_loop_##KIND##_start(long a, long b, long inc, long chunk, long *lo, long *hi) { return loop_start(false, uint64_t(a), uint64_t(b), inc, uint64_t(chunk), (uint64_t *)lo, (uint64_t *)hi); } \
bool GOMP_loop_##KIND##_next(long *lo, long *hi) { return loop_next((uint64_t *)lo, (uint64_t *)hi); } \
bool GOMP_loop_ull_##KIND##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long chunk, unsigned long long *lo, unsigned long long *hi) { return loop_start(true, a, b, int64_t(inc), chunk, (uint64_t *)lo, (uint64_t *)hi); } \
bool GOMP_loop_ull_##KIND##_next(unsigned long long *lo, unsigned long long *hi) { return loop_next((uint64_t *)lo, (uint64_t *)hi); }
#define RLOOP(KIND) \
void GOMP_parallel_loop_##KIND(void (*fn)(void *), void *data, unsigned n, long a, long b, long inc, unsigned) { \
  loop_init(false, uint64_t(a), uint64_t(b), inc, 1); run_loop(fn, data, int(n)); } \
bool GOMP_loop_##KIND##_start(long a, long b, long inc, long *lo, long *hi) { return loop_start(false, uint64_t(a), uint64_t(b), inc, 1, (uint64_t *)lo, (uint64_t *)hi); } \
bool GOMP_loop_##KIND##_next(long *lo, long *hi) { return loop_next((uint64_t *)lo, (uint64_t *)hi); } \
bool GOMP_loop_ull_##KIND##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long *lo, unsigned long long *hi) { return loop_start(true, a, b, int64_t(inc), 1, (uint64_t *)lo, (uint64_t *)hi); } \
bool GOMP_loop_ull_##KIND##_next(unsigned long long *lo, unsigned long long *hi) { return loop_next((uint64_t *)lo, (uint64_t *)hi); }

static void run_loop(void (*fn)(void *), void *data, int n) {
  // a combined construct: the loop is set up before the threads start
  race::run(fn, data, n);
}
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}

void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void *p) { access(p, N, false); } \
void __tsan_write##N(void *p) { access(p, N, true); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, false); } \
void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
void __tsan_volatile_read##N(void *p) { access(p, N, false); } \
void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, sizeof(void *), true); }
void __tsan_vptr_read(void **p) { access(p, sizeof(void *), false); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int) { yield(); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { yield(); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { yield(); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { yield(); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { yield(); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { yield(); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { yield(); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { yield(); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { yield(); T o = *p; *p = ~(o & v); return o; } \
bool __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { yield(); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
bool __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { yield(); if (*p == *e) { *p = v; return true; } *e = *p; return false; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

}
