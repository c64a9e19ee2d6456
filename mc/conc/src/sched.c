// A controlled scheduler for real threads. Exactly one managed thread runs at a time; it hands
// the token over only at points the exploration chooses, or when it blocks, yields or ends.
// The instrumented crates call in here for every memory access and atomic operation (the
// interface of ThreadSanitizer's instrumentation); blocking goes through the C library calls
// interposed below.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define NT 512
enum { FREE, READY, YIELDED, FUTEX, JOIN, GONE };
struct th {
  int state;
  volatile uint32_t *faddr; // what it waits for
  int jtid;
  bool timed, timed_out, detached;
  _Atomic uint32_t go;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  uint64_t wseq;
  char *slo, *shi; // its stack
};
static struct th T[NT];
static int nth = 0;
static int cur = 0;
static uint64_t wseq = 0;
static __thread int self __attribute__((tls_model("initial-exec"))) = -1;
static pthread_key_t key;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void __attribute__((noreturn)) die(int code, const char *why) {
  char b[256];
  int n = snprintf(b, sizeof b, "\nSTOP %s\n", why);
  raw(SYS_write, 1, (long)b, n, 0, 0, 0);
  for (;;) raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
}

// ---- the run being explored
// what a forked run tells the process that made it
#define MAXPEND 65536
static struct { uint64_t npoints, ndivert, nraces; uint32_t npend; uint32_t pend[MAXPEND]; } *shared;
static bool active = false;    // between sched_begin and sched_end
#define MAXDEV 8
static struct { uint64_t at; int to; } dev[MAXDEV];
static int ndev, nextdev;
#define MAXREC (1u << 20)
static uint64_t *rec;          // at each decision: mask of the other threads that could go on
static uint8_t *rec_cur, *rec_kind;
static uint32_t *rec_pc;
static uint64_t yields_in_a_row;
static uint64_t limit_yields = 300000;

static uint64_t enabled_mask(void) {
  uint64_t m = 0;
  for (int i = 0; i < nth && i < 64; i++)
    if (T[i].state == READY) m |= 1ull << i;
  return m;
}

static void wait_turn(int me) {
  while (!atomic_load(&T[me].go)) raw(SYS_futex, (long)&T[me].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  atomic_store(&T[me].go, 0);
}
static void hand(int to) {
  cur = to;
  atomic_store(&T[to].go, 1);
  raw(SYS_futex, (long)&T[to].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
// gives the token to `to` and comes back when it is this thread's turn again
static void go_to(int to) {
  int me = self;
  if (to == me) return;
  hand(to);
  wait_turn(me);
}

// the next thread when this one cannot go on; -1: none
static int next_ready(int from) {
  for (int k = 1; k <= nth; k++) {
    int i = (from + k) % nth;
    if (T[i].state == READY) return i;
  }
  return -1;
}
static int choose(int kind, uint32_t pc, int deflt) {
  uint64_t n = shared->npoints++;
  if (n < MAXREC) {
    rec[n] = enabled_mask() & ~(1ull << deflt);
    rec_cur[n] = deflt;
    rec_kind[n] = kind;
    rec_pc[n] = pc;
  }
  if (nextdev < ndev && dev[nextdev].at == n) {
    int to = dev[nextdev].to;
    nextdev++;
    if (to < nth && T[to].state == READY && to != deflt) {
      shared->ndivert++;
      return to;
    }
  }
  return deflt;
}

// this thread (state already set) cannot go on now
static void leave(int kind) {
  int me = self;
  for (;;) {
    int d = next_ready(me);
    if (d < 0) {
      // nobody else: those that yielded go on, in turn
      for (int k = 1; k <= nth; k++) {
        int i = (me + k) % nth;
        if (T[i].state == YIELDED) {
          T[i].state = READY;
          d = i;
          break;
        }
      }
    }
    if (d < 0) {
      // time passes: the first timed wait ends
      for (int i = 0; i < nth; i++)
        if (T[i].state == FUTEX && T[i].timed) {
          T[i].state = READY;
          T[i].timed_out = true;
          d = i;
          break;
        }
    }
    if (d < 0) die(66, "deadlock: every thread waits");
    if (active) d = choose(kind, 0, d);
    if (d == me) return;
    // a thread that ends does not look at its slot again: it may be in use by a new one
    bool over = T[me].state == GONE || T[me].state == FREE;
    hand(d);
    if (!over) wait_turn(me);
    return;
  }
}

static void progress(void) { yields_in_a_row = 0; }

static void yield_(void) {
  int me = self;
  if (++yields_in_a_row > limit_yields) die(67, "livelock: all threads only yield");
  // somebody who has not yielded goes first
  T[me].state = YIELDED;
  int d = next_ready(me);
  if (d < 0) {
    for (int k = 1; k <= nth; k++) {
      int i = (me + k) % nth;
      if (i != me && T[i].state == YIELDED) {
        d = i;
        break;
      }
    }
    if (d < 0) {
      // alone; a timed wait may end meanwhile
      for (int i = 0; i < nth; i++)
        if (T[i].state == FUTEX && T[i].timed) {
          T[i].state = READY;
          T[i].timed_out = true;
        }
      T[me].state = READY;
      return;
    }
    T[d].state = READY;
  }
  hand(d);
  wait_turn(me);
  T[me].state = READY;
}

static void point(int kind, uint32_t pc) {
  progress();
  int me = self;
  int to = choose(kind, pc, me);
  if (to != me) {
    go_to(to);
  }
}

// ---- who touches what
// An access becomes a point when its place in the program is known to race: plain accesses that
// no synchronisation orders, and atomic accesses to a location that another thread writes (or
// that this one writes and another reads). All other accesses commute with what other threads
// do between two points. Order is tracked with vector clocks.
#define NV 24
typedef uint32_t vc[NV];
struct cell {
  uint32_t wpc, wclk;
  uint32_t rpc[2], rclk[2];
  uint32_t apc; // last atomic access
  uint32_t sync; // its clock
  uint16_t gen;
  uint8_t wt, rt[2]; // thread+1
  uint8_t at, aw, apc_other;
};
#define SHBITS 40
static struct cell *shadow;
static uint16_t gen = 1;
static uint64_t *marked, *pending; // bit per byte of text
static uint64_t text_size;
static uint64_t nmarked;
extern char __executable_start, etext;
static vc V[NT], relf[NT], acqp[NT];
// clocks of threads that ended (their stacks are used again), and of threads that let go of a
// lock inside the standard library in order to wait
static vc ended, parked;
#define MAXSYNC (1u << 20)
static vc *synct;
static uint32_t nsync = 1;

static inline struct cell *cell_of(uintptr_t a) {
  struct cell *c = &shadow[(a & ((1ull << SHBITS) - 1)) >> 3];
  if (c->gen != gen) {
    memset(c, 0, sizeof *c);
    c->gen = gen;
  }
  return c;
}
static inline uint32_t pcoff(void *pc) {
  uintptr_t o = (uintptr_t)pc - (uintptr_t)&__executable_start;
  return o < text_size ? (uint32_t)o : 0;
}
static inline bool bit(uint64_t *m, uint32_t pc) { return m[pc >> 6] >> (pc & 63) & 1; }
// a place found to meet other threads; it gives points from the next round on
static inline void mark(uint32_t pc) {
  if (pc && !bit(marked, pc) && !bit(pending, pc)) {
    pending[pc >> 6] |= 1ull << (pc & 63);
    if (shared->npend < MAXPEND) shared->pend[shared->npend++] = pc;
  }
}
static inline void race(uint32_t p, uint32_t q) {
  shared->nraces++;
  mark(p);
  mark(q);
}
static inline void join(uint32_t *d, const uint32_t *s) {
  for (int i = 0; i < NV; i++)
    if (s[i] > d[i]) d[i] = s[i];
}
static void clock_new(int t, int from) {
  if (t >= NV) return;
  uint32_t mine = V[t][t];
  memset(relf[t], 0, sizeof(vc));
  memset(acqp[t], 0, sizeof(vc));
  memcpy(V[t], V[from], sizeof(vc));
  join(V[t], ended);
  if (V[t][t] < mine) V[t][t] = mine;
  V[t][t]++;
  V[from][from]++;
}
static void clock_edge(int from, int to) {
  if (from >= NV || to >= NV) return;
  join(V[to], V[from]);
  V[from][from]++;
}
static inline void maybe_point(int kind, uint32_t pc) {
  if (bit(marked, pc)) point(10 + kind, pc);
}

static inline void access_(uintptr_t a, size_t n, int kind, void *pcv) {
  if (self < 0 || !active) return;
  int me = self;
  if (me >= NV) return;
  uint32_t pc = pcoff(pcv);
  maybe_point(kind, pc);
  uint32_t *v = V[me];
  for (uintptr_t p = a & ~7ull; p < a + n; p += 8) {
    struct cell *c = cell_of(p);
    // the whole granule is not needed: neighbours in one granule only add points
    if (c->wt && c->wt != me + 1 && c->wclk > v[c->wt - 1]) race(c->wpc, pc);
    if (c->at && c->at != me + 1 && ((kind & 1) || c->aw) && c->sync == 0) race(c->apc, pc);
    if (kind & 1) {
      for (int i = 0; i < 2; i++)
        if (c->rt[i] && c->rt[i] != me + 1 && c->rclk[i] > v[c->rt[i] - 1]) race(c->rpc[i], pc);
      c->wt = me + 1;
      c->wclk = v[me];
      c->wpc = pc;
      c->rt[0] = c->rt[1] = 0;
    } else {
      int i = c->rt[0] == 0 || c->rt[0] == me + 1 ? 0 : 1;
      c->rt[i] = me + 1;
      c->rclk[i] = v[me];
      c->rpc[i] = pc;
    }
  }
}
// before an atomic access: a point if it is known to meet other threads
static inline void atomic_before(uintptr_t a, int kind, void *pcv) {
  if (self < 0 || !active || self >= NV) return;
  int me = self;
  uint32_t pc = pcoff(pcv);
  maybe_point(kind | 2, pc);
  struct cell *c = cell_of(a);
  if (c->at && c->at != me + 1 && ((kind & 1) || c->aw)) {
    mark(c->apc);
    mark(pc);
  }
  if (c->wt && c->wt != me + 1 && c->wclk > V[me][c->wt - 1]) race(c->wpc, pc);
  c->at = me + 1;
  c->apc = pc;
  if (kind & 1) c->aw = 1;
}
static uint32_t *sync_of(uintptr_t a, bool make) {
  struct cell *c = cell_of(a);
  if (!c->sync) {
    if (!make || nsync >= MAXSYNC) return 0;
    c->sync = nsync++;
    memset(synct[c->sync], 0, sizeof(vc));
  }
  return synct[c->sync];
}
static inline void acquire(uintptr_t a, int mo) {
  if (self < 0 || !active || self >= NV) return;
  uint32_t *s = sync_of(a, false);
  if (!s) return;
  if (mo == 0 || mo == 3)
    join(acqp[self], s);
  else
    join(V[self], s);
}
static inline void release(uintptr_t a, int mo, bool rmw) {
  if (self < 0 || !active || self >= NV) return;
  uint32_t *s = sync_of(a, true);
  if (!s) return;
  if (!rmw) memset(s, 0, sizeof(vc));
  if (mo >= 3) {
    join(s, V[self]);
    V[self][self]++;
  } else
    join(s, relf[self]);
}
void sched_forget(void *p, size_t n) {
  if (!active || self < 0) return;
  uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
  if (e > a) memset(&shadow[(a & ((1ull << SHBITS) - 1)) >> 3], 0, ((e - a + 7) >> 3) * sizeof(struct cell));
}

// ---- control, called by the driver
void sched_init(void) {
  text_size = (uintptr_t)&etext - (uintptr_t)&__executable_start;
  shared = mmap(0, sizeof *shared, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  marked = calloc(text_size / 64 + 2, 8);
  pending = calloc(text_size / 64 + 2, 8);
  synct = mmap(0, MAXSYNC * sizeof(vc), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = mmap(0, ((1ull << SHBITS) >> 3) * sizeof(struct cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rec = mmap(0, MAXREC * 8ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rec_pc = mmap(0, MAXREC * 4ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rec_cur = mmap(0, MAXREC, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rec_kind = mmap(0, MAXREC, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED || rec == MAP_FAILED) die(70, "cannot map the shadow memory");
  self = 0;
  nth = 1;
  T[0].state = READY;
  T[0].pt = pthread_self();
}
void sched_begin(const uint64_t *at, const int *to, int n) {
  ndev = n;
  for (int i = 0; i < n; i++) {
    dev[i].at = at[i];
    dev[i].to = to[i];
  }
  nextdev = 0;
  shared->npoints = 0;
  shared->ndivert = 0;
  yields_in_a_row = 0;
  nsync = 1;
  shared->nraces = 0;
  if (++gen == 0) gen = 1;
  // everything before is over
  vc all;
  memset(all, 0, sizeof all);
  for (int i = 0; i < NV; i++) join(all, V[i]);
  for (int i = 0; i < NV; i++) {
    memcpy(V[i], all, sizeof all);
    V[i][i]++;
    memset(relf[i], 0, sizeof(vc));
    memset(acqp[i], 0, sizeof(vc));
  }
  active = true;
}
void sched_end(void) { active = false; }
uint64_t sched_points(void) { return shared->npoints; }
uint64_t sched_diverted(void) { return shared->ndivert; }
uint64_t sched_marked(void) { return nmarked; }
uint64_t sched_mask(uint64_t n) { return n < MAXREC ? rec[n] : 0; }
int sched_kind(uint64_t n) { return n < MAXREC ? rec_kind[n] : 0; }
int sched_cur(uint64_t n) { return n < MAXREC ? rec_cur[n] : 0; }
uint32_t sched_pc(uint64_t n) { return n < MAXREC ? rec_pc[n] : 0; }
uint64_t sched_races(void) { return shared->nraces; }
// places found since the last call
uint32_t sched_pending(uint32_t *out, uint32_t max) {
  uint32_t n = shared->npend < max ? shared->npend : max;
  memcpy(out, shared->pend, n * 4);
  for (uint32_t i = 0; i < shared->npend; i++) pending[out[i] >> 6] &= ~(1ull << (out[i] & 63));
  shared->npend = 0;
  return n;
}
void sched_mark(uint32_t pc) {
  if (pc < text_size && !bit(marked, pc)) {
    marked[pc >> 6] |= 1ull << (pc & 63);
    nmarked++;
  }
}
int sched_self(void) { return self; }
// lets everybody else run until they all wait
long sched_drained;
void sched_drain(void) {
  bool a = active;
  active = false;
  for (int k = 0; k < 1000000; k++) {
    bool busy = false;
    for (int i = 0; i < nth; i++)
      if (i != self && (T[i].state == READY || T[i].state == YIELDED)) busy = true;
    if (!busy) break;
    sched_drained++;
    yields_in_a_row = 0;
    yield_();
  }
  active = a;
}

// ---- threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void at_exit_of_thread(void *v) {
  (void)v;
  int me = self;
  if (me < 0) return;
  if (me < NV) join(ended, V[me]);
  T[me].state = GONE;
  for (int i = 0; i < nth; i++)
    if (T[i].state == JOIN && T[i].jtid == me) T[i].state = READY;
  progress();
  if (T[me].detached) T[me].state = FREE;
  leave(2);
  self = -1;
}
static void *trampoline(void *v) {
  int me = (int)(intptr_t)v;
  wait_turn(me);
  self = me;
  pthread_attr_t at;
  if (!pthread_getattr_np(pthread_self(), &at)) {
    void *lo;
    size_t n;
    pthread_attr_getstack(&at, &lo, &n);
    T[me].slo = lo;
    T[me].shi = (char *)lo + n;
    pthread_attr_destroy(&at);
  }
  pthread_setspecific(key, (void *)(intptr_t)(me + 1));
  return T[me].fn(T[me].arg);
}
static void mkkey(void) { pthread_key_create(&key, at_exit_of_thread); }
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (self < 0) return real_create(pt, at, fn, arg);
  static pthread_once_t once = PTHREAD_ONCE_INIT;
  pthread_once(&once, mkkey);
  int i;
  // slots of threads that are gone are used again, at the end first
  for (i = 1; i < nth && T[i].state != FREE; i++)
    ;
  if (i == NT) die(71, "too many threads");
  if (i == nth) nth++;
  memset(&T[i], 0, sizeof T[i]);
  T[i].fn = fn;
  T[i].arg = arg;
  T[i].state = READY;
  clock_new(i, self);
  int r = real_create(pt, at, trampoline, (void *)(intptr_t)i);
  if (r) {
    T[i].state = FREE;
    return r;
  }
  T[i].pt = *pt;
  progress();
  if (active) point(3, 0);
  return r;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (self >= 0) {
    for (int i = 0; i < nth; i++)
      if (T[i].state != FREE && pthread_equal(T[i].pt, pt) && i != self) {
        if (T[i].state != GONE) {
          T[self].state = JOIN;
          T[self].jtid = i;
          leave(4);
          T[self].state = READY;
        }
        int r = real_join(pt, ret);
        clock_edge(i, self);
        T[i].state = FREE;
        return r;
      }
  }
  return real_join(pt, ret);
}
int pthread_detach(pthread_t pt) {
  static int (*real)(pthread_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
  if (self >= 0)
    for (int i = 0; i < nth; i++)
      if (T[i].state != FREE && i != self && pthread_equal(T[i].pt, pt)) {
        T[i].detached = true;
        if (T[i].state == GONE) T[i].state = FREE;
        break;
      }
  return real(pt);
}

// ---- waiting
// the uninstrumented standard library takes a contended lock after it waited for it
static long futex_wait_(uint32_t *a, uint32_t v, bool timed) {
  if (active) point(5, 0);
  if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return -EAGAIN;
  int me = self;
  T[me].state = FUTEX;
  T[me].faddr = a;
  T[me].timed = timed;
  T[me].timed_out = false;
  T[me].wseq = ++wseq;
  leave(6);
  T[me].state = READY;
  T[me].faddr = 0;
  return T[me].timed_out ? -ETIMEDOUT : 0;
}
static long futex_wait(uint32_t *a, uint32_t v, bool timed) {
  if (active && self < NV) {
    join(parked, V[self]);
    V[self][self]++;
  }
  long r = futex_wait_(a, v, timed);
  if (active) acquire((uintptr_t)a, 5);
  return r;
}
static long futex_wake(uint32_t *a, long n) {
  long woken = 0;
  if (active) release((uintptr_t)a, 5, true);
  while (woken < n) {
    int best = -1;
    for (int i = 0; i < nth; i++)
      if (T[i].state == FUTEX && T[i].faddr == a && (best < 0 || T[i].wseq < T[best].wseq)) best = i;
    if (best < 0) break;
    T[best].state = READY;
    clock_edge(self, best);
    woken++;
  }
  if (woken) progress();
  if (active && woken) point(7, 0);
  return woken;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  long r;
  if (n == SYS_futex && self >= 0) {
    int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
      r = futex_wait((uint32_t *)a, (uint32_t)c, d != 0);
    else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
      r = futex_wake((uint32_t *)a, c < 0 ? NT : c);
    else
      r = raw(n, a, b, c, d, e, f);
  } else
    r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
int sched_yield(void) {
  if (self >= 0)
    yield_();
  else
    raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
  if (self >= 0) {
    yield_();
    return 0;
  }
  return raw(SYS_nanosleep, (long)t, (long)r, 0, 0, 0, 0) ? -1 : 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
  if (self >= 0) {
    yield_();
    return 0;
  }
  return -raw(SYS_clock_nanosleep, c, fl, (long)t, (long)r, 0, 0);
}

// hash tables are seeded the same in every run
ssize_t getrandom(void *p, size_t n, unsigned flags) {
  (void)flags;
  memset(p, 42, n);
  return n;
}

// ---- the instrumentation
#define PC __builtin_return_address(0)
#define A(p) ((uintptr_t)(p))
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { access_(A(p), n, 0, PC); }                    \
  void __tsan_write##n(void *p) { access_(A(p), n, 1, PC); }                   \
  void __tsan_read_write##n(void *p) { access_(A(p), n, 1, PC); }              \
  void __tsan_volatile_read##n(void *p) { access_(A(p), n, 0, PC); }           \
  void __tsan_volatile_write##n(void *p) { access_(A(p), n, 1, PC); }          \
  void __tsan_unaligned_read##n(void *p) { access_(A(p), n, 0, PC); }          \
  void __tsan_unaligned_write##n(void *p) { access_(A(p), n, 1, PC); }         \
  void __tsan_unaligned_read_write##n(void *p) { access_(A(p), n, 1, PC); }    \
  void __tsan_unaligned_volatile_read##n(void *p) { access_(A(p), n, 0, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access_(A(p), n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(A(p), n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { access_(A(p), n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(A(p), 8, 1, PC); }
void __tsan_vptr_read(void **p) { access_(A(p), 8, 0, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    access_(A(s), n, 0, PC);
    access_(A(d), n, 1, PC);
  }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) {
    access_(A(s), n, 0, PC);
    access_(A(d), n, 1, PC);
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) access_(A(d), n, 1, PC);
  return memset(d, c, n);
}

// a thread that only looks at atomics without effect gets out of the way
static __thread uint64_t spins;
static inline void spin(bool effect) {
  if (self < 0) return;
  if (effect)
    spins = 0;
  else if (++spins > 20000) {
    spins = 0;
    yield_();
  }
}
#define CAS(bits, ty, name, cp, ret)                                                      \
  {                                                                                         \
    atomic_before(A(p), 1, PC);                                                             \
    int r = __atomic_compare_exchange_n(p, cp, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    acquire(A(p), r ? mo : fm);                                                             \
    if (r && bits == 32 && v == 1 && active && self >= 0 && self < NV) join(V[self], parked);  \
    if (r) release(A(p), mo, true);                                                         \
    spin(r);                                                                                \
    return ret;                                                                             \
  }
#define ATOMIC(bits, ty)                                                                                        \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) {                                                 \
    atomic_before(A(p), 0, PC);                                                                                 \
    spin(false);                                                                                                \
    ty r = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                \
    acquire(A(p), mo);                                                                                          \
    return r;                                                                                                   \
  }                                                                                                             \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) {                                              \
    atomic_before(A(p), 1, PC);                                                                                 \
    spin(true);                                                                                                 \
    release(A(p), mo, false);                                                                                   \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                             \
  ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) {                                             \
    atomic_before(A(p), 1, PC);                                                                                 \
    acquire(A(p), mo);                                                                                          \
    release(A(p), mo, true);                                                                                    \
    ty o = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                         \
    spin(o != v);                                                                                               \
    return o;                                                                                                   \
  }                                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int fm)                \
      CAS(bits, ty, strong, c, r)                                                                               \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int fm)                  \
      CAS(bits, ty, weak, c, r)                                                                                 \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int fm)                     \
      CAS(bits, ty, val, &c, c)
#define RMW(bits, ty, name, f)                                    \
  ty __tsan_atomic##bits##_##name(volatile ty *p, ty v, int mo) { \
    atomic_before(A(p), 1, PC);                                   \
    acquire(A(p), mo);                                            \
    release(A(p), mo, true);                                      \
    spin(true);                                                   \
    return f(p, v, __ATOMIC_SEQ_CST);                             \
  }
#define RMWS(bits, ty)                          \
  RMW(bits, ty, fetch_add, __atomic_fetch_add)  \
  RMW(bits, ty, fetch_sub, __atomic_fetch_sub)  \
  RMW(bits, ty, fetch_and, __atomic_fetch_and)  \
  RMW(bits, ty, fetch_or, __atomic_fetch_or)    \
  RMW(bits, ty, fetch_xor, __atomic_fetch_xor)  \
  RMW(bits, ty, fetch_nand, __atomic_fetch_nand)
#define ALL(bits, ty) ATOMIC(bits, ty) RMWS(bits, ty)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (self < 0 || !active || self >= NV) return;
  if (mo != 3) join(V[self], acqp[self]);
  if (mo >= 3) {
    memcpy(relf[self], V[self], sizeof(vc));
    V[self][self]++;
  }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
