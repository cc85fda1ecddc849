// A model-checking runtime behind ThreadSanitizer's instrumentation interface.
//
// The crate under test and the scenarios are compiled with -Zsanitizer=thread but linked with this
// file instead of the sanitizer's runtime. Every atomic operation is a scheduling point; only the
// thread holding the token runs. One execution = one sequence of choices (which thread goes on,
// which store a load reads); rt_explore enumerates all of them depth first. Loads may read any
// store that coherence and happens-before allow. Plain accesses feed a vector-clock race detector,
// whose clocks advance only through the program's own synchronisation, never through the token.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <string>
#include <unordered_map>
#include <vector>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

static const int MT = 4;
typedef uint32_t Clk;
struct VC {
  Clk c[MT];
  void join(const VC &o) { for (int i = 0; i < MT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

// ------------------------------------------------------------------ choices
struct Choice { int n, taken; };
static std::vector<Choice> trail;
static size_t at_choice;
static bool diverged;
static int choose(int n) {
  if (n <= 1) return 0;
  if (at_choice < trail.size()) {
    Choice &c = trail[at_choice++];
    if (c.n != n) { diverged = true; return 0; }
    return c.taken;
  }
  trail.push_back({n, 0});
  at_choice++;
  return 0;
}

// ------------------------------------------------------------------ threads
enum St { IDLE, RUN, BLOCKED, DONE };
struct Th {
  St st;
  VC vc;
  uintptr_t wait_addr;
  bool yielded;
  uintptr_t stack_lo, stack_hi;
  std::atomic<int> go{0};
  int op;
};
static Th th[MT];
static int NT;
static thread_local int me = -1;      // index of the running scenario thread
static thread_local int in_rt = 0;
static std::atomic<int> main_go{0};
static int preemptions, pbound;
static long steps;
static bool cut;
static std::string failure;
static const long MAX_STEPS = 20000;
static uint64_t n_points, n_loads, n_multi, n_plain, n_preempt_cut;

static void wait_flag(std::atomic<int> &f) {
  while (!f.load(std::memory_order_acquire))
    raw_syscall(SYS_futex, (long)&f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  f.store(0, std::memory_order_relaxed);
}
static void set_flag(std::atomic<int> &f) {
  f.store(1, std::memory_order_release);
  raw_syscall(SYS_futex, (long)&f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

extern "C" void rt_dump_failure(const char *msg);
static void die(const std::string &m) {
  // the other threads are parked for good: report and leave
  if (failure.empty()) failure = m;
  in_rt = 1;
  rt_dump_failure(failure.c_str());
  fflush(stdout);
  _exit(1);
}

static void switch_to(int t) {
  if (t == me) return;
  set_flag(th[t].go);
  wait_flag(th[me].go);
}
static int enabled(int *out, bool me_first) {
  int n = 0;
  bool other = false;
  for (int i = 0; i < NT; i++) if (i != me && th[i].st == RUN) other = true;
  if (me_first && me >= 0 && th[me].st == RUN && !(th[me].yielded && other)) out[n++] = me;
  for (int i = 0; i < NT; i++) if (i != me && th[i].st == RUN && !th[i].yielded) out[n++] = i;
  if (n == 0) for (int i = 0; i < NT; i++) if (i != me && th[i].st == RUN) { th[i].yielded = false; out[n++] = i; }
  return n;
}
static void point() {
  n_points++;
  if (++steps > MAX_STEPS) { cut = true; return; }
  int e[MT];
  int n = enabled(e, true);
  bool mine = n > 0 && e[0] == me;
  if (mine && pbound >= 0 && preemptions >= pbound) { if (n > 1) n_preempt_cut++; n = 1; }
  int c = choose(n);
  if (n == 0) return;
  if (mine && c > 0) preemptions++;
  int t = e[c];
  if (t != me) for (int i = 0; i < NT; i++) if (i != t) th[i].yielded = false;
  switch_to(t);
}
static void leave() { // me is finished or blocked: somebody else must go on
  int e[MT];
  int n = enabled(e, false);
  if (n == 0) {
    bool all = true;
    for (int i = 0; i < NT; i++) all &= th[i].st == DONE;
    if (!all) die("deadlock: every unfinished thread waits");
    set_flag(main_go);
    return;
  }
  int t = e[choose(n)];
  set_flag(th[t].go);
}

// ------------------------------------------------------------------ atomics
struct Store { uint64_t v; VC rel; bool has_rel; int tid; Clk clk; };
struct Loc { std::vector<Store> h; int seen[MT]; };
static std::unordered_map<uintptr_t, Loc> locs;
static VC fence_vc;

static uint64_t peek(void *p, int sz) {
  switch (sz) {
    case 1: return __atomic_load_n((uint8_t *)p, __ATOMIC_SEQ_CST);
    case 2: return __atomic_load_n((uint16_t *)p, __ATOMIC_SEQ_CST);
    case 4: return __atomic_load_n((uint32_t *)p, __ATOMIC_SEQ_CST);
    default: return __atomic_load_n((uint64_t *)p, __ATOMIC_SEQ_CST);
  }
}
static void poke(void *p, int sz, uint64_t v) {
  switch (sz) {
    case 1: __atomic_store_n((uint8_t *)p, (uint8_t)v, __ATOMIC_SEQ_CST); break;
    case 2: __atomic_store_n((uint16_t *)p, (uint16_t)v, __ATOMIC_SEQ_CST); break;
    case 4: __atomic_store_n((uint32_t *)p, (uint32_t)v, __ATOMIC_SEQ_CST); break;
    default: __atomic_store_n((uint64_t *)p, v, __ATOMIC_SEQ_CST);
  }
}
static Loc &loc(void *p, int sz) {
  Loc &l = locs[(uintptr_t)p];
  uint64_t now = peek(p, sz);
  if (l.h.empty()) {
    memset(l.seen, 0, sizeof l.seen);
    l.h.push_back({now, VC{}, true, -1, 0}); // stored before the threads started
  } else if (l.h.back().v != now) {
    // written by code that is not instrumented (the standard library's slow paths)
    l.h.push_back({now, th[me].vc, true, me, th[me].vc.c[me]});
  }
  return l;
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void access(uintptr_t a, int sz, bool w, bool atomic);

static uint64_t do_load(void *p, int sz, int mo) {
  point();
  access((uintptr_t)p, sz, false, true);
  n_loads++;
  Loc &l = loc(p, sz);
  int last = (int)l.h.size() - 1, lo = l.seen[me];
  if (mo == 5) lo = last;
  for (int i = last; i > lo; i--)
    if (l.h[i].tid >= 0 && l.h[i].clk <= th[me].vc.c[l.h[i].tid]) { lo = i; break; }
  int n = last - lo + 1;
  if (n > 1) n_multi++;
  int i = last - choose(n);
  l.seen[me] = i;
  if (acq(mo) && l.h[i].has_rel) th[me].vc.join(l.h[i].rel);
  return l.h[i].v;
}
static void push(Loc &l, void *p, int sz, uint64_t v, int mo, const Store *prev) {
  Store s;
  s.v = v; s.tid = me; s.clk = th[me].vc.c[me]; s.has_rel = false;
  memset(&s.rel, 0, sizeof s.rel);
  if (prev && prev->has_rel) { s.rel = prev->rel; s.has_rel = true; }
  if (rel(mo)) { s.rel.join(th[me].vc); s.has_rel = true; }
  l.h.push_back(s);
  l.seen[me] = (int)l.h.size() - 1;
  th[me].vc.c[me]++;
  poke(p, sz, v);
}
static uint64_t mask(int sz) { return sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1; }
static void do_store(void *p, int sz, uint64_t v, int mo) {
  point();
  access((uintptr_t)p, sz, true, true);
  Loc &l = loc(p, sz);
  push(l, p, sz, v & mask(sz), mo, nullptr);
}
enum Rmw { XCHG, ADD, SUB, AND, OR, XOR, NAND };
static uint64_t do_rmw(void *p, int sz, uint64_t v, int mo, Rmw o) {
  point();
  access((uintptr_t)p, sz, true, true);
  Loc &l = loc(p, sz);
  Store prev = l.h.back();
  uint64_t x = prev.v, n = v;
  switch (o) {
    case XCHG: n = v; break;
    case ADD: n = x + v; break;
    case SUB: n = x - v; break;
    case AND: n = x & v; break;
    case OR: n = x | v; break;
    case XOR: n = x ^ v; break;
    case NAND: n = ~(x & v); break;
  }
  if (acq(mo) && prev.has_rel) th[me].vc.join(prev.rel);
  push(l, p, sz, n & mask(sz), mo, &prev);
  return x;
}
static uint64_t do_cas(void *p, int sz, uint64_t want, uint64_t v, int mo, int fmo) {
  point();
  Loc &l = loc(p, sz);
  Store prev = l.h.back();
  want &= mask(sz);
  if (prev.v == want) {
    access((uintptr_t)p, sz, true, true);
    if (acq(mo) && prev.has_rel) th[me].vc.join(prev.rel);
    push(l, p, sz, v & mask(sz), mo, &prev);
  } else {
    access((uintptr_t)p, sz, false, true);
    l.seen[me] = (int)l.h.size() - 1;
    if (acq(fmo) && prev.has_rel) th[me].vc.join(prev.rel);
  }
  return prev.v;
}

// ------------------------------------------------------------------ races
// last access of every thread to every byte: [byte][thread][write][atomic]
struct Cell { uintptr_t key; uint32_t epoch; uint8_t by[2], full[MT][2][2]; Clk at[MT][2][2]; Clk c[MT][2][2][8]; };
static std::vector<Cell> cells;
static size_t cell_mask, cell_used;
static uint32_t epoch;
static Cell &cell(uintptr_t k) {
  if (cells.empty()) { cells.resize(1 << 14); cell_mask = cells.size() - 1; }
  if (cell_used * 2 > cells.size()) {
    std::vector<Cell> old;
    old.swap(cells);
    cells.resize(old.size() * 2);
    cell_mask = cells.size() - 1;
    for (auto &c : old) if (c.epoch == epoch) {
      size_t i = (c.key * 0x9E3779B97F4A7C15ull >> 20) & cell_mask;
      while (cells[i].epoch == epoch) i = (i + 1) & cell_mask;
      cells[i] = c;
    }
  }
  size_t i = (k * 0x9E3779B97F4A7C15ull >> 20) & cell_mask;
  while (cells[i].epoch == epoch) {
    if (cells[i].key == k) return cells[i];
    i = (i + 1) & cell_mask;
  }
  Cell &c = cells[i];
  memset(&c, 0, sizeof c);
  c.key = k;
  c.epoch = epoch;
  cell_used++;
  return c;
}
static void access(uintptr_t a, int sz, bool w, bool atomic) {
  Th &t = th[me];
  if (a >= t.stack_lo && a < t.stack_hi) return;
  n_plain++;
  Clk now = t.vc.c[me];
  for (int left = sz; left > 0;) {
    Cell &c = cell(a >> 3);
    int b0 = a & 7, b1 = b0 + left > 8 ? 8 : b0 + left;
    uint8_t m8 = (uint8_t)(((1u << (b1 - b0)) - 1) << b0);
    Clk &at = c.at[me][w][atomic];
    uint8_t &full = c.full[me][w][atomic];
    // same thread, same epoch, same bytes: whoever raced with it since then has been compared with it
    if (!(at == now && (full & m8) == m8)) {
      for (int o = 0; o < NT; o++) {
        if (o == me) continue;
        for (int ow = w ? 0 : 1; ow < 2; ow++) {
          if (!(c.by[ow] & (1 << o))) continue;
          for (int oa = 0; oa < 2; oa++) {
            if (oa && atomic) continue;
            for (int b = b0; b < b1; b++) {
              Clk x = c.c[o][ow][oa][b];
              if (x && x > t.vc.c[o]) {
                char m[256];
                snprintf(m, sizeof m, "data race: thread %d %s%s %d byte(s) that thread %d %s%s without synchronisation (read %d of thread %d, read %d of thread %d)", me,
                         atomic ? "atomically " : "", w ? "writes" : "reads", sz, o, oa ? "atomically " : "", ow ? "wrote" : "read", th[me].op + 1, me, th[o].op + 1, o);
                die(m);
              }
            }
          }
        }
      }
      for (int b = b0; b < b1; b++) c.c[me][w][atomic][b] = now;
      if (at != now) { at = now; full = 0; }
      full |= m8;
      c.by[w] |= 1 << me;
    }
    left -= b1 - b0;
    a += b1 - b0;
  }
}
static inline bool on() { return me >= 0 && !in_rt; }
struct Rt { Rt() { in_rt++; } ~Rt() { in_rt--; } };
static void plain(const volatile void *p, size_t sz, bool w) {
  if (!on()) return;
  Rt r;
  access((uintptr_t)p, (int)sz, w, false);
}

// ------------------------------------------------------------------ exploration
typedef void (*Body)(int tid);
static Body body_fn;
static void *worker(void *arg) {
  int id = (int)(intptr_t)arg;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *lo; size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  th[id].stack_lo = (uintptr_t)lo;
  th[id].stack_hi = (uintptr_t)lo + sz;
  for (;;) {
    wait_flag(th[id].go);
    me = id;
    body_fn(id);
    in_rt = 1;
    th[id].st = DONE;
    leave();
    in_rt = 0;
    me = -1;
  }
}
static int started = 0;
struct Deferred { void *p; size_t n, a; };
static std::vector<Deferred> deferred;

extern "C" {
// memory freed while the threads run is not reused before all are done, so that equal addresses
// mean the same object; freeing counts as a write
void rt_real_free(void *p, size_t n, size_t a);
int rt_free(void *p, size_t n, size_t a) {
  if (me < 0) return 0;
  Rt r;
  if (in_rt == 1) access((uintptr_t)p, (int)n, true, false);
  deferred.push_back({p, n, a});
  return 1;
}
void rt_reclaim() {
  for (auto &d : deferred) rt_real_free(d.p, d.n, d.a);
  deferred.clear();
}
void rt_op(int i) { if (me >= 0) th[me].op = i; }
struct RtStats { uint64_t executions, points, loads, multi, plain, preempt_cut; uint32_t complete, max_trail; };

// one execution along the current trail
static void once(int nt, int bound) {
  NT = nt; pbound = bound; preemptions = 0; steps = 0; cut = false; diverged = false; at_choice = 0;
  locs.clear();
  memset(&fence_vc, 0, sizeof fence_vc);
  epoch++; cell_used = 0;
  for (int i = 0; i < nt; i++) {
    th[i].st = RUN; th[i].yielded = false; th[i].op = 0;
    memset(&th[i].vc, 0, sizeof(VC));
    th[i].vc.c[i] = 1;
  }
  while (started < nt) {
    pthread_t t;
    pthread_create(&t, nullptr, worker, (void *)(intptr_t)started);
    started++;
  }
  int e[MT]; int n = 0;
  for (int i = 0; i < nt; i++) e[n++] = i;
  int t = e[choose(n)];
  set_flag(th[t].go);
  wait_flag(main_go);
}
// all executions; setup() before, check() after each. check returns 0 if the execution is fine.
int rt_explore(int nt, int bound, uint64_t cap, void (*setup)(), Body body, int (*check)(), RtStats *st) {
  trail.clear();
  body_fn = body;
  memset(st, 0, sizeof *st);
  n_points = n_loads = n_multi = n_plain = n_preempt_cut = 0;
  st->complete = 1;
  for (;;) {
    setup();
    once(nt, bound);
    if (diverged) { fprintf(stderr, "replay of a prefix diverged\n"); _exit(4); }
    if (cut) st->complete = 0;
    st->executions++;
    if (trail.size() > st->max_trail) st->max_trail = trail.size();
    trail.resize(at_choice < trail.size() ? at_choice : trail.size());
    int r = check();
    if (r) return r;
    while (!trail.empty() && trail.back().taken + 1 >= trail.back().n) trail.pop_back();
    if (trail.empty()) break;
    trail.back().taken++;
    if (st->executions >= cap) { st->complete = 0; break; }
  }
  st->points = n_points; st->loads = n_loads; st->multi = n_multi; st->plain = n_plain; st->preempt_cut = n_preempt_cut;
  return 0;
}
// one execution with the given choices
int rt_replay(int nt, int bound, const int *ch, int n, void (*setup)(), Body body, int (*check)()) {
  trail.clear();
  body_fn = body;
  setup();
  // choice counts are not recorded: they are recomputed, the taken ones are forced
  std::vector<int> want(ch, ch + n);
  // grow the trail one choice at a time: run, force, repeat
  for (;;) {
    once(nt, bound);
    size_t i = 0;
    bool changed = false;
    for (; i < trail.size() && i < want.size(); i++)
      if (trail[i].taken != want[i]) {
        if (want[i] >= trail[i].n) { fprintf(stderr, "choice out of range\n"); _exit(4); }
        trail[i].taken = want[i];
        trail.resize(i + 1);
        changed = true;
        break;
      }
    if (!changed) break;
    setup();
  }
  return check();
}
int rt_trail(int *out, int max) {
  int n = 0;
  for (auto &c : trail) if (n < max) out[n++] = c.taken;
  return n;
}

// ------------------------------------------------------------------ instrumentation interface
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define PL(N) \
  void __tsan_read##N(void *p) { plain(p, N, false); } \
  void __tsan_write##N(void *p) { plain(p, N, true); } \
  void __tsan_read_write##N(void *p) { plain(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { plain(p, N, false); } \
  void __tsan_unaligned_write##N(void *p) { plain(p, N, true); } \
  void __tsan_unaligned_read_write##N(void *p) { plain(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { plain(p, N, false); } \
  void __tsan_volatile_write##N(void *p) { plain(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *p) { plain(p, N, false); } \
  void __tsan_unaligned_volatile_write##N(void *p) { plain(p, N, true); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void __tsan_read_range(void *p, size_t n) { plain(p, n, false); }
void __tsan_write_range(void *p, size_t n) { plain(p, n, true); }
void __tsan_vptr_read(void **p) { plain(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { plain(p, 8, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { plain(s, n, false); plain(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { plain(d, n, true); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}

#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) { if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); Rt r; return (T)do_load((void *)p, B / 8, mo); } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } Rt r; do_store((void *)p, B / 8, v, mo); } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { if (!on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, XCHG); } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { if (!on()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, ADD); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { if (!on()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, SUB); } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { if (!on()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, AND); } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { if (!on()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, OR); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { if (!on()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, XOR); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { if (!on()) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); Rt r; return (T)do_rmw((void *)p, B / 8, v, mo, NAND); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { if (!on()) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } Rt r; return (T)do_cas((void *)p, B / 8, e, v, mo, fmo); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { T o = __tsan_atomic##B##_compare_exchange_val(p, *e, v, mo, fmo); bool ok = o == *e; *e = o; return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  Rt r;
  point();
  // conservative: a fence synchronises with every earlier fence
  if (acq(mo)) th[me].vc.join(fence_vc);
  if (rel(mo)) { fence_vc.join(th[me].vc); th[me].vc.c[me]++; }
}
void __tsan_atomic_signal_fence(int) {}

// blocking: std's futex waits become scheduler waits
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    Rt r;
    int cmd = a[1] & 127;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      if (peek((void *)a[0], 4) != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
      th[me].st = BLOCKED;
      th[me].wait_addr = a[0];
      leave();
      wait_flag(th[me].go);
      // whoever released the lock in between did so through this word
      for (int i = 0; i < NT; i++) th[me].vc.join(th[i].vc);
      for (int i = 0; i < NT; i++) if (i != me) th[i].vc.c[i]++;
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      int w = 0;
      for (int i = 0; i < NT && w < a[2]; i++)
        if (th[i].st == BLOCKED && th[i].wait_addr == (uintptr_t)a[0]) {
          th[i].st = RUN;
          th[i].vc.join(th[me].vc);
          w++;
        }
      return w;
    }
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sched_yield() {
  if (on()) { Rt r; th[me].yielded = true; point(); th[me].yielded = false; return 0; }
  return (int)raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
}
