// mdsim: OpenMP runtime with simulated threads (fibers) under a seeded scheduler,
// plus the -fsanitize=thread callbacks that make every shared access a scheduling point.
#define _GNU_SOURCE
#include "rt.h"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <stdbool.h>
#include <limits.h>

stats_t st;
static prng_t rng_s;               // scheduler stream
extern char __executable_start, etext;
int sim_in_exe(void *ra) { return (char *)ra >= &__executable_start && (char *)ra < &etext; }

// ------------------------------------------------------------------ fibers
#define MAXT 64
#define STK (256ul << 20)
typedef struct fiber {
  void *sp;
  int tid;
  int state;                        // 0 runnable, 1 blocked on barrier, 2 blocked on lock, 3 done
  void *waitlock;
  void *stack;
  int held; uint8_t lockid;         // critical sections held, innermost one
  long ws;                          // work-share counter
  uint32_t prio;
} fiber_t;
typedef struct team {
  int n, ndone, nbar;
  void (*fn)(void *);
  void *data;
  fiber_t f[MAXT];
  struct team *parent;
  fiber_t *parent_cur;
  long ws_seq[1];
  // work-sharing constructs of this team, by sequence number
  struct ws { long seq; int active, ended; int single_taken; void *copy; long next, end, incr, chunk; int kind; unsigned long unext, uend, uincr, uchunk; int up; long ordered_next; } ws[8];
} team_t;
static team_t *T;                   // innermost team with n > 1 (NULL: serial)
static fiber_t *cur;
static int serial_depth;            // nested / single-thread parallel regions
static int par;                     // scheduling points active
static uint32_t budget;
static uint32_t epoch = 1;
static void *stackpool[MAXT];
static int nthreads_var = 1;

extern void sim_switch(void **save, void *to);
__asm__(
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size sim_switch,.-sim_switch\n");

static void new_budget(void) {
  if (plan.mode == 1 || plan.mode == 3) {
    // geometric-like: mean = interval
    double u = prng_unit(&rng_s);
    double v = -(double)plan.interval * __builtin_log(1.0 - u);
    budget = v < 1 ? 1 : (v > 2e9 ? 2000000000u : (uint32_t)v);
  } else if (plan.mode == 2) {
    budget = 1 + prng_below(&rng_s, plan.interval * 2);
  } else budget = UINT_MAX;
}

static void hash_mix(uint64_t v) { st.sched_hash = (st.sched_hash ^ v) * 0x100000001b3ull; st.sched_hash ^= st.sched_hash >> 29; }

static fiber_t *pick(int avoid_self) {
  int cand[MAXT], n = 0;
  for (int i = 0; i < T->n; i++)
    if (T->f[i].state == 0 && !(avoid_self && &T->f[i] == cur)) cand[n++] = i;
  if (n == 0) return (cur->state == 0) ? cur : NULL;
  if (plan.mode == 2) {
    int b = cand[0];
    for (int i = 1; i < n; i++) if (T->f[cand[i]].prio > T->f[b].prio) b = cand[i];
    return &T->f[b];
  }
  return &T->f[cand[prng_below(&rng_s, n)]];
}
static void go(fiber_t *n) {
  if (n == cur) return;
  fiber_t *o = cur;
  st.switches++;
  hash_mix(((uint64_t)n->tid << 56) ^ st.accesses);
  cur = n;
  sim_switch(&o->sp, n->sp);
}
static void block(void) {            // current fiber cannot continue
  fiber_t *n = pick(1);
  if (!n || n->state != 0) {
    fprintf(stderr, "mdsim: deadlock among simulated threads\n");
    sim_finish("deadlock", 97);
  }
  go(n);
}
static void __attribute__((noinline)) preempt(void) {
  st.preempts++;
  if (plan.mode == 2 && T) cur->prio = prng_below(&rng_s, 1000);  // lowered at change point
  fiber_t *n = pick(plan.mode != 2);
  new_budget();
  if (n) go(n);
}

// ------------------------------------------------------------------ happens-before race detector
// Conflicting accesses (same bytes, different threads, at least one write, no barrier or common lock between them) mark hot
// sites for the scheduler. A data race is recorded when the conflict can be observed: the write changed the value, and
// the value is read by a thread that did not write it, was read before by another thread, or is read after two threads wrote
// different values. Writing the value already stored is no race, nor is an unlocked look at a value that is only ever written
// after it was read again under the lock (double-checked minima).
typedef struct { uint32_t ep; uint16_t wtid, r1, r2; uint8_t wm, r1m, r2m, wl, r1l, r2l, wch, ww, wrc, lrl; uint16_t lrt; uint32_t wpc, r1pc, r2pc, wwpc, wwpc2; } shad_t;
#define PGSH 12
#define GRSH 3
typedef struct { uintptr_t page; shad_t *s; } pent_t;
static pent_t *ptab; static size_t pcap, pcnt;
static uintptr_t lastpage = ~0ul; static shad_t *lastshad;
static shad_t *shadow_(uintptr_t a, int create) {
  uintptr_t pg = a >> PGSH;
  if (pg != lastpage) {
    if (!ptab) { pcap = 1 << 18; ptab = mmap(0, pcap * sizeof(pent_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    size_t h = (pg * 0x9E3779B97F4A7C15ull) >> 46;
    while (ptab[h].s && ptab[h].page != pg) h = (h + 1) & (pcap - 1);
    if (!ptab[h].s) {
      if (!create || pcnt + 1 > pcap / 2) return NULL;
      pcnt++;
      ptab[h].page = pg;
      ptab[h].s = mmap(0, sizeof(shad_t) << (PGSH - GRSH), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    lastpage = pg; lastshad = ptab[h].s;
  }
  return lastshad + ((a >> GRSH) & ((1 << (PGSH - GRSH)) - 1));
}
static inline shad_t *shadow(uintptr_t a) { return shadow_(a, 1); }
#define HOTN 4096
static uint32_t hotset[HOTN]; static int nhot;
static int hot_has(uint32_t pc) { uint32_t h = (pc * 2654435761u) >> 20; while (hotset[h]) { if (hotset[h] == pc) return 1; h = (h + 1) & (HOTN - 1); } return 0; }
static void hot_add(uint32_t pc) {
  if (!pc || nhot > HOTN / 2) return;
  uint32_t h = (pc * 2654435761u) >> 20;
  while (hotset[h]) { if (hotset[h] == pc) return; h = (h + 1) & (HOTN - 1); }
  hotset[h] = pc; nhot++; st.races++;
}
void sim_hot_dump(FILE *f) { for (int i = 0; i < HOTN; i++) if (hotset[i]) fprintf(f, "hot %x\n", hotset[i]); }
void sim_hot_add(uint32_t pc) { hot_add(pc); }

#define NRACE 128
static struct { uint32_t a, b; char k; } race[NRACE]; static int nrace;
static int nww;
static void race_add(uint32_t a, uint32_t b, char k) {
  for (int i = 0; i < nrace; i++) if ((race[i].a == a && race[i].b == b) || (race[i].a == b && race[i].b == a)) return;
  if (nrace < NRACE) { race[nrace].a = a; race[nrace].b = b; race[nrace++].k = k; }
}
void sim_race_dump(FILE *f) { for (int i = 0; i < nrace; i++) fprintf(f, "race %x %x %c\n", race[i].a, race[i].b, race[i].k); }
static struct { int n, tid, lk; uintptr_t a; uint32_t pc; unsigned char old[16]; } pend;
static void resolve(void) {
  int n = pend.n;
  if (!n) return;
  pend.n = 0;
  for (int i = 0; i < n;) {
    uintptr_t a = pend.a + i;
    int k = 8 - (int)(a & 7); if (k > n - i) k = n - i;
    uint8_t m = ((1u << k) - 1) << (a & 7);
    int ch = memcmp((void *)a, pend.old + i, k) != 0;
    shad_t *s = shadow(a);
    if (s) {
      uint16_t me = pend.tid + 1;
      if (s->ep != epoch) { s->ep = epoch; s->wtid = s->r1 = s->r2 = s->lrt = 0; if (s->ww) { s->ww = 0; nww--; } }
      int rc = pend.lk && s->lrt == me && s->lrl == pend.lk;
      if (ch) {
        if (!rc && s->r1 && s->r1 != me && (s->r1m & m) && !(pend.lk && pend.lk == s->r1l)) race_add(s->r1pc, pend.pc, 'r');
        if (!rc && s->r2 && s->r2 != me && (s->r2m & m) && !(pend.lk && pend.lk == s->r2l)) race_add(s->r2pc, pend.pc, 'r');
        if (s->wtid && s->wtid != me && s->wch && (s->wm & m) && !(pend.lk && pend.lk == s->wl) && !s->ww) { s->ww = m; s->wwpc = s->wpc; s->wwpc2 = pend.pc; nww++; }
      }
      if (ch || s->wtid != me || !s->wch || !(s->wm & m)) s->wch = ch;
      s->wtid = me; s->wm = m; s->wl = pend.lk; s->wpc = pend.pc; s->wrc = rc;
    }
    i += k;
  }
}
// memory handed out or taken back inside a region starts a new life
void sim_shadow_clear(void *p, size_t n) {
  if (!par || !plan.detect || !n) return;
  resolve();
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (a &= ~7ul; a < e; ) {
    shad_t *s = shadow_(a, 0);
    if (!s) { a = ((a >> PGSH) + 1) << PGSH; continue; }
    s->wtid = s->r1 = s->r2 = s->lrt = 0; if (s->ww) { s->ww = 0; nww--; }
    a += 8;
  }
}
static void __attribute__((noinline)) serial_access(uintptr_t a, int w, int n) {
  for (int i = 0; i < n; ) {
    uintptr_t b = a + i; int k = 8 - (int)(b & 7); if (k > n - i) k = n - i;
    uint8_t m = ((1u << k) - 1) << (b & 7);
    shad_t *s = shadow_(b, 0);
    if (s && (s->ww & m)) { if (!w) race_add(s->wwpc, s->wwpc2, 'w'); s->ww = 0; nww--; }
    i += k;
  }
}
static inline void access_(void *p, void *ra, int w, int n) {
  if (!par) { if (nww && !serial_depth) serial_access((uintptr_t)p, w, n); return; }
  st.accesses++;
  uint32_t pc = (uint32_t)(uintptr_t)ra;
  if (plan.access_limit && st.accesses > plan.access_limit) sim_finish("hang", 98);
  if (plan.detect) {
    resolve();
    if (nhot && plan.hotp > 0 && hot_has(pc) && prng_unit(&rng_s) < plan.hotp) preempt();
    else if (--budget == 0) preempt();
    resolve();
    uint16_t me = cur->tid + 1; uint8_t lk = cur->held > 0 ? cur->lockid : 0;
    if (n > 16) n = 16;
    for (int i = 0; i < n; ) {
      uintptr_t a = (uintptr_t)p + i;
      int k = 8 - (int)(a & 7); if (k > n - i) k = n - i;
      uint8_t m = ((1u << k) - 1) << (a & 7);
      i += k;
      shad_t *s = shadow(a);
      if (!s) continue;
      if (s->ep != epoch) {
        if (s->ww) { if (!w && (s->ww & m)) race_add(s->wwpc, s->wwpc2, 'w'); s->ww = 0; nww--; }
        s->ep = epoch; s->wtid = s->r1 = s->r2 = s->lrt = 0;
      }
      if (s->wtid && s->wtid != me && (s->wm & m) && !(s->wl && s->wl == lk)) {
        hot_add(s->wpc); hot_add(pc);
        if (!w && s->wch && !s->wrc) race_add(s->wpc, pc, 'r');
      }
      if (w) {
        if (s->r1 && s->r1 != me && (s->r1m & m) && !(s->r1l && s->r1l == lk)) { hot_add(s->r1pc); hot_add(pc); }
        if (s->r2 && s->r2 != me && (s->r2m & m) && !(s->r2l && s->r2l == lk)) { hot_add(s->r2pc); hot_add(pc); }
      } else {
        if (s->ww & m) race_add(s->wwpc, s->wwpc2, 'w');
        if (lk) { s->lrt = me; s->lrl = lk; }
        if (!s->r1 || s->r1 == me) { s->r1 = me; s->r1m = m; s->r1l = lk; s->r1pc = pc; }
        else { s->r2 = me; s->r2m = m; s->r2l = lk; s->r2pc = pc; }
      }
    }
    if (w) { pend.n = n; pend.a = (uintptr_t)p; pend.tid = cur->tid; pend.lk = lk; pend.pc = pc; memcpy(pend.old, p, n); }
    return;
  }
  if (--budget == 0) preempt();
}
#define RA __builtin_return_address(0)
#define DEF(n) \
  void __tsan_read##n(void *p) { access_(p, RA, 0, n); } \
  void __tsan_write##n(void *p) { access_(p, RA, 1, n); } \
  void __tsan_unaligned_read##n(void *p) { access_(p, RA, 0, n); } \
  void __tsan_unaligned_write##n(void *p) { access_(p, RA, 1, n); } \
  void __tsan_volatile_read##n(void *p) { access_(p, RA, 0, n); } \
  void __tsan_volatile_write##n(void *p) { access_(p, RA, 1, n); }
DEF(1) DEF(2) DEF(4) DEF(8) DEF(16)
void __tsan_read_range(void *p, unsigned long n) { access_(p, RA, 0, n > 16 ? 16 : n); }
void __tsan_write_range(void *p, unsigned long n) { access_(p, RA, 1, n > 16 ? 16 : n); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, RA, 1, 8); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
// Atomic operations are executed indivisibly; a scheduling point precedes each of them.
static inline void apoint(void) { if (par && --budget == 0) preempt(); else if (par && plan.mode == 3 && prng_unit(&rng_s) < plan.hotp) preempt(); }
#define ATOM(b, t) \
  t __tsan_atomic##b##_load(const volatile t *a, int m) { apoint(); return *a; } \
  void __tsan_atomic##b##_store(volatile t *a, t v, int m) { apoint(); *a = v; } \
  t __tsan_atomic##b##_exchange(volatile t *a, t v, int m) { apoint(); t o = *a; *a = v; return o; } \
  t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int m) { apoint(); t o = *a; *a = o + v; return o; } \
  t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int m) { apoint(); t o = *a; *a = o - v; return o; } \
  t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int m) { apoint(); t o = *a; *a = o & v; return o; } \
  t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int m) { apoint(); t o = *a; *a = o | v; return o; } \
  t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int m) { apoint(); t o = *a; *a = o ^ v; return o; } \
  t __tsan_atomic##b##_fetch_nand(volatile t *a, t v, int m) { apoint(); t o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *e, t v, int m, int fm) { apoint(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *e, t v, int m, int fm) { apoint(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t e, t v, int m, int fm) { apoint(); t o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; apoint(); }
void __tsan_atomic_signal_fence(int m) { (void)m; }

// ------------------------------------------------------------------ regions
static void fiber_main(void) {
  T->fn(T->data);
  cur->state = 3;
  T->ndone++;
  if (T->ndone == T->n) { go(&T->f[0]); }
  block();
  __builtin_unreachable();
}
static void release_barrier(void) {
  for (int i = 0; i < T->n; i++) if (T->f[i].state == 1) T->f[i].state = 0;
  T->nbar = 0;
  resolve(); epoch++;
}
static void serial_region(void (*fn)(void *), void *data) {
  int op = par; par = 0; serial_depth++;
  fn(data);
  serial_depth--; par = op;
}
void sim_dirty_stack(void);
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  (void)flags;
  sim_dirty_stack();
  if (n == 0) n = nthreads_var;
  if (n > MAXT) n = MAXT;
  if (T || n <= 1 || serial_depth || !sim_in_exe(RA)) { serial_region(fn, data); return; }
  static team_t team;
  team_t *t = &team;
  memset(t, 0, sizeof *t);
  t->n = n; t->fn = fn; t->data = data;
  st.regions++;
  resolve(); epoch++;
  T = t;
  for (unsigned i = 0; i < n; i++) {
    fiber_t *f = &t->f[i];
    f->tid = i; f->state = 0; f->prio = prng_below(&rng_s, 1u << 30) + 2000;
    if (i == 0) continue;
    if (!stackpool[i]) stackpool[i] = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (stackpool[i] == MAP_FAILED) { perror("mdsim stack"); sim_finish("internal", 96); }
    uintptr_t *sp = (uintptr_t *)((char *)stackpool[i] + STK - 64);
    *--sp = 0;                       // fake return of fiber_main (keeps 16-byte alignment)
    *--sp = (uintptr_t)fiber_main;
    for (int k = 0; k < 6; k++) *--sp = 0;
    uint32_t mx; uint16_t fc;
    __asm__ volatile("stmxcsr %0" : "=m"(mx)); __asm__ volatile("fnstcw %0" : "=m"(fc));
    --sp; ((uint32_t *)sp)[0] = mx; ((uint32_t *)sp)[1] = fc;
    f->sp = sp;
  }
  cur = &t->f[0];
  par = 1;
  new_budget();
  // thread 0 does not necessarily start first
  { fiber_t *n0 = pick(0); if (n0 != cur) go(n0); }
  fn(data);
  cur->state = 3; t->ndone++;
  if (t->ndone < t->n) {             // the last fiber to finish switches back to fiber 0
    block();
  }
  resolve(); par = 0; T = NULL; cur = NULL;
  epoch++;
}
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned fl) { GOMP_parallel(fn, d, n, fl); return n ? n : nthreads_var; }

void GOMP_barrier(void) {
  if (!T) return;
  st.barriers++;
  cur->state = 1; T->nbar++;
  if (T->nbar == T->n) { release_barrier(); fiber_t *n = pick(0); go(n); return; }
  block();
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }

// locks: address-identified
#define NLK 256
static struct { void *key; fiber_t *owner; int depth; } lk[NLK];
static int lkidx(void *key) { for (int i = 0; i < NLK; i++) { if (lk[i].key == key) return i; if (!lk[i].key) { lk[i].key = key; return i; } } return NLK - 1; }
static void lock_(void *key) {
  if (!T) return;
  st.criticals++;
  int i = lkidx(key);
  if (par && plan.mode && prng_unit(&rng_s) < 0.3) preempt();
  while (lk[i].owner && lk[i].owner != cur) { cur->state = 2; cur->waitlock = key; block(); }
  lk[i].owner = cur; lk[i].depth++; cur->held++; cur->lockid = i + 1;
}
static void unlock_(void *key) {
  if (!T) return;
  int i = lkidx(key);
  cur->held--;
  if (--lk[i].depth == 0) {
    lk[i].owner = NULL;
    for (int k = 0; k < T->n; k++) if (T->f[k].state == 2 && T->f[k].waitlock == key) T->f[k].state = 0;
    if (par && plan.mode && prng_unit(&rng_s) < 0.3) preempt();
  }
}
static int Kcrit, Katom, Kord;
void GOMP_critical_start(void) { lock_(&Kcrit); }
void GOMP_critical_end(void) { unlock_(&Kcrit); }
void GOMP_critical_name_start(void **p) { lock_(p); }
void GOMP_critical_name_end(void **p) { unlock_(p); }
void GOMP_atomic_start(void) { lock_(&Katom); }
void GOMP_atomic_end(void) { unlock_(&Katom); }
void omp_init_lock(void *l) { (void)l; }
void omp_destroy_lock(void *l) { (void)l; }
void omp_set_lock(void *l) { lock_(l); }
void omp_unset_lock(void *l) { unlock_(l); }
int omp_test_lock(void *l) { if (!T) return 1; int i = lkidx(l); if (lk[i].owner && lk[i].owner != cur) return 0; lock_(l); return 1; }
void omp_init_nest_lock(void *l) { (void)l; }
void omp_destroy_nest_lock(void *l) { (void)l; }
void omp_set_nest_lock(void *l) { lock_(l); }
void omp_unset_nest_lock(void *l) { unlock_(l); }

// work sharing: the k-th construct met by each thread of the team is the same construct
static struct ws serial_ws[16]; static int serial_wsp;
static struct ws *ws_enter(int *first) {
  if (!T) { struct ws *w = &serial_ws[serial_wsp & 15]; memset(w, 0, sizeof *w); *first = 1; return w; }
  long seq = ++cur->ws;
  struct ws *w = &T->ws[seq & 7];
  if (w->seq != seq) { memset(w, 0, sizeof *w); w->seq = seq; *first = 1; } else *first = 0;
  return w;
}
static struct ws *ws_cur(void) { return T ? &T->ws[cur->ws & 7] : &serial_ws[serial_wsp & 15]; }
bool GOMP_single_start(void) { if (!T) return true; int f; ws_enter(&f); return f; }
void *GOMP_single_copy_start(void) { if (!T) return NULL; int f; struct ws *w = ws_enter(&f); if (f) return NULL; GOMP_barrier(); return w->copy; }
void GOMP_single_copy_end(void *d) { if (!T) return; ws_cur()->copy = d; GOMP_barrier(); }
static bool loop_next(long *s, long *e) {
  struct ws *w = ws_cur();
  if (par && plan.mode && prng_unit(&rng_s) < 0.3) preempt();
  long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->end - w->next + w->incr + 1) / w->incr;
  if (left <= 0) return false;
  long c = w->chunk; if (w->kind == 1) { long q = left / (2 * (T ? T->n : 1)); if (q > c) c = q; }
  if (c < 1) c = 1; if (c > left) c = left;
  *s = w->next; w->next += c * w->incr; *e = w->next; if (c == left) *e = w->end;
  return true;
}
static bool loop_start(long start, long end, long incr, long chunk, int kind, long *s, long *e) {
  int f; struct ws *w = ws_enter(&f);
  if (f) { w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->kind = kind; }
  return loop_next(s, e);
}
#define LOOP(name, kind) \
  bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, kind, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); }
#define LOOPR(name, kind) \
  bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, kind, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
LOOP(ordered_static, 0) LOOP(ordered_dynamic, 0) LOOP(ordered_guided, 1)
LOOPR(runtime, 0) LOOPR(maybe_nonmonotonic_runtime, 0) LOOPR(nonmonotonic_runtime, 0) LOOPR(ordered_runtime, 0)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
struct plo { void (*fn)(void *); void *data; };
// combined parallel loops: the first ws of the team is preset
static struct { long a, b, i, c; int kind; int set; } preset;
static void pl(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, int kind, unsigned fl, void *ra);
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { pl(fn, d, n, a, b, i, c, 0, fl, RA); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { pl(fn, d, n, a, b, i, c, 1, fl, RA); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { pl(fn, d, n, a, b, i, c, 0, fl, RA); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { pl(fn, d, n, a, b, i, c, 1, fl, RA); }
void GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { pl(fn, d, n, a, b, i, c, 0, fl, RA); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { pl(fn, d, n, a, b, i, 1, 0, fl, RA); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { pl(fn, d, n, a, b, i, 1, 0, fl, RA); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { pl(fn, d, n, a, b, i, 1, 0, fl, RA); }
static void pl_body(void *v) {
  struct plo *p = v;
  int f; struct ws *w = ws_enter(&f);
  if (f) { w->next = preset.a; w->end = preset.b; w->incr = preset.i; w->chunk = preset.c; w->kind = preset.kind; }
  p->fn(p->data);
}
static void pl(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, int kind, unsigned fl, void *ra) {
  struct plo p = {fn, d};
  preset.a = a; preset.b = b; preset.i = i; preset.c = c; preset.kind = kind;
  if (!sim_in_exe(ra)) n = 1;
  GOMP_parallel(pl_body, &p, n, fl);
}
// sections
unsigned GOMP_sections_next(void) { struct ws *w = ws_cur(); if (par && plan.mode && prng_unit(&rng_s) < 0.3) preempt(); if (w->next > w->end) return 0; return (unsigned)w->next++; }
unsigned GOMP_sections_start(unsigned n) { int f; struct ws *w = ws_enter(&f); if (f) { w->next = 1; w->end = n; } return GOMP_sections_next(); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
static void ps_body(void *v) { struct plo *p = v; int f; struct ws *w = ws_enter(&f); if (f) { w->next = 1; w->end = preset.b; } p->fn(p->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned fl) { struct plo p = {fn, d}; preset.b = c; if (!sim_in_exe(RA)) n = 1; GOMP_parallel(ps_body, &p, n, fl); }
void GOMP_ordered_start(void) { lock_(&Kord); }
void GOMP_ordered_end(void) { unlock_(&Kord); }
// tasks run at their creation point
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool ifc, unsigned fl, void **dep, int prio, void *detach) {
  (void)ifc; (void)fl; (void)dep; (void)prio; (void)detach;
  if (cpy) { char *b = malloc(sz + al); char *a = (char *)(((uintptr_t)b + al - 1) & ~(al - 1)); cpy(a, data); fn(a); free(b); } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_thread_num(void) { return T && !serial_depth ? cur->tid : 0; }
int omp_get_num_threads(void) { return T && !serial_depth ? T->n : 1; }
int omp_get_max_threads(void) { return sim_in_exe(RA) ? nthreads_var : 1; }
int omp_get_num_procs(void) { return sim_in_exe(RA) ? nthreads_var : 1; }
void omp_set_num_threads(int n) { if (sim_in_exe(RA) && n > 0) nthreads_var = n; }
int omp_in_parallel(void) { return T != NULL; }
int omp_get_level(void) { return T != NULL; }
int omp_get_active_level(void) { return T != NULL; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
void omp_set_max_active_levels(int d) { (void)d; }
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_ancestor_thread_num(int l) { (void)l; return omp_get_thread_num(); }
int omp_get_team_size(int l) { (void)l; return omp_get_num_threads(); }

void sim_omp_init(void) {
  uint64_t s = plan.seed * 2654435761u + 17;
  prng_seed(&rng_s, s);
  nthreads_var = plan.threads < 1 ? 1 : (plan.threads > MAXT ? MAXT : plan.threads);
  st.sched_hash = 0xcbf29ce484222325ull;
}
// end an abnormal run from any fiber: nothing to unwind
