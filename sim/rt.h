// mdsim: deterministic simulator runtime for MDOODZ -- shared declarations.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stddef.h>

typedef struct { uint64_t s[2]; } prng_t;
static inline uint64_t sm64(uint64_t *x) {
  uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline void prng_seed(prng_t *p, uint64_t seed) { p->s[0] = sm64(&seed); p->s[1] = sm64(&seed); }
static inline uint64_t prng_u64(prng_t *p) {  // xoroshiro128+
  uint64_t a = p->s[0], b = p->s[1], r = a + b;
  b ^= a;
  p->s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
  p->s[1] = (b << 37) | (b >> 27);
  return r;
}
static inline uint32_t prng_below(prng_t *p, uint32_t n) { return n ? (uint32_t)((prng_u64(p) >> 32) % n) : 0; }
static inline double prng_unit(prng_t *p) { return (prng_u64(p) >> 11) * (1.0 / 9007199254740992.0); }

#define MAX_FAULTS 64
typedef enum { CLS_NONE, CLS_IO, CLS_ALLOC, CLS_SOLVE } fclass_t;
typedef struct {
  char kind[16];     // crash, torn, eio, enospc, eintr, short, nullopen, trunc, failren, nomem ...
  long at;           // operation number (1-based) of its class
  long arg;          // bytes / errno / length
  int  used;
} fault_t;

typedef struct {
  uint64_t seed;
  int  threads;
  int  mode;            // 0 sequential order, 1 random preemption, 2 PCT, 3 hot-site + sparse random
  uint32_t interval;    // mean accesses between preemptions (mode 1, 3)
  double hotp;          // preemption probability at sites seen racing
  int  detect;          // race-site detection on
  int  pct_d;
  int  fill;            // heap fill: 0 = leave, 1 = zero, 2 = 0xFF.., 3 = random bits, 4 = small doubles
  int  clockmode;       // 0 steady, 1 random steps, 2 jumps both ways, 3 frozen
  long io_limit;        // hang guard: I/O operations
  uint64_t access_limit;
  int  nfaults;
  fault_t faults[MAX_FAULTS];
  char stats[512], iolog[512], hot[512];
  char root[512];       // scratch directory all simulated files live in
  long logswitch;
  int  stagnate_step;   // force solver stagnation (see solve seam)
} plan_t;
extern plan_t plan;

typedef struct {
  uint64_t regions, switches, accesses, preempts, barriers, criticals, races;
  uint64_t sched_hash;
  long io_ops, allocs, clock_reads, rand_calls;
  long overruns, over_alloc, over_free, over_at, over_size;   // heap guard zones found written
  long fired[MAX_FAULTS];
} stats_t;
extern stats_t st;

void sim_finish(const char *why, int code) __attribute__((noreturn));  // write stats, _exit
void sim_stats_write(const char *why, int code);
void sim_io_init(void);
void sim_omp_init(void);
void sim_heap_check(void);
int  sim_in_exe(void *ra);

typedef struct { const char *name; int (*fn)(); } simset_t;
extern simset_t sim_sets[];
