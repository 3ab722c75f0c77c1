// mdsim: file system, heap, clock, randomness and process seams.
#define _GNU_SOURCE
#include "rt.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>

plan_t plan;
static prng_t rng_f, rng_c, rng_r;
static FILE *iolog;
static int armed;                  // faults only act between sim_arm(1) and sim_arm(0)
static int enospc_on;              // disk full from now on (or until space budget is freed)
static int eio_write_on;           // device write errors persist
static uint64_t iohash = 0xcbf29ce484222325ull;
void sim_arm(int on) { armed = on; }

void sim_stats_write(const char *why, int code) {
  if (iolog) { fclose(iolog); iolog = NULL; }
  if (!strcmp(why, "returned")) sim_heap_check();
  FILE *f = fopen(plan.stats, "w");
  if (!f) return;
  fprintf(f, "why %s\ncode %d\n", why, code);
  fprintf(f, "regions %lu\nswitches %lu\naccesses %lu\npreempts %lu\nbarriers %lu\ncriticals %lu\nraces %lu\nsched_hash %016lx\n", st.regions, st.switches, st.accesses, st.preempts, st.barriers, st.criticals, st.races, st.sched_hash);
  fprintf(f, "io_ops %ld\nallocs %ld\nclock_reads %ld\nrand_calls %ld\niohash %016lx\n", st.io_ops, st.allocs, st.clock_reads, st.rand_calls, iohash);
  fprintf(f, "overruns %ld\nover_alloc %ld\nover_free %ld\nover_at %ld\nover_size %ld\n", st.overruns, st.over_alloc, st.over_free, st.over_at, st.over_size);
  for (int i = 0; i < plan.nfaults; i++) fprintf(f, "fired %d %s %ld\n", i, plan.faults[i].kind, st.fired[i]);
  extern void sim_hot_dump(FILE *);
  extern void sim_race_dump(FILE *);
  if (plan.detect) { sim_hot_dump(f); sim_race_dump(f); }
  fclose(f);
}
void sim_finish(const char *why, int code) { sim_stats_write(why, code); _exit(code); }

// ---------------------------------------------------------------- fault lookup
static void ihash(const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) { iohash ^= c[i]; iohash *= 0x100000001b3ull; } }
static void logop(const char *op, const char *path, long a, long b) {
  const char *p = path ? path : "-";
  size_t rl = strlen(plan.root);
  if (!strncmp(p, plan.root, rl)) p += rl;
  while (*p == '/') p++;
  if (!strncmp(p, "./", 2)) p += 2;
  ihash(op, strlen(op)); ihash(p, strlen(p)); ihash(&a, sizeof a); ihash(&b, sizeof b);
  if (iolog) fprintf(iolog, "%ld %s %s %ld %ld\n", st.io_ops, op, p, a, b);
}
// one simulated I/O operation; returns the fault acting on it, or NULL
static fault_t *io_op(const char *op, const char *path, long a, long b) {
  if (!armed) return NULL;
  st.io_ops++;
  logop(op, path, a, b);
  if (plan.io_limit && st.io_ops > plan.io_limit) sim_finish("hang", 98);
  for (int i = 0; i < plan.nfaults; i++) {
    fault_t *f = &plan.faults[i];
    if (f->at == st.io_ops && strcmp(f->kind, "nomem") && strcmp(f->kind, "stall")) { st.fired[i]++; f->used = i; return f; }
  }
  return NULL;
}
static int is(fault_t *f, const char *k) { return f && !strcmp(f->kind, k); }
static void maybe_crash(fault_t *f) { if (is(f, "crash")) sim_finish("crash", 99); }
static void crash_or_torn(fault_t *f) { if (is(f, "crash") || is(f, "torn")) sim_finish("crash", 99); }

// ---------------------------------------------------------------- raw system calls
static int r_open(const char *p, int fl, int m) { return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
static ssize_t r_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t r_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t r_pwrite(int fd, const void *b, size_t n, off_t o) { return syscall(SYS_pwrite64, fd, b, n, o); }
static ssize_t r_pread(int fd, void *b, size_t n, off_t o) { return syscall(SYS_pread64, fd, b, n, o); }

#define MAXFD 1024
static char *fdpath[MAXFD];
static int fdwr[MAXFD];
static int tracked_path(const char *p) {
  if (!armed) return 0;
  if (p[0] != '/') return 1;                 // cwd is the scratch root
  return !strncmp(p, plan.root, strlen(plan.root)) || strstr(p, "/IMPORT/") != NULL;
}
static const char *fp(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

static int s_open(const char *p, int fl, int mode) {
  if (!tracked_path(p)) return r_open(p, fl, mode);
  int wr = (fl & O_ACCMODE) != O_RDONLY;
  fault_t *f = io_op(wr ? ((fl & O_TRUNC) ? "openw" : "opena") : "openr", p, fl & (O_CREAT | O_TRUNC | O_EXCL | O_APPEND), 0);
  if (f) {
    crash_or_torn(f);
    if (is(f, "eio")) { errno = EIO; return -1; }
    if (is(f, "deny")) { errno = EACCES; return -1; }
    if (is(f, "emfile")) { errno = EMFILE; return -1; }
    if (is(f, "enospc")) { enospc_on = 1; }
    if (is(f, "full")) { if (wr && (fl & O_CREAT)) { errno = ENOSPC; return -1; } }
  }
  if (enospc_on && wr && (fl & O_CREAT) && access(p, F_OK)) { errno = ENOSPC; return -1; }
  int fd = r_open(p, fl, mode);
  if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); fdwr[fd] = wr; }
  return fd;
}
// one write system call on a tracked file (off < 0: sequential)
static ssize_t s_write1(int fd, const void *b, size_t n, off_t off) {
  fault_t *f = io_op("write", fp(fd), (long)n, (long)off);
  if (f) {
    maybe_crash(f);
    if (is(f, "torn")) { size_t k = (size_t)f->arg % (n + 1); if (k) { if (off < 0) r_write(fd, b, k); else r_pwrite(fd, b, k, off); } sim_finish("crash", 99); }
    if (is(f, "eio")) { errno = EIO; return -1; }
    if (is(f, "eiop")) { eio_write_on = 1; }
    if (is(f, "eintr")) { errno = EINTR; return -1; }
    if (is(f, "enospc")) enospc_on = 1;
    if (is(f, "enospc1")) { size_t k = (size_t)f->arg % (n + 1); if (!k) { errno = ENOSPC; return -1; } enospc_on = 1; return off < 0 ? r_write(fd, b, k) : r_pwrite(fd, b, k, off); }
    if (is(f, "short") && n > 1) { size_t k = 1 + (size_t)f->arg % (n - 1); return off < 0 ? r_write(fd, b, k) : r_pwrite(fd, b, k, off); }
  }
  if (eio_write_on) { errno = EIO; return -1; }
  if (enospc_on) { errno = ENOSPC; return -1; }
  return off < 0 ? r_write(fd, b, n) : r_pwrite(fd, b, n, off);
}
static ssize_t s_read1(int fd, void *b, size_t n, off_t off) {
  fault_t *f = io_op("read", fp(fd), (long)n, (long)off);
  if (f) {
    crash_or_torn(f);
    if (is(f, "eio")) { errno = EIO; return -1; }
    if (is(f, "eiop")) { f->at++; errno = EIO; return -1; }          // persists: next operation fails too
    if (is(f, "eintr")) { errno = EINTR; return -1; }
    if (is(f, "eof")) return 0;
    if (is(f, "short") && n > 1) n = 1 + (size_t)f->arg % (n - 1);
  }
  return off < 0 ? r_read(fd, b, n) : r_pread(fd, b, n, off);
}
static int s_close(int fd) {
  const char *p = fp(fd);
  if (!p || !armed) { if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = NULL; } return syscall(SYS_close, fd); }
  fault_t *f = io_op("close", p, fdwr[fd], 0);
  crash_or_torn(f);
  int wr = fdwr[fd];
  free(fdpath[fd]); fdpath[fd] = NULL;
  int r = syscall(SYS_close, fd);
  if (wr && (is(f, "eio") || is(f, "enospc"))) { errno = is(f, "eio") ? EIO : ENOSPC; return -1; }
  return r;
}
static int s_rename(const char *a, const char *b) {
  if (!tracked_path(a)) { errno = EPERM; return -1; }
  char buf[1100]; snprintf(buf, sizeof buf, "%s->%s", a, b);
  fault_t *f = io_op("rename", buf, 0, 0);
  crash_or_torn(f);
  if (is(f, "eio") || is(f, "deny")) { errno = is(f, "eio") ? EIO : EACCES; return -1; }
  return syscall(SYS_rename, a, b);
}
static int s_unlink(const char *a) {
  if (!tracked_path(a)) { errno = EPERM; return -1; }   // nothing outside the scratch directory is ever removed
  fault_t *f = io_op("unlink", a, 0, 0);
  crash_or_torn(f);
  if (is(f, "eio") || is(f, "deny")) { errno = is(f, "eio") ? EIO : EACCES; return -1; }
  return syscall(SYS_unlink, a);
}
static int s_mkdir(const char *a, mode_t m) {
  if (!tracked_path(a)) { errno = EPERM; return -1; }
  fault_t *f = io_op("mkdir", a, 0, 0);
  crash_or_torn(f);
  if (is(f, "eio") || is(f, "deny")) { errno = is(f, "eio") ? EIO : EACCES; return -1; }
  if (enospc_on && access(a, F_OK)) { errno = ENOSPC; return -1; }
  return syscall(SYS_mkdir, a, m);
}

// ---------------------------------------------------------------- libc entry points (MDLIB and libhdf5 both land here)
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return s_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return s_open(p, fl, m); }
int creat(const char *p, mode_t m) { return s_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void *b, size_t n) { return fp(fd) && armed ? s_write1(fd, b, n, -1) : r_write(fd, b, n); }
ssize_t read(int fd, void *b, size_t n) { return fp(fd) && armed ? s_read1(fd, b, n, -1) : r_read(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return fp(fd) && armed ? s_write1(fd, b, n, o) : r_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return fp(fd) && armed ? s_read1(fd, b, n, o) : r_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
int close(int fd) { return s_close(fd); }
static int s_ftrunc(int fd, off_t l) {
  if (fp(fd) && armed) {
    fault_t *f = io_op("trunc", fp(fd), (long)l, 0);
    crash_or_torn(f);
    if (is(f, "eio")) { errno = EIO; return -1; }
    if (is(f, "enospc")) enospc_on = 1;
    if (enospc_on) { struct stat sb; if (!fstat(fd, &sb) && sb.st_size < l) { errno = ENOSPC; return -1; } }
  }
  return syscall(SYS_ftruncate, fd, l);
}
int ftruncate(int fd, off_t l) { return s_ftrunc(fd, l); }
int ftruncate64(int fd, off_t l) { return s_ftrunc(fd, l); }
static int s_fsync(int fd) { if (fp(fd) && armed) { fault_t *f = io_op("fsync", fp(fd), 0, 0); crash_or_torn(f); if (is(f, "eio")) { errno = EIO; return -1; } } return 0; }
int fsync(int fd) { return s_fsync(fd); }
int fdatasync(int fd) { return s_fsync(fd); }
int rename(const char *a, const char *b) { return s_rename(a, b); }
int unlink(const char *a) { return s_unlink(a); }
int remove(const char *a) { return s_unlink(a); }
int mkdir(const char *a, mode_t m) { return s_mkdir(a, m); }

// ---------------------------------------------------------------- stdio of MDLIB (symbols of its objects are redirected to sim_*)
typedef struct { int fd; int app; } ck_t;
static ssize_t ck_write(void *c, const char *b, size_t n) {   // like glibc's file write: loops over short writes, stops on error
  ck_t *k = c; size_t done = 0;
  while (done < n) { ssize_t w = s_write1(k->fd, b + done, n - done, -1); if (w <= 0) break; done += w; }
  return done;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return s_read1(((ck_t *)c)->fd, b, n, -1); }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = lseek(((ck_t *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { ck_t *k = c; int r = s_close(k->fd); free(k); return r; }
FILE *sim_fopen(const char *p, const char *mode) {
  if (!tracked_path(p)) return fopen(p, mode);
  int fl, plus = strchr(mode, '+') != NULL;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return NULL;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = s_open(p, fl, 0666);
  if (fd < 0) return NULL;
  ck_t *k = malloc(sizeof *k); k->fd = fd; k->app = mode[0] == 'a';
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(k, mode, io);
  return f;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *m) {
  if (!fp(fd)) return fdopen(fd, m);
  ck_t *k = malloc(sizeof *k); k->fd = fd; k->app = 0;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie(k, m, io);
}
static int fno(FILE *f) { return fileno(f); }
int sim_fileno(FILE *f) { (void)fno; int r = fileno(f); return r < 0 ? 1000 : r; }   // fsync on a simulated stream: accepted
FILE *sim_popen(const char *c, const char *m) { io_op("popen", "cmd", 0, 0); (void)c; return fopen("/dev/null", m); }
int sim_pclose(FILE *f) { return fclose(f); }
FILE *sim_tmpfile(void) { char b[64]; static int n; snprintf(b, sizeof b, "mdsim_tmp%d", n++); return sim_fopen(b, "w+"); }

static int run_simple(char *cmd) {
  char *av[64]; int ac = 0;
  for (char *t = strtok(cmd, " \t\n"); t && ac < 63; t = strtok(NULL, " \t\n")) {
    size_t l = strlen(t);
    if (l > 1 && (t[0] == '\'' || t[0] == '"')) { t[l - 1] = 0; t++; }
    if (!strncmp(t, "2>", 2) || !strncmp(t, ">", 1)) continue;
    av[ac++] = t;
  }
  if (!ac) return 0;
  int force = 0, par = 0, k = 1;
  for (; k < ac && av[k][0] == '-'; k++) { if (strchr(av[k], 'f')) force = 1; if (strchr(av[k], 'p')) par = 1; }
  const char *c = strrchr(av[0], '/') ? strrchr(av[0], '/') + 1 : av[0];
  if (!strcmp(c, "mv") && ac - k == 2) return s_rename(av[k], av[k + 1]) ? 1 : 0;
  if (!strcmp(c, "rm")) { int rc = 0; for (; k < ac; k++) if (s_unlink(av[k]) && !(force && errno == ENOENT)) rc = 1; return rc; }
  if (!strcmp(c, "mkdir")) { int rc = 0; for (; k < ac; k++) if (s_mkdir(av[k], 0777) && !(par && errno == EEXIST)) rc = 1; return rc; }
  if (!strcmp(c, "cp") && ac - k == 2) {
    int a = s_open(av[k], O_RDONLY, 0); if (a < 0) return 1;
    int b = s_open(av[k + 1], O_WRONLY | O_CREAT | O_TRUNC, 0666); if (b < 0) { s_close(a); return 1; }
    char buf[65536]; ssize_t n; int rc = 0;
    while ((n = s_read1(a, buf, sizeof buf, -1)) > 0) { ssize_t d = 0; while (d < n) { ssize_t w = s_write1(b, buf + d, n - d, -1); if (w <= 0) { rc = 1; break; } d += w; } if (rc) break; }
    if (n < 0) rc = 1;
    s_close(a); if (s_close(b)) rc = 1;
    return rc;
  }
  if (!strcmp(c, "sync") || !strcmp(c, "true") || !strcmp(c, ":") || !strcmp(c, "echo")) return 0;
  io_op("system?", av[0], ac, 0);
  return 127;
}
int sim_system(const char *c) {
  if (!c) return 1;
  fault_t *f = io_op("system", "cmd", (long)strlen(c), 0);
  crash_or_torn(f);
  if (is(f, "eio") || is(f, "deny")) return -1;           // fork failed
  char *d = strdup(c), *p = d; int rc = 0;
  while (p && *p) {
    char *q = strstr(p, "&&"), *r = strchr(p, ';'), *nx = NULL; int andm = 0;
    if (q && (!r || q < r)) { *q = 0; nx = q + 2; andm = 1; } else if (r) { *r = 0; nx = r + 1; }
    rc = run_simple(p);
    if (andm && rc) break;
    p = nx;
  }
  free(d);
  return rc << 8;
}

// ---------------------------------------------------------------- heap of MDLIB
static void fillmem(void *p, size_t from, size_t n) {
  unsigned char *c = p;
  switch (plan.fill) {
    case 0: return;
    case 1: memset(c + from, 0, n - from); return;
    case 2: memset(c + from, 0xFF, n - from); return;
    case 3: { uint64_t s = plan.seed ^ (uint64_t)st.allocs * 0x9E3779B97F4A7C15ull; size_t i = from; while (i < n) { uint64_t v = sm64(&s); size_t k = n - i < 8 ? n - i : 8; memcpy(c + i, &v, k); i += k; } return; }
    case 4: { size_t i = from; while (i < n) { double d = 0.37 + (double)(i % 7); size_t k = n - i < 8 ? n - i : 8; memcpy(c + i, &d, k); i += k; } return; }
    default: memset(c + from, 0x11 * (plan.fill & 15), n - from);
  }
}
static int nomem(void) {
  if (!armed) return 0;
  st.allocs++;
  for (int i = 0; i < plan.nfaults; i++) if (!strcmp(plan.faults[i].kind, "nomem") && plan.faults[i].at == st.allocs) { st.fired[i]++; return 1; }
  return 0;
}
// every block of MDLIB has guard zones on both sides: reading them gives the fill pattern, writing them is seen at free
#define HEAD 512
#define TAIL 512
typedef struct { char *p; size_t n; void *ra; } blk_t;
static blk_t *tab; static size_t tcap, tlive, tused;
#define TOMB ((char *)1)
static size_t thash(const char *p) { uint64_t v = (uint64_t)(uintptr_t)p >> 4; v *= 0x9E3779B97F4A7C15ull; return (size_t)(v >> 20); }
static void tput(char *p, size_t n, void *ra) {
  if ((tused + 1) * 2 > tcap) {
    blk_t *o = tab; size_t oc = tcap; tcap = tcap && tlive * 4 < tcap ? tcap : (tcap ? tcap * 2 : 1 << 16); tab = calloc(tcap, sizeof *tab); tused = tlive;
    for (size_t i = 0; i < oc; i++) if (o[i].p && o[i].p != TOMB) { size_t h = thash(o[i].p) & (tcap - 1); while (tab[h].p) h = (h + 1) & (tcap - 1); tab[h] = o[i]; }
    free(o);
  }
  size_t h = thash(p) & (tcap - 1);
  while (tab[h].p && tab[h].p != TOMB) h = (h + 1) & (tcap - 1);
  if (!tab[h].p) tused++;
  tlive++; tab[h] = (blk_t){p, n, ra};
}
static blk_t *tget(char *p) {
  if (!tcap) return NULL;
  size_t h = thash(p) & (tcap - 1);
  while (tab[h].p) { if (tab[h].p == p) return &tab[h]; h = (h + 1) & (tcap - 1); }
  return NULL;
}
static unsigned char gbyte(size_t i) { static const unsigned char pat[5] = {0x5A, 0x00, 0xFF, 0x3C, 0x41}; return plan.fill >= 3 ? (unsigned char)(0x40 + ((i * 37 + plan.fill * 11) & 31)) : pat[plan.fill]; }
static void guard(char *raw, size_t n) { for (size_t i = 0; i < HEAD; i++) raw[i] = gbyte(i); for (size_t i = 0; i < TAIL; i++) raw[HEAD + n + i] = gbyte(i); }
void sim_shadow_clear(void *p, size_t n);
static void *galloc(size_t n, int zero, void *ra) {
  char *raw = zero ? calloc(1, n + HEAD + TAIL) : malloc(n + HEAD + TAIL);
  if (!raw) return NULL;
  guard(raw, n);
  if (!zero && armed) fillmem(raw + HEAD, 0, n);
  tput(raw + HEAD, n, ra);
  sim_shadow_clear(raw + HEAD, n);
  return raw + HEAD;
}
static void gcheck(blk_t *b, void *ra) {
  char *raw = b->p - HEAD;
  for (size_t i = 0; i < HEAD; i++) if ((unsigned char)raw[i] != gbyte(i)) { if (!st.overruns++) { st.over_alloc = (long)b->ra; st.over_free = (long)ra; st.over_at = (long)i - HEAD; st.over_size = (long)b->n; } return; }
  for (size_t i = 0; i < TAIL; i++) if ((unsigned char)raw[HEAD + b->n + i] != gbyte(i)) { if (!st.overruns++) { st.over_alloc = (long)b->ra; st.over_free = (long)ra; st.over_at = (long)(b->n + i); st.over_size = (long)b->n; } return; }
}
void sim_dirty_stack(void);
void sim_free(void *q) {
  sim_dirty_stack();
  if (!q) return;
  blk_t *b = tget(q);
  if (!b) { free(q); return; }
  sim_shadow_clear(q, b->n);
  gcheck(b, __builtin_return_address(1));
  if (armed) fillmem(q, 0, b->n);                          // reading freed memory gives the fill pattern
  b->p = TOMB; tlive--;
  free((char *)q - HEAD);
}
void sim_heap_check(void) { for (size_t i = 0; i < tcap; i++) if (tab[i].p && tab[i].p != TOMB) gcheck(&tab[i], NULL); }
// what earlier calls left on the stack is part of the environment: written over at every call of the allocator and every parallel region
int sim_stackfill;
void __attribute__((noinline)) sim_dirty_stack(void) {
  if (!armed || !sim_stackfill) return;
  double b[640];
  if (sim_stackfill < 3) memset(b, sim_stackfill, sizeof b);
  else for (int i = 0; i < 640; i++) b[i] = sim_stackfill == 3 ? 1e5 * (i % 13) - 3.1 : 0.37 + (i % 7);
  __asm__ volatile("" : : "r"(b) : "memory");
}
void *sim_malloc(size_t n) { sim_dirty_stack(); if (nomem()) { errno = ENOMEM; return NULL; } return galloc(n, 0, __builtin_return_address(1)); }
void *sim_calloc(size_t a, size_t b) { sim_dirty_stack(); if (nomem()) { errno = ENOMEM; return NULL; } return galloc(a * b, 1, __builtin_return_address(1)); }
void *sim_realloc(void *q, size_t n) {
  if (nomem()) { errno = ENOMEM; return NULL; }
  blk_t *b = q ? tget(q) : NULL;
  if (q && !b) return realloc(q, n);
  char *p = galloc(n, 0, __builtin_return_address(1));
  if (p && q) { b = tget(q); memcpy(p, q, b->n < n ? b->n : n); sim_free(q); }
  return p;
}

// ---------------------------------------------------------------- clock and randomness
static double now = 1.7e9;
static double tick(void) {
  if (armed) st.clock_reads++;
  switch (plan.clockmode) {
    case 0: now += 1e-3; break;
    case 1: now += prng_unit(&rng_c) * 3600.0; break;
    case 2: now += (prng_unit(&rng_c) - 0.5) * 1e7; break;
    default: break;
  }
  return now;
}
time_t time(time_t *t) { time_t v = (time_t)tick(); if (t) *t = v; return v; }
clock_t clock(void) { return (clock_t)((tick() - 1.69e9) * CLOCKS_PER_SEC); }
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; double v = tick(); tv->tv_sec = (time_t)v; tv->tv_usec = (v - (time_t)v) * 1e6; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void)c; double v = tick(); ts->tv_sec = (time_t)v; ts->tv_nsec = (v - (time_t)v) * 1e9; return 0; }
double omp_get_wtime(void) { return tick(); }
double omp_get_wtick(void) { return 1e-9; }
int sim_rand(void) { st.rand_calls++; return (int)(prng_u64(&rng_r) >> 33); }
void sim_srand(unsigned s) { prng_seed(&rng_r, s); }
void sim_rand_reset(void) { prng_seed(&rng_r, 12345); }

void sim_io_init(void) {
  prng_seed(&rng_f, plan.seed * 31 + 1);
  prng_seed(&rng_c, plan.seed * 57 + 3);
  prng_seed(&rng_r, 12345);
  if (plan.iolog[0]) iolog = fopen(plan.iolog, "w");
}
void sim__exit(int c) { sim_finish("exit", c); }
void sim__Exit(int c) { sim_finish("exit", c); }
