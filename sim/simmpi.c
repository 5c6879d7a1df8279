/* simmpi: deterministic adversarial MPI used to run ARMCI-MPI under test.
 *
 * Ranks are forked processes which share an arena (state) and a memfd (window
 * memory).  One entity (rank main thread or extra thread) runs at a time; the
 * seeded scheduler picks the next one at each MPI call.  Every RMA operation is
 * a record that moves through stages, as late as MPI permits:
 *   ISSUED    origin buffer not yet read          (only origin can advance)
 *   CAPTURED  origin data copied                   (anyone may advance)
 *   APPLIED   target updated / target data fetched
 *   DONE      result landed in the origin's buffer (only origin can advance)
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <limits.h>
#include <complex.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sanitizer/asan_interface.h>
#include "sim.h"

sim_arena *A;
int g_rank = -1;
char *sys_mem;
size_t sim_region = REGION_STD;
static int g_memfd = -1;
static char *umem;              /* this rank's view of its region */
static __thread int g_ent = -1; /* this thread's schedulable entity */

enum { S_ISSUED = 0, S_CAPTURED, S_APPLIED, S_DONE };
enum { K_PUT = 1, K_GET, K_ACC, K_GACC, K_FOP, K_CAS };

typedef struct { int64_t disp; int32_t bt; int32_t n; } run_t;

typedef struct rop {
  struct rop *next;
  int win, origin, target, trank, kind, op, bt, stage, req;
  uint64_t seq;
  int64_t bytes, pos;
  char *payload, *result, *cmp;
  const char *obuf; run_t *oruns; int no;
  char *rbuf; run_t *rruns; int nr;
  run_t *truns; int nt; int64_t tlo, thi;
  int dead, byreq;
} rop;

typedef struct slot {
  struct slot *next;
  int ctx; uint64_t seq;
  int kind, root, op, np, arrived, left;
  char *data[MAXR]; size_t len[MAXR]; int here[MAXR];
  char *res; size_t reslen; int ready;
  int ival[MAXR];
} slot;

typedef struct pmsg {
  struct pmsg *next;
  int ctx, src, dst, tag; size_t n; char *data; int sync, matched; uint64_t seq; int internal;
} pmsg;

/* ------------------------------------------------------------------ arena */
void *sh_alloc(size_t n) {
  n = (n + 31) & ~(size_t)15;
  size_t at = A->brk;
  if (at + n > A->cap) sim_fatal(ST_UNSUPPORTED, "simmpi arena exhausted");
  A->brk = at + n;
  return (char *)A + at;
}
void sh_free(void *p, size_t n) { (void)p; (void)n; }

static char *region_sys(int rank) { return sys_mem + (size_t)rank * REGION; }

#define LOGCAP ((size_t)64 << 20)
static char *logmem;
static void map_regions(size_t each) {
  if (sys_mem && each == sim_region) return;
  if (sys_mem) munmap(sys_mem, sim_region * 2 * MAXR);
  sim_region = each;
  size_t tot = REGION * 2 * MAXR;
  if (ftruncate(g_memfd, (off_t)tot)) { perror("ftruncate"); exit(2); }
  sys_mem = mmap(NULL, tot, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, g_memfd, 0);
  if (sys_mem == MAP_FAILED) { perror("mmap memfd"); exit(2); }
}
void sim_boot(size_t arena_bytes, int memfd) {
  A = mmap(NULL, arena_bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (A == MAP_FAILED) { perror("mmap arena"); exit(2); }
  A->cap = arena_bytes;
  logmem = mmap(NULL, LOGCAP * MAXR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (logmem == MAP_FAILED) { perror("mmap log"); exit(2); }
  A->brk = (sizeof *A + 63) & ~(size_t)63;
  g_memfd = memfd;
  map_regions(REGION_STD);
}

void sim_case_init(const sim_cfg *c) {
  size_t used = A->brk, cap = A->cap;
  memset(A, 0, used);
  A->cap = cap;
  A->brk = (sizeof *A + 63) & ~(size_t)63;
  A->cfg = *c;
  A->prng = c->seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  A->nents = c->np;
  A->frank = -1;
  A->nctx = 1 + MAXR;
  A->ctx[0].used = 1; A->ctx[0].n = c->np;
  for (int i = 0; i < c->np; i++) {
    A->ctx[0].ranks[i] = i;
    A->ctx[1 + i].used = 1; A->ctx[1 + i].n = 1; A->ctx[1 + i].ranks[0] = i;
    A->ent[i].state = ES_RUN; A->ent[i].rank = i; A->ent[i].prio = 0;
    A->logcap[i] = LOGCAP;
    A->log[i] = logmem + (size_t)i * LOGCAP;
  }
  /* drop all window memory of the previous case, then lay down a garbage
   * pattern lazily (allocations fill themselves) */
  map_regions(c->big == 1 ? REGION_BIG : c->big ? REGION_WIDE : REGION_STD);
  if (ftruncate(g_memfd, 0) || ftruncate(g_memfd, (off_t)(REGION * 2 * MAXR))) abort();
}

uint32_t sim_rnd(uint32_t n) {
  A->prng ^= A->prng << 13; A->prng ^= A->prng >> 7; A->prng ^= A->prng << 17;
  uint64_t x = A->prng * 0x2545F4914F6CDD1Dull;
  return n ? (uint32_t)((x >> 32) % n) : 0;
}

void sim_log(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char *l = A->log[g_rank]; size_t room = A->logcap[g_rank] - A->loglen[g_rank];
  int n = vsnprintf(l + A->loglen[g_rank], room, fmt, ap);
  va_end(ap);
  if (n < 0 || (size_t)n >= room) sim_fatal(ST_UNSUPPORTED, "log overflow");
  A->loglen[g_rank] += (size_t)n;
}

void sim_fatal(int status, const char *fmt, ...) {
  if (A->status == ST_OK) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(A->msg, sizeof A->msg, fmt, ap);
    va_end(ap);
    A->frank = g_rank;
    A->status = status;
  }
  fflush(stdout); fflush(stderr);
  _exit(77);
}

/* -------------------------------------------------------------- scheduler */
static void fwait(volatile int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT, v, NULL, NULL, 0); }
static void fwake(volatile int *p) { syscall(SYS_futex, p, FUTEX_WAKE, 1, NULL, NULL, 0); }

void sim_event(void) { A->events++; }

static int eligible(int i) {
  sim_ent *e = &A->ent[i];
  return e->state == ES_RUN || (e->state == ES_BLOCK && e->seen < A->events);
}

static int progress(int forced);

static int pick(void) {
  int cand[MAXE], n = 0;
  for (int i = 0; i < A->nents; i++) if (A->ent[i].pause <= A->steps && eligible(i)) cand[n++] = i;
  if (!n) for (int i = 0; i < A->nents; i++) if (eligible(i)) { A->ent[i].pause = 0; cand[n++] = i; }
  if (!n) return -1;
  if (A->cfg.policy == 2) { /* priority based: highest priority wins, random change points */
    int best = cand[0];
    for (int i = 1; i < n; i++) if (A->ent[cand[i]].prio > A->ent[best].prio) best = cand[i];
    return best;
  }
  return cand[sim_rnd((uint32_t)n)];
}

static void switch_to(int next) {
  int self = g_ent;
  if (next == self) { A->cur = self; return; }
  A->st_switch++;
  A->cur = next;
  A->ent[next].go = 1;
  fwake(&A->ent[next].go);
  while (!A->ent[self].go) fwait(&A->ent[self].go, 0);
  A->ent[self].go = 0;
}

static void step(const char *where) {
  sim_ent *e = &A->ent[g_ent];
  strncpy(e->where, where, sizeof e->where - 1);
  if (++A->steps > A->cfg.budget) sim_fatal(ST_LIVELOCK, "step budget exhausted in %s", where);
}

static void deadlock(void) {
  char b[1024]; size_t n = 0;
  for (int i = 0; i < A->nents; i++)
    if (A->ent[i].state == ES_BLOCK)
      n += (size_t)snprintf(b + n, sizeof b - n, " rank%d:%s", A->ent[i].rank, A->ent[i].where);
  sim_fatal(ST_DEADLOCK, "no process can advance:%s", b);
}

void sim_point(const char *where) {
  if (g_ent < 0) return;
  step(where);
  A->ent[g_ent].state = ES_RUN;
  progress(0);
  int p = A->cfg.policy;
  if (p == 1 && sim_rnd(100) < (uint32_t)A->cfg.stick) return;
  if (p == 2) {
    if (sim_rnd(100) < (uint32_t)A->cfg.stick) return;
    if (sim_rnd(4) == 0) A->ent[g_ent].prio = (int)sim_rnd(1000);
  }
  int nx = pick();
  if (nx >= 0) switch_to(nx);
}

void sim_spin(const char *where) {
  if (g_ent < 0) return;
  step(where);
  A->ent[g_ent].prio = -(int)(A->steps & 0x3fffffff) - 1; /* below everybody: polling is fair */
  A->ent[g_ent].state = ES_RUN;
  progress(0);
  int nx = pick();
  /* a lone spinner: make the transport move */
  if (nx == g_ent) progress(1);
  if (nx >= 0) switch_to(nx);
}

/* wait until something changed; the caller loops on its condition */
static void block(const char *where) {
  sim_ent *e = &A->ent[g_ent];
  step(where);
  A->st_blocked++;
  e->state = ES_BLOCK; e->seen = A->events;
  int nx = pick();
  while (nx < 0) {
    if (!progress(1)) deadlock();
    nx = pick();
  }
  switch_to(nx);
  e->state = ES_RUN;
}
#define WAIT_UNTIL(cond, where) do { while (!(cond)) block(where); } while (0)

static void leave_sched(void) {
  A->ent[g_ent].state = ES_DONE;
  A->events++;
  int nx = pick();
  int live = 0;
  for (int i = 0; i < A->nents; i++) if (A->ent[i].state != ES_DONE) live = 1;
  if (nx < 0 && live) {
    while (nx < 0) { if (!progress(1)) deadlock(); nx = pick(); }
  }
  if (nx >= 0) { A->cur = nx; A->ent[nx].go = 1; fwake(&A->ent[nx].go); }
}

void sim_rank_end(void) {
  fflush(stdout); fflush(stderr);
  leave_sched();
  _exit(0);
}

/* threads */
struct tstart { void *(*fn)(void *); void *arg; int ent; };
static pthread_t ent_thread[MAXE];
static void *tmain(void *p) {
  struct tstart t = *(struct tstart *)p; free(p);
  g_ent = t.ent;
  while (!A->ent[g_ent].go) fwait(&A->ent[g_ent].go, 0);
  A->ent[g_ent].go = 0;
  void *r = t.fn(t.arg);
  leave_sched();
  return r;
}
int sim_spawn(void *(*fn)(void *), void *arg) {
  if (A->nents >= MAXE) sim_fatal(ST_UNSUPPORTED, "too many threads");
  int e = A->nents++;
  memset(&A->ent[e], 0, sizeof A->ent[e]);
  A->ent[e].rank = g_rank; A->ent[e].state = ES_RUN; A->ent[e].prio = A->ent[g_ent].prio;
  struct tstart *t = malloc(sizeof *t);
  t->fn = fn; t->arg = arg; t->ent = e;
  if (pthread_create(&ent_thread[e], NULL, tmain, t)) sim_fatal(ST_UNSUPPORTED, "pthread_create");
  return e;
}
int sim_threads(void) {
  int n = 0; for (int e = A->cfg.np; e < A->nents; e++) n += A->ent[e].rank == g_rank && A->ent[e].state != ES_DONE;
  return n;
}
void sim_join(int e) {
  WAIT_UNTIL(A->ent[e].state == ES_DONE, "pthread_join");
  pthread_join(ent_thread[e], NULL);
}
/* replacements for what the library calls */
int lib_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  (void)a; int e = sim_spawn(fn, arg); *t = ent_thread[e]; sim_point("pthread_create"); return 0;
}
int lib_pthread_join(pthread_t t, void **ret) {
  for (int e = 0; e < A->nents; e++)
    if (A->ent[e].rank == g_rank && e >= A->cfg.np && pthread_equal(ent_thread[e], t)) {
      WAIT_UNTIL(A->ent[e].state == ES_DONE, "pthread_join");
      break;
    }
  return pthread_join(t, ret);
}
void lib_pthread_exit(void *r) { leave_sched(); pthread_exit(r); }
int lib_pthread_mutex_lock(pthread_mutex_t *m) {
  while (pthread_mutex_trylock(m) == EBUSY) sim_spin("pthread_mutex_lock");
  return 0;
}
int lib_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); sim_event(); return r; }
static void nap(double us, const char *what) {
  if (A && g_ent >= 0 && us >= 200) A->ent[g_ent].pause = A->steps + 10 + sim_rnd(200);
  sim_spin(what);
}
int lib_nanosleep(const struct timespec *a, struct timespec *b) {
  (void)b;
  if (a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999) { sim_spin("nanosleep"); errno = EINVAL; return -1; }
  nap(a->tv_sec * 1e6 + a->tv_nsec / 1e3, "nanosleep"); return 0;
}
int lib_usleep(unsigned u) { nap(u, "usleep"); return 0; }
unsigned lib_sleep(unsigned u) { nap(u * 1e6, "sleep"); return 0; }
int lib_sched_yield(void) { sim_spin("sched_yield"); return 0; }
void __sanitizer_cov_trace_pc(void);
/* switch points inside library code for multi-threaded cases */
void __sanitizer_cov_trace_pc(void) {
  if (!A || !A->cfg.threadpts || g_ent < 0 || A->nents == A->cfg.np) return;
  if (sim_rnd(1000) < (uint32_t)A->cfg.threadpts) {
    uint32_t k = sim_rnd(24);
    if (k == 0) A->ent[g_ent].pause = A->steps + 20 + sim_rnd(300); /* stop here for long */
    if (k < 4) sim_spin("code"); else sim_point("code");
  }
}

/* preemption between the library's own loads and stores of shared memory; in
   multi-threaded cases between any two loads and stores outside the stack */
static void mem_point(const void *p) {
  if (!A || g_ent < 0 || !A->cfg.mempts) return;
  if (!sim_in_region(p)) {
    const char *sp = __builtin_frame_address(0);
    if (A->nents == A->cfg.np || ((const char *)p > sp - 65536 && (const char *)p < sp + (1 << 20))) return;
    if (sim_rnd(4000) >= (uint32_t)A->cfg.mempts) return;
  } else if (sim_rnd(1000) >= (uint32_t)A->cfg.mempts) return;
  if (sim_rnd(16) == 0) A->ent[g_ent].pause = A->steps + 20 + sim_rnd(300);
  sim_point("memory access");
}
#define MP(N) void __sanitizer_cov_load##N(const void *p) { mem_point(p); } void __sanitizer_cov_store##N(const void *p) { mem_point(p); }
MP(1) MP(2) MP(4) MP(8) MP(16)
#undef MP

/* library heap accounting */
static void **lib_tab; static size_t lib_cap, lib_n;   /* open addressing */
static size_t lt_at(const void *p) { return (size_t)(((uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 20) & (lib_cap - 1); }
static void lt_put(void *p) { size_t i = lt_at(p); while (lib_tab[i]) i = (i + 1) & (lib_cap - 1); lib_tab[i] = p; }
static void lt_add(void *p) {
  if (!p) return;
  if (2 * (lib_n + 1) > lib_cap) {
    void **old = lib_tab; size_t oc = lib_cap;
    lib_cap = oc ? 2 * oc : 1024; lib_tab = calloc(lib_cap, sizeof *lib_tab);
    for (size_t i = 0; i < oc; i++) if (old[i]) lt_put(old[i]);
    free(old);
  }
  lt_put(p); lib_n++;
}
static void lt_del(void *p) {
  if (!p || !lib_cap) return;
  size_t m = lib_cap - 1, i = lt_at(p);
  while (lib_tab[i] && lib_tab[i] != p) i = (i + 1) & m;
  if (!lib_tab[i]) return;
  lib_tab[i] = NULL; lib_n--;
  for (size_t j = (i + 1) & m; lib_tab[j]; j = (j + 1) & m) { void *q = lib_tab[j]; lib_tab[j] = NULL; lt_put(q); }
}
long sim_lib_live(void) { return (long)lib_n; }
void *lib_malloc(size_t n) { void *p = malloc(n); lt_add(p); return p; }
void *lib_calloc(size_t a, size_t b) { void *p = calloc(a, b); lt_add(p); return p; }
void *lib_realloc(void *q, size_t n) { lt_del(q); void *p = realloc(q, n); lt_add(p); return p; }
void lib_free(void *p) { lt_del(p); free(p); }
char *lib_strdup(const char *s) { char *p = strdup(s); lt_add(p); return p; }
int lib_posix_memalign(void **p, size_t a, size_t n) { int r = posix_memalign(p, a, n); if (!r) lt_add(*p); return r; }
void *lib_aligned_alloc(size_t a, size_t n) { void *p = aligned_alloc(a, n); lt_add(p); return p; }

/* --------------------------------------------------------- region memory */
typedef struct { size_t off, len; } rng;
static rng *ualloc; static size_t un, ucap;   /* sorted by off */

int sim_in_region(const void *p) {
  return umem && (const char *)p >= umem && (const char *)p < umem + REGION;
}

#define BIGFILL ((size_t)128 << 10)
static void *umem_alloc(size_t n) {
  size_t need = n ? n : 1, pl = (size_t)A->cfg.place, off = (size_t)-1;
  size_t lo = 4096, align = pl == 3 ? 4096 : 16, gap = A->cfg.big == 1 ? 256 : pl == 1 ? 64 : 0;
  if (pl == 2 && A->cfg.big != 1) { /* random position */
    for (int t = 0; t < 50 && off == (size_t)-1; t++) {
      size_t span = REGION / 8; /* keep it dense so that addresses coincide across ranks */
      if (need > span / 2) span = REGION - 8192;
      size_t o = (lo + (size_t)sim_rnd((uint32_t)(span / 16)) * 16);
      if (o + need > REGION - 4096) continue;
      size_t i; for (i = 0; i < un; i++) if (o < ualloc[i].off + ualloc[i].len && ualloc[i].off < o + need + 15) break;
      if (i == un) off = o;
    }
  }
  if (off == (size_t)-1) { /* first fit */
    size_t o = lo;
    for (size_t i = 0; i <= un; i++) {
      size_t lim = i < un ? ualloc[i].off : REGION - 4096;
      if (o + need + gap <= lim) { off = o; break; }
      o = (ualloc[i].off + ualloc[i].len + gap + align - 1) & ~(align - 1);
    }
  }
  if (off == (size_t)-1) return NULL;
  if (un == ucap) { ucap = ucap ? 2 * ucap : 32; ualloc = realloc(ualloc, ucap * sizeof *ualloc); }
  size_t i = un; while (i > 0 && ualloc[i - 1].off > off) { ualloc[i] = ualloc[i - 1]; i--; }
  ualloc[i].off = off; ualloc[i].len = need; un++;
  if (A->cfg.big == 1) {   /* poison only around the allocation */
    size_t end = (off + n + 7) & ~(size_t)7;
    ASAN_POISON_MEMORY_REGION(umem + off - 64, 64);
    ASAN_POISON_MEMORY_REGION(umem + end, 64);
    if (n) { ASAN_UNPOISON_MEMORY_REGION(umem + off, n < 128 ? n : 128); if (n & 7) { ASAN_POISON_MEMORY_REGION(umem + (end - 8), 8); ASAN_UNPOISON_MEMORY_REGION(umem + (end - 8), n & 7); } }
  } else ASAN_UNPOISON_MEMORY_REGION(umem + off, n);
  char *s = region_sys(g_rank) + off;
  uint8_t x = (uint8_t)(sim_rnd(255) + 1);
  for (size_t k = 0; k < need; k++) {
    if (A->cfg.big == 1 && need > BIGFILL && k == BIGFILL / 2) k = need - BIGFILL / 2;
    s[k] = (char)(x + k * 7);
  }
  return umem + off;
}
static int umem_free(void *p) {
  size_t off = (size_t)((char *)p - umem);
  for (size_t i = 0; i < un; i++) if (ualloc[i].off == off) {
    char *s = region_sys(g_rank) + off;
    size_t ln = ualloc[i].len, n8 = (ln + 7) & ~(size_t)7;
    if (A->cfg.big == 1) {
      memset(s, 0xDB, ln > BIGFILL ? BIGFILL : ln);
      ASAN_UNPOISON_MEMORY_REGION(umem + off - 64, 64);
      ASAN_UNPOISON_MEMORY_REGION(umem + off + n8 - 8, 72);
    } else {
      memset(s, 0xDB, ln);
      ASAN_POISON_MEMORY_REGION(umem + off, (ln + 15) & ~(size_t)15);
    }
    memmove(&ualloc[i], &ualloc[i + 1], (un - i - 1) * sizeof *ualloc); un--;
    return 0;
  }
  return -1;
}
static int umem_covers(const void *p, size_t n) {
  size_t off = (size_t)((const char *)p - umem);
  for (size_t i = 0; i < un; i++) if (ualloc[i].off <= off && off + n <= ualloc[i].off + ualloc[i].len) return 1;
  return 0;
}

/* -------------------------------------------------------------- handles */
struct gcomm { int live, ctx, rank; uint64_t seq; char name[MPI_MAX_OBJECT_NAME]; };
struct ggroup { int live, n; int r[MAXR]; };
struct gtype { int live, committed, nr; run_t *runs; int64_t lb, ub, tlb, tub, size; };
struct gop { int live; MPI_User_function *fn; int commute; };
struct ginfo { int live, n; char k[24][64]; char v[24][128]; };
struct greq { int live, kind; rop *op; uint64_t opseq; int done; pmsg *m; int ctx, src, tag; char *buf; size_t cap; int ncount; struct gtype *ty; int tests; MPI_Status st; slot *sl; uint64_t post; };
struct gwin { int live, idx, comm_rank; int epoch_all; int epoch[MAXR]; int epochkind[MAXR]; int ctxcomm; int owns; void *base; MPI_Comm comm; int a_unit, a_model, a_flavor; MPI_Aint a_size; char name[64]; };

#define TABLE(T, name, CAP) static struct T name[CAP]; static int name##_n = 1; \
  static int name##_new(void) { if (name##_n >= CAP) { sim_fatal(ST_UNSUPPORTED, #T " table full"); } return name##_n++; }
TABLE(gcomm, comms, 2048)
TABLE(ggroup, groups, 8192)
TABLE(gtype, types, 60000)
TABLE(gop, gops, 512)
TABLE(ginfo, infos, 1024)
TABLE(greq, reqs, 60000)
TABLE(gwin, wins, 1024)

#define HK(h) ((int)((uintptr_t)(h) >> 40))
#define HN(h) ((int)(((uintptr_t)(h) >> 4) & 0xFFFFFFF))
#define HV(h, kind, tab, what, fn) \
  (HK(h) == (kind) && ((uintptr_t)(h) & 15) == 0 && HN(h) > 0 && HN(h) < tab##_n && tab[HN(h)].live \
   ? &tab[HN(h)] : (sim_fatal(ST_MPIERR, "%s: invalid or freed " what " handle %p", fn, (void *)(h)), &tab[0]))
#define GETCOMM(h) HV(h, 0x51, comms, "communicator", __func__)
#define GETGROUP(h) HV(h, 0x52, groups, "group", __func__)
#define GETTYPE(h) HV(h, 0x53, types, "datatype", __func__)
#define GETWIN(h) HV(h, 0x54, wins, "window", __func__)
#define GETINFO(h) HV(h, 0x55, infos, "info", __func__)
#define GETREQ(h) HV(h, 0x56, reqs, "request", __func__)
#define GETOP(h) HV(h, 0x57, gops, "op", __func__)
#define ERR(...) sim_fatal(ST_MPIERR, __VA_ARGS__)

static int mpi_state; /* 0 not initialised, 1 initialised, 2 finalised */
static int mpi_thread = MPI_THREAD_SINGLE;
static int in_mpi;
#define ENTER() do { if (mpi_state != 1) ERR("%s called while MPI is %s", __func__, mpi_state ? "finalized" : "not initialized"); \
    if (mpi_thread < MPI_THREAD_SERIALIZED && g_ent != g_rank) ERR("%s called from a second thread below MPI_THREAD_SERIALIZED", __func__); } while (0)
#define POINT() do { ENTER(); if (mpi_thread < MPI_THREAD_MULTIPLE) { if (in_mpi) ERR("%s: concurrent MPI calls below MPI_THREAD_MULTIPLE", __func__); in_mpi = 1; sim_point(__func__); in_mpi = 0; } else sim_point(__func__); } while (0)

static const int bsize[SIM_NBASIC] = {
  [1]=1,[2]=1,[3]=1,[4]=1,[5]=2,[6]=2,[7]=4,[8]=4,[9]=8,[10]=8,[11]=8,[12]=8,[13]=4,[14]=8,[15]=16,
  [16]=1,[17]=1,[18]=2,[19]=4,[20]=8,[21]=1,[22]=2,[23]=4,[24]=8,[25]=8,[26]=8,[27]=8,[28]=1,
  [29]=8,[30]=16,[31]=8,[32]=16,[33]=4,[34]=4,[35]=8,[36]=8,[37]=4 };

static MPI_Comm mkcomm(int ctx) {
  int i = comms_new(); comms[i].live = 1; comms[i].ctx = ctx; comms[i].rank = -1; comms[i].seq = 0;
  for (int k = 0; k < A->ctx[ctx].n; k++) if (A->ctx[ctx].ranks[k] == g_rank) comms[i].rank = k;
  return (MPI_Comm)SIM_H(0x51, i);
}

void sim_rank_start(int rank) {
  g_rank = rank; g_ent = rank;
  uintptr_t base = 0x200000000000ull;
  if (A->cfg.vamode == 0) base += (uintptr_t)rank * (A->cfg.big == 1 ? 0x1000000000ull : 0x10000000ull);
  else if (A->cfg.vamode == 2) base += (uintptr_t)(rank % 2) * 0x800;
  if (A->cfg.vamode == 2) base &= ~(uintptr_t)4095;
  umem = mmap((void *)base, REGION, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, g_memfd, (off_t)((size_t)rank * REGION));
  if (umem != (char *)base) sim_fatal(ST_UNSUPPORTED, "cannot map user region");
  if (A->cfg.big != 1) ASAN_POISON_MEMORY_REGION(umem, REGION);
  comms_n = 3;
  for (int i = 1; i <= 2; i++) {
    int ctx = i == 1 ? 0 : 1 + rank;
    comms[i].live = 1; comms[i].ctx = ctx; comms[i].rank = i == 1 ? rank : 0;
  }
  groups_n = 2; groups[1].live = 1; groups[1].n = 0;
  for (int i = 1; i < SIM_NBASIC; i++) {
    int t = types_new();
    struct gtype *T = &types[t];
    T->live = 1; T->committed = 1; T->nr = 1; T->runs = malloc(sizeof(run_t));
    T->runs[0].disp = 0; T->runs[0].bt = i; T->runs[0].n = 1;
    T->lb = T->tlb = 0; T->ub = T->tub = T->size = bsize[i];
  }
  for (int i = 1; i <= 14; i++) { int o = gops_new(); gops[o].live = 1; gops[o].commute = 1; }
  infos_n = 2; infos[1].live = 1;
    while (!A->ent[g_ent].go) fwait(&A->ent[g_ent].go, 0);
  A->ent[g_ent].go = 0;
}

/* ------------------------------------------------------------- datatypes */
static void rl_push(run_t **r, int *n, int *cap, int64_t disp, int bt, int64_t cnt) {
  if (cnt <= 0) return;
  if (*n && (*r)[*n - 1].bt == bt && (*r)[*n - 1].disp + (int64_t)(*r)[*n - 1].n * bsize[bt] == disp && (int64_t)(*r)[*n - 1].n + cnt < INT_MAX) {
    (*r)[*n - 1].n += (int32_t)cnt; return;
  }
  if (*n == *cap) { *cap = *cap ? 2 * *cap : 4; *r = realloc(*r, (size_t)*cap * sizeof **r); }
  (*r)[*n].disp = disp; (*r)[*n].bt = bt; (*r)[*n].n = (int32_t)cnt; (*n)++;
}
/* typemap of count elements of T, relative to the buffer address */
static run_t *expand(struct gtype *T, int64_t count, int *nout) {
  run_t *r = NULL; int n = 0, cap = 0; int64_t ext = T->ub - T->lb;
  if (T->nr == 1 && T->runs[0].disp == 0 && ext == (int64_t)T->runs[0].n * bsize[T->runs[0].bt]) {
    rl_push(&r, &n, &cap, 0, T->runs[0].bt, T->runs[0].n * count);
  } else
    for (int64_t c = 0; c < count; c++)
      for (int i = 0; i < T->nr; i++)
        rl_push(&r, &n, &cap, c * ext + T->runs[i].disp, T->runs[i].bt, T->runs[i].n);
  *nout = n;
  if (!r) r = malloc(sizeof *r);
  return r;
}
static int64_t runs_bytes(const run_t *r, int n) { int64_t s = 0; for (int i = 0; i < n; i++) s += (int64_t)r[i].n * bsize[r[i].bt]; return s; }
static void copy_out(char *dst, const char *base, const run_t *r, int n) {
  for (int i = 0; i < n; i++) { size_t k = (size_t)r[i].n * (size_t)bsize[r[i].bt]; memcpy(dst, base + r[i].disp, k); dst += k; }
}
static void copy_in(char *base, const char *src, const run_t *r, int n) {
  for (int i = 0; i < n; i++) { size_t k = (size_t)r[i].n * (size_t)bsize[r[i].bt]; memcpy(base + r[i].disp, src, k); src += k; }
}
static int cmp_run(const void *a, const void *b) {
  const run_t *x = a, *y = b; return x->disp < y->disp ? -1 : x->disp > y->disp;
}
static int runs_overlap(const run_t *r, int n) {
  if (n < 2) return 0;
  run_t *s = malloc((size_t)n * sizeof *s); memcpy(s, r, (size_t)n * sizeof *s);
  qsort(s, (size_t)n, sizeof *s, cmp_run);
  int bad = 0;
  for (int i = 1; i < n; i++) if (s[i - 1].disp + (int64_t)s[i - 1].n * bsize[s[i - 1].bt] > s[i].disp) bad = 1;
  free(s);
  return bad;
}
static int one_basic(const run_t *r, int n) { int b = n ? r[0].bt : 0; for (int i = 1; i < n; i++) if (r[i].bt != b) return -1; return b; }

static int mktype(run_t *r, int n, int64_t lb, int64_t ub, int explicit_lbub) {
  int t = types_new(); struct gtype *T = &types[t];
  T->live = 1; T->runs = r; T->nr = n;
  T->size = runs_bytes(r, n);
  T->tlb = INT64_MAX; T->tub = INT64_MIN;
  for (int i = 0; i < n; i++) {
    int64_t e = r[i].disp + (int64_t)r[i].n * bsize[r[i].bt];
    if (r[i].disp < T->tlb) T->tlb = r[i].disp;
    if (e > T->tub) T->tub = e;
  }
  if (!n) T->tlb = T->tub = 0;
  if (explicit_lbub) { T->lb = lb; T->ub = ub; } else { T->lb = T->tlb; T->ub = T->tub; }
  return t;
}
static MPI_Datatype th(int t) { return (MPI_Datatype)SIM_H(0x53, t); }

static int build_blocks(int n, const int *bl, int one_bl, const MPI_Aint *bd, const int *id, MPI_Datatype old, MPI_Datatype *out, const char *fn) {
  ENTER();
  struct gtype *T = HV(old, 0x53, types, "datatype", fn);
  if (n < 0) ERR("%s: negative count", fn);
  int64_t ext = T->ub - T->lb;
  run_t *r = NULL; int m = 0, cap = 0;
  int64_t lb = INT64_MAX, ub = INT64_MIN;
  for (int i = 0; i < n; i++) {
    int b = bl ? bl[i] : one_bl;
    if (b < 0) ERR("%s: negative blocklength", fn);
    int64_t d = bd ? (int64_t)bd[i] : (int64_t)id[i] * ext;
    for (int k = 0; k < b; k++) {
      if (d + k * ext + T->lb < lb) lb = d + k * ext + T->lb;
      if (d + k * ext + T->ub > ub) ub = d + k * ext + T->ub;
      for (int j = 0; j < T->nr; j++) rl_push(&r, &m, &cap, d + k * ext + T->runs[j].disp, T->runs[j].bt, T->runs[j].n);
    }
  }
  if (!m) { lb = 0; ub = 0; r = r ? r : malloc(sizeof *r); }
  *out = th(mktype(r, m, lb, ub, 1));
  return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) {
  ENTER();
  struct gtype *T = GETTYPE(o);
  if (n < 0) ERR("MPI_Type_contiguous: negative count %d", n);
  int m; run_t *r = expand(T, n, &m);
  *t = th(mktype(r, m, n ? T->lb : 0, n ? T->lb + n * (T->ub - T->lb) : 0, 1));
  return 0;
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *t) {
  MPI_Aint *d = malloc(sizeof *d * (size_t)(n > 0 ? n : 1)); for (int i = 0; i < n; i++) d[i] = i * st;
  int r = build_blocks(n, NULL, bl, d, NULL, o, t, __func__); free(d); return r;
}
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *t) {
  struct gtype *T = GETTYPE(o); return MPI_Type_create_hvector(n, bl, st * (T->ub - T->lb), o, t);
}
int MPI_Type_indexed(int n, const int b[], const int d[], MPI_Datatype o, MPI_Datatype *t) { return build_blocks(n, b, 0, NULL, d, o, t, __func__); }
int MPI_Type_create_hindexed(int n, const int b[], const MPI_Aint d[], MPI_Datatype o, MPI_Datatype *t) { return build_blocks(n, b, 0, d, NULL, o, t, __func__); }
int MPI_Type_create_indexed_block(int n, int b, const int d[], MPI_Datatype o, MPI_Datatype *t) { return build_blocks(n, NULL, b, NULL, d, o, t, __func__); }
int MPI_Type_create_hindexed_block(int n, int b, const MPI_Aint d[], MPI_Datatype o, MPI_Datatype *t) { return build_blocks(n, NULL, b, d, NULL, o, t, __func__); }
int MPI_Type_create_struct(int n, const int b[], const MPI_Aint d[], const MPI_Datatype ty[], MPI_Datatype *t) {
  ENTER();
  run_t *r = NULL; int m = 0, cap = 0; int64_t lb = INT64_MAX, ub = INT64_MIN;
  for (int i = 0; i < n; i++) {
    struct gtype *T = GETTYPE(ty[i]); int64_t e = T->ub - T->lb;
    for (int k = 0; k < b[i]; k++) {
      if (d[i] + k * e + T->lb < lb) lb = d[i] + k * e + T->lb;
      if (d[i] + k * e + T->ub > ub) ub = d[i] + k * e + T->ub;
      for (int j = 0; j < T->nr; j++) rl_push(&r, &m, &cap, d[i] + k * e + T->runs[j].disp, T->runs[j].bt, T->runs[j].n);
    }
  }
  if (!m) { lb = ub = 0; r = r ? r : malloc(sizeof *r); }
  *t = th(mktype(r, m, lb, ub, 1));
  return 0;
}
int MPI_Type_create_subarray(int nd, const int sz[], const int sub[], const int st[], int order, MPI_Datatype o, MPI_Datatype *t) {
  ENTER();
  struct gtype *T = GETTYPE(o);
  if (nd < 1) ERR("MPI_Type_create_subarray: ndims %d", nd);
  for (int i = 0; i < nd; i++)
    if (sz[i] < 1 || sub[i] < 1 || sub[i] > sz[i] || st[i] < 0 || st[i] > sz[i] - sub[i])
      ERR("MPI_Type_create_subarray: invalid dimension %d: size %d subsize %d start %d", i, sz[i], sub[i], st[i]);
  int64_t ext = T->ub - T->lb, tot = 1, nsub = 1;
  for (int i = 0; i < nd; i++) { tot *= sz[i]; nsub *= sub[i]; }
  int64_t str[32]; int64_t s = 1;
  if (order == MPI_ORDER_C) for (int i = nd - 1; i >= 0; i--) { str[i] = s; s *= sz[i]; }
  else if (order == MPI_ORDER_FORTRAN) for (int i = 0; i < nd; i++) { str[i] = s; s *= sz[i]; }
  else ERR("MPI_Type_create_subarray: order");
  run_t *r = NULL; int m = 0, cap = 0; int idx[32] = {0};
  for (int64_t k = 0; k < nsub; k++) {
    int64_t d = 0; for (int i = 0; i < nd; i++) d += (st[i] + idx[i]) * str[i];
    for (int j = 0; j < T->nr; j++) rl_push(&r, &m, &cap, d * ext + T->runs[j].disp, T->runs[j].bt, T->runs[j].n);
    if (order == MPI_ORDER_C) { for (int i = nd - 1; i >= 0; i--) { if (++idx[i] < sub[i]) break; idx[i] = 0; } }
    else for (int i = 0; i < nd; i++) { if (++idx[i] < sub[i]) break; idx[i] = 0; }
  }
  *t = th(mktype(r, m, 0, tot * ext, 1));
  return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *t) {
  ENTER();
  struct gtype *T = GETTYPE(o); run_t *r = malloc(sizeof *r * (size_t)(T->nr + 1)); memcpy(r, T->runs, sizeof *r * (size_t)T->nr);
  *t = th(mktype(r, T->nr, lb, lb + ext, 1)); return 0;
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t) {
  ENTER();
  struct gtype *T = GETTYPE(o); run_t *r = malloc(sizeof *r * (size_t)(T->nr + 1)); memcpy(r, T->runs, sizeof *r * (size_t)T->nr);
  int i = mktype(r, T->nr, T->lb, T->ub, 1); types[i].committed = types[HN(o)].committed; *t = th(i); return 0;
}
int MPI_Type_commit(MPI_Datatype *t) { ENTER(); struct gtype *T = GETTYPE(*t); T->committed = 1; return 0; }
int MPI_Type_free(MPI_Datatype *t) {
  ENTER(); struct gtype *T = GETTYPE(*t);
  if (HN(*t) < SIM_NBASIC) ERR("MPI_Type_free of a predefined type");
  T->live = 0; free(T->runs); T->runs = NULL; *t = MPI_DATATYPE_NULL; return 0;
}
int MPI_Type_size(MPI_Datatype t, int *s) { ENTER(); *s = (int)GETTYPE(t)->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count *s) { ENTER(); *s = GETTYPE(t)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { ENTER(); struct gtype *T = GETTYPE(t); *lb = T->lb; *e = T->ub - T->lb; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { ENTER(); struct gtype *T = GETTYPE(t); *lb = T->tlb; *e = T->tub - T->tlb; return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { ENTER(); struct gtype *T = GETTYPE(t); *lb = T->lb; *e = T->ub - T->lb; return 0; }
int MPI_Type_get_true_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { ENTER(); struct gtype *T = GETTYPE(t); *lb = T->tlb; *e = T->tub - T->tlb; return 0; }
int MPI_Type_set_name(MPI_Datatype t, const char *n) { (void)GETTYPE(t); (void)n; return 0; }
int MPI_Type_get_name(MPI_Datatype t, char *n, int *l) { (void)GETTYPE(t); *n = 0; *l = 0; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
static struct gtype *usetype(MPI_Datatype t, const char *fn) {
  struct gtype *T = HV(t, 0x53, types, "datatype", fn);
  if (!T->committed) ERR("%s: datatype not committed", fn);
  return T;
}
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm c, int *s) { (void)GETCOMM(c); *s = (int)(n * GETTYPE(t)->size); return 0; }
int MPI_Pack(const void *b, int n, MPI_Datatype t, void *o, int sz, int *pos, MPI_Comm c) {
  (void)GETCOMM(c); int m; run_t *r = expand(usetype(t, __func__), n, &m); int64_t k = runs_bytes(r, m);
  if (*pos + k > sz) ERR("MPI_Pack: buffer too small");
  copy_out((char *)o + *pos, b, r, m); *pos += (int)k; free(r); return 0;
}
int MPI_Unpack(const void *b, int sz, int *pos, void *o, int n, MPI_Datatype t, MPI_Comm c) {
  (void)GETCOMM(c); int m; run_t *r = expand(usetype(t, __func__), n, &m); int64_t k = runs_bytes(r, m);
  if (*pos + k > sz) ERR("MPI_Unpack: buffer too small");
  copy_in(o, (const char *)b + *pos, r, m); *pos += (int)k; free(r); return 0;
}

/* -------------------------------------------------------- element arithmetic */
static int is_cplx(int bt) { return bt >= 29 && bt <= 32; }
static void apply_op(int op, int bt, char *dst, const char *src, int64_t n, const char *fn) {
  if (op == 11) { memcpy(dst, src, (size_t)(n * bsize[bt])); return; }
  if (op == 12) return;
#define LOOP(T, E) for (int64_t i = 0; i < n; i++) { T a, b; memcpy(&a, dst + i * (int64_t)sizeof(T), sizeof(T)); memcpy(&b, src + i * (int64_t)sizeof(T), sizeof(T)); T c = (T)(E); memcpy(dst + i * (int64_t)sizeof(T), &c, sizeof(T)); } return;
#define UADD(T, o) ((T)((unsigned long long)a o (unsigned long long)b))
#define INTOPS(T) switch (op) { case 1: LOOP(T, UADD(T, +)) case 2: LOOP(T, UADD(T, *)) case 3: LOOP(T, a > b ? a : b) case 4: LOOP(T, a < b ? a : b) \
    case 5: LOOP(T, a && b) case 6: LOOP(T, a || b) case 7: LOOP(T, !a != !b) case 8: LOOP(T, a & b) case 9: LOOP(T, a | b) case 10: LOOP(T, a ^ b) } break;
#define FLTOPS(T) switch (op) { case 1: LOOP(T, a + b) case 2: LOOP(T, a * b) case 3: LOOP(T, a > b ? a : b) case 4: LOOP(T, a < b ? a : b) } break;
#define CPXOPS(T) switch (op) { case 1: LOOP(T, a + b) case 2: LOOP(T, a * b) } break;
#define BYTEOPS(T) switch (op) { case 8: LOOP(T, a & b) case 9: LOOP(T, a | b) case 10: LOOP(T, a ^ b) } break;
  switch (bt) {
    case 1: BYTEOPS(unsigned char)
    case 3: case 17: INTOPS(signed char)
    case 4: case 21: INTOPS(unsigned char)
    case 5: case 18: INTOPS(short)
    case 6: case 22: INTOPS(unsigned short)
    case 7: case 19: case 33: INTOPS(int)
    case 8: case 23: INTOPS(unsigned)
    case 9: case 11: case 20: case 25: case 26: case 27: INTOPS(long long)
    case 10: case 12: case 24: INTOPS(unsigned long long)
    case 13: case 34: FLTOPS(float)
    case 14: case 35: FLTOPS(double)
    case 15: FLTOPS(long double)
    case 16: switch (op) { case 5: LOOP(_Bool, a && b) case 6: LOOP(_Bool, a || b) case 7: LOOP(_Bool, a != b) } break;
    case 29: case 31: CPXOPS(float complex)
    case 30: case 32: CPXOPS(double complex)
    default: break;
  }
  ERR("%s: reduction op %d is not defined for datatype %d", fn, op, bt);
}

/* ------------------------------------------------------------ RMA engine */
static char *winpub(int w, int t) { return sys_mem + A->win[w].pub[t]; }

/* apply [pos, pos+n) bytes of the packed stream at the target */
static void apply_bytes(rop *o, int64_t from, int64_t upto) {
  char *base = winpub(o->win, o->trank);
  int64_t p = 0;
  for (int i = 0; i < o->nt && p < upto; i++) {
    int es = bsize[o->truns[i].bt]; int64_t len = (int64_t)o->truns[i].n * es;
    int64_t a = p < from ? from : p, b = p + len < upto ? p + len : upto;
    if (a < b) {
      char *d = base + o->truns[i].disp + (a - p);
      if (o->kind == K_GET) memcpy(o->result + a, d, (size_t)(b - a));
      else if (o->kind == K_PUT) memcpy(d, o->payload + a, (size_t)(b - a));
      else if (o->kind == K_CAS) {
        memcpy(o->result, d, (size_t)es);
        if (!memcmp(o->cmp, d, (size_t)es)) memcpy(d, o->payload, (size_t)es);
      } else {
        if (o->result) memcpy(o->result + a, d, (size_t)(b - a));
        if (o->payload) apply_op(o->op, o->truns[i].bt, d, o->payload + a, (b - a) / es, "accumulate");
      }
    }
    p += len;
  }
}
static int has_result(const rop *o) { return o->kind != K_PUT && o->kind != K_ACC; }
static int needs_capture(const rop *o) { return o->kind != K_GET && o->obuf != NULL; }
static int acc_class(const rop *o) { return o->kind >= K_ACC; }

static int writes(const rop *o) { return o->op != 12; }
static int acc_ordered(const sim_win *w, const rop *a, const rop *b) {
  int bit = writes(a) ? (writes(b) ? 8 : 2) : (writes(b) ? 4 : 1);
  /* order bits: rar 1, raw (read after write) 2, war (write after read) 4, waw 8 */
  if ((w->order & bit)) return 1;
  /* a fetching write both reads and writes */
  if (has_result(b) && writes(a) && (w->order & 2)) return 1;
  if (has_result(a) && writes(b) && (w->order & 4)) return 1;
  if (has_result(a) && has_result(b) && (w->order & 1)) return 1;
  return 0;
}

static rop *blocker(rop *o) {
  for (rop *q = A->ops; q && q->seq < o->seq; q = q->next) {
    if (q->dead || q->stage >= S_APPLIED || q->origin != o->origin || q->target != o->target) continue;
    if (A->cfg.transport == TR_WEAK) {
      if (q->win == o->win && acc_class(q) && acc_class(o) && q->tlo < o->thi && o->tlo < q->thi && acc_ordered(&A->win[o->win], q, o)) return q;
    } else return q;
  }
  return NULL;
}
static void op_capture(rop *o) {
  if (o->stage != S_ISSUED) return;
  if (needs_capture(o)) copy_out(o->payload, o->obuf, o->oruns, o->no);
  o->stage = S_CAPTURED;
}
static int is_atomic_unit(const rop *o) { return o->kind == K_FOP || o->kind == K_CAS; }
/* returns 1 when something moved; all = finish it */
static int op_apply(rop *o, int all) {
  if (o->stage != S_CAPTURED) return 0;
  if (blocker(o)) return 0;
  int es = o->nt ? bsize[o->truns[0].bt] : 1;
  int64_t upto = o->bytes;
  if (!all && A->cfg.tear && !is_atomic_unit(o) && o->bytes - o->pos > es) {
    int64_t k = (o->bytes - o->pos) / es;
    upto = o->pos + (1 + (int64_t)sim_rnd((uint32_t)k)) * es;
  }
  for (rop *q = A->ops; q && q->seq < o->seq; q = q->next)
    if (!q->dead && q->origin == o->origin && q->target == o->target && q->stage < S_APPLIED) { A->st_reorder++; break; }
  apply_bytes(o, o->pos, upto);
  o->pos = upto;
  if (upto >= o->bytes) o->stage = has_result(o) ? S_APPLIED : S_DONE;
  A->events++;
  return 1;
}
static void op_deliver(rop *o) {
  if (o->stage != S_APPLIED) return;
  if (o->rbuf || o->nr) copy_in(o->rbuf, o->result, o->rruns, o->nr);
  o->stage = S_DONE; A->events++;
}
static void ops_gc(void) {
  rop **pp = &A->ops;
  while (*pp) { if ((*pp)->stage == S_DONE) { (*pp)->dead = 1; *pp = (*pp)->next; A->nops--; } else pp = &(*pp)->next; }
}
static void op_finish_remote(rop *o) {
  /* own operation: run everything it depends on, in order */
  rop *b;
  op_capture(o);
  while ((b = blocker(o))) { op_finish_remote(b); }
  while (o->stage == S_CAPTURED) if (!op_apply(o, 1)) break;
  op_deliver(o);
}
static void op_finish_local(rop *o) {
  if (has_result(o) || o->target == g_rank) op_finish_remote(o);
  else op_capture(o);
}
/* operations on the process's own memory take effect no later than local completion */
static int local_done(rop *o) { return has_result(o) || o->target == o->origin ? o->stage == S_DONE : o->stage >= S_CAPTURED; }

/* spontaneous progress of the transport; forced: do at least one thing if possible */
static int progress(int forced) {
  if (!A->ops) return 0;
  int lazy = A->cfg.lazy, did = 0;
  uint32_t den = lazy == 0 ? 1 : lazy == 1 ? 2 : lazy == 2 ? 12 : 60;
  for (rop *o = A->ops; o; o = o->next) {
    if (!forced && sim_rnd(den)) continue;
    if (o->stage == S_ISSUED && o->origin == g_rank) { op_capture(o); did = 1; if (!forced && sim_rnd(2)) continue; }
    if (o->stage == S_CAPTURED) did |= op_apply(o, forced);
    if (o->stage == S_APPLIED && o->origin == g_rank && (forced || sim_rnd(2))) { op_deliver(o); did = 1; }
    if (forced && did) break;
  }
  ops_gc();
  if (did) A->events++;
  return did;
}

static int epoch_open(struct gwin *W, int t) { return W->epoch_all || W->epoch[t]; }

static run_t *sh_runs(const run_t *r, int n) {
  run_t *s = sh_alloc(sizeof *s * (size_t)(n + 1)); memcpy(s, r, sizeof *s * (size_t)n); return s;
}

static rop *issue(const char *fn, int kind, MPI_Win win, const void *ob, int oc, MPI_Datatype ot,
                  void *rb, int rc, MPI_Datatype rt, int trank, MPI_Aint disp, int tc, MPI_Datatype tt,
                  int op, const void *cmp) {
  struct gwin *W = HV(win, 0x54, wins, "window", fn);
  sim_win *w = &A->win[W->idx];
  if (trank == MPI_PROC_NULL) return NULL;
  if (trank < 0 || trank >= w->n) ERR("%s: target rank %d not in window of %d", fn, trank, w->n);
  if (!epoch_open(W, trank)) ERR("%s: no access epoch open for target %d", fn, trank);
  if (oc < 0 || rc < 0 || tc < 0) ERR("%s: negative count", fn);
  struct gtype *OT = kind == K_GET ? NULL : (ob || op != 12) && ot != MPI_DATATYPE_NULL ? usetype(ot, fn) : NULL;
  struct gtype *RT = kind == K_PUT || kind == K_ACC ? NULL : usetype(rt, fn);
  struct gtype *TT = usetype(tt, fn);
  int nt, no = 0, nr = 0;
  run_t *tr = expand(TT, tc, &nt), *orr = NULL, *rr = NULL;
  int64_t tb = runs_bytes(tr, nt);
  if (op == 12) OT = NULL;
  if (OT) { orr = expand(OT, oc, &no); if (runs_bytes(orr, no) != tb) ERR("%s: origin has %lld bytes, target %lld", fn, (long long)runs_bytes(orr, no), (long long)tb); }
  if (RT) { rr = expand(RT, rc, &nr); if (runs_bytes(rr, nr) != tb) ERR("%s: result has %lld bytes, target %lld", fn, (long long)runs_bytes(rr, nr), (long long)tb);
    if (runs_overlap(rr, nr)) ERR("%s: overlapping entries in receive buffer", fn); }
  if (kind != K_GET && runs_overlap(tr, nt)) ERR("%s: overlapping entries in target datatype", fn);
  int64_t lo = INT64_MAX, hi = INT64_MIN;
  for (int i = 0; i < nt; i++) {
    int64_t a = (int64_t)disp * w->unit[trank] + tr[i].disp, e = a + (int64_t)tr[i].n * bsize[tr[i].bt];
    if (a < 0 || e > w->size[trank]) ERR("%s: access [%lld,%lld) outside the target's window of %lld bytes (rank %d)", fn, (long long)a, (long long)e, (long long)w->size[trank], trank);
    tr[i].disp = a; if (a < lo) lo = a; if (e > hi) hi = e;
  }
  if (!nt) { lo = 0; hi = 0; }
  int bt = 0;
  if (kind >= K_ACC) {
    bt = one_basic(tr, nt);
    int b2 = OT ? one_basic(orr, no) : bt, b3 = RT ? one_basic(rr, nr) : bt;
    if (nt && (bt < 0 || b2 != bt || b3 != bt)) ERR("%s: basic datatypes differ (%d %d %d)", fn, b2, b3, bt);
    if (op < 1 || op > 12) ERR("%s: invalid op for accumulate", fn);
    if (nt && op <= 10) { char z[32] = {0}, y[32] = {0}; apply_op(op, bt, z, y, 0, fn); }
    if (kind == K_CAS && (is_cplx(bt) || bt == 13 || bt == 14)) ERR("%s: datatype not allowed", fn);
  }
  rop *o = sh_alloc(sizeof *o); memset(o, 0, sizeof *o);
  o->win = W->idx; o->origin = g_rank; o->target = w->world[trank]; o->trank = trank; o->kind = kind; o->op = op; o->bt = bt; o->req = -1;
  /* target is stored by window rank for memory, by world rank for ordering */
  o->seq = ++A->seq; o->bytes = tb;
  o->truns = sh_runs(tr, nt); o->nt = nt;
  o->tlo = lo; o->thi = hi;
  if (OT) { o->obuf = ob; o->oruns = sh_runs(orr, no); o->no = no; o->payload = sh_alloc((size_t)tb + 1); }
  if (RT) { o->rbuf = rb; o->rruns = sh_runs(rr, nr); o->nr = nr; o->result = sh_alloc((size_t)tb + 1); }
  if (cmp) { o->cmp = sh_alloc(32); memcpy(o->cmp, cmp, (size_t)bsize[bt]); }
  free(tr); free(orr); free(rr);
  /* displacements are window relative; make them relative to the target's public copy */
  rop **pp = &A->ops; while (*pp) pp = &(*pp)->next; *pp = o;
  A->nops++; A->st_rma++;
  if ((uint64_t)A->nops > A->st_maxpend) A->st_maxpend = (uint64_t)A->nops;
  if (A->cfg.poison && RT && kind == K_GET) {
    for (int i = 0; i < o->nr; i++) memset(o->rbuf + o->rruns[i].disp, 0xA5, (size_t)o->rruns[i].n * (size_t)bsize[o->rruns[i].bt]);
  }
  if (A->cfg.transport == TR_EAGER && A->cfg.lazy == 0) op_finish_remote(o);
  else A->st_delayed++;
  A->events++;
  return o;
}

static int win_of_target(sim_win *w, int world) { for (int i = 0; i < w->n; i++) if (w->world[i] == world) return i; return -1; }

/* ops pending for (win, this origin, target or -1) */
static void win_complete(int widx, int world, int remote) {
  for (rop *o = A->ops; o; o = o->next) {
    if (o->win != widx || o->origin != g_rank || (world >= 0 && o->target != world) || (remote ? o->stage == S_DONE : local_done(o))) continue;
    if (remote) op_finish_remote(o); else op_finish_local(o);
    if (remote ? o->stage != S_DONE : !local_done(o)) sim_fatal(ST_UNSUPPORTED, "internal: op cannot complete");
  }
  ops_gc(); A->events++;
}

/* separate memory model: reconcile the private and public copies of my part */
static void win_merge(int widx) {
  sim_win *w = &A->win[widx];
  if (w->model != MPI_WIN_SEPARATE) return;
  int me = win_of_target(w, g_rank); if (me < 0 || !w->size[me]) return;
  char *priv = region_sys(g_rank) + w->off[me], *pub = winpub(widx, me), *sn = w->snap[me];
  for (int64_t i = 0; i < w->size[me]; i++) {
    if (priv[i] != sn[i]) { pub[i] = priv[i]; }
    else if (pub[i] != priv[i]) { priv[i] = pub[i]; }
    sn[i] = priv[i];
  }
}

static MPI_Request mkreq(int kind, rop *o) {
#if SIM_VARIANT == 2
  /* Open MPI 5: a request-based operation holds one of the 254 references of a UCX endpoint until it completes */
  if (kind == 1 && o) {
    int held = 0;
    o->byreq = 1;
    for (rop *x = A->ops; x; x = x->next) held += x->origin == g_rank && x->byreq && !local_done(x);
    if (held > 254) ERR("more than 254 request-based operations outstanding");
  }
#endif
  int i = reqs_new(); memset(&reqs[i], 0, sizeof reqs[i]);
  reqs[i].live = 1; reqs[i].kind = kind; reqs[i].op = o; reqs[i].opseq = o ? o->seq : 0;
  reqs[i].st.MPI_SOURCE = MPI_ANY_SOURCE; reqs[i].st.MPI_TAG = MPI_ANY_TAG;
  return (MPI_Request)SIM_H(0x56, i);
}

int MPI_Put(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w) {
  POINT(); issue(__func__, K_PUT, w, o, oc, ot, NULL, 0, MPI_DATATYPE_NULL, t, d, tc, tt, 11, NULL); return 0; }
int MPI_Get(void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w) {
  POINT(); issue(__func__, K_GET, w, NULL, 0, MPI_DATATYPE_NULL, o, oc, ot, t, d, tc, tt, 12, NULL); return 0; }
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w) {
  POINT(); (void)GETOP(op);
  if (op == MPI_NO_OP) ERR("MPI_Accumulate: MPI_NO_OP is invalid");
  issue(__func__, K_ACC, w, o, oc, ot, NULL, 0, MPI_DATATYPE_NULL, t, d, tc, tt, HN(op), NULL); return 0; }
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w) {
  POINT(); (void)GETOP(op); issue(__func__, K_GACC, w, o, oc, ot, r, rc, rt, t, d, tc, tt, HN(op), NULL); return 0; }
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype ty, int t, MPI_Aint d, MPI_Op op, MPI_Win w) {
  POINT(); (void)GETOP(op); if (HN(ty) >= SIM_NBASIC) ERR("MPI_Fetch_and_op: datatype must be predefined");
  issue(__func__, K_FOP, w, o, 1, ty, r, 1, ty, t, d, 1, ty, HN(op), NULL); return 0; }
int MPI_Compare_and_swap(const void *o, const void *c, void *r, MPI_Datatype ty, int t, MPI_Aint d, MPI_Win w) {
  POINT(); issue(__func__, K_CAS, w, o, 1, ty, r, 1, ty, t, d, 1, ty, 11, c); return 0; }
int MPI_Rput(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q) {
  POINT(); *q = mkreq(1, issue(__func__, K_PUT, w, o, oc, ot, NULL, 0, MPI_DATATYPE_NULL, t, d, tc, tt, 11, NULL)); return 0; }
int MPI_Rget(void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q) {
  POINT(); *q = mkreq(1, issue(__func__, K_GET, w, NULL, 0, MPI_DATATYPE_NULL, o, oc, ot, t, d, tc, tt, 12, NULL)); return 0; }
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) {
  POINT(); (void)GETOP(op); if (op == MPI_NO_OP) ERR("MPI_Raccumulate: MPI_NO_OP is invalid");
  *q = mkreq(1, issue(__func__, K_ACC, w, o, oc, ot, NULL, 0, MPI_DATATYPE_NULL, t, d, tc, tt, HN(op), NULL)); return 0; }
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) {
  POINT(); (void)GETOP(op); *q = mkreq(1, issue(__func__, K_GACC, w, o, oc, ot, r, rc, rt, t, d, tc, tt, HN(op), NULL)); return 0; }

static int tworld(struct gwin *W, int t, const char *fn) {
  sim_win *w = &A->win[W->idx];
  if (t < 0 || t >= w->n) ERR("%s: rank %d not in window of %d", fn, t, w->n);
  return w->world[t];
}
#define NEED_EPOCH(W, t) do { if (!epoch_open(W, t)) ERR("%s: no passive epoch open for target %d", __func__, t); } while (0)
static int any_epoch(struct gwin *W) { if (W->epoch_all) return 1; for (int i = 0; i < MAXR; i++) if (W->epoch[i]) return 1; return 0; }
int MPI_Win_flush(int t, MPI_Win win) { POINT(); struct gwin *W = GETWIN(win); int wr = tworld(W, t, __func__); NEED_EPOCH(W, t); win_complete(W->idx, wr, 1); return 0; }
int MPI_Win_flush_all(MPI_Win win) { POINT(); struct gwin *W = GETWIN(win); if (!any_epoch(W)) ERR("MPI_Win_flush_all: no epoch"); win_complete(W->idx, -1, 1); return 0; }
int MPI_Win_flush_local(int t, MPI_Win win) { POINT(); struct gwin *W = GETWIN(win); int wr = tworld(W, t, __func__); NEED_EPOCH(W, t); win_complete(W->idx, wr, 0); return 0; }
int MPI_Win_flush_local_all(MPI_Win win) { POINT(); struct gwin *W = GETWIN(win); if (!any_epoch(W)) ERR("MPI_Win_flush_local_all: no epoch"); win_complete(W->idx, -1, 0); return 0; }
int MPI_Win_sync(MPI_Win win) { POINT(); struct gwin *W = GETWIN(win); if (!any_epoch(W)) ERR("MPI_Win_sync: no epoch"); win_merge(W->idx); A->events++; return 0; }
int MPI_Win_lock(int type, int t, int as, MPI_Win win) {
  POINT(); struct gwin *W = GETWIN(win); sim_win *w = &A->win[W->idx]; (void)tworld(W, t, __func__);
  if (type != MPI_LOCK_EXCLUSIVE && type != MPI_LOCK_SHARED) ERR("MPI_Win_lock: lock type %d", type);
  if (W->epoch_all || W->epoch[t]) ERR("MPI_Win_lock: epoch already open for target %d", t);
  if (!(as & MPI_MODE_NOCHECK)) {
    if (type == MPI_LOCK_EXCLUSIVE) {
      if (w->lock_excl[t] || w->lock_shared[t]) A->st_lockwait++;
      WAIT_UNTIL(!w->lock_excl[t] && !w->lock_shared[t], __func__); w->lock_excl[t] = g_rank + 1; W->epochkind[t] = 1;
    } else {
      if (w->lock_excl[t]) A->st_lockwait++;
      WAIT_UNTIL(!w->lock_excl[t], __func__); w->lock_shared[t]++; W->epochkind[t] = 2; }
  } else W->epochkind[t] = 0;
  W->epoch[t] = 1; win_merge(W->idx); A->events++;
  return 0;
}
int MPI_Win_unlock(int t, MPI_Win win) {
  POINT(); struct gwin *W = GETWIN(win); sim_win *w = &A->win[W->idx]; int wr = tworld(W, t, __func__);
  if (!W->epoch[t]) ERR("MPI_Win_unlock: target %d not locked", t);
  win_complete(W->idx, wr, 1);
  if (W->epochkind[t] == 1) w->lock_excl[t] = 0; else if (W->epochkind[t] == 2) w->lock_shared[t]--;
  W->epoch[t] = 0; win_merge(W->idx); A->events++;
  return 0;
}
int MPI_Win_lock_all(int as, MPI_Win win) {
  POINT(); struct gwin *W = GETWIN(win); sim_win *w = &A->win[W->idx];
  if (any_epoch(W)) ERR("MPI_Win_lock_all: epoch already open");
  if (!(as & MPI_MODE_NOCHECK)) for (int t = 0; t < w->n; t++) { WAIT_UNTIL(!w->lock_excl[t], __func__); w->lock_shared[t]++; }
  W->epoch_all = 1 + !(as & MPI_MODE_NOCHECK); win_merge(W->idx); A->events++;
  return 0;
}
int MPI_Win_unlock_all(MPI_Win win) {
  POINT(); struct gwin *W = GETWIN(win); sim_win *w = &A->win[W->idx];
  if (!W->epoch_all) ERR("MPI_Win_unlock_all: no lock_all epoch");
  win_complete(W->idx, -1, 1);
  if (W->epoch_all == 2) for (int t = 0; t < w->n; t++) w->lock_shared[t]--;
  W->epoch_all = 0; win_merge(W->idx); A->events++;
  return 0;
}
int MPI_Win_fence(int a, MPI_Win win) { (void)a; (void)win; sim_fatal(ST_UNSUPPORTED, "MPI_Win_fence"); }

/* ------------------------------------------------------------ collectives */
enum { C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_ALLGATHER, C_GATHER, C_SCATTER, C_ALLTOALL, C_DUP, C_SPLIT, C_CREATE, C_CGROUP, C_WINC, C_WINFREE, C_ICREATE, C_IMERGE, C_SCAN, C_EXSCAN, C_REDSCAT, C_FINALIZE, C_GATHERV, C_ALLGATHERV, C_DISC };
static const char *cname[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Allgather", "Gather", "Scatter", "Alltoall", "Comm_dup", "Comm_split", "Comm_create", "Comm_create_group", "Win_create/allocate", "Win_free", "Intercomm_create", "Intercomm_merge", "Scan", "Exscan", "Reduce_scatter", "Finalize", "Gatherv", "Allgatherv", "Comm_disconnect"};

static slot *coll_enter(int ctx, uint64_t seq, int np, int me, int kind, int root, int op, const void *data, size_t n) {
  slot *s; for (s = A->slots; s; s = s->next) if (s->ctx == ctx && s->seq == seq) break;
  if (!s) {
    s = sh_alloc(sizeof *s); memset(s, 0, sizeof *s);
    s->ctx = ctx; s->seq = seq; s->kind = kind; s->root = root; s->op = op; s->np = np;
    s->next = A->slots; A->slots = s;
  }
  if (s->kind != kind) ERR("collective mismatch on one communicator: %s while others call %s", cname[kind], cname[s->kind]);
  if (s->root != root) ERR("collective mismatch: %s with root %d and %d", cname[kind], root, s->root);
  if (s->op != op) ERR("collective mismatch: %s with different ops", cname[kind]);
  if (s->here[me]) ERR("collective %s entered twice by one process", cname[kind]);
  s->here[me] = 1; s->arrived++; s->len[me] = n;
  s->data[me] = sh_alloc(n + 1); if (n) memcpy(s->data[me], data, n);
  A->events++; A->st_coll++;
  return s;
}
static void coll_leave(slot *s) {
  if (++s->left == s->np) { slot **pp = &A->slots; while (*pp && *pp != s) pp = &(*pp)->next; if (*pp) *pp = s->next; }
  A->events++;
}
static sim_ctx *CX(struct gcomm *c) { return &A->ctx[c->ctx]; }
static int new_ctx(int n, const int *r) {
  if (A->nctx >= MAXCTX) sim_fatal(ST_UNSUPPORTED, "context table full");
  int i = A->nctx++; A->ctx[i].used = 1; A->ctx[i].n = n; memcpy(A->ctx[i].ranks, r, sizeof(int) * (size_t)n); return i;
}
static slot *centerc(struct gcomm *c, int kind, int root, int op, const void *d, size_t n) {
  if (c->rank < 0) ERR("%s on a communicator the process is not in", cname[kind]);
  return coll_enter(c->ctx, c->seq++, CX(c)->n, c->rank, kind, root, op, d, n);
}
#define ALL(s, where) WAIT_UNTIL((s)->arrived == (s)->np, where)
static void intra(struct gcomm *c, const char *fn) { if (CX(c)->inter) sim_fatal(ST_UNSUPPORTED, "%s on an intercommunicator", fn); }

int MPI_Barrier(MPI_Comm h) { POINT(); struct gcomm *c = GETCOMM(h); intra(c, __func__); slot *s = centerc(c, C_BARRIER, 0, 0, NULL, 0); ALL(s, __func__); coll_leave(s); sim_point("MPI_Barrier exit"); return 0; }

static char *packbuf(const void *b, int64_t n, MPI_Datatype t, const char *fn, size_t *len) {
  if (n < 0) ERR("%s: negative count", fn);
  int m; run_t *r = expand(usetype(t, fn), n, &m); *len = (size_t)runs_bytes(r, m);
  char *p = malloc(*len + 1); copy_out(p, b, r, m); free(r); return p;
}
static void unpackbuf(void *b, const char *src, size_t len, int64_t n, MPI_Datatype t, const char *fn) {
  int m; run_t *r = expand(usetype(t, fn), n, &m); size_t have = (size_t)runs_bytes(r, m);
  if (len > have) ERR("%s: message of %zu bytes truncated to %zu", fn, len, have);
  if (len == have) copy_in(b, src, r, m);
  else { size_t left = len; for (int i = 0; i < m && left; i++) { size_t k = (size_t)r[i].n * (size_t)bsize[r[i].bt]; if (k > left) k = left; memcpy((char *)b + r[i].disp, src, k); src += k; left -= k; } }
  free(r);
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); intra(c, __func__);
  if (root < 0 || root >= CX(c)->n) ERR("MPI_Bcast: root %d", root);
  size_t len; char *p; 
  if (c->rank == root) p = packbuf(b, n, t, __func__, &len);
  else { int m; run_t *r = expand(usetype(t, __func__), n, &m); len = (size_t)runs_bytes(r, m); free(r); p = calloc(1, len + 1); }
  slot *s = centerc(c, C_BCAST, root, 0, p, len); free(p);
  if (A->cfg.collsync) ALL(s, __func__);
  if (c->rank != root) {
    WAIT_UNTIL(s->here[root], __func__);
    if (s->len[root] != len) ERR("MPI_Bcast: root sends %zu bytes, process expects %zu", s->len[root], len);
    unpackbuf(b, s->data[root], len, n, t, __func__);
  }
  coll_leave(s); sim_point("MPI_Bcast exit");
  return 0;
}
static void call_user(struct gop *g, char *in, char *inout, int n, MPI_Datatype t) {
  int cnt = n; MPI_Datatype d = t; g->fn(in, inout, &cnt, &d);
}
/* inout = in OP inout, on count elements of type t stored contiguously with t's extent */
static void reduce2(int opn, MPI_Datatype t, int64_t count, const char *in, char *inout, const char *fn) {
  struct gop *g = &gops[opn]; struct gtype *T = &types[HN(t)];
  int64_t ext = T->ub - T->lb;
  if (g->fn) {
    /* implementations pipeline: user functions see arbitrary element segments */
    int64_t at = 0;
    while (at < count) {
      int64_t k = count - at; if (A->cfg.userop && k > 1) k = 1 + (int64_t)sim_rnd((uint32_t)k);
      char *a = malloc((size_t)(k * ext) + 1), *b = malloc((size_t)(k * ext) + 1);
      memcpy(a, in + at * ext, (size_t)(k * ext)); memcpy(b, inout + at * ext, (size_t)(k * ext));
      call_user(g, a, b, (int)k, t);
      memcpy(inout + at * ext, b, (size_t)(k * ext)); free(a); free(b); at += k;
    }
    return;
  }
  int m; run_t *r = expand(T, count, &m);
  for (int i = 0; i < m; i++) {
    int bt = r[i].bt; char *d = inout + r[i].disp; const char *s2 = in + r[i].disp;
    if (opn > 10) ERR("%s: op not allowed in reductions", fn);
    apply_op(opn, bt, d, s2, r[i].n, fn);
  }
  if (!m && count) {;}
  free(r);
}
static void check_op_type(int opn, MPI_Datatype t, const char *fn) {
  if (!gops[opn].fn) { struct gtype *T = &types[HN(t)]; if (HN(t) >= SIM_NBASIC) ERR("%s: predefined op with a derived datatype", fn); char z[32] = {0}, y[32] = {0}; if (opn > 10) ERR("%s: invalid op", fn); apply_op(opn, T->runs[0].bt, z, y, 0, fn); }
}
/* contributions are kept raw (extent-spaced, contiguous types only) */
static char *reduce_all(slot *s, int opn, MPI_Datatype t, int64_t count, const char *fn) {
  size_t len = s->len[0];
  for (int i = 1; i < s->np; i++) if (s->len[i] != len) ERR("%s: processes contribute %zu and %zu bytes", fn, len, s->len[i]);
  int order[MAXR], n = s->np;
  char *part[MAXR];
  for (int i = 0; i < n; i++) { order[i] = i; part[i] = malloc(len + 1); memcpy(part[i], s->data[i], len); }
  if (gops[opn].commute) for (int i = n - 1; i > 0; i--) { int j = (int)sim_rnd((uint32_t)i + 1); int x = order[i]; order[i] = order[j]; order[j] = x; }
  /* random association over adjacent pairs; MPI: inout = in(left) op inout(right) */
  while (n > 1) {
    int i = (int)sim_rnd((uint32_t)n - 1);
    reduce2(opn, t, count, part[order[i]], part[order[i + 1]], fn);
    memmove(&order[i], &order[i + 1], sizeof(int) * (size_t)(n - i - 1)); n--;
  }
  char *res = sh_alloc(len + 1); memcpy(res, part[order[0]], len);
  for (int i = 0; i < s->np; i++) free(part[i]);
  return res;
}
static size_t redlen(MPI_Datatype t, int64_t n, const char *fn) {
  struct gtype *T = usetype(t, fn);
  if (T->lb != 0) sim_fatal(ST_UNSUPPORTED, "%s: reduction datatype with lb", fn);
  return (size_t)(n * (T->ub - T->lb));
}
static int red(const char *fn, int kind, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h) {
  struct gcomm *c = GETCOMM(h); intra(c, fn); struct gop *g = HV(op, 0x57, gops, "op", fn); (void)g;
  if (n < 0) ERR("%s: negative count", fn);
  check_op_type(HN(op), (usetype(t, fn), t), fn);
  size_t len = redlen(t, n, fn);
  const void *src = sb == MPI_IN_PLACE ? rb : sb;
  if (kind == C_ALLREDUCE && sb != MPI_IN_PLACE && n > 0 && sb == rb) ERR("%s: send and receive buffers are aliased", fn);
  slot *s = centerc(c, kind, kind == C_REDUCE ? root : 0, HN(op) <= 14 ? HN(op) : 99, src, len);
  if (kind != C_REDUCE || c->rank == root || A->cfg.collsync) {
    ALL(s, fn);
    if (!s->ready) { s->res = reduce_all(s, HN(op), t, n, fn); s->ready = 1; }
    if (kind != C_REDUCE || c->rank == root) memcpy(rb, s->res, len);
  }
  coll_leave(s); sim_point("reduction exit");
  return 0;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h) { POINT(); return red(__func__, C_REDUCE, sb, rb, n, t, op, root, h); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { POINT(); return red(__func__, C_ALLREDUCE, sb, rb, n, t, op, 0, h); }
int MPI_Reduce_local(const void *in, void *io, int n, MPI_Datatype t, MPI_Op op) { ENTER(); (void)GETOP(op); reduce2(HN(op), t, n, in, io, __func__); return 0; }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); (void)GETOP(op); size_t len = redlen(t, n, __func__);
  slot *s = centerc(c, C_SCAN, 0, HN(op) <= 14 ? HN(op) : 99, sb == MPI_IN_PLACE ? rb : sb, len);
  for (int i = 0; i <= c->rank; i++) WAIT_UNTIL(s->here[i], __func__);
  char *acc = malloc(len + 1); memcpy(acc, s->data[0], len);
  for (int i = 1; i <= c->rank; i++) { char *x = malloc(len + 1); memcpy(x, s->data[i], len); reduce2(HN(op), t, n, acc, x, __func__); free(acc); acc = x; }
  memcpy(rb, acc, len); free(acc); coll_leave(s); return 0;
}
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); (void)GETOP(op); size_t len = redlen(t, n, __func__);
  slot *s = centerc(c, C_EXSCAN, 0, HN(op) <= 14 ? HN(op) : 99, sb == MPI_IN_PLACE ? rb : sb, len);
  for (int i = 0; i < c->rank; i++) WAIT_UNTIL(s->here[i], __func__);
  if (c->rank) {
    char *acc = malloc(len + 1); memcpy(acc, s->data[0], len);
    for (int i = 1; i < c->rank; i++) { char *x = malloc(len + 1); memcpy(x, s->data[i], len); reduce2(HN(op), t, n, acc, x, __func__); free(acc); acc = x; }
    memcpy(rb, acc, len); free(acc);
  }
  coll_leave(s); return 0;
}
int MPI_Reduce_scatter_block(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); (void)GETOP(op); size_t len = redlen(t, n, __func__); int np = CX(c)->n;
  slot *s = centerc(c, C_REDSCAT, 0, HN(op) <= 14 ? HN(op) : 99, sb == MPI_IN_PLACE ? rb : sb, len * (size_t)np);
  ALL(s, __func__);
  if (!s->ready) { s->res = reduce_all(s, HN(op), t, (int64_t)n * np, __func__); s->ready = 1; }
  memcpy(rb, s->res + len * (size_t)c->rank, len); coll_leave(s); return 0;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); intra(c, __func__);
  size_t len; struct gtype *RT = usetype(rt, __func__); int64_t ext = RT->ub - RT->lb;
  char *p = sb == MPI_IN_PLACE ? packbuf((char *)rb + (int64_t)c->rank * rn * ext, rn, rt, __func__, &len) : packbuf(sb, sn, st, __func__, &len);
  if (len != (size_t)(rn * RT->size)) ERR("MPI_Allgather: sends %zu bytes, receives %lld per process", len, (long long)(rn * RT->size));
  slot *s = centerc(c, C_ALLGATHER, 0, 0, p, len); free(p);
  ALL(s, __func__);
  for (int i = 0; i < s->np; i++) { if (s->len[i] != len) ERR("MPI_Allgather: length mismatch"); unpackbuf((char *)rb + (int64_t)i * rn * ext, s->data[i], len, rn, rt, __func__); }
  coll_leave(s); sim_point("MPI_Allgather exit"); return 0;
}
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int d[], MPI_Datatype rt, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); size_t len; struct gtype *RT = usetype(rt, __func__); int64_t ext = RT->ub - RT->lb;
  char *p = sb == MPI_IN_PLACE ? packbuf((char *)rb + d[c->rank] * ext, rn[c->rank], rt, __func__, &len) : packbuf(sb, sn, st, __func__, &len);
  slot *s = centerc(c, C_ALLGATHERV, 0, 0, p, len); free(p); ALL(s, __func__);
  for (int i = 0; i < s->np; i++) { if (s->len[i] != (size_t)(rn[i] * RT->size)) ERR("MPI_Allgatherv: length mismatch"); unpackbuf((char *)rb + d[i] * ext, s->data[i], s->len[i], rn[i], rt, __func__); }
  coll_leave(s); return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); size_t len; char *p;
  if (sb == MPI_IN_PLACE) { struct gtype *RT = usetype(rt, __func__); p = packbuf((char *)rb + (int64_t)c->rank * rn * (RT->ub - RT->lb), rn, rt, __func__, &len); }
  else p = packbuf(sb, sn, st, __func__, &len);
  slot *s = centerc(c, C_GATHER, root, 0, p, len); free(p);
  if (c->rank == root) { ALL(s, __func__); struct gtype *RT = usetype(rt, __func__); for (int i = 0; i < s->np; i++) unpackbuf((char *)rb + (int64_t)i * rn * (RT->ub - RT->lb), s->data[i], s->len[i], rn, rt, __func__); }
  coll_leave(s); return 0;
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int d[], MPI_Datatype rt, int root, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); size_t len; char *p = packbuf(sb, sn, st, __func__, &len);
  slot *s = centerc(c, C_GATHERV, root, 0, p, len); free(p);
  if (c->rank == root) { ALL(s, __func__); struct gtype *RT = usetype(rt, __func__); for (int i = 0; i < s->np; i++) unpackbuf((char *)rb + d[i] * (RT->ub - RT->lb), s->data[i], s->len[i], rn[i], rt, __func__); }
  coll_leave(s); return 0;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); size_t len = 0; char *p = NULL; int np = CX(c)->n;
  if (c->rank == root) p = packbuf(sb, (int64_t)sn * np, st, __func__, &len);
  slot *s = centerc(c, C_SCATTER, root, 0, p, len); free(p); WAIT_UNTIL(s->here[root], __func__);
  size_t each = s->len[root] / (size_t)np;
  if (rb != MPI_IN_PLACE) unpackbuf(rb, s->data[root] + each * (size_t)c->rank, each, rn, rt, __func__);
  coll_leave(s); return 0;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h) {
  POINT(); struct gcomm *c = GETCOMM(h); size_t len; int np = CX(c)->n; char *p = packbuf(sb, (int64_t)sn * np, st, __func__, &len);
  slot *s = centerc(c, C_ALLTOALL, 0, 0, p, len); free(p); ALL(s, __func__);
  size_t each = len / (size_t)np; struct gtype *RT = usetype(rt, __func__);
  for (int i = 0; i < np; i++) unpackbuf((char *)rb + (int64_t)i * rn * (RT->ub - RT->lb), s->data[i] + each * (size_t)c->rank, each, rn, rt, __func__);
  coll_leave(s); return 0;
}
int MPI_Ibarrier(MPI_Comm h, MPI_Request *q) { POINT(); struct gcomm *c = GETCOMM(h); slot *s = centerc(c, C_BARRIER, 0, 0, NULL, 0); *q = mkreq(4, NULL); reqs[HN(*q)].sl = s; return 0; }

/* ------------------------------------------------------------------ comms */
int MPI_Comm_rank(MPI_Comm h, int *r) { ENTER(); struct gcomm *c = GETCOMM(h); *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm h, int *n) { ENTER(); struct gcomm *c = GETCOMM(h); *n = CX(c)->n; return 0; }
int MPI_Comm_remote_size(MPI_Comm h, int *n) { ENTER(); struct gcomm *c = GETCOMM(h); if (!CX(c)->inter) ERR("MPI_Comm_remote_size: intracommunicator"); *n = CX(c)->n2; return 0; }
int MPI_Comm_test_inter(MPI_Comm h, int *f) { ENTER(); struct gcomm *c = GETCOMM(h); *f = CX(c)->inter; return 0; }
static MPI_Group mkgroup(int n, const int *r) {
  if (n == 0) return MPI_GROUP_EMPTY;
  int i = groups_new(); groups[i].live = 1; groups[i].n = n; memcpy(groups[i].r, r, sizeof(int) * (size_t)n);
  return (MPI_Group)SIM_H(0x52, i);
}
static MPI_Group mkgroup0(int n, const int *r) {
  int i = groups_new(); groups[i].live = 1; groups[i].n = n; memcpy(groups[i].r, r, sizeof(int) * (size_t)n);
  return (MPI_Group)SIM_H(0x52, i);
}
int MPI_Comm_group(MPI_Comm h, MPI_Group *g) { ENTER(); struct gcomm *c = GETCOMM(h); *g = mkgroup0(CX(c)->n, CX(c)->ranks); return 0; }
int MPI_Comm_remote_group(MPI_Comm h, MPI_Group *g) { ENTER(); struct gcomm *c = GETCOMM(h); *g = mkgroup0(CX(c)->n2, CX(c)->ranks2); return 0; }
int MPI_Comm_dup(MPI_Comm h, MPI_Comm *o) {
  POINT(); struct gcomm *c = GETCOMM(h); intra(c, __func__);
  slot *s = centerc(c, C_DUP, 0, 0, NULL, 0); ALL(s, __func__);
  if (!s->ready) { s->ival[0] = new_ctx(CX(c)->n, CX(c)->ranks); s->ready = 1; }
  int x = s->ival[0]; coll_leave(s); *o = mkcomm(x); return 0;
}
int MPI_Comm_dup_with_info(MPI_Comm h, MPI_Info i, MPI_Comm *o) { (void)i; return MPI_Comm_dup(h, o); }
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm *o) {
  POINT(); struct gcomm *c = GETCOMM(h); intra(c, __func__);
  if (color < 0 && color != MPI_UNDEFINED) ERR("MPI_Comm_split: negative color %d", color);
  int ck[2] = {color, key};
  slot *s = centerc(c, C_SPLIT, 0, 0, ck, sizeof ck); ALL(s, __func__);
  if (!s->ready) {
    for (int i = 0; i < s->np; i++) s->ival[i] = -1;
    for (int i = 0; i < s->np; i++) {
      int col = ((int *)s->data[i])[0]; if (col == MPI_UNDEFINED || s->ival[i] >= 0) continue;
      int m[MAXR], n = 0;
      for (int j = 0; j < s->np; j++) if (((int *)s->data[j])[0] == col) m[n++] = j;
      for (int a = 1; a < n; a++) for (int b = a; b > 0 && ((int *)s->data[m[b - 1]])[1] > ((int *)s->data[m[b]])[1]; b--) { int x = m[b]; m[b] = m[b - 1]; m[b - 1] = x; }
      int w[MAXR]; for (int a = 0; a < n; a++) w[a] = CX(c)->ranks[m[a]];
      int x = new_ctx(n, w); for (int a = 0; a < n; a++) s->ival[m[a]] = x;
    }
    s->ready = 1;
  }
  int x = s->ival[c->rank]; coll_leave(s); *o = x < 0 ? MPI_COMM_NULL : mkcomm(x); return 0;
}
int MPI_Comm_split_type(MPI_Comm h, int ty, int key, MPI_Info i, MPI_Comm *o) { (void)i; return MPI_Comm_split(h, ty == MPI_UNDEFINED ? MPI_UNDEFINED : 0, key, o); }
int MPI_Comm_create(MPI_Comm h, MPI_Group gh, MPI_Comm *o) {
  POINT(); struct gcomm *c = GETCOMM(h); struct ggroup *g = GETGROUP(gh); intra(c, __func__);
  for (int i = 0; i < g->n; i++) { int ok = 0; for (int j = 0; j < CX(c)->n; j++) ok |= CX(c)->ranks[j] == g->r[i]; if (!ok) ERR("MPI_Comm_create: group is not a subset of the communicator"); }
  int d[1 + MAXR]; d[0] = g->n; memcpy(d + 1, g->r, sizeof(int) * (size_t)g->n);
  slot *s = centerc(c, C_CREATE, 0, 0, d, sizeof(int) * (size_t)(1 + g->n)); ALL(s, __func__);
  if (!s->ready) {
    for (int i = 0; i < s->np; i++) s->ival[i] = -1;
    for (int i = 0; i < s->np; i++) {
      int *q = (int *)s->data[i]; int in = 0; for (int k = 0; k < q[0]; k++) in |= q[1 + k] == CX(c)->ranks[i];
      if (!in || s->ival[i] >= 0) continue;
      int x = new_ctx(q[0], q + 1);
      for (int k = 0; k < q[0]; k++) for (int j = 0; j < s->np; j++) if (CX(c)->ranks[j] == q[1 + k]) {
        if (s->len[j] != s->len[i] || memcmp(s->data[j], s->data[i], s->len[i])) ERR("MPI_Comm_create: members pass different groups");
        s->ival[j] = x;
      }
    }
    s->ready = 1;
  }
  int x = s->ival[c->rank]; coll_leave(s); *o = x < 0 ? MPI_COMM_NULL : mkcomm(x); return 0;
}
static struct { uint64_t key, n; } cgk[256]; static int ncgk;
int MPI_Comm_create_group(MPI_Comm h, MPI_Group gh, int tag, MPI_Comm *o) {
  POINT(); struct gcomm *c = GETCOMM(h); struct ggroup *g = GETGROUP(gh); intra(c, __func__);
  int me = -1; uint64_t key = (uint64_t)c->ctx * 1000003u + (uint64_t)(unsigned)tag;
  for (int i = 0; i < g->n; i++) { if (g->r[i] == g_rank) me = i; key = key * 31 + (uint64_t)g->r[i] + 7; }
  if (me < 0) { if (g->n == 0) { *o = MPI_COMM_NULL; return 0; } ERR("MPI_Comm_create_group: caller not in group"); }
  int k; for (k = 0; k < ncgk; k++) if (cgk[k].key == key) break;
  if (k == ncgk) { cgk[k].key = key; ncgk++; }
  slot *s = coll_enter(-1 - (int)(key % 1000000007u), cgk[k].n++, g->n, me, C_CGROUP, 0, 0, NULL, 0); ALL(s, __func__);
  if (!s->ready) { s->ival[0] = new_ctx(g->n, g->r); s->ready = 1; }
  int x = s->ival[0]; coll_leave(s); *o = mkcomm(x); return 0;
}
int MPI_Comm_free(MPI_Comm *h) {
  ENTER(); struct gcomm *c = GETCOMM(*h); if (HN(*h) <= 2) ERR("MPI_Comm_free of a predefined communicator");
  c->live = 0; *h = MPI_COMM_NULL; return 0;
}
int MPI_Comm_disconnect(MPI_Comm *h) { return MPI_Comm_free(h); }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
  ENTER(); struct gcomm *x = GETCOMM(a), *y = GETCOMM(b);
  if (x->ctx == y->ctx) { *r = MPI_IDENT; return 0; }
  sim_ctx *p = CX(x), *q = CX(y);
  if (p->n != q->n) { *r = MPI_UNEQUAL; return 0; }
  if (!memcmp(p->ranks, q->ranks, sizeof(int) * (size_t)p->n)) { *r = MPI_CONGRUENT; return 0; }
  int all = 1; for (int i = 0; i < p->n; i++) { int f = 0; for (int j = 0; j < q->n; j++) f |= p->ranks[i] == q->ranks[j]; all &= f; }
  *r = all ? MPI_SIMILAR : MPI_UNEQUAL; return 0;
}
int MPI_Comm_set_name(MPI_Comm h, const char *n) { struct gcomm *c = GETCOMM(h); strncpy(c->name, n, MPI_MAX_OBJECT_NAME - 1); return 0; }
int MPI_Comm_get_name(MPI_Comm h, char *n, int *l) { struct gcomm *c = GETCOMM(h); strcpy(n, c->name); *l = (int)strlen(n); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm h, MPI_Errhandler e) { (void)GETCOMM(h); (void)e; return 0; }
int MPI_Comm_set_info(MPI_Comm h, MPI_Info e) { (void)GETCOMM(h); (void)e; return 0; }
int MPI_Comm_get_attr(MPI_Comm h, int k, void *v, int *f) {
  (void)GETCOMM(h); static int ub = 0x7fffffff, yes = 1; *f = 0;
  if (k == MPI_TAG_UB) { *(int **)v = &ub; *f = 1; } else if (k == MPI_WTIME_IS_GLOBAL) { *(int **)v = &yes; *f = 1; }
  return 0;
}

/* groups */
int MPI_Group_size(MPI_Group h, int *n) { ENTER(); *n = GETGROUP(h)->n; return 0; }
int MPI_Group_rank(MPI_Group h, int *r) { ENTER(); struct ggroup *g = GETGROUP(h); *r = MPI_UNDEFINED; for (int i = 0; i < g->n; i++) if (g->r[i] == g_rank) *r = i; return 0; }
int MPI_Group_incl(MPI_Group h, int n, const int r[], MPI_Group *o) {
  ENTER(); struct ggroup *g = GETGROUP(h); int w[MAXR];
  if (n < 0 || n > g->n) ERR("MPI_Group_incl: %d ranks of a group of %d", n, g->n);
  for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= g->n) ERR("MPI_Group_incl: rank %d not in group of %d", r[i], g->n); w[i] = g->r[r[i]]; for (int j = 0; j < i; j++) if (w[j] == w[i]) ERR("MPI_Group_incl: duplicate rank"); }
  *o = mkgroup(n, w); return 0;
}
int MPI_Group_excl(MPI_Group h, int n, const int r[], MPI_Group *o) {
  ENTER(); struct ggroup *g = GETGROUP(h); int w[MAXR], m = 0;
  for (int i = 0; i < g->n; i++) { int x = 0; for (int j = 0; j < n; j++) x |= r[j] == i; if (!x) w[m++] = g->r[i]; }
  *o = mkgroup(m, w); return 0;
}
int MPI_Group_range_incl(MPI_Group h, int n, int r[][3], MPI_Group *o) {
  ENTER(); struct ggroup *g = GETGROUP(h); int w[MAXR], m = 0;
  for (int k = 0; k < n; k++) for (int i = r[k][0]; r[k][2] > 0 ? i <= r[k][1] : i >= r[k][1]; i += r[k][2]) { if (i < 0 || i >= g->n || m >= MAXR || !r[k][2]) ERR("MPI_Group_range_incl: bad range"); w[m++] = g->r[i]; }
  *o = mkgroup(m, w); return 0;
}
static int gin(struct ggroup *g, int r) { for (int i = 0; i < g->n; i++) if (g->r[i] == r) return 1; return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER(); struct ggroup *x = GETGROUP(a), *y = GETGROUP(b); int w[2 * MAXR], m = 0; for (int i = 0; i < x->n; i++) w[m++] = x->r[i]; for (int i = 0; i < y->n; i++) if (!gin(x, y->r[i])) w[m++] = y->r[i]; *o = mkgroup(m, w); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER(); struct ggroup *x = GETGROUP(a), *y = GETGROUP(b); int w[MAXR], m = 0; for (int i = 0; i < x->n; i++) if (gin(y, x->r[i])) w[m++] = x->r[i]; *o = mkgroup(m, w); return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { ENTER(); struct ggroup *x = GETGROUP(a), *y = GETGROUP(b); int w[MAXR], m = 0; for (int i = 0; i < x->n; i++) if (!gin(y, x->r[i])) w[m++] = x->r[i]; *o = mkgroup(m, w); return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int r[], MPI_Group b, int o[]) {
  ENTER(); struct ggroup *x = GETGROUP(a), *y = GETGROUP(b);
  for (int i = 0; i < n; i++) {
    if (r[i] == MPI_PROC_NULL) { o[i] = MPI_PROC_NULL; continue; }
    if (r[i] < 0 || r[i] >= x->n) ERR("MPI_Group_translate_ranks: rank %d not in group of %d", r[i], x->n);
    o[i] = MPI_UNDEFINED; for (int j = 0; j < y->n; j++) if (y->r[j] == x->r[r[i]]) o[i] = j;
  }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) {
  ENTER(); struct ggroup *x = GETGROUP(a), *y = GETGROUP(b);
  if (x->n != y->n) { *r = MPI_UNEQUAL; return 0; }
  if (!memcmp(x->r, y->r, sizeof(int) * (size_t)x->n)) { *r = MPI_IDENT; return 0; }
  *r = MPI_SIMILAR; for (int i = 0; i < x->n; i++) if (!gin(y, x->r[i])) *r = MPI_UNEQUAL;
  return 0;
}
int MPI_Group_free(MPI_Group *h) { ENTER(); struct ggroup *g = GETGROUP(*h); if (HN(*h) != 1) g->live = 0; *h = MPI_GROUP_NULL; return 0; }

/* -------------------------------------------------------- point to point */
static pmsg *post(int ctx, int src, int dst, int tag, const void *d, size_t n, int sync, int internal) {
  pmsg *m = sh_alloc(sizeof *m); memset(m, 0, sizeof *m);
  m->ctx = ctx; m->src = src; m->dst = dst; m->tag = tag; m->n = n; m->sync = sync; m->internal = internal; m->seq = ++A->seq;
  m->data = sh_alloc(n + 1); memcpy(m->data, d, n);
  pmsg **pp = &A->msgs; while (*pp) pp = &(*pp)->next; *pp = m;
  A->events++; A->st_p2p++;
  return m;
}
/* first matching message per source; one of them at random for ANY_SOURCE */
static pmsg *match(int ctx, int me, int src, int tag, int internal) {
  pmsg *c[MAXR * 2]; int n = 0;
  for (pmsg *m = A->msgs; m; m = m->next) {
    if (m->ctx != ctx || m->dst != me || m->internal != internal || m->matched) continue;
    if (src != MPI_ANY_SOURCE && m->src != src) continue;
    if (tag != MPI_ANY_TAG && m->tag != tag) continue;
    int dup = 0; for (int i = 0; i < n; i++) dup |= c[i]->src == m->src;
    if (!dup && n < MAXR) c[n++] = m;
  }
  return n ? c[n == 1 ? 0 : sim_rnd((uint32_t)n)] : NULL;
}
static void take(pmsg *m) { m->matched = 1; pmsg **pp = &A->msgs; while (*pp && *pp != m) pp = &(*pp)->next; if (*pp) *pp = m->next; A->events++; }
static void set_st(MPI_Status *st, int src, int tag, size_t n) { if (st) { st->MPI_SOURCE = src; st->MPI_TAG = tag; st->sim_bytes = n; st->sim_cancelled = 0; } }
static int other_n(struct gcomm *c) { return CX(c)->inter ? CX(c)->n2 : CX(c)->n; }
static void chk_p2p(struct gcomm *c, int r, int tag, int recv, const char *fn) {
  if (r != MPI_PROC_NULL && !(recv && r == MPI_ANY_SOURCE) && (r < 0 || r >= other_n(c))) ERR("%s: rank %d outside communicator of %d", fn, r, other_n(c));
  if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) ERR("%s: tag %d", fn, tag);
  if (CX(c)->inter) sim_fatal(ST_UNSUPPORTED, "%s on an intercommunicator", fn);
}
static void irecv_progress(void);
static int send_(const char *fn, const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm h, int sync) {
  struct gcomm *c = HV(h, 0x51, comms, "communicator", fn); chk_p2p(c, dst, tag, 0, fn);
  if (dst == MPI_PROC_NULL) return 0;
  size_t len; char *p = packbuf(b, n, t, fn, &len);
  pmsg *m = post(c->ctx, c->rank, dst, tag, p, len, sync, 0); free(p);
  if (sync) WAIT_UNTIL((irecv_progress(), m->matched), fn);
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { POINT(); return send_(__func__, b, n, t, d, tag, c, A->cfg.rend == 1 || (A->cfg.rend == 2 && sim_rnd(2))); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { POINT(); return send_(__func__, b, n, t, d, tag, c, 1); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { POINT(); return send_(__func__, b, n, t, d, tag, c, 0); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *q) {
  POINT(); struct gcomm *c = GETCOMM(h); chk_p2p(c, d, tag, 0, __func__);
  *q = mkreq(2, NULL); if (d == MPI_PROC_NULL) { reqs[HN(*q)].done = 1; return 0; }
  size_t len; char *p = packbuf(b, n, t, __func__, &len); reqs[HN(*q)].m = post(c->ctx, c->rank, d, tag, p, len, A->cfg.rend != 0, 0); free(p); return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *q) { int r = MPI_Isend(b, n, t, d, tag, h, q); if (reqs[HN(*q)].m) reqs[HN(*q)].m->sync = 1; return r; }
static MPI_Request irecv_q[4096]; static int irecv_n;
static void irecv_progress(void) {
  for (int i = 0; i < irecv_n; i++) {
    struct greq *q = &reqs[HN(irecv_q[i])];
    if (q->done) continue;
    int shadow = 0;
    pmsg *m = match(q->ctx, comms[q->ncount >> 16].rank, q->src, q->tag, 0); (void)shadow;
    if (m) { unpackbuf(q->buf, m->data, m->n, (int64_t)q->cap, (MPI_Datatype)q->ty, "MPI_Irecv"); set_st(&q->st, m->src, m->tag, m->n); q->done = 1; take(m); }
  }
  int k = 0; for (int i = 0; i < irecv_n; i++) if (!reqs[HN(irecv_q[i])].done) irecv_q[k++] = irecv_q[i];
  irecv_n = k;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Status *st) {
  POINT(); struct gcomm *c = GETCOMM(h); chk_p2p(c, src, tag, 1, __func__); (void)usetype(t, __func__);
  if (src == MPI_PROC_NULL) { set_st(st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return 0; }
  if (n < 0) ERR("MPI_Recv: negative count");
  pmsg *m; WAIT_UNTIL((irecv_progress(), m = match(c->ctx, c->rank, src, tag, 0)), __func__);
  unpackbuf(b, m->data, m->n, n, t, __func__); set_st(st, m->src, m->tag, m->n); take(m); return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Request *r) {
  POINT(); struct gcomm *c = GETCOMM(h); chk_p2p(c, src, tag, 1, __func__); (void)usetype(t, __func__);
  *r = mkreq(3, NULL); struct greq *q = &reqs[HN(*r)];
  q->buf = b; q->cap = (size_t)n; q->ty = (struct gtype *)t; q->ctx = c->ctx; q->ncount = HN(h) << 16; q->src = src; q->tag = tag;
  if (src == MPI_PROC_NULL) { q->done = 1; return 0; }
  irecv_q[irecv_n++] = *r; irecv_progress(); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm h, int *f, MPI_Status *st) {
  ENTER(); sim_spin(__func__); struct gcomm *c = GETCOMM(h); chk_p2p(c, src, tag, 1, __func__); irecv_progress();
  pmsg *m = match(c->ctx, c->rank, src, tag, 0); *f = m != NULL; if (m) set_st(st, m->src, m->tag, m->n); return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm h, MPI_Status *st) {
  POINT(); struct gcomm *c = GETCOMM(h); pmsg *m; WAIT_UNTIL((irecv_progress(), m = match(c->ctx, c->rank, src, tag, 0)), __func__); set_st(st, m->src, m->tag, m->n); return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm h, MPI_Status *x) {
  MPI_Request q; MPI_Isend(sb, sn, st, d, stag, h, &q); MPI_Recv(rb, rn, rt, s, rtag, h, x); return MPI_Wait(&q, MPI_STATUS_IGNORE);
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm h, MPI_Status *x) {
  MPI_Request q; MPI_Isend(b, n, t, d, stag, h, &q); MPI_Recv(b, n, t, s, rtag, h, x); return MPI_Wait(&q, MPI_STATUS_IGNORE);
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) {
  int64_t s = GETTYPE(t)->size; *n = s == 0 ? 0 : st->sim_bytes % (size_t)s ? MPI_UNDEFINED : (int)(st->sim_bytes / (size_t)s); return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }

/* -------------------------------------------------------------- requests */
static rop *req_op(struct greq *q) {
  if (!q->op || q->op->dead || q->op->seq != q->opseq || q->op->stage == S_DONE) return NULL;
  return q->op;
}
static int req_ready(struct greq *q) {
  if (q->done) return 1;
  switch (q->kind) {
    case 1: { rop *o = req_op(q); return !o || local_done(o); }
    case 2: return !q->m || !q->m->sync || q->m->matched;
    case 3: irecv_progress(); return q->done;
    case 4: return q->sl->arrived == q->sl->np;
  }
  return 1;
}
static void req_force(struct greq *q) { if (q->kind == 1) { rop *o = req_op(q); if (o) op_finish_local(o); ops_gc(); } }
static void req_retire(MPI_Request *r, MPI_Status *st) {
  struct greq *q = &reqs[HN(*r)]; if (q->kind == 4) coll_leave(q->sl);
  if (st) *st = q->st;
  q->live = 0; *r = MPI_REQUEST_NULL;
}
static void wait_one(MPI_Request *r, MPI_Status *st, const char *fn) {
  if (*r == MPI_REQUEST_NULL) { set_st(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return; }
  struct greq *q = HV(*r, 0x56, reqs, "request", fn);
  req_force(q); WAIT_UNTIL(req_ready(q), fn); req_retire(r, st);
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) { POINT(); wait_one(r, st, __func__); return 0; }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) {
  POINT(); if (n < 0) ERR("MPI_Waitall: negative count");
  /* complete in random order */
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) req_force(HV(r[i], 0x56, reqs, "request", __func__));
  for (int i = 0; i < n; i++) wait_one(&r[i], st ? &st[i] : NULL, __func__);
  return 0;
}
static int test_ready(struct greq *q) {
  if (req_ready(q)) return 1;
  q->tests++;
  if (q->kind == 1 && (q->tests > 3 || sim_rnd(3) == 0 || !A->cfg.testlag)) { req_force(q); return req_ready(q); }
  return 0;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) {
  ENTER(); sim_spin(__func__); *f = 1; if (*r == MPI_REQUEST_NULL) { set_st(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  if (test_ready(GETREQ(*r))) req_retire(r, st); else *f = 0;
  return 0;
}
int MPI_Testall(int n, MPI_Request r[], int *f, MPI_Status st[]) {
  ENTER(); sim_spin(__func__); *f = 1; if (n < 0) ERR("MPI_Testall: negative count");
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !test_ready(GETREQ(r[i]))) *f = 0;
  if (*f) for (int i = 0; i < n; i++) wait_one(&r[i], st ? &st[i] : NULL, __func__);
  return 0;
}
int MPI_Waitany(int n, MPI_Request r[], int *idx, MPI_Status *st) {
  POINT(); int live = 0; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { live = 1; (void)GETREQ(r[i]); }
  *idx = MPI_UNDEFINED; if (!live) return 0;
  int off = (int)sim_rnd((uint32_t)n), hit = -1;
  for (;;) { for (int k = 0; k < n && hit < 0; k++) { int i = (k + off) % n; if (r[i] == MPI_REQUEST_NULL) continue; struct greq *q = GETREQ(r[i]); req_force(q); if (req_ready(q)) hit = i; } if (hit >= 0) break; block(__func__); }
  *idx = hit; req_retire(&r[hit], st); return 0;
}
int MPI_Testany(int n, MPI_Request r[], int *idx, int *f, MPI_Status *st) {
  ENTER(); sim_spin(__func__); int live = 0; *idx = MPI_UNDEFINED; *f = 0;
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { live = 1; if (test_ready(GETREQ(r[i]))) { *idx = i; *f = 1; req_retire(&r[i], st); return 0; } }
  if (!live) *f = 1;
  return 0;
}
int MPI_Waitsome(int n, MPI_Request r[], int *c, int ix[], MPI_Status st[]) {
  int i; MPI_Status s; MPI_Waitany(n, r, &i, &s); if (i == MPI_UNDEFINED) { *c = MPI_UNDEFINED; return 0; } *c = 1; ix[0] = i; if (st) st[0] = s; return 0; }
int MPI_Testsome(int n, MPI_Request r[], int *c, int ix[], MPI_Status st[]) {
  int i, f; MPI_Status s; MPI_Testany(n, r, &i, &f, &s); if (f && i == MPI_UNDEFINED) { *c = MPI_UNDEFINED; return 0; } *c = f; if (f) { ix[0] = i; if (st) st[0] = s; } return 0; }
int MPI_Request_free(MPI_Request *r) { ENTER(); struct greq *q = GETREQ(*r); if (q->kind == 1) ERR("MPI_Request_free on an RMA request"); q->live = 0; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Request_get_status(MPI_Request r, int *f, MPI_Status *st) { ENTER(); sim_spin(__func__); if (r == MPI_REQUEST_NULL) { *f = 1; return 0; } struct greq *q = GETREQ(r); *f = test_ready(q); if (*f && st) *st = q->st; return 0; }

/* ------------------------------------------------------- intercommunicators */
int MPI_Intercomm_create(MPI_Comm lh, int ll, MPI_Comm ph, int rl, int tag, MPI_Comm *o) {
  POINT(); struct gcomm *c = GETCOMM(lh); intra(c, __func__);
  if (ll < 0 || ll >= CX(c)->n) ERR("MPI_Intercomm_create: local leader %d", ll);
  slot *s = centerc(c, C_ICREATE, ll, 0, NULL, 0);
  if (c->rank == ll) {
    struct gcomm *p = GETCOMM(ph);
    if (rl < 0 || rl >= CX(p)->n) ERR("MPI_Intercomm_create: remote leader %d outside peer communicator of %d", rl, CX(p)->n);
    if (rl == p->rank) ERR("MPI_Intercomm_create: remote leader is the caller");
    int mine[2 + MAXR] = {CX(c)->n, 0}; memcpy(mine + 2, CX(c)->ranks, sizeof(int) * (size_t)CX(c)->n);
    int lead = p->rank < rl;
    int cx[2] = {0, 0};
    if (lead) { cx[0] = new_ctx(0, mine); cx[1] = new_ctx(0, mine); }
    mine[1] = cx[0] << 12 | cx[1];
    post(p->ctx, p->rank, rl, tag, mine, sizeof mine, 0, 1);
    pmsg *m; WAIT_UNTIL((m = match(p->ctx, p->rank, rl, tag, 1)), __func__);
    int his[2 + MAXR]; memcpy(his, m->data, sizeof his); take(m);
    if (!lead) { cx[0] = his[1] >> 12; cx[1] = his[1] & 4095; }
    int me = lead ? cx[0] : cx[1];
    sim_ctx *X = &A->ctx[me];
    for (int i = 0; i < his[0]; i++) for (int j = 0; j < CX(c)->n; j++) if (his[2 + i] == CX(c)->ranks[j]) ERR("MPI_Intercomm_create: groups are not disjoint");
    X->n = CX(c)->n; memcpy(X->ranks, CX(c)->ranks, sizeof X->ranks);
    X->n2 = his[0]; memcpy(X->ranks2, his + 2, sizeof X->ranks2); X->inter = 1 + (lead ? cx[1] : cx[0]);
    s->ival[0] = me; s->ival[1] = lead; s->ready = 1; A->events++;
  }
  WAIT_UNTIL(s->ready, __func__);
  int x = s->ival[0]; coll_leave(s); *o = mkcomm(x); return 0;
}
int MPI_Intercomm_merge(MPI_Comm h, int high, MPI_Comm *o) {
  POINT(); struct gcomm *c = GETCOMM(h); sim_ctx *X = CX(c);
  if (!X->inter) ERR("MPI_Intercomm_merge: not an intercommunicator");
  int peer = X->inter - 1; int key = c->ctx < peer ? c->ctx : peer; int first = c->ctx == key;
  int d[2] = {high != 0, first};
  slot *s = coll_enter(-2000000 - key, c->seq++, X->n + X->n2, first ? c->rank : X->n2 + c->rank, C_IMERGE, 0, 0, d, sizeof d);
  ALL(s, __func__);
  if (!s->ready) {
    int na = A->ctx[key].n, hA = -1, hB = -1;
    for (int i = 0; i < s->np; i++) { int v = ((int *)s->data[i])[0]; int *t = i < na ? &hA : &hB; if (*t >= 0 && *t != v) ERR("MPI_Intercomm_merge: members of one group pass different high values"); *t = v; }
    int firstA = hA == hB ? (int)sim_rnd(2) : !hA;
    int w[2 * MAXR], n = 0; sim_ctx *a = &A->ctx[key];
    if (firstA) { memcpy(w, a->ranks, sizeof(int) * (size_t)a->n); memcpy(w + a->n, a->ranks2, sizeof(int) * (size_t)a->n2); }
    else { memcpy(w, a->ranks2, sizeof(int) * (size_t)a->n2); memcpy(w + a->n2, a->ranks, sizeof(int) * (size_t)a->n); }
    n = a->n + a->n2; s->ival[0] = new_ctx(n, w); s->ready = 1;
  }
  int x = s->ival[0]; coll_leave(s); *o = mkcomm(x); return 0;
}

/* --------------------------------------------------------------- op, info */
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *o) { ENTER(); int i = gops_new(); gops[i].live = 1; gops[i].fn = f; gops[i].commute = commute; *o = (MPI_Op)SIM_H(0x57, i); return 0; }
int MPI_Op_free(MPI_Op *o) { ENTER(); struct gop *g = GETOP(*o); if (HN(*o) <= 14) ERR("MPI_Op_free of a predefined op"); g->live = 0; *o = MPI_OP_NULL; return 0; }
int MPI_Op_commutative(MPI_Op o, int *f) { *f = GETOP(o)->commute; return 0; }
int MPI_Info_create(MPI_Info *o) { ENTER(); int i = infos_new(); infos[i].live = 1; infos[i].n = 0; *o = (MPI_Info)SIM_H(0x55, i); return 0; }
int MPI_Info_set(MPI_Info h, const char *k, const char *v) {
  ENTER(); struct ginfo *IN = GETINFO(h); int i; for (i = 0; i < IN->n; i++) if (!strcmp(IN->k[i], k)) break;
  if (i == 24) sim_fatal(ST_UNSUPPORTED, "info full");
  if (strlen(k) > 63 || strlen(v) > 127) ERR("MPI_Info_set: key or value too long");
  strcpy(IN->k[i], k); strcpy(IN->v[i], v); if (i == IN->n) IN->n++; return 0;
}
static const char *info_get(MPI_Info h, const char *k) { if (h == MPI_INFO_NULL) return NULL; struct ginfo *IN = GETINFO(h); for (int i = 0; i < IN->n; i++) if (!strcmp(IN->k[i], k)) return IN->v[i]; return NULL; }
int MPI_Info_get(MPI_Info h, const char *k, int l, char *v, int *f) { const char *s = info_get(h, k); *f = s != NULL; if (s) { strncpy(v, s, (size_t)l); v[l] = 0; } return 0; }
int MPI_Info_get_valuelen(MPI_Info h, const char *k, int *l, int *f) { const char *s = info_get(h, k); *f = s != NULL; if (s) *l = (int)strlen(s); return 0; }
int MPI_Info_get_nkeys(MPI_Info h, int *n) { *n = GETINFO(h)->n; return 0; }
int MPI_Info_get_nthkey(MPI_Info h, int n, char *k) { strcpy(k, GETINFO(h)->k[n]); return 0; }
int MPI_Info_delete(MPI_Info h, const char *k) { struct ginfo *IN = GETINFO(h); for (int i = 0; i < IN->n; i++) if (!strcmp(IN->k[i], k)) { IN->n--; memmove(IN->k[i], IN->k[IN->n], 64); memmove(IN->v[i], IN->v[IN->n], 128); return 0; } ERR("MPI_Info_delete: no such key"); }
int MPI_Info_dup(MPI_Info h, MPI_Info *o) { struct ginfo *IN = GETINFO(h); int n = HN(h); (void)IN; MPI_Info_create(o); infos[HN(*o)] = infos[n]; return 0; }
int MPI_Info_free(MPI_Info *h) { ENTER(); struct ginfo *IN = GETINFO(*h); IN->live = 0; *h = MPI_INFO_NULL; return 0; }

/* ---------------------------------------------------------------- windows */
static int alloc_live;
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *o) {
  ENTER(); (void)i; if (n < 0) ERR("MPI_Alloc_mem: negative size");
  void *p = NULL;
  if (n == 0 && (A->cfg.zeroptr == 1 || (A->cfg.zeroptr == 2 && sim_rnd(2)))) { *(void **)o = NULL; return 0; }
  p = umem_alloc((size_t)n); if (!p) ERR("MPI_Alloc_mem: out of memory (%lld bytes)", (long long)n);
  alloc_live++; *(void **)o = p; return 0;
}
static int region_in_live_window(const void *p) {
  size_t off = (size_t)((const char *)p - umem);
  for (int i = 1; i < wins_n; i++) if (wins[i].live && wins[i].base) { sim_win *w = &A->win[wins[i].idx]; int me = wins[i].comm_rank; if (w->size[me] && (size_t)w->off[me] == off) return 1; }
  return 0;
}
int MPI_Free_mem(void *p) {
  ENTER(); if (!p) return 0;
  if (!sim_in_region(p)) ERR("MPI_Free_mem: %p was not obtained from MPI_Alloc_mem", p);
  if (region_in_live_window(p)) ERR("MPI_Free_mem: memory is still exposed in a window");
  if (umem_free(p)) ERR("MPI_Free_mem: %p is not (or no longer) allocated", p);
  alloc_live--; return 0;
}
static int parse_order(const char *s) {
  if (!s) return 15;
  int o = 0; if (!strcmp(s, "none")) return 0;
  if (strstr(s, "rar")) o |= 1;
  if (strstr(s, "raw")) o |= 2;
  if (strstr(s, "war")) o |= 4;
  if (strstr(s, "waw")) o |= 8;
  return o;
}
struct wc { int64_t size, off; int unit, order, same, flavor; };
static int wincreate(const char *fn, int flavor, void *base, MPI_Aint n, int unit, MPI_Info info, MPI_Comm h, MPI_Win *o) {
  struct gcomm *c = GETCOMM(h); intra(c, fn);
  if (n < 0) ERR("%s: negative size", fn);
  if (unit < 1) ERR("%s: displacement unit %d", fn, unit);
  if (n > 0 && !base) ERR("%s: %lld bytes at NULL", fn, (long long)n);
  if (n > 0 && !sim_in_region(base)) sim_fatal(ST_UNSUPPORTED, "%s over memory that MPI did not allocate", fn);
  if (n > 0 && !umem_covers(base, (size_t)n)) ERR("%s: window [%p,+%lld) is not inside allocated memory", fn, base, (long long)n);
  const char *so = info_get(info, "accumulate_ops");
  struct wc d = {n, n ? (char *)base - umem : 0, unit, parse_order(info_get(info, "accumulate_ordering")), so && !strcmp(so, "same_op"), flavor};
  slot *s = centerc(c, C_WINC, 0, flavor, &d, sizeof d); ALL(s, fn);
  if (!s->ready) {
    if (A->nwin >= 255) sim_fatal(ST_UNSUPPORTED, "window table full");
    int x = ++A->nwin; sim_win *w = &A->win[x]; memset(w, 0, sizeof *w);
    w->used = 1; w->ctx = c->ctx; w->n = s->np; w->flavor = flavor; w->model = A->cfg.model ? MPI_WIN_SEPARATE : MPI_WIN_UNIFIED; w->order = 15;
    for (int i = 0; i < s->np; i++) {
      struct wc *q = (struct wc *)s->data[i]; int wr = CX(c)->ranks[i];
      w->world[i] = wr; w->unit[i] = q->unit; w->size[i] = q->size; w->off[i] = q->off; w->order &= q->order; w->same_op |= q->same;
      w->pub[i] = (int64_t)((size_t)(w->model == MPI_WIN_SEPARATE ? MAXR + wr : wr) * REGION) + q->off;
      if (w->model == MPI_WIN_SEPARATE) {
        char *pr = region_sys(wr) + q->off; memcpy(sys_mem + w->pub[i], pr, (size_t)q->size);
        w->snap[i] = sh_alloc((size_t)q->size + 1); memcpy(w->snap[i], pr, (size_t)q->size);
      }
    }
    s->ival[0] = x; s->ready = 1;
  }
  int x = s->ival[0]; coll_leave(s);
  int i = wins_new(); struct gwin *W = &wins[i]; memset(W, 0, sizeof *W);
  W->live = 1; W->idx = x; W->comm_rank = c->rank; W->base = base; W->owns = flavor == MPI_WIN_FLAVOR_ALLOCATE || flavor == MPI_WIN_FLAVOR_SHARED; W->comm = h;
  W->a_unit = unit; W->a_size = n; W->a_model = A->win[x].model; W->a_flavor = flavor;
  *o = (MPI_Win)SIM_H(0x54, i);
  sim_point("Win_create exit");
  return 0;
}
int MPI_Win_create(void *b, MPI_Aint n, int u, MPI_Info i, MPI_Comm c, MPI_Win *w) { POINT(); return wincreate(__func__, MPI_WIN_FLAVOR_CREATE, b, n, u, i, c, w); }
int MPI_Win_allocate(MPI_Aint n, int u, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) {
  POINT(); void *p = NULL;
  if (n < 0) ERR("MPI_Win_allocate: negative size");
  if (n > 0 || A->cfg.zeroptr == 0 || (A->cfg.zeroptr == 2 && sim_rnd(2))) { p = umem_alloc((size_t)n); if (!p) ERR("MPI_Win_allocate: out of memory (%lld bytes)", (long long)n); }
  int r = wincreate(__func__, MPI_WIN_FLAVOR_ALLOCATE, p, n, u, i, c, w);
  *(void **)b = p; return r;
}
int MPI_Win_allocate_shared(MPI_Aint n, int u, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) { (void)n; (void)u; (void)i; (void)c; (void)b; (void)w; sim_fatal(ST_UNSUPPORTED, "MPI_Win_allocate_shared"); }
int MPI_Win_shared_query(MPI_Win w, int r, MPI_Aint *s, int *u, void *b) { (void)w; (void)r; (void)s; (void)u; (void)b; sim_fatal(ST_UNSUPPORTED, "MPI_Win_shared_query"); }
int MPI_Win_free(MPI_Win *win) {
  POINT(); struct gwin *W = GETWIN(*win); sim_win *w = &A->win[W->idx];
  if (any_epoch(W)) ERR("MPI_Win_free: access epoch still open");
  for (rop *o = A->ops; o; o = o->next) if (o->win == W->idx && o->origin == g_rank) ERR("MPI_Win_free: operation not completed");
  slot *s = coll_enter(-3000000 - W->idx, 0, w->n, W->comm_rank, C_WINFREE, 0, 0, NULL, 0);
  ALL(s, __func__); coll_leave(s);
  W->live = 0;
  if (W->owns && W->base) { if (umem_free(W->base)) ERR("MPI_Win_free: memory already released"); }
  *win = MPI_WIN_NULL; sim_point("Win_free exit");
  return 0;
}
int MPI_Win_get_attr(MPI_Win h, int k, void *v, int *f) {
  ENTER(); struct gwin *W = GETWIN(h); *f = 1;
  switch (k) {
    case MPI_WIN_BASE: *(void **)v = W->base; break;
    case MPI_WIN_SIZE: *(MPI_Aint **)v = &W->a_size; break;
    case MPI_WIN_DISP_UNIT: *(int **)v = &W->a_unit; break;
    case MPI_WIN_MODEL: *(int **)v = &W->a_model; break;
    case MPI_WIN_CREATE_FLAVOR: *(int **)v = &W->a_flavor; break;
    default: *f = 0;
  }
  return 0;
}
int MPI_Win_get_group(MPI_Win h, MPI_Group *g) { ENTER(); struct gwin *W = GETWIN(h); *g = mkgroup0(A->win[W->idx].n, A->win[W->idx].world); return 0; }
int MPI_Win_set_info(MPI_Win h, MPI_Info i) { (void)GETWIN(h); (void)i; return 0; }
int MPI_Win_get_info(MPI_Win h, MPI_Info *i) { (void)GETWIN(h); return MPI_Info_create(i); }
int MPI_Win_set_name(MPI_Win h, const char *n) { strncpy(GETWIN(h)->name, n, 63); return 0; }
int MPI_Win_get_name(MPI_Win h, char *n, int *l) { strcpy(n, GETWIN(h)->name); *l = (int)strlen(n); return 0; }
int MPI_Win_set_errhandler(MPI_Win h, MPI_Errhandler e) { (void)GETWIN(h); (void)e; return 0; }

/* ----------------------------------------------------------- environment */
int MPI_Init_thread(int *c, char ***v, int want, int *got) {
  (void)c; (void)v; if (mpi_state) ERR("MPI_Init called twice or after finalize");
  mpi_state = 1; mpi_thread = want < A->cfg.thread ? want : A->cfg.thread; if (got) *got = mpi_thread; sim_point(__func__); return 0;
}
int MPI_Init(int *c, char ***v) { return MPI_Init_thread(c, v, MPI_THREAD_SINGLE, NULL); }
int MPI_Finalize(void) {
  POINT(); struct gcomm *c = &comms[1]; slot *s = centerc(c, C_FINALIZE, 0, 0, NULL, 0); ALL(s, __func__); coll_leave(s);
  for (rop *o = A->ops; o; o = o->next) if (o->origin == g_rank) ERR("MPI_Finalize: RMA operation not completed");
  sim_leak_audit();
  mpi_state = 2; return 0;
}
int MPI_Initialized(int *f) { *f = mpi_state >= 1; return 0; }
int MPI_Finalized(int *f) { *f = mpi_state == 2; return 0; }
int MPI_Query_thread(int *t) { ENTER(); *t = mpi_thread; return 0; }
int MPI_Is_thread_main(int *f) { *f = g_ent == g_rank; return 0; }
int MPI_Abort(MPI_Comm c, int code) { (void)c; A->code = code; sim_fatal(ST_ABORT, "MPI_Abort(%d) by rank %d", code, g_rank); }
double MPI_Wtime(void) { step("MPI_Wtime"); A->vtime += 0.1; return A->vtime; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char *s, int *l) {
  const char *e = getenv("SIM_LIBVERSION");
#if SIM_VARIANT == 1
  const char *d = "Open MPI v4.1.6, package: Debian OpenMPI, ident: 4.1.6, repo rev: v4.1.6, Sep 30, 2023";
#elif SIM_VARIANT == 2
  const char *d = "Open MPI v5.0.3, package: x, ident: 5.0.3, repo rev: v5.0.3, Apr 08, 2024";
#elif SIM_VARIANT == 3
  const char *d = "MPICH Version:      4.2.0\nMPICH Release date: Fri Feb  9 12:29:21 CST 2024\n";
#else
  const char *d = "simmpi 1.0";
#endif
  strncpy(s, e ? e : d, MPI_MAX_LIBRARY_VERSION_STRING - 1); s[MPI_MAX_LIBRARY_VERSION_STRING - 1] = 0;
  for (char *c = s; e && *c; c++) if (*c == '|') *c = '\n';
  *l = (int)strlen(s); return 0;
}
int MPI_Get_processor_name(char *s, int *l) { strcpy(s, "simnode"); *l = 7; return 0; }
int MPI_Error_string(int e, char *s, int *l) { sprintf(s, "simmpi error %d", e); *l = (int)strlen(s); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }

static int leaked(void) {
  int n = 0;
  for (int i = 3; i < comms_n; i++) n += comms[i].live;
  for (int i = 2; i < groups_n; i++) n += groups[i].live;
  for (int i = SIM_NBASIC; i < types_n; i++) n += types[i].live;
  for (int i = 15; i < gops_n; i++) n += gops[i].live;
  for (int i = 2; i < infos_n; i++) n += infos[i].live;
  for (int i = 1; i < reqs_n; i++) n += reqs[i].live;
  for (int i = 1; i < wins_n; i++) n += wins[i].live;
  return n;
}
void sim_leak_audit(void) {
  if (!A->cfg.leakcheck) return;
  int n = leaked();
  if (n) {
    int c[7] = {0};
    for (int i = 3; i < comms_n; i++) c[0] += comms[i].live;
    for (int i = 2; i < groups_n; i++) c[1] += groups[i].live;
    for (int i = SIM_NBASIC; i < types_n; i++) c[2] += types[i].live;
    for (int i = 15; i < gops_n; i++) c[3] += gops[i].live;
    for (int i = 2; i < infos_n; i++) c[4] += infos[i].live;
    for (int i = 1; i < reqs_n; i++) c[5] += reqs[i].live;
    for (int i = 1; i < wins_n; i++) c[6] += wins[i].live;
    sim_fatal(ST_LEAK, "MPI objects not released: comm %d group %d type %d op %d info %d request %d win %d", c[0], c[1], c[2], c[3], c[4], c[5], c[6]);
  }
  if (un) sim_fatal(ST_LEAK, "%zu MPI memory allocations not released (first %zu bytes)", un, ualloc[0].len);
  if (lib_n) sim_fatal(ST_LEAK, "%zu library heap allocations not released", lib_n);
}
