/* Internal interface between simmpi.c and runner.c (not seen by the library). */
#ifndef SIM_SIM_H
#define SIM_SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "mpi.h"

#define MAXR 8            /* ranks per case */
#define MAXE 40           /* schedulable entities (rank main threads + threads) */
#define MAXCTX 512
#define REGION_STD ((size_t)4 << 20)   /* user-visible window memory per rank */
#define REGION_WIDE ((size_t)32 << 20) /* the same in cases with large allocations */
#define REGION_BIG ((size_t)24 << 30)  /* the same in cases with huge, sparsely used windows */
extern size_t sim_region;
#define REGION sim_region

enum { ST_OK = 0, ST_ABORT, ST_MPIERR, ST_CRASH, ST_DEADLOCK, ST_LIVELOCK,
       ST_TIMEOUT, ST_UNSUPPORTED, ST_CHECK, ST_LEAK };
enum { TR_EAGER = 0, TR_FIFO = 1, TR_WEAK = 2 };
enum { ES_UNUSED = 0, ES_RUN, ES_BLOCK, ES_DONE };

typedef struct {
  int np, policy, stick, transport, lazy, tear, collsync, rend, vamode, place,
      model, thread, poison, testlag, leakcheck, userop, zeroptr, threadpts, mempts, big;
  uint64_t seed, budget;
} sim_cfg;

typedef struct {
  int state, rank, prio;
  uint64_t seen, pause;    /* pause: not scheduled before that step while others can run */
  volatile int go;
  char where[48];
} sim_ent;

struct rop;
struct slot;
struct pmsg;
typedef struct {
  int used, n, ranks[MAXR], n2, ranks2[MAXR], inter;
} sim_ctx;

typedef struct {
  int used, ctx, n;
  int world[MAXR];
  int unit[MAXR];
  int64_t size[MAXR];
  int64_t off[MAXR];       /* offset of the private copy in the owner's region */
  int64_t pub[MAXR];       /* absolute offset (in the memfd) of what RMA acts on */
  int lock_excl[MAXR];     /* world rank + 1 of the holder */
  int lock_shared[MAXR];
  int flavor, model, order, same_op;
  char *snap[MAXR];
  int freed;
} sim_win;

typedef struct {
  sim_cfg cfg;
  sim_ent ent[MAXE];
  int nents, cur;
  uint64_t events, steps, prng, seq;
  volatile int status;
  int frank, code;
  char msg[2048];
  double vtime;
  /* statistics */
  uint64_t st_switch, st_rma, st_delayed, st_maxpend, st_coll, st_p2p, st_lockwait,
      st_blocked, st_reorder;
  /* objects */
  sim_ctx ctx[MAXCTX];
  int nctx;
  sim_win win[256];
  int nwin;
  struct rop *ops;      /* pending operations, issue order */
  int nops;
  struct slot *slots;
  struct pmsg *msgs;
  int nalloc_ids;
  int leaks[MAXR];
  int user[64];         /* scratch shared words for the interpreter */
  /* per rank logs */
  char *log[MAXR];
  size_t loglen[MAXR], logcap[MAXR];
  size_t brk, cap;
} sim_arena;

extern sim_arena *A;
extern int g_rank;
extern char *sys_mem;     /* mapping of the memfd: np regions, then np public copies */

void sim_boot(size_t arena_bytes, int memfd);
void sim_case_init(const sim_cfg *c);
void sim_rank_start(int rank);
void sim_rank_end(void) __attribute__((noreturn));
void sim_fatal(int status, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_point(const char *where);
void sim_spin(const char *where); /* a polling iteration: lets others run */
uint32_t sim_rnd(uint32_t n);
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void *sh_alloc(size_t n);
void sh_free(void *p, size_t n);
int sim_in_region(const void *p);
void sim_leak_audit(void);
void sim_event(void);
long sim_lib_live(void);
int sim_user_ctx_comm(int n, const int *ranks, MPI_Comm *out);
int sim_spawn(void *(*fn)(void *), void *arg); /* start a scheduled thread */
int sim_threads(void); /* live threads of this rank besides the main one */
int sim_threads(void);   /* live threads of this process besides the main one */
void sim_join(int ent);
#endif
