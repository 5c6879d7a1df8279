/* runner: fork server and interpreter of generated ARMCI programs. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <armci.h>
#include <armcix.h>
#include <message.h>
#ifndef RUN_NOINTERN
#include <conflict_tree.h>
#endif
#include "sim.h"
#ifdef RUN_PROF
/* what the application called and what the interposed tool saw during one operation */
static const char *app_seq[64], *tool_seq[64]; static int app_n, tool_n;
void prof_seen(const char *name) { if (tool_n < 64) tool_seq[tool_n] = name; tool_n++; }
static struct { const char *name; long n; } app_tot[128];
static void app_call(const char *name) {
  if (app_n < 64) app_seq[app_n] = name; app_n++;
  int i = 0; while (app_tot[i].name && strcmp(app_tot[i].name, name)) i++; app_tot[i].name = name; app_tot[i].n++;
}
#define APP(n) app_call(n),
#else
#define APP(n)
#endif
#ifndef RUN_NOINTERN
int ARMCII_Iov_check_overlap(void **ptrs, int count, int size) __attribute__((weak));
#endif

void sim_missing(const char *name) { sim_fatal(ST_CHECK, "%s is not defined by the library", name); }

/* ------------------------------------------------------------- program */
typedef struct { char **line; int n, cap; } prog;
static prog progs[MAXR];

#define NA 64
#define NG 64
#define NH 64
#define NM 32
#define NL 256
static struct { void **tab; int n, grp; } al[NA];
static struct { ARMCI_Group g; int live; } gr[NG];
static armci_hdl_t *hd[NH];
static armcix_mutex_hdl_t mx[NM];
static struct { char *p; size_t n; int armci; } lb[NL];
static MPI_Comm ucomm[8];
#ifndef RUN_NOINTERN
static ctree_t ct[4];
#endif
static struct { MPI_Datatype dummy; } unused_;

static __thread int cur_op;
#define CHECK(c, ...) do { if (!(c)) sim_fatal(ST_CHECK, __VA_ARGS__); } while (0)
#define BAD(...) sim_fatal(ST_UNSUPPORTED, __VA_ARGS__)

/* tokenizer */
typedef struct { char *s; } tk;
static char *next(tk *t) {
  while (*t->s == ' ') t->s++;
  if (!*t->s) BAD("missing argument at op %d", cur_op);
  char *b = t->s; while (*t->s && *t->s != ' ') t->s++;
  if (*t->s) *t->s++ = 0;
  return b;
}
static MPI_Request xreq[2];
static char xtok[2];
static int more(tk *t) { while (*t->s == ' ') t->s++; return *t->s != 0; }
static long num(tk *t) { return strtol(next(t), NULL, 0); }
static unsigned long unum(tk *t) { return strtoul(next(t), NULL, 0); }
static void *addr_of(char *s) {
  if (*s == 'n') return NULL;
  if (*s == 'x') return (void *)strtoull(s + 1, NULL, 16);
  char *e; long id = strtol(s + 1, &e, 10);
  if (*s == 'a') {
    if (*e != '.') BAD("address %s", s);
    long r = strtol(e + 1, &e, 10); long off = strtol(e, NULL, 10);
    if (id < 0 || id >= NA || !al[id].tab || r < 0 || r >= al[id].n) BAD("address %s: no such allocation", s);
    return (char *)al[id].tab[r] + off;
  }
  if (*s == 'l') { long off = strtol(e, NULL, 10); if (id < 0 || id >= NL || (!lb[id].p && lb[id].n)) BAD("address %s: no such buffer", s); return lb[id].p + off; }
  BAD("address %s", s);
}
static void *ad(tk *t) { return addr_of(next(t)); }
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static size_t hexin(char *d, const char *h) { size_t n = strlen(h) / 2; if (h[0] == '-') return 0; for (size_t i = 0; i < n; i++) d[i] = (char)(hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1])); return n; }
static char *hexout(const unsigned char *p, size_t n) {
  static __thread char *b; static __thread size_t cap; if (2 * n + 1 > cap) { cap = 2 * n + 64; b = realloc(b, cap); }
  for (size_t i = 0; i < n; i++) { static const char d[] = "0123456789abcdef"; b[2 * i] = d[p[i] >> 4]; b[2 * i + 1] = d[p[i] & 15]; }
  b[2 * n] = 0; return b;
}
/* comma list into an exactly sized heap block */
static int *ilist(tk *t, int *n) {
  char *s = next(t); if (*s == '-' && !s[1]) { *n = 0; return NULL; }
  int k = 1; for (char *p = s; *p; p++) k += *p == ',';
  int *v = malloc(sizeof(int) * (size_t)k); char *p = s;
  for (int i = 0; i < k; i++) { v[i] = (int)strtol(p, &p, 10); p++; }
  *n = k; return v;
}
static armci_hdl_t *hdl(tk *t) {
  char *s = next(t); if (*s == 'n') return NULL;
  int i = atoi(s + 1); if (!hd[i]) BAD("handle %d", i); return hd[i];
}
static void gotret(int r) { sim_log("R %d %d\n", cur_op, r); }
static void zret(int r) { if (r) sim_log("R %d %d\n", cur_op, r); }
static int ew[] = {4, 8, 4, 8, 8, 16};
static void *scale_in(int dt, tk *t) { char *h = next(t); char *p = malloc((size_t)ew[dt]); if (hexin(p, h) != (size_t)ew[dt]) BAD("scale"); return p; }

struct strided { void *src, *dst; int *ss, *ds, *ct; int lv, proc; int *cs, *cd, *cc; };
static int *dupl(int *a, int n) { int *b = malloc(sizeof(int) * (size_t)(n + 1)); if (n) memcpy(b, a, sizeof(int) * (size_t)n); return b; }
static void get_strided(struct strided *s, tk *t) {
  int n1, n2, n3;
  s->src = ad(t); s->ss = ilist(t, &n1); s->dst = ad(t); s->ds = ilist(t, &n2); s->ct = ilist(t, &n3); s->lv = n3 - 1; s->proc = (int)num(t);
  if (n1 < s->lv || n2 < s->lv) BAD("strided args");
  s->cs = dupl(s->ss, s->lv); s->cd = dupl(s->ds, s->lv); s->cc = dupl(s->ct, n3);
}
static void end_strided(struct strided *s) {
  if (s->lv) CHECK(!memcmp(s->cs, s->ss, sizeof(int) * (size_t)s->lv) && !memcmp(s->cd, s->ds, sizeof(int) * (size_t)s->lv), "op %d: stride array modified by the call", cur_op);
  CHECK(!memcmp(s->cc, s->ct, sizeof(int) * (size_t)(s->lv + 1)), "op %d: count array modified by the call", cur_op);
  /* the caller may reuse its descriptors at once */
  if (s->ss) memset(s->ss, 0x7f, sizeof(int) * (size_t)s->lv);
  if (s->ds) memset(s->ds, 0x7f, sizeof(int) * (size_t)s->lv);
  memset(s->ct, 0x7f, sizeof(int) * (size_t)(s->lv + 1));
  free(s->ss); free(s->ds); free(s->ct); free(s->cs); free(s->cd); free(s->cc);
}
struct vec { armci_giov_t *v, *c; int n, proc; };
static void get_vec(struct vec *v, tk *t) {
  v->proc = (int)num(t); v->n = (int)num(t);
  v->v = malloc(sizeof *v->v * (size_t)(v->n > 0 ? v->n : 1));
  for (int i = 0; i < v->n; i++) {
    v->v[i].bytes = (int)num(t); int k = v->v[i].ptr_array_len = (int)num(t);
    v->v[i].src_ptr_array = malloc(sizeof(void *) * (size_t)(k > 0 ? k : 0) + (k > 0 ? 0 : 1));
    v->v[i].dst_ptr_array = malloc(sizeof(void *) * (size_t)(k > 0 ? k : 0) + (k > 0 ? 0 : 1));
    if (k > 0 && more(t) && *t->s == '~') {      /* an arithmetic progression of segments */
      next(t); char *a = ad(t); long as = num(t); char *b = ad(t); long bs = num(t);
      for (int j = 0; j < k; j++) { v->v[i].src_ptr_array[j] = a + as * j; v->v[i].dst_ptr_array[j] = b + bs * j; }
      continue;
    }
    for (int j = 0; j < k; j++) v->v[i].src_ptr_array[j] = ad(t);
    for (int j = 0; j < k; j++) v->v[i].dst_ptr_array[j] = ad(t);
  }
  v->c = malloc(sizeof *v->c * (size_t)(v->n > 0 ? v->n : 1));
  for (int i = 0; i < v->n; i++) {
    v->c[i] = v->v[i]; size_t b = sizeof(void *) * (size_t)v->v[i].ptr_array_len;
    v->c[i].src_ptr_array = malloc(b + 1); v->c[i].dst_ptr_array = malloc(b + 1);
    memcpy(v->c[i].src_ptr_array, v->v[i].src_ptr_array, b); memcpy(v->c[i].dst_ptr_array, v->v[i].dst_ptr_array, b);
  }
}
static void end_vec(struct vec *v) {
  for (int i = 0; i < v->n; i++) {
    size_t b = sizeof(void *) * (size_t)v->v[i].ptr_array_len;
    CHECK(v->c[i].bytes == v->v[i].bytes && v->c[i].ptr_array_len == v->v[i].ptr_array_len && !memcmp(v->c[i].src_ptr_array, v->v[i].src_ptr_array, b) && !memcmp(v->c[i].dst_ptr_array, v->v[i].dst_ptr_array, b), "op %d: vector descriptor modified by the call", cur_op);
    memset(v->v[i].src_ptr_array, 0x6f, b); memset(v->v[i].dst_ptr_array, 0x6f, b);
    free(v->v[i].src_ptr_array); free(v->v[i].dst_ptr_array); free(v->c[i].src_ptr_array); free(v->c[i].dst_ptr_array);
  }
  free(v->v); free(v->c);
}
static void setal(int id, void **tab, int n, int grp) { al[id].tab = tab; al[id].n = n; al[id].grp = grp; }
static void logtab(int id, int rc) {
  sim_log("T %d %d %d", cur_op, id, rc); for (int i = 0; i < al[id].n; i++) sim_log(" %lx", (unsigned long)al[id].tab[i]); sim_log("\n");
}
#define IS(x) (!strcmp(op, x))
#define C1(fn, args) (APP("ARMCI_" #fn) ARMCI_##fn args)
#define C2(fn, args) (P ? PARMCI_##fn args : C1(fn, args))

static void scribble(void *p, size_t n) { memset(p, 0xEE, n); }
static int polls;

static void run_line(char *line);

static void exec(char *op, tk *t) {
  int P = *op == '!'; if (P) op++;
  switch (*op) {
  case 'm':
    if (IS("mpi_init")) { int got; MPI_Init_thread(NULL, NULL, (int)num(t), &got); return; }
    if (IS("mpi_fini")) { CHECK(sim_threads() == 0, "op %d: a thread of the library is still running after finalization", cur_op); MPI_Finalize(); return; }
    if (IS("malloc")) { int id = (int)num(t); long n = num(t); int np = armci_msg_nproc(); void **tab = malloc(sizeof(void *) * (size_t)np); memset(tab, 0x5a, sizeof(void *) * (size_t)np);
      int r = C2(Malloc, (tab, n)); setal(id, tab, np, -1); logtab(id, r); return; }
    if (IS("mdmalloc")) { int id = (int)num(t); long n = num(t); int np = armci_msg_nproc(); void **tab = malloc(sizeof(void *) * (size_t)np); memset(tab, 0x5a, sizeof(void *) * (size_t)np);
      int r = C2(Malloc_memdev, (tab, n, "dev")); setal(id, tab, np, -1); logtab(id, r); return; }
    if (IS("mdgmalloc")) { int id = (int)num(t); long n = num(t); int g = (int)num(t); int gs; ARMCI_Group_size(&gr[g].g, &gs); void **tab = malloc(sizeof(void *) * (size_t)gs); memset(tab, 0x5a, sizeof(void *) * (size_t)gs);
      int r = C2(Malloc_group_memdev, (tab, n, &gr[g].g, "dev")); setal(id, tab, gs, g); logtab(id, r); return; }
    if (IS("mdfree")) { void *p = ad(t); gotret(C2(Free_memdev, (p))); return; }
    if (IS("mcreate")) { zret(C2(Create_mutexes, ((int)num(t)))); return; }
    if (IS("mdestroy")) { zret(C2(Destroy_mutexes, ())); return; }
    if (IS("mxcreate")) { int id = (int)num(t); int c = (int)num(t); int g = (int)num(t); mx[id] = ARMCIX_Create_mutexes_hdl(c, &gr[g].g); CHECK(mx[id] != NULL, "op %d: mutex handle NULL", cur_op); return; }
    if (IS("mxdestroy")) { int id = (int)num(t); zret(ARMCIX_Destroy_mutexes_hdl(mx[id])); return; }
    if (IS("mxtrylock")) { int id = (int)num(t), m = (int)num(t), p = (int)num(t), key = (int)num(t);
      CHECK(ARMCIX_Trylock_hdl(mx[id], m, p) == 0, "op %d: trylock did not return zero", cur_op);
      if (key < 0) return;
      CHECK(A->user[key] == 0, "op %d: mutex granted while process %d holds it", cur_op, A->user[key] - 1); A->user[key] = g_rank + 1; return; }
    if (IS("mxlock")) { int id = (int)num(t), m = (int)num(t), p = (int)num(t), key = (int)num(t); ARMCIX_Lock_hdl(mx[id], m, p);
      if (key < 0) return;
      CHECK(A->user[key] == 0, "op %d: mutex granted while process %d holds it", cur_op, A->user[key] - 1); A->user[key] = g_rank + 1; return; }
    if (IS("mxunlock")) { int id = (int)num(t), m = (int)num(t), p = (int)num(t), key = (int)num(t);
      if (key >= 0) { CHECK(A->user[key] == g_rank + 1, "op %d: mutex held by process %d while this one holds it", cur_op, A->user[key] - 1); A->user[key] = 0; } ARMCIX_Unlock_hdl(mx[id], m, p); return; }
    if (IS("me")) { sim_log("V %d %d %d\n", cur_op, armci_msg_me(), armci_msg_nproc()); return; }
    if (IS("mbar")) { if (P) parmci_msg_barrier(); else (APP("armci_msg_barrier") armci_msg_barrier()); return; }
    if (IS("msgtok")) { int to = (int)num(t), tag = more(t) ? (int)num(t) : 78; char c = 1; armci_msg_snd(tag, &c, 1, to); return; }
    if (IS("msgrtok")) { int from = (int)num(t), tag = more(t) ? (int)num(t) : 78; char c = 0; armci_msg_rcv(tag, &c, 1, NULL, from); return; }
    if (IS("mark")) { int key = (int)num(t); A->user[key]++; return; }
    if (IS("mgbar")) { int g = (int)num(t); if (P) parmci_msg_group_barrier(&gr[g].g); else (APP("armci_msg_group_barrier") armci_msg_group_barrier(&gr[g].g)); return; }
    break;
  case 'i':
    if (IS("init")) {
      char *k = next(t); int r = 0, argc = 0; char **argv = NULL;
      if (!strcmp(k, "plain")) r = C2(Init, ());
      else if (!strcmp(k, "args")) r = C2(Init_args, (&argc, &argv));
      else if (!strcmp(k, "thread")) r = C2(Init_thread, ((int)num(t)));
      else if (!strcmp(k, "thread_comm")) { int l = (int)num(t); int c = (int)num(t); r = C2(Init_thread_comm, (l, ucomm[c])); }
      else if (!strcmp(k, "mpi_comm")) { int c = (int)num(t); r = C2(Init_mpi_comm, (ucomm[c])); }
      else BAD("init");
      gotret(r); return;
    }
    if (IS("incr")) { char *p = ad(t); int k = (int)num(t), v; memcpy(&v, p, 4); v += k; memcpy(p, &v, 4); return; }
    if (IS("initialized")) { gotret(C2(Initialized, ())); return; }
#ifndef RUN_NOINTERN
    if (IS("iovov") && ARMCII_Iov_check_overlap) { int b = (int)num(t), n = (int)num(t); void **p = malloc(sizeof(void *) * (size_t)n); for (int i = 0; i < n; i++) p[i] = ad(t); gotret(ARMCII_Iov_check_overlap(p, n, b)); free(p); return; }
    break;
  case 'u':
#endif
    if (IS("usercomm")) { int id = (int)num(t), color = (int)num(t), key = (int)num(t); MPI_Comm_split(MPI_COMM_WORLD, color, key, &ucomm[id]); return; }
    if (IS("usercommfree")) { int id = (int)num(t); if (ucomm[id] != MPI_COMM_NULL) MPI_Comm_free(&ucomm[id]); return; }
    if (IS("unlock")) { int m = (int)num(t), p = (int)num(t), key = (int)num(t); if (key >= 0) { CHECK(A->user[key] == g_rank + 1, "op %d: mutex held by process %d while this one holds it", cur_op, A->user[key] - 1); A->user[key] = 0; } C2(Unlock, (m, p)); return; }
    break;
  case 'f':
    if (IS("fini")) { gotret(C2(Finalize, ())); return; }
    if (IS("fillint")) {  /* ints of a formula */
      int *p = (int *)ad(t); long n = num(t), salt = num(t); sim_point("fill"); for (long i = 0; i < n; i++) p[i] = (int)((salt * 31 + i * 17) % 1999) - 999; return;
    }
    if (IS("fill")) { char *p = ad(t); char *h = next(t); size_t n = strlen(h) / 2; sim_point("fill"); char *b = malloc(n + 1); hexin(b, h); memcpy(p, b, n); free(b); return; }
    if (IS("free")) { void *p = ad(t); gotret(C2(Free, (p))); return; }
    if (IS("fence")) { int p = (int)num(t); C2(Fence, (p)); return; }
    break;
  case 'd':
    if (IS("dump")) { char *tag = next(t); char *p = ad(t); size_t n = (size_t)num(t); sim_point("dump"); unsigned char *b = malloc(n + 1); memcpy(b, p, n); sim_log("D %s %s\n", tag, n ? hexout(b, n) : "-"); free(b); return; }
    if (IS("dom")) {
      int me = armci_msg_me(), np = armci_msg_nproc(), d = ARMCI_DOMAIN_SMP;
      sim_log("V %d %d %d cnt %d myid %d id", cur_op, me, np, armci_domain_count(d), armci_domain_my_id(d));
      for (int i = 0; i < np; i++) sim_log(" %d", armci_domain_id(d, i));
      sim_log(" same"); for (int i = 0; i < np; i++) sim_log(" %d", armci_domain_same_id(d, i));
      sim_log(" node"); for (int i = 0; i < np; i++) sim_log(" %d", ARMCI_Same_node(i));
      for (int k = 0; k < armci_domain_count(d); k++) { int n = armci_domain_nprocs(d, k); sim_log(" dom %d", n); for (int i = 0; i < n; i++) sim_log(" %d", armci_domain_glob_proc_id(d, k, i)); }
      sim_log("\n"); return; }
    break;
  case 'a':
    if (IS("acc")) { int dt = (int)num(t); void *sc = scale_in(dt, t); void *s = ad(t), *d = ad(t); int n = (int)num(t), p = (int)num(t); zret(C2(Acc, (dt, sc, s, d, n, p))); scribble(sc, (size_t)ew[dt]); free(sc); return; }
    if (IS("accs")) { int dt = (int)num(t); void *sc = scale_in(dt, t); struct strided s; get_strided(&s, t); zret(C2(AccS, (dt, sc, s.src, s.ss, s.dst, s.ds, s.ct, s.lv, s.proc))); scribble(sc, (size_t)ew[dt]); free(sc); end_strided(&s); return; }
    if (IS("accv")) { int dt = (int)num(t); void *sc = scale_in(dt, t); struct vec v; get_vec(&v, t); zret(C2(AccV, (dt, sc, v.v, v.n, v.proc))); scribble(sc, (size_t)ew[dt]); free(sc); end_vec(&v); return; }
    if (IS("abegin")) { void *p = ad(t); C2(Access_begin, (p)); return; }
    if (IS("aend")) { void *p = ad(t); C2(Access_end, (p)); return; }
    if (IS("afence")) { C2(AllFence, ()); return; }
    break;
  case 'p':
    if (IS("put")) { void *s = ad(t), *d = ad(t); int n = (int)num(t), p = (int)num(t); zret(C2(Put, (s, d, n, p))); return; }
    if (IS("puts")) { struct strided s; get_strided(&s, t); zret(C2(PutS, (s.src, s.ss, s.dst, s.ds, s.ct, s.lv, s.proc))); end_strided(&s); return; }
    if (IS("putv")) { struct vec v; get_vec(&v, t); zret(C2(PutV, (v.v, v.n, v.proc))); end_vec(&v); return; }
    if (IS("putf")) { void *s = ad(t), *d = ad(t); int n = (int)num(t); void *f = ad(t); int v = (int)num(t), p = (int)num(t); gotret(C2(Put_flag, (s, d, n, f, v, p))); return; }
    if (IS("putsf")) { struct strided s; get_strided(&s, t); void *f = ad(t); int v = (int)num(t); gotret(C2(PutS_flag, (s.src, s.ss, s.dst, s.ds, s.ct, s.lv, f, v, s.proc))); end_strided(&s); return; }
    if (IS("putval")) { char ty = *next(t); void *d = ad(t); char *h = next(t); int p = (int)num(t); char b[8]; hexin(b, h); int r = 0;
      if (ty == 'i') { int v; memcpy(&v, b, 4); r = C2(PutValueInt, (v, d, p)); } else if (ty == 'l') { long v; memcpy(&v, b, 8); r = C2(PutValueLong, (v, d, p)); }
      else if (ty == 'f') { float v; memcpy(&v, b, 4); r = C2(PutValueFloat, (v, d, p)); } else { double v; memcpy(&v, b, 8); r = C2(PutValueDouble, (v, d, p)); }
      zret(r); return; }
    if (IS("poll")) { volatile int *p = ad(t); int v = (int)num(t); int acc = (int)num(t);
      for (;;) { if (acc) { C1(Access_begin, ((void *)p)); } int x = *p; if (acc) C1(Access_end, ((void *)p)); if (x == v) break; sim_spin("poll"); } polls++; return; }
    if (IS("pollget")) { void *s = ad(t); int v = (int)num(t), p = (int)num(t); int *b = malloc(4); do { *b = ~v; C1(Get, (s, b, 4, p)); sim_spin("pollget"); } while (*b != v); free(b); return; }
    if (IS("progress")) { ARMCIX_Progress(); return; }
    break;
  case 'g':
    if (IS("get")) { void *s = ad(t), *d = ad(t); int n = (int)num(t), p = (int)num(t); zret(C2(Get, (s, d, n, p))); return; }
    if (IS("gets")) { struct strided s; get_strided(&s, t); zret(C2(GetS, (s.src, s.ss, s.dst, s.ds, s.ct, s.lv, s.proc))); end_strided(&s); return; }
    if (IS("getv")) { struct vec v; get_vec(&v, t); zret(C2(GetV, (v.v, v.n, v.proc))); end_vec(&v); return; }
    if (IS("getval")) { char ty = *next(t); void *s = ad(t); int p = (int)num(t); unsigned char b[8]; size_t n = 8;
      if (ty == 'i') { int v = C2(GetValueInt, (s, p)); memcpy(b, &v, n = 4); } else if (ty == 'l') { long v = C2(GetValueLong, (s, p)); memcpy(b, &v, 8); }
      else if (ty == 'f') { float v = C2(GetValueFloat, (s, p)); memcpy(b, &v, n = 4); } else { double v = C2(GetValueDouble, (s, p)); memcpy(b, &v, 8); }
      sim_log("V %d %s\n", cur_op, hexout(b, n)); return; }
    if (IS("gmalloc")) { int id = (int)num(t); long n = num(t); int g = (int)num(t); int gs; ARMCI_Group_size(&gr[g].g, &gs); void **tab = malloc(sizeof(void *) * (size_t)gs); memset(tab, 0x5a, sizeof(void *) * (size_t)gs);
      int r = ARMCI_Malloc_group(tab, n, &gr[g].g); setal(id, tab, gs, g); logtab(id, r); return; }
    if (IS("gfreemem")) { void *p = ad(t); int g = (int)num(t); gotret(ARMCI_Free_group(p, &gr[g].g)); return; }
    if (IS("gcreate") || IS("gchild") || IS("ggrp")) {
      int id = (int)num(t); int par = IS("gchild") ? (int)num(t) : -1; int k; char *s = next(t); tk u = {s}; int *v = ilist(&u, &k);
      memset(&gr[id].g, 0xcd, sizeof gr[id].g);
      if (par >= 0) ARMCI_Group_create_child(k, v, &gr[id].g, &gr[par].g); else ARMCI_Group_create(k, v, &gr[id].g);
      gr[id].live = 1; if (v) memset(v, 0x7f, sizeof(int) * (size_t)k); free(v); return; }
    if (IS("gsplit")) { int id = (int)num(t), par = (int)num(t), c = (int)num(t), k = (int)num(t); memset(&gr[id].g, 0xcd, sizeof gr[id].g); zret(ARMCIX_Group_split(&gr[par].g, c, k, &gr[id].g)); return; }
    if (IS("gdup")) { int id = (int)num(t), par = (int)num(t); memset(&gr[id].g, 0xcd, sizeof gr[id].g); zret(ARMCIX_Group_dup(&gr[par].g, &gr[id].g)); return; }
    if (IS("gfree")) { int id = (int)num(t); ARMCI_Group_free(&gr[id].g); return; }
    if (IS("ginfo")) { int id = (int)num(t); int r = -7, s = -7; int rc = ARMCI_Group_rank(&gr[id].g, &r); ARMCI_Group_size(&gr[id].g, &s); sim_log("V %d %d %d %d abs", cur_op, rc, r, s); for (int i = 0; i < s; i++) sim_log(" %d", ARMCI_Absolute_id(&gr[id].g, i)); sim_log("\n"); return; }
    if (IS("gsetdef")) { int id = (int)num(t); ARMCI_Group_set_default(&gr[id].g); return; }
    if (IS("ggetdef")) { int id = (int)num(t); memset(&gr[id].g, 0xcd, sizeof gr[id].g); ARMCI_Group_get_default(&gr[id].g); return; }
    if (IS("gworld")) { int id = (int)num(t); memset(&gr[id].g, 0xcd, sizeof gr[id].g); ARMCI_Group_get_world(&gr[id].g); return; }
    if (IS("gop")) { /* gop form scope addr n op type [group] */
      char *form = next(t); int sc = (int)num(t); void *x = ad(t); int n = (int)num(t); char *o = next(t); int ty = (int)num(t); char ob[16]; snprintf(ob, sizeof ob, "%s", o);
      if (!strcmp(form, "scope")) armci_msg_gop_scope(sc, x, n, ob, ty);
      else if (!strcmp(form, "typed")) { if (ty == ARMCI_INT) armci_msg_igop(x, n, ob); else if (ty == ARMCI_LONG) armci_msg_lgop(x, n, ob); else if (ty == ARMCI_LONG_LONG) armci_msg_llgop(x, n, ob); else if (ty == ARMCI_FLOAT) armci_msg_fgop(x, n, ob); else armci_msg_dgop(x, n, ob); }
      else if (!strcmp(form, "reduce")) armci_msg_reduce(x, n, ob, ty);
      else if (!strcmp(form, "reduces")) armci_msg_reduce_scope(sc, x, n, ob, ty);
      else { int g = (int)num(t); ARMCI_Group *G = &gr[g].g;
        if (!strcmp(form, "gscope")) armci_msg_group_gop_scope(sc, x, n, ob, ty, G);
        else if (ty == ARMCI_INT) armci_msg_group_igop(x, n, ob, G); else if (ty == ARMCI_LONG) armci_msg_group_lgop(x, n, ob, G); else if (ty == ARMCI_LONG_LONG) armci_msg_group_llgop(x, n, ob, G); else if (ty == ARMCI_FLOAT) armci_msg_group_fgop(x, n, ob, G); else armci_msg_group_dgop(x, n, ob, G); }
      return; }
    break;
  case 'b':
    if (IS("barrier")) { C2(Barrier, ()); return; }
    if (IS("bcast")) { char *form = next(t); int sc = (int)num(t); void *b = ad(t); int n = (int)num(t), root = (int)num(t);
      if (!strcmp(form, "plain")) armci_msg_bcast(b, n, root); else if (!strcmp(form, "brdcst")) armci_msg_brdcst(b, n, root); else if (!strcmp(form, "scope")) armci_msg_bcast_scope(sc, b, n, root);
      
      else { int g = (int)num(t); armci_msg_group_bcast_scope(sc, b, n, root, &gr[g].g); }
      return; }
    if (IS("bintree")) { int sc = (int)num(t); int r = -99, u = -99, l = -99, q = -99; armci_msg_bintree(sc, &r, &u, &l, &q); sim_log("V %d %d %d %d %d\n", cur_op, r, u, l, q); return; }
    break;
  case 'l':
    if (IS("lb")) { int id = (int)num(t); size_t n = (size_t)num(t); lb[id].p = malloc(n); lb[id].n = n; lb[id].armci = 0; memset(lb[id].p, 0x33, n); return; }
    if (IS("lbfree")) { int id = (int)num(t); free(lb[id].p); lb[id].p = NULL; lb[id].n = 1; return; }
    if (IS("lmalloc")) { int id = (int)num(t); size_t n = (size_t)num(t); lb[id].p = C2(Malloc_local, ((armci_size_t)n)); lb[id].n = n; lb[id].armci = 1; CHECK(!n || lb[id].p, "op %d: no local memory", cur_op); sim_log("V %d %d\n", cur_op, lb[id].p != NULL); return; }
    if (IS("lfree")) { int id = (int)num(t); zret(C2(Free_local, (lb[id].p))); lb[id].p = NULL; lb[id].n = 1; return; }
    if (IS("lock")) { int m = (int)num(t), p = (int)num(t), key = (int)num(t); C2(Lock, (m, p)); if (key >= 0) { CHECK(A->user[key] == 0, "op %d: mutex granted while process %d holds it", cur_op, A->user[key] - 1); A->user[key] = g_rank + 1; } return; }
    break;
  case 'n':
    if (IS("nbput")) { void *s = ad(t), *d = ad(t); int n = (int)num(t), p = (int)num(t); armci_hdl_t *h = hdl(t); zret(C2(NbPut, (s, d, n, p, h))); return; }
    if (IS("nbget")) { void *s = ad(t), *d = ad(t); int n = (int)num(t), p = (int)num(t); armci_hdl_t *h = hdl(t); zret(C2(NbGet, (s, d, n, p, h))); return; }
    if (IS("nbacc")) { int dt = (int)num(t); void *sc = scale_in(dt, t); void *s = ad(t), *d = ad(t); int n = (int)num(t), p = (int)num(t); armci_hdl_t *h = hdl(t); zret(C2(NbAcc, (dt, sc, s, d, n, p, h))); scribble(sc, (size_t)ew[dt]); free(sc); return; }
    if (IS("nbputs")) { struct strided s; get_strided(&s, t); armci_hdl_t *h = hdl(t); zret(C2(NbPutS, (s.src, s.ss, s.dst, s.ds, s.ct, s.lv, s.proc, h))); end_strided(&s); return; }
    if (IS("nbgets")) { struct strided s; get_strided(&s, t); armci_hdl_t *h = hdl(t); zret(C2(NbGetS, (s.src, s.ss, s.dst, s.ds, s.ct, s.lv, s.proc, h))); end_strided(&s); return; }
    if (IS("nbaccs")) { int dt = (int)num(t); void *sc = scale_in(dt, t); struct strided s; get_strided(&s, t); armci_hdl_t *h = hdl(t); zret(C2(NbAccS, (dt, sc, s.src, s.ss, s.dst, s.ds, s.ct, s.lv, s.proc, h))); scribble(sc, (size_t)ew[dt]); free(sc); end_strided(&s); return; }
    if (IS("nbputv")) { armci_hdl_t *h = hdl(t); struct vec v; get_vec(&v, t); zret(C2(NbPutV, (v.v, v.n, v.proc, h))); end_vec(&v); return; }
    if (IS("nbgetv")) { armci_hdl_t *h = hdl(t); struct vec v; get_vec(&v, t); zret(C2(NbGetV, (v.v, v.n, v.proc, h))); end_vec(&v); return; }
    if (IS("nbaccv")) { armci_hdl_t *h = hdl(t); int dt = (int)num(t); void *sc = scale_in(dt, t); struct vec v; get_vec(&v, t); zret(C2(NbAccV, (dt, sc, v.v, v.n, v.proc, h))); scribble(sc, (size_t)ew[dt]); free(sc); end_vec(&v); return; }
    if (IS("nbputval")) { char ty = *next(t); void *d = ad(t); char *hx = next(t); int p = (int)num(t); armci_hdl_t *h = hdl(t); char b[8]; hexin(b, hx); int r = 0;
      if (ty == 'i') { int v; memcpy(&v, b, 4); r = C2(NbPutValueInt, (v, d, p, h)); } else if (ty == 'l') { long v; memcpy(&v, b, 8); r = C2(NbPutValueLong, (v, d, p, h)); }
      else if (ty == 'f') { float v; memcpy(&v, b, 4); r = C2(NbPutValueFloat, (v, d, p, h)); } else { double v; memcpy(&v, b, 8); r = C2(NbPutValueDouble, (v, d, p, h)); }
      zret(r); return; }
    break;
  case 'h':
    if (IS("hinit")) { int i = (int)num(t); if (!hd[i]) { hd[i] = malloc(sizeof *hd[i]); memset(hd[i], 0xcd, sizeof *hd[i]); } ARMCI_INIT_HANDLE(hd[i]); return; }
    if (IS("hash")) {   /* a digest of a range, logged like a dump */
      char *tag = next(t); unsigned char *p = (unsigned char *)ad(t); size_t n = (size_t)num(t); unsigned long h = n;
      sim_point("dump"); for (size_t i = 0; i < n; i++) h += p[i] * ((i * 2654435761UL + 12345) & 0xffffffffUL);
      unsigned char b[8]; for (int i = 0; i < 8; i++) b[i] = (unsigned char)(h >> 8 * i);
      sim_log("D %s %s\n", tag, hexout(b, 8)); return;
    }
    if (IS("hagg")) { ARMCI_SET_AGGREGATE_HANDLE(hd[num(t)]); return; }
    if (IS("hunagg")) { ARMCI_UNSET_AGGREGATE_HANDLE(hd[num(t)]); return; }
    if (IS("hfree")) { int i = (int)num(t); memset(hd[i], 0xcd, sizeof *hd[i]); free(hd[i]); hd[i] = NULL; return; }
    break;
  case 'w':
    if (IS("wait")) { armci_hdl_t *h = hdl(t); zret(C2(Wait, (h))); return; }
    if (IS("waitproc")) { int p = (int)num(t); zret(C2(WaitProc, (p))); return; }
    if (IS("waitall")) { zret(C2(WaitAll, ())); return; }
    if (IS("wstrided")) { void *p = ad(t); int n1, n2; int *st = ilist(t, &n1), *c = ilist(t, &n2); void *b = ad(t); int *c1 = dupl(st, n1), *c2 = dupl(c, n2);
      armci_write_strided(p, n2 - 1, st, c, b); CHECK((!n1 || !memcmp(c1, st, sizeof(int) * (size_t)n1)) && !memcmp(c2, c, sizeof(int) * (size_t)n2), "op %d: pack arguments modified", cur_op); free(st); free(c); free(c1); free(c2); return; }
    break;
  case 't':
    if (IS("test")) { armci_hdl_t *h = hdl(t); gotret(C2(Test, (h))); return; }
    if (IS("testloop")) { armci_hdl_t *h = hdl(t); int k = 0; while (C2(Test, (h))) { if (++k > 200) sim_fatal(ST_CHECK, "op %d: ARMCI_Test never reports completion", cur_op); } return; }
    if (IS("timer")) { double a = armci_timer(); double b = armci_timer(); CHECK(b >= a, "timer runs backwards"); return; }
    if (IS("tokown")) { int to = (int)num(t), tag = (int)num(t); xtok[0] = 3; MPI_Isend(&xtok[0], 1, MPI_BYTE, to, tag, MPI_COMM_WORLD, &xreq[0]); return; }
    if (IS("towni")) { xtok[1] = 0; MPI_Irecv(&xtok[1], 1, MPI_BYTE, (int)num(t), MPI_ANY_TAG, MPI_COMM_WORLD, &xreq[1]); return; }
    if (IS("twtok")) { int k = (int)num(t); MPI_Wait(&xreq[k], MPI_STATUS_IGNORE); if (k) CHECK(xtok[1] == 3, "op %d: the program's own MPI receive got a message of the library", cur_op); return; }
    if (IS("tokv")) { int to = (int)num(t), tag = (int)num(t); char c = 3; MPI_Send(&c, 1, MPI_BYTE, to, tag, MPI_COMM_WORLD); return; }
    if (IS("tok")) { int to = (int)num(t), tag = (int)num(t); char c = 1; MPI_Send(&c, 1, MPI_BYTE, to, tag, MPI_COMM_WORLD); return; }
    break;
  case 'r':
    if (IS("rmw")) { int o = (int)num(t); void *l = ad(t), *r = ad(t); int v = (int)num(t), p = (int)num(t); unsigned long s0 = A->steps; zret(C2(Rmw, (o, l, r, v, p))); 
      if (more(t)) { sim_log("W %d %s %lu %lu\n", cur_op, hexout(l, (o == ARMCI_FETCH_AND_ADD || o == ARMCI_SWAP) ? 4 : 8), s0, A->steps); } return; }
    if (IS("rcv")) { int tag = (int)num(t); void *b = ad(t); int n = (int)num(t), from = (int)num(t); int len = -5; armci_msg_rcv(tag, b, n, &len, from); sim_log("V %d %d\n", cur_op, len); return; }
    if (IS("rcvn")) { int tag = (int)num(t); void *b = ad(t); int n = (int)num(t), from = (int)num(t); armci_msg_rcv(tag, b, n, NULL, from); return; }
    if (IS("rcvany")) { int tag = (int)num(t); void *b = ad(t); int n = (int)num(t); int len = -5; int from = armci_msg_rcvany(tag, b, n, &len); sim_log("V %d %d %d\n", cur_op, len, from); return; }
    if (IS("rstrided")) { void *p = ad(t); int n1, n2; int *st = ilist(t, &n1), *c = ilist(t, &n2); void *b = ad(t); int *c1 = dupl(st, n1), *c2 = dupl(c, n2);
      armci_read_strided(p, n2 - 1, st, c, b); CHECK((!n1 || !memcmp(c1, st, sizeof(int) * (size_t)n1)) && !memcmp(c2, c, sizeof(int) * (size_t)n2), "op %d: unpack arguments modified", cur_op); free(st); free(c); free(c1); free(c2); return; }
    if (IS("rtokv")) { int from = (int)num(t), tag = (int)num(t); char c = 0; MPI_Recv(&c, 1, MPI_BYTE, from, tag, MPI_COMM_WORLD, MPI_STATUS_IGNORE); CHECK(c == 3, "op %d: the program's own MPI receive got a message of the library", cur_op); return; }
    if (IS("rtok")) { int from = (int)num(t), tag = (int)num(t); char c; MPI_Recv(&c, 1, MPI_BYTE, from, tag, MPI_COMM_WORLD, MPI_STATUS_IGNORE); return; }
    break;
  case 's':
    if (IS("sync")) { MPI_Barrier(MPI_COMM_WORLD); return; }
    if (IS("snd")) { int tag = (int)num(t); void *b = ad(t); int n = (int)num(t), to = (int)num(t); armci_msg_snd(tag, b, n, to); return; }
    if (IS("sel")) { char *form = next(t); int sc = (int)num(t); void *x = ad(t); int n = (int)num(t); char *o = next(t); char ob[16]; snprintf(ob, sizeof ob, "%s", o); int ty = (int)num(t), c = (int)num(t); if (!strcmp(form, "plain")) armci_msg_sel(x, n, ob, ty, c); else armci_msg_sel_scope(sc, x, n, ob, ty, c); return; }
    if (IS("spin")) { int k = (int)num(t); while (k-- > 0) sim_spin("spin"); return; }
    if (IS("same")) { return; }
    break;
  case 'e':
    if (IS("eabort")) { armci_msg_abort((int)num(t)); return; }
    if (IS("error")) { ARMCI_Error("requested", (int)num(t)); return; }
    if (IS("cleanup")) { ARMCI_Cleanup(); return; }
    if (IS("env")) { char *k = next(t); setenv(k, more(t) ? t->s : "", 1); return; }
    break;
  case 'c':
    if (IS("chk")) { int key = (int)num(t), v = (int)num(t); CHECK(A->user[key] >= v, "op %d: left a barrier that only %d of %d processes had entered", cur_op, A->user[key], v); return; }
    if (IS("copy")) { void *s = ad(t), *d = ad(t); int n = (int)num(t); ARMCI_Copy(s, d, n); return; }
#ifndef RUN_NOINTERN
    if (IS("ctnew")) { ct[num(t)] = CTREE_EMPTY; return; }
    if (IS("ctins")) { int i = (int)num(t); unsigned long lo = unum(t), hi = unum(t); gotret(ctree_insert(&ct[i], (uint8_t *)lo, (uint8_t *)hi)); return; }
    if (IS("ctloc")) { int i = (int)num(t); unsigned long lo = unum(t), hi = unum(t); ctree_t n = ctree_locate(ct[i], (uint8_t *)lo, (uint8_t *)hi); if (n) sim_log("V %d %lu %lu\n", cur_op, (unsigned long)n->lo, (unsigned long)n->hi); else sim_log("V %d none\n", cur_op); return; }
    if (IS("ctdump")) { /* in-order walk with structural checks */
      int i = (int)num(t); sim_log("C %d", cur_op);
      ctree_t st[128]; int sp = 0; ctree_t n = ct[i]; CHECK(!n || !n->parent, "root has a parent");
      while (n || sp) { while (n) { if (sp >= 128) BAD("deep tree"); st[sp++] = n; if (n->left) CHECK(n->left->parent == n, "bad parent link"); if (n->right) CHECK(n->right->parent == n, "bad parent link"); n = n->left; }
        n = st[--sp]; sim_log(" %lu-%lu", (unsigned long)n->lo, (unsigned long)n->hi); n = n->right; }
      sim_log("\n"); return; }
    if (IS("ctheight")) { int i = (int)num(t);
      /* height by explicit stack */
      ctree_t st[256]; int d[256]; int sp = 0, h = 0; if (ct[i]) { st[0] = ct[i]; d[0] = 1; sp = 1; } while (sp) { sp--; ctree_t n = st[sp]; int k = d[sp]; if (k > h) h = k; if (n->left) { st[sp] = n->left; d[sp++] = k + 1; } if (n->right) { st[sp] = n->right; d[sp++] = k + 1; } }
      sim_log("V %d %d\n", cur_op, h); return; }
    if (IS("ctdel")) { ctree_destroy(&ct[num(t)]); return; }
#endif
    break;
#ifdef RUN_PROF
  case 'P':
    if (IS("Pcount")) { sim_log("P %d", cur_op); for (int i = 0; app_tot[i].name; i++) sim_log(" %s=%ld", app_tot[i].name, app_tot[i].n); sim_log("\n"); return; }
    break;
#endif
  }
  BAD("unknown operation '%s'", op);
}
static void run_line(char *line) {
  char *c = strdup(line); tk t = {c}; char *op = next(&t);
#if defined(RUN_PROF) && RUN_PROF == 1
  app_n = tool_n = 0;
  exec(op, &t);
  int bad = app_n != tool_n;
  for (int i = 0; i < app_n && i < 64 && !bad; i++) bad = strcmp(app_seq[i], tool_seq[i]) != 0;
  if (bad) { char a[400] = "", b[400] = "";
    for (int i = 0; i < app_n && i < 6; i++) { strcat(a, " "); strcat(a, app_seq[i]); }
    for (int i = 0; i < tool_n && i < 6; i++) { strcat(b, " "); strcat(b, tool_seq[i]); }
    sim_fatal(ST_CHECK, "op %d: the application called [%s ] (%d) and the interposed tool saw [%s ] (%d)", cur_op, a, app_n, b, tool_n); }
#else
  exec(op, &t);
#endif
  free(c);
}

/* multi-threaded blocks: lines "@k op ..." between "par K" and "endpar" */
struct targ { int from, to, k; };
static prog *myprog;
static void *thr_main(void *p) {
  struct targ a = *(struct targ *)p; free(p);
  char pre[16]; snprintf(pre, sizeof pre, "@%d ", a.k); size_t n = strlen(pre);
  for (int i = a.from; i < a.to; i++) if (!strncmp(myprog->line[i], pre, n)) { cur_op = i; run_line(myprog->line[i] + n); }
  return NULL;
}
static void run_prog(prog *p) {
  myprog = p;
  for (int i = 0; i < p->n; i++) {
    cur_op = i; ((int *)A->user)[48 + g_rank] = i;
    if (!strncmp(p->line[i], "par ", 4)) {
      int k = atoi(p->line[i] + 4), e = i; while (strcmp(p->line[e], "endpar")) e++;
      int id[16];
      for (int j = 1; j < k; j++) { struct targ *a = malloc(sizeof *a); a->from = i + 1; a->to = e; a->k = j; id[j] = sim_spawn(thr_main, a); }
      struct targ *a = malloc(sizeof *a); a->from = i + 1; a->to = e; a->k = 0; thr_main(a);
      for (int j = 1; j < k; j++) sim_join(id[j]);
      i = e; continue;
    }
    run_line(p->line[i]);
  }
}

/* ----------------------------------------------------------- fork server */
static pid_t kids[MAXR]; static int nkids; static volatile sig_atomic_t expired;
static void on_alarm(int s) { (void)s; expired = 1; for (int i = 0; i < nkids; i++) if (kids[i] > 0) kill(kids[i], SIGKILL); }

static void setcfg(sim_cfg *c, const char *k, long v) {
#define K(x) if (!strcmp(k, #x)) { c->x = (int)v; return; }
  K(policy) K(stick) K(transport) K(lazy) K(tear) K(collsync) K(rend) K(vamode) K(place) K(model) K(thread) K(poison) K(testlag) K(leakcheck) K(userop) K(zeroptr) K(threadpts) K(mempts) K(big)
  if (!strcmp(k, "budget")) { c->budget = (uint64_t)v; return; }
  fprintf(stderr, "unknown cfg %s\n", k); exit(2);
}

int main(int argc, char **argv) {
  int wall = argc > 1 ? atoi(argv[1]) : 20;
  int mfd = memfd_create("simwin", 0), ofd = memfd_create("simout", 0);
  sim_boot((size_t)192 << 20, mfd);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL);
  char *hdr = NULL; size_t hcap = 0; ssize_t got;
  (void)unused_;
  while ((got = getline(&hdr, &hcap, stdin)) > 0) {
    size_t n; if (sscanf(hdr, "CASE %zu", &n) != 1) { if (!strncmp(hdr, "QUIT", 4)) return 0; fprintf(stderr, "protocol error\n"); return 2; }
    char *buf = malloc(n + 1); if (fread(buf, 1, n, stdin) != n) return 2; buf[n] = 0;
    sim_cfg c; memset(&c, 0, sizeof c); c.np = 1; c.seed = 1; c.budget = 200000; c.stick = 50; c.thread = MPI_THREAD_MULTIPLE;
    for (int i = 0; i < MAXR; i++) { progs[i].n = 0; }
    char *envs[64]; int nenv = 0; int rk = -1;
    char *save = NULL;
    for (char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
      if (rk < 0 || !strncmp(l, "rank ", 5)) {
        if (!strncmp(l, "np ", 3)) c.np = atoi(l + 3);
        else if (!strncmp(l, "seed ", 5)) c.seed = strtoull(l + 5, NULL, 10);
        else if (!strncmp(l, "cfg ", 4)) { char k[32]; long v; if (sscanf(l + 4, "%31s %ld", k, &v) == 2) setcfg(&c, k, v); }
        else if (!strncmp(l, "env ", 4)) envs[nenv++] = l + 4;
        else if (!strncmp(l, "rank ", 5)) { rk = l[5] == '*' ? 100 : atoi(l + 5); }
        continue;
      }
      for (int r = 0; r < c.np; r++) if (rk == 100 || rk == r) {
        prog *p = &progs[r]; if (p->n == p->cap) { p->cap = p->cap ? 2 * p->cap : 64; p->line = realloc(p->line, sizeof(char *) * (size_t)p->cap); }
        p->line[p->n++] = l;
      }
    }
    if (c.np < 1 || c.np > MAXR) return 2;
    sim_case_init(&c);
    if (ftruncate(ofd, 0)) return 2;
    lseek(ofd, 0, SEEK_SET);
    fflush(stdout); fflush(stderr);
    nkids = 0; expired = 0; int failed = 0;
    for (int r = 0; r < c.np; r++) {
      pid_t p = fork();
      if (p < 0) { perror("fork"); return 2; }
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGALRM, SIG_DFL);
        int nul = open("/dev/null", 0); if (nul >= 0) dup2(nul, 0);
        dup2(ofd, 1); dup2(ofd, 2);
        for (int i = 0; i < nenv; i++) { char *s = strdup(envs[i]); char *e = strchr(s, ' '); if (e) *e++ = 0; setenv(s, e ? e : "", 1); }
        sim_rank_start(r);
        run_prog(&progs[r]);
        ((int *)A->user)[48 + g_rank] = 1 << 30;
        sim_rank_end();
      }
      kids[nkids++] = p;
    }
    A->ent[0].go = 0;
    /* hand the token to a random rank */
    { int first = (int)sim_rnd((uint32_t)c.np); A->cur = first; __sync_synchronize(); A->ent[first].go = 1; syscall(202, &A->ent[first].go, 1, 1, NULL, NULL, 0); }
    struct itimerval it = {{0, 0}, {wall, 0}}, off = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &it, NULL);
    int left = nkids, crash = 0, csig = 0, cexit = 0, crank = -1;
    while (left > 0) {
      int st; pid_t p = wait(&st);
      if (p < 0) { if (errno == EINTR) continue; break; }
      for (int i = 0; i < nkids; i++) if (kids[i] == p) {
        kids[i] = -1; left--;
        int ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok && !failed) {
          failed = 1;
          if (A->status == ST_OK && !expired) { crash = 1; crank = i; csig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; cexit = WIFEXITED(st) ? WEXITSTATUS(st) : 0; }
          for (int j = 0; j < nkids; j++) if (kids[j] > 0) kill(kids[j], SIGKILL);
        }
      }
    }
    setitimer(ITIMER_REAL, &off, NULL);
    int status = A->status;
    if (expired && status == ST_OK) status = ST_TIMEOUT;
    if (crash) { status = ST_CRASH; A->frank = crank; snprintf(A->msg, sizeof A->msg, "process %d died: signal %d exit %d", crank, csig, cexit); }
    for (char *p = A->msg; *p; p++) if (*p == '\n') *p = ' ';
    printf("RES %d %d %d %s\n", status, A->frank, A->code, A->msg);
    printf("AT"); for (int r = 0; r < c.np; r++) printf(" %d", A->user[48 + r]); printf("\n");
    printf("ST steps=%lu switch=%lu rma=%lu delayed=%lu maxpend=%lu coll=%lu p2p=%lu lockwait=%lu blocked=%lu reorder=%lu\n", A->steps, A->st_switch, A->st_rma, A->st_delayed, A->st_maxpend, A->st_coll, A->st_p2p, A->st_lockwait, A->st_blocked, A->st_reorder);
    for (int r = 0; r < c.np; r++) { printf("LOG %d %zu\n", r, A->loglen[r]); fwrite(A->log[r], 1, A->loglen[r], stdout); }
    off_t on = lseek(ofd, 0, SEEK_END); if (on < 0) on = 0;
    off_t from = on > 6000 && status != ST_CRASH ? on - 6000 : 0; size_t want = (size_t)(on - from); if (want > 12000) want = 12000;
    char *ob = malloc(want + 1); ssize_t rd = pread(ofd, ob, want, from); if (rd < 0) rd = 0;
    printf("OUT %zd\n", rd); fwrite(ob, 1, (size_t)rd, stdout); free(ob);
    printf("END\n"); fflush(stdout);
    free(buf);
  }
  return 0;
}
