/* Simulator side of the Yorick checks: linked into the plug-in under test.
 * Gives the scenario (ysim.i) its choice stream, event log, heap model and
 * reference runs made directly with the library. */
#define _GNU_SOURCE
#include <fenv.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pstdlib.h>
#include <yapi.h>
#include "optimpack.h"
#include "optimpack-linalg.h"
#include "newuoa.h"
#include "cobyla.h"

void* __real_malloc(size_t);
void __real_free(void*);

/* Yorick traps floating point exceptions, and does it again after each error:
 * values which are not numbers are wanted here */
#define QUIET (feclearexcept(FE_ALL_EXCEPT), fedisableexcept(FE_ALL_EXCEPT))

/* ---- choices, log ---- */
#define MAXD 200000
static uint64_t rng, hash, draws[MAXD], forced[MAXD], seed_now;
static long ndraws, nforced = -1;
static int failed;
static char oracle[100], message[1000];
static FILE *drawlog, *tracef;

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static uint64_t draw(uint64_t n) {
  uint64_t v; long i = ndraws;
  if (n < 1) n = 1;
  if (nforced >= 0) v = i < nforced ? forced[i] % n : 0;
  else { rng += 0x9E3779B97F4A7C15ull; v = mix(rng, 77) % n; }
  if (i < MAXD) { draws[i] = v; ndraws = i + 1; }
  if (drawlog) { fprintf(drawlog, "%llu ", (unsigned long long)v); fflush(drawlog); }
  return v;
}
static void fail(const char* o, const char* m) {
  if (!failed) { failed = 1; snprintf(oracle, sizeof oracle, "%s", o); snprintf(message, sizeof message, "%s", m); }
}
static void hbytes(const void* p, size_t n) {
  const unsigned char* c = p; uint64_t h = hash;
  while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = mix(h, w); c += 8; n -= 8; }
  { uint64_t w = 0; memcpy(&w, c, n); h = mix(h, w + (n << 56)); }
  hash = h;
}

/* ---- heap model ---- */
typedef struct blk { size_t n; struct blk *prev, *next; uint64_t mark; } blk;
#define MARK 0xfeedfacecafebeefull
#define RED 32
static blk head = {0, &head, &head, MARK};
static long live, allocs, failat, refused;
static void* take(size_t n) {
  blk* b; unsigned char* p; size_t i;
  ++allocs;
  if (failat && allocs == failat) { ++refused; errno = ENOMEM; return NULL; }
  b = __real_malloc(sizeof(blk) + 2*RED + n);
  if (!b) return NULL;
  b->n = n; b->mark = MARK; b->next = &head; b->prev = head.prev; b->prev->next = b; head.prev = b; ++live;
  p = (unsigned char*)(b + 1);
  memset(p, 0xA5, RED); memset(p + RED + n, 0x5A, RED);
  for (i = 0; i < n; ++i) p[RED + i] = (unsigned char)(0x3B + 7*i);
  return p + RED;
}
static int heap_ok(const blk* b) {
  const unsigned char* p = (const unsigned char*)(b + 1); int i;
  if (b->mark != MARK) return 0;
  for (i = 0; i < RED; ++i) if (p[i] != 0xA5 || p[RED + b->n + i] != 0x5A) return 0;
  return 1;
}
static void give(void* q) {
  blk* b;
  if (!q) return;
  b = (blk*)((unsigned char*)q - RED) - 1;
  if (b->mark != MARK) { fail("bad-free", "a block which is not allocated has been freed"); return; }
  if (!heap_ok(b)) fail("overflow", "something was written next to a block");
  b->mark = 0; b->prev->next = b->next; b->next->prev = b->prev; --live;
  memset(q, 0xDD, b->n);
  __real_free(b);
}
void* __wrap_malloc(size_t n) { return take(n); }
void __wrap_free(void* p) { give(p); }
void* __wrap_calloc(size_t n, size_t m) { void* p = take(n*m); if (p) memset(p, 0, n*m); return p; }
void* __wrap_realloc(void* p, size_t n) {
  void* q = take(n);
  if (q && p) { blk* b = (blk*)((unsigned char*)p - RED) - 1; memcpy(q, p, b->n < n ? b->n : n); give(p); }
  return q;
}

/* ---- counters ---- */
static struct { char kind, name[160]; long n; } cnt[200]; static int ncnt;
static void count(char kind, const char* name, long n) {
  int i; for (i = 0; i < ncnt; ++i) if (cnt[i].kind == kind && !strcmp(cnt[i].name, name)) { cnt[i].n += n; return; }
  if (ncnt < 200) { cnt[ncnt].kind = kind; snprintf(cnt[ncnt].name, 160, "%s", name); cnt[ncnt++].n = n; }
}

static const size_t esz[] = {1, 2, 4, 8, 4, 8, 16};

/* sim_begin, seed, "replay file or nil" */
void Y_sim_begin(int argc) { QUIET;
  seed_now = (uint64_t)ygets_l(argc - 1);
  rng = mix(seed_now, 0x5157); hash = 1; ndraws = 0; failed = 0; oracle[0] = message[0] = 0;
  allocs = failat = refused = 0;
  while (head.next != &head) { blk* b = head.next; head.next = b->next; b->next->prev = &head; __real_free(b); }
  live = 0;
  if (argc > 1 && !yarg_nil(0)) {
    const char* fn = ygets_q(0); FILE* f = fopen(fn, "r"); char w[200]; unsigned long long v;
    if (!f) y_error("cannot open the replay file");
    nforced = -1;
    while (fscanf(f, "%199s", w) == 1) if (!strcmp(w, "choices")) { nforced = 0; if (fscanf(f, "%llu", &v) != 1) break; while (nforced < MAXD && fscanf(f, "%llu", &v) == 1) forced[nforced++] = v; break; }
    fclose(f);
  }
  if (getenv("YSIM_DRAWLOG")) { if (drawlog) fclose(drawlog); drawlog = fopen(getenv("YSIM_DRAWLOG"), "w"); }
  if (getenv("YSIM_TRACE")) { if (tracef) fclose(tracef); tracef = fopen(getenv("YSIM_TRACE"), "w"); }
  ypush_nil();
}
void Y_sim_draw(int argc) { QUIET; ypush_long((long)draw((uint64_t)ygets_l(0))); }
void Y_sim_failed(int argc) { QUIET; ypush_int(failed); }
void Y_sim_oracle(int argc) { QUIET; ypush_q(NULL)[0] = p_strcpy(oracle); }
/* sim_fail, oracle, message: record a violation and leave the run */
void Y_sim_fail(int argc) { QUIET; fail(ygets_q(1), ygets_q(0)); y_error("simulator: violation"); }
void Y_sim_mark(int argc) { QUIET; fail(ygets_q(1), ygets_q(0)); ypush_nil(); }
void Y_sim_fault(int argc) { QUIET; count('f', ygets_q(0), 1); ypush_nil(); }
void Y_sim_probe(int argc) { QUIET; count('p', ygets_q(0), 1); ypush_nil(); }
void Y_sim_tracing(int argc) { QUIET; ypush_int(tracef != NULL); }
void Y_sim_note(int argc) { QUIET; if (tracef) { fprintf(tracef, "%s\n", ygets_q(0)); fflush(tracef); } ypush_nil(); }
/* sim_event, x: bytes of x go to the log */
void Y_sim_event(int argc) { QUIET;
  int i;
  for (i = argc - 1; i >= 0; --i) {
    long n, dims[Y_DIMSIZE]; int t; void* p;
    if (yarg_nil(i)) { hbytes("nil", 3); continue; }
    p = ygeta_any(i, &n, dims, &t); hbytes(dims, sizeof(long)*(size_t)(dims[0] + 1));
    if (t <= Y_COMPLEX) hbytes(p, (size_t)n*esz[t]);
    else if (t == Y_STRING) { long k; for (k = 0; k < n; ++k) { const char* s = ((char**)p)[k]; if (s) hbytes(s, strlen(s)); } }
  }
  ypush_nil();
}
/* sim_same(a, b): same type, dimensions and bits */
void Y_sim_same(int argc) { QUIET;
  long n1, n2, d1[Y_DIMSIZE], d2[Y_DIMSIZE], i; int t1, t2, same; void *p, *q;
  if (yarg_nil(1) || yarg_nil(0)) { ypush_int(yarg_nil(1) && yarg_nil(0)); return; }
  p = ygeta_any(1, &n1, d1, &t1); q = ygeta_any(0, &n2, d2, &t2);
  same = t1 == t2 && n1 == n2 && d1[0] == d2[0];
  for (i = 1; same && i <= d1[0]; ++i) same = d1[i] == d2[i];
  if (same && t1 <= Y_COMPLEX) same = !memcmp(p, q, (size_t)n1*esz[t1]);
  ypush_int(same);
}
/* sim_copy(a): an array of its own */
void Y_sim_copy(int argc) { QUIET;
  long n, d[Y_DIMSIZE]; int t; void *p, *q;
  if (yarg_nil(0)) { ypush_nil(); return; }
  p = ygeta_any(0, &n, d, &t);
  switch (t) { case Y_CHAR: q = ypush_c(d); break; case Y_SHORT: q = ypush_s(d); break; case Y_INT: q = ypush_i(d); break;
    case Y_LONG: q = ypush_l(d); break; case Y_FLOAT: q = ypush_f(d); break; case Y_DOUBLE: q = ypush_d(d); break; default: q = NULL; y_error("sim_copy: type"); }
  memcpy(q, p, (size_t)n*esz[t]);
}
void Y_sim_live(int argc) { QUIET; ypush_long(live); }
void Y_sim_refused(int argc) { QUIET; ypush_long(refused); }
void Y_sim_oom(int argc) { QUIET; long k = ygets_l(0); failat = k > 0 ? allocs + k : 0; ypush_nil(); }
void Y_sim_heap(int argc) { QUIET; blk* b; for (b = head.next; b != &head; b = b->next) if (!heap_ok(b)) { fail("overflow", "something was written next to a block"); y_error("simulator: violation"); } ypush_nil(); }

/* sim_result, file: the verdict of the run */
void Y_sim_result(int argc) { QUIET;
  FILE* f = fopen(ygets_q(0), "w"); long i;
  if (!f) y_error("cannot write the result");
  fprintf(f, "bad %d\noracle %s\nhash %016llx\nmessage %s\nchoices %ld", failed, oracle[0] ? oracle : "-", (unsigned long long)(failed ? mix(hash, 3) : hash), message, ndraws);
  for (i = 0; i < ndraws; ++i) fprintf(f, " %llu", (unsigned long long)draws[i]);
  fprintf(f, "\n"); fclose(f); ypush_nil();
}
/* sim_log, file: append the hash of the run; sim_progress, file, run */
void Y_sim_log(int argc) { QUIET; static FILE* f; if (!f) f = fopen(ygets_q(0), "ab"); if (f) { fwrite(&hash, 8, 1, f); fflush(f); } ypush_nil(); }
void Y_sim_hash(int argc) { QUIET; ypush_long((long)hash); }
void Y_sim_counts(int argc) { QUIET;
  FILE* f = fopen(ygets_q(0), "w"); int i;
  if (f) { for (i = 0; i < ncnt; ++i) fprintf(f, "%c %ld %s\n", cnt[i].kind, cnt[i].n, cnt[i].name); fclose(f); }
  ypush_nil();
}
void Y_sim_progress(int argc) { QUIET;
  static FILE* f; if (!f) f = fopen(ygets_q(1), "w");
  if (f) { rewind(f); fprintf(f, "%ld\n", ygets_l(0)); fflush(f); } ypush_nil();
}

/* ---- reference runs of the optimizers ---- */
#define MAXR 64
static struct { opk_optimizer* o; int single; long n; } ref[MAXR];
/* sim_new(alg, single, n, lower, upper, mask, values): alg 0 NLCG, 1 VMLMB, 2 BLMVM.
 * values: delta epsilon gatol grtol stpmin stpmax fmin flags mem */
void Y_sim_new(int argc) { QUIET;
  int alg = (int)ygets_l(6), single = (int)ygets_l(5), i, k; long n = ygets_l(4), m;
  long* mask = ygeta_l(1, &m, NULL); double* v = ygeta_d(0, &m, NULL);
  opk_bound_type bt[2]; void* ba[2]; double bs[2]; opk_optimizer* o; int type;
  opk_nlcg_options no; opk_vmlmb_options vo; void* opts;
  long fa = failat; failat = 0;
  for (i = 0; i < 2; ++i) {
    int ia = 3 - i; long nt, d[Y_DIMSIZE];
    if (yarg_nil(ia)) { bt[i] = OPK_BOUND_NONE; ba[i] = NULL; }
    else if (yarg_rank(ia) == 0) { bs[i] = ygets_d(ia); bt[i] = OPK_BOUND_SCALAR_DOUBLE; ba[i] = &bs[i]; }
    else if (single) { ba[i] = ygeta_f(ia, &nt, d); bt[i] = OPK_BOUND_VOLATILE_FLOAT; }
    else { ba[i] = ygeta_d(ia, &nt, d); bt[i] = OPK_BOUND_VOLATILE_DOUBLE; }
    (void)type;
  }
#define SET(j, f) if (mask[j]) f = v[j]
  if (alg == 0) {
    opk_get_nlcg_default_options(&no);
    SET(0, no.delta); SET(1, no.epsilon); SET(2, no.gatol); SET(3, no.grtol); SET(4, no.stpmin); SET(5, no.stpmax); SET(6, no.fmin);
    if (mask[7]) no.flags = (unsigned)(long)v[7];
    opts = &no;
  } else {
    opk_get_vmlmb_default_options(&vo);
    SET(0, vo.delta); SET(1, vo.epsilon); SET(2, vo.gatol); SET(3, vo.grtol); SET(4, vo.stpmin); SET(5, vo.stpmax);
    if (mask[8]) vo.mem = (long)v[8];
    vo.blmvm = alg == 2; opts = &vo;
  }
  o = opk_new_optimizer(alg == 0 ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, opts, single ? OPK_FLOAT : OPK_DOUBLE, n, bt[0], ba[0], bt[1], ba[1], NULL);
  failat = fa;
  if (!o) { ypush_long(-1); return; }
  for (k = 0; k < MAXR && ref[k].o; ++k) ;
  if (k == MAXR) y_error("sim_new: too many");
  ref[k].o = o; ref[k].single = single; ref[k].n = n; ypush_long(k);
}
static void* refx(int ia, int k) { long n; void* p = ref[k].single ? (void*)ygeta_f(ia, &n, NULL) : (void*)ygeta_d(ia, &n, NULL); if (n != ref[k].n) y_error("sim: size"); return p; }
/* the arrays are modified in place: give variables of the right type, not scalars */
void Y_sim_start(int argc) { QUIET; int k = (int)ygets_l(1); ypush_int(opk_start(ref[k].o, refx(0, k))); }
void Y_sim_iterate(int argc) { QUIET;
  int k = (int)ygets_l(3); void* x = refx(2, k); double f = ygets_d(1); void* g = refx(0, k);
  ypush_int(opk_iterate(ref[k].o, x, f, g));
}
/* sim_query(k): task status iterations evaluations restarts gnorm step */
void Y_sim_query(int argc) { QUIET;
  int k = (int)ygets_l(0); long d[2] = {1, 7}; double* v = ypush_d(d); opk_optimizer* o = ref[k].o;
  v[0] = opk_get_task(o); v[1] = opk_get_status(o); v[2] = (double)opk_get_iterations(o); v[3] = (double)opk_get_evaluations(o);
  v[4] = (double)opk_get_restarts(o); v[5] = opk_get_gnorm(o); v[6] = opk_get_step(o);
}
void Y_sim_text(int argc) { QUIET;
  int k = (int)ygets_l(0); char b[100]; long d[2] = {1, 3}; ystring_t* q = ypush_q(d);
  opk_get_name(b, sizeof b, ref[k].o); q[0] = p_strcpy(b);
  opk_get_description(b, sizeof b, ref[k].o); q[1] = p_strcpy(b);
  { const char* r = opk_get_reason(opk_get_status(ref[k].o)); q[2] = r ? p_strcpy(r) : NULL; }
}
void Y_sim_reason(int argc) { QUIET; const char* r = opk_get_reason((opk_status)ygets_l(0)); ypush_q(NULL)[0] = r ? p_strcpy(r) : NULL; }
void Y_sim_del(int argc) { QUIET; int k = (int)ygets_l(0); if (k >= 0) { opk_destroy_optimizer(ref[k].o); ref[k].o = NULL; } ypush_nil(); }
void Y_sim_forget(int argc) { QUIET; memset(ref, 0, sizeof ref); ypush_nil(); }

/* sim_gqt(A, b, delta, lambda, rtol, atol, maxiter, single): n by n matrix; gives x, lambda, f, iter, status (doubles) */
void Y_sim_gqt(int argc) { QUIET;
  long n, nn, iter = 0, d[2], i; int st; int single = (int)ygets_l(0); long maxiter = ygets_l(1);
  double atol = ygets_d(2), rtol = ygets_d(3), lam = ygets_d(4), delta = ygets_d(5), f = 0; double* r;
  double* b = ygeta_d(6, &n, NULL); double* A = ygeta_d(7, &nn, NULL);
  d[0] = 1; d[1] = n + 4; r = ypush_d(d);
  if (single) {
    float *w = __real_malloc(sizeof(float)*(size_t)(n*n + 5*n)), *fb = w + n*n, *x = fb + n, *z = x + n, l = (float)lam, ff = 0;
    for (i = 0; i < n*n; ++i) w[i] = (float)A[i];
    for (i = 0; i < n; ++i) fb[i] = (float)b[i];
    st = opk_sgqt(n, w, n, fb, (float)delta, (float)rtol, (float)atol, maxiter, &l, &ff, x, &iter, z, z + n, z + 2*n);
    for (i = 0; i < n; ++i) r[i] = x[i];
    lam = l; f = ff; __real_free(w);
  } else {
    double *w = __real_malloc(sizeof(double)*(size_t)(n*n + 5*n)), *x = w + n*n, *z = x + n;
    for (i = 0; i < n*n; ++i) w[i] = A[i];
    st = opk_dgqt(n, w, n, b, delta, rtol, atol, maxiter, &lam, &f, x, &iter, z, z + n, z + 2*n);
    for (i = 0; i < n; ++i) r[i] = x[i];
    __real_free(w);
  }
  r[n] = lam; r[n+1] = f; r[n+2] = (double)iter; r[n+3] = st;
}

/* sim_constants: values of the constants, in the order of y_names */
void Y_sim_constants(int argc) { QUIET;
  static const long v[] = {OPK_TASK_ERROR, OPK_TASK_COMPUTE_FG, OPK_TASK_NEW_X, OPK_TASK_FINAL_X, OPK_TASK_WARNING,
    OPK_NLCG_FLETCHER_REEVES, OPK_NLCG_HESTENES_STIEFEL, OPK_NLCG_POLAK_RIBIERE_POLYAK, OPK_NLCG_FLETCHER, OPK_NLCG_LIU_STOREY,
    OPK_NLCG_DAI_YUAN, OPK_NLCG_PERRY_SHANNO, OPK_NLCG_HAGER_ZHANG, OPK_NLCG_POWELL, OPK_NLCG_SHANNO_PHUA, OPK_NLCG_DEFAULT,
    COBYLA_ITERATE, COBYLA_SUCCESS, COBYLA_BAD_NVARS, COBYLA_BAD_NCONS, COBYLA_BAD_RHO_RANGE, COBYLA_BAD_SCALING,
    COBYLA_ROUNDING_ERRORS, COBYLA_TOO_MANY_EVALUATIONS, COBYLA_BAD_ADDRESS, COBYLA_CORRUPTED,
    NEWUOA_ITERATE, NEWUOA_SUCCESS, NEWUOA_BAD_NVARS, NEWUOA_BAD_NPT, NEWUOA_BAD_RHO_RANGE, NEWUOA_BAD_SCALING,
    NEWUOA_ROUNDING_ERRORS, NEWUOA_TOO_MANY_EVALUATIONS, NEWUOA_STEP_FAILED, NEWUOA_BAD_ADDRESS, NEWUOA_CORRUPTED};
  long d[2] = {1, sizeof(v)/sizeof(v[0])}; memcpy(ypush_l(d), v, sizeof(v));
}

/* ---- reference runs of Powell's solvers ---- */
static struct { newuoa_context* a; cobyla_context* c; } pw[MAXR];
/* sim_pnew(which, n, m, rhobeg, rhoend, maxfun): which 0 NEWUOA (m: npt), 1 COBYLA */
void Y_sim_pnew(int argc) { QUIET;
  int w = (int)ygets_l(5), k; long n = ygets_l(4), m = ygets_l(3), mf = ygets_l(0); double rb = ygets_d(2), re = ygets_d(1);
  long fa = failat; failat = 0;
  for (k = 0; k < MAXR && (pw[k].a || pw[k].c); ++k) ;
  if (k == MAXR) y_error("sim_pnew: too many");
  if (w == 0) pw[k].a = newuoa_create(n, m, rb, re, 0, mf); else pw[k].c = cobyla_create(n, m, rb, re, 0, mf);
  failat = fa;
  ypush_long(pw[k].a || pw[k].c ? k : -1);
}
void Y_sim_piterate(int argc) { QUIET;
  int k = (int)ygets_l(3); double f = ygets_d(1); double* x = ygeta_d(2, NULL, NULL); double* c = yarg_nil(0) ? NULL : ygeta_d(0, NULL, NULL);
  ypush_int(pw[k].a ? newuoa_iterate(pw[k].a, f, x) : cobyla_iterate(pw[k].c, f, x, c));
}
void Y_sim_prestart(int argc) { QUIET; int k = (int)ygets_l(0); ypush_int(pw[k].a ? newuoa_restart(pw[k].a) : cobyla_restart(pw[k].c)); }
/* status nevals rho */
void Y_sim_pquery(int argc) { QUIET;
  int k = (int)ygets_l(0); long d[2] = {1, 3}; double* v = ypush_d(d);
  if (pw[k].a) { v[0] = newuoa_get_status(pw[k].a); v[1] = newuoa_get_nevals(pw[k].a); v[2] = newuoa_get_rho(pw[k].a); }
  else { v[0] = cobyla_get_status(pw[k].c); v[1] = cobyla_get_nevals(pw[k].c); v[2] = cobyla_get_rho(pw[k].c); }
}
void Y_sim_preason(int argc) { QUIET;
  int w = (int)ygets_l(1); const char* r = w == 0 ? newuoa_reason((newuoa_status)ygets_l(0)) : cobyla_reason((int)ygets_l(0));
  ypush_q(NULL)[0] = r ? p_strcpy(r) : NULL;
}
void Y_sim_pdel(int argc) { QUIET; int k = (int)ygets_l(0); if (k >= 0) { if (pw[k].a) newuoa_delete(pw[k].a); if (pw[k].c) cobyla_delete(pw[k].c); pw[k].a = NULL; pw[k].c = NULL; } ypush_nil(); }
void Y_sim_pforget(int argc) { QUIET; memset(pw, 0, sizeof pw); ypush_nil(); }
/* sim_outpos(): how many bytes have been written to the standard output */
void Y_sim_outpos(int argc) { QUIET; fflush(stdout); ypush_long(lseek(1, 0, SEEK_CUR)); }
