/*
 * m4x: script interpreter that drives the real m4rie library and records, after
 * every public call, the complete observable effect of that call on every live
 * object.  One script = many histories; every history runs in its own forked
 * child, so a call that dies or crashes ends only its own history.
 *
 *   m4x SCRIPT OUT.ndjson
 *
 * Values are read by raw word access (not through the library's own accessors),
 * so the recording does not depend on the code under test.
 */
#define _GNU_SOURCE
#include <m4rie/m4rie.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <stdarg.h>
#include "cover.h"

#define MAXOBJ 512
#define MAXARG 64
#define MAXDEPTH 33

typedef enum { K_NONE = 0, K_FIELD, K_E, K_S, K_P, K_Y, K_B, K_J } kind_t;
static const char *KN[] = {"-", "F", "E", "S", "P", "Y", "B", "J"};

typedef struct {
  kind_t k;
  int fid;             /* field object */
  int par;             /* parent object for windows, 0 otherwise */
  int r0, c0;          /* window origin (elements), relative to par */
  int m, n;
  void *p;             /* library object */
  uint32_t *snap;      /* last logged values (roots only) */
  int snap_pad;
  int snap_depth;
  int isnew;
  int wide;            /* polynomials of more than 31 coefficients */
} obj_t;

static obj_t O[MAXOBJ];
static int maxid = 0;
static FILE *out;
static int hist = -1, step = 0;
static long long RET;
static int has_ret;

/* ---------------------------------------------------------------- PRNG ---- */
static uint64_t prng_s;
static uint64_t rnd(void) {
  uint64_t z = (prng_s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
/* independent field multiplication used only to build test inputs */
static uint32_t xfmul(uint64_t p, int e, uint32_t a, uint32_t b) {
  uint64_t r = 0, x = a;
  for (int i = 0; i < e; i++) {
    if ((b >> i) & 1) r ^= x;
    x <<= 1;
    if (x >> e & 1) x ^= p;
  }
  return (uint32_t)r;
}

/* --------------------------------------------------------- raw access ---- */
static inline word rawbits(const mzd_t *M, int r, int c, int n) {
  word v = 0;
  for (int i = 0; i < n; i++)
    v |= ((M->rows[r][(c + i) / 64] >> ((c + i) % 64)) & 1ULL) << i;
  return v;
}
static inline void setrawbits(mzd_t *M, int r, int c, int n, word v) {
  for (int i = 0; i < n; i++) {
    word *w = &M->rows[r][(c + i) / 64];
    word b = 1ULL << ((c + i) % 64);
    if (v >> i & 1) *w |= b; else *w &= ~b;
  }
}
static int padbits(const mzd_t *M) {
  if (M->ncols % 64 == 0) return 0;
  word mask = ~0ULL << (M->ncols % 64);
  for (int r = 0; r < M->nrows; r++)
    if (M->rows[r][M->ncols / 64] & mask) return 1;
  return 0;
}
static int width_of(uint64_t p) {
  int e = 0;
  while (p >> (e + 1)) e++;
  return e <= 2 ? 2 : e <= 4 ? 4 : e <= 8 ? 8 : 16;
}
static int deg_of(uint64_t p) {
  int e = 0;
  while (p >> (e + 1)) e++;
  return e;
}
static uint64_t fpoly[MAXOBJ];

static uint32_t getv(obj_t *o, int i, int j) {
  switch (o->k) {
  case K_E: {
    mzed_t *A = o->p;
    int w = width_of(fpoly[o->fid]);
    return (uint32_t)rawbits(A->x, i, j * w, w);
  }
  case K_S: {
    mzd_slice_t *A = o->p;
    uint32_t v = 0;
    int d = deg_of(fpoly[o->fid]);
    for (int t = 0; t < d; t++) v |= (uint32_t)rawbits(A->x[t], i, j, 1) << t;
    return v;
  }
  case K_Y: {
    mzd_poly_t *A = o->p;
    uint32_t v = 0;
    if (o->wide) { /* rows k*nrows ... are bits 15k..15k+14 of the entries */
      int c = i / A->nrows;
      for (int t = 15 * c; t < A->depth && t < 15 * c + 15; t++) v |= (uint32_t)rawbits(A->x[t], i % A->nrows, j, 1) << (t - 15 * c);
      return v;
    }
    for (int t = 0; t < A->depth && t < 31; t++) v |= (uint32_t)rawbits(A->x[t], i, j, 1) << t;
    return v;
  }
  case K_P: return (uint32_t)((mzp_t *)o->p)->values[j];
  case K_J: { /* row x: what the table has for the field element x */
    njt_mzed_t *T = o->p;
    int w = width_of(fpoly[o->fid]);
    if (T->L[i] < 0 || T->L[i] >= T->T->nrows) return 0xfffff;
    return (uint32_t)rawbits(T->T->x, T->L[i], j * w, w);
  }
  default: return 0;
  }
}
static void putv(obj_t *o, int i, int j, uint32_t v) {
  switch (o->k) {
  case K_E: {
    mzed_t *A = o->p;
    int w = width_of(fpoly[o->fid]);
    setrawbits(A->x, i, j * w, w, v);
    break;
  }
  case K_S: {
    mzd_slice_t *A = o->p;
    int d = deg_of(fpoly[o->fid]);
    for (int t = 0; t < d; t++) setrawbits(A->x[t], i, j, 1, v >> t & 1);
    break;
  }
  case K_Y: {
    mzd_poly_t *A = o->p;
    if (o->wide) {
      int c = i / A->nrows;
      for (int t = 15 * c; t < A->depth && t < 15 * c + 15; t++) setrawbits(A->x[t], i % A->nrows, j, 1, v >> (t - 15 * c) & 1);
      break;
    }
    for (int t = 0; t < A->depth && t < 31; t++) setrawbits(A->x[t], i, j, 1, v >> t & 1);
    break;
  }
  case K_P: ((mzp_t *)o->p)->values[j] = v; break;
  default: break;
  }
}
static int padof(obj_t *o) {
  switch (o->k) {
  case K_E: return padbits(((mzed_t *)o->p)->x);
  case K_S: {
    mzd_slice_t *A = o->p;
    int d = deg_of(fpoly[o->fid]), r = 0;
    for (int t = 0; t < d; t++) r |= padbits(A->x[t]);
    return r;
  }
  case K_Y: {
    mzd_poly_t *A = o->p;
    int r = 0;
    for (int t = 0; t < A->depth; t++) r |= padbits(A->x[t]);
    if (!o->wide) for (int t = 31; t < A->depth; t++) r |= !mzd_is_zero(A->x[t]);
    return r;
  }
  case K_J: return padbits(((njt_mzed_t *)o->p)->T->x) | padbits(((njt_mzed_t *)o->p)->M->x);
  default: return 0;
  }
}
static int depthof(obj_t *o) {
  switch (o->k) {
  case K_S: return ((mzd_slice_t *)o->p)->depth;
  case K_Y: return ((mzd_poly_t *)o->p)->depth;
  default: return 0;
  }
}
/* does the header of the object itself (dimensions, sub-object dimensions) say what we think? */
static void dims(obj_t *o, int *m, int *n) {
  switch (o->k) {
  case K_E: {
    mzed_t *A = o->p;
    int w = width_of(fpoly[o->fid]);
    *m = A->nrows; *n = A->ncols;
    if (A->x->nrows != A->nrows || A->x->ncols != A->ncols * w || (int)A->w != w) { *m = -1; }
    if (A->finite_field != (gf2e *)O[o->fid].p) *m = -2;
    break;
  }
  case K_S: {
    mzd_slice_t *A = o->p;
    *m = A->nrows; *n = A->ncols;
    for (int t = 0; t < A->depth; t++)
      if (A->x[t]->nrows != A->nrows || A->x[t]->ncols != A->ncols) *m = -1;
    if (A->finite_field != (gf2e *)O[o->fid].p) *m = -2;
    break;
  }
  case K_Y: {
    mzd_poly_t *A = o->p;
    *m = A->nrows * (o->wide ? (A->depth + 14) / 15 : 1); *n = A->ncols;
    for (int t = 0; t < A->depth; t++)
      if (A->x[t]->nrows != A->nrows || A->x[t]->ncols != A->ncols) *m = -1;
    break;
  }
  case K_P: *m = 1; *n = ((mzp_t *)o->p)->length; break;
  case K_J: {
    njt_mzed_t *T = o->p;
    *m = T->T->nrows; *n = T->T->ncols;
    if (T->M->ncols != *n || T->M->nrows != deg_of(fpoly[o->fid])) *m = -1;
    if (T->T->finite_field != (gf2e *)O[o->fid].p || T->M->finite_field != (gf2e *)O[o->fid].p) *m = -2;
    break;
  }
  default: *m = *n = 0;
  }
}

/* ------------------------------------------------------------- events ---- */
static void die_harness(const char *msg, const char *arg) {
  fprintf(stderr, "m4x: %s: %s\n", msg, arg ? arg : "");
  _exit(77);
}
static obj_t *newobj(int id, kind_t k) {
  if (id <= 0 || id >= MAXOBJ) die_harness("bad id", NULL);
  if (O[id].k != K_NONE) die_harness("id in use", NULL);
  memset(&O[id], 0, sizeof(obj_t));
  O[id].k = k;
  O[id].isnew = 1;
  if (id > maxid) maxid = id;
  return &O[id];
}
static void emit_matrix(obj_t *o) {
  fputc('[', out);
  for (int i = 0; i < o->m; i++) {
    if (i) fputc(',', out);
    fputc('[', out);
    for (int j = 0; j < o->n; j++) {
      char buf[16];
      uint32_t v = getv(o, i, j);
      int k = 15;
      buf[k] = 0;
      do { buf[--k] = '0' + v % 10; v /= 10; } while (v);
      if (j) fputc(',', out);
      fputs(buf + k, out);
    }
    fputc(']', out);
  }
  fputc(']', out);
}
/* compare with snapshot, refresh snapshot, return 1 when changed (or new) */
static int refresh(obj_t *o) {
  int ch = o->isnew;
  size_t N = (size_t)o->m * o->n;
  if (!o->snap) { o->snap = malloc((N + 1) * sizeof(uint32_t)); ch = 1; }
  for (int i = 0; i < o->m; i++)
    for (int j = 0; j < o->n; j++) {
      uint32_t v = getv(o, i, j);
      if (ch || o->snap[(size_t)i * o->n + j] != v) { ch = 1; o->snap[(size_t)i * o->n + j] = v; }
    }
  int pd = padof(o), dp = depthof(o);
  if (pd != o->snap_pad || dp != o->snap_depth) ch = 1;
  o->snap_pad = pd;
  o->snap_depth = dp;
  return ch;
}

static char *EXTRA; /* extra JSON fields for the current event */
static size_t EXTRAsz, EXTRAn;
static int in_lib;
static void extra(const char *fmt, ...) {
  va_list ap;
  int keep = in_lib;
  in_lib = 0;
  if (!EXTRA) { EXTRAsz = 1 << 16; EXTRA = malloc(EXTRAsz); }
  for (;;) {
    va_start(ap, fmt);
    int k = vsnprintf(EXTRA + EXTRAn, EXTRAsz - EXTRAn, fmt, ap);
    va_end(ap);
    if (EXTRAn + k + 1 < EXTRAsz) { EXTRAn += k; in_lib = keep; return; }
    EXTRAsz *= 2;
    EXTRA = realloc(EXTRA, EXTRAsz);
  }
}
static void extra_word(const char *key, word w) { /* set of exponents */
  extra(",\"%s\":[", key);
  int first = 1;
  for (int i = 0; i < 64; i++)
    if (w >> i & 1) { extra("%s%d", first ? "" : ",", i); first = 0; }
  extra("]");
}

typedef struct { int id; int frees; } pend_t;
static void emit_event(const char *op, int nargs, long long *args, int isnew_call) {
  fprintf(out, "{\"h\":%d,\"s\":%d,\"op\":\"%s\",\"nw\":%d,\"a\":[", hist, step, op, isnew_call);
  for (int i = 0; i < nargs; i++) fprintf(out, "%s%lld", i ? "," : "", args[i]);
  fprintf(out, "],\"r\":%lld,\"x\":\"ok\"", has_ret ? RET : 0LL);
  if (EXTRAn) fwrite(EXTRA, 1, EXTRAn, out);
  EXTRAn = 0;
  fputs(",\"o\":[", out);
  int first = 1;
  for (int id = 1; id <= maxid; id++) {
    obj_t *o = &O[id];
    if (o->k == K_NONE || o->k == K_FIELD || o->k == K_B) continue;
    int am, an;
    dims(o, &am, &an);
    int badhdr = (am != o->m || an != o->n);
    int ch;
    if (o->par && !o->isnew) { if (!badhdr) continue; ch = 1; }
    else if (badhdr) ch = 1;
    else ch = o->par ? 1 : refresh(o);
    if (!ch) continue;
    if (!first) fputc(',', out);
    first = 0;
    fprintf(out, "{\"id\":%d,\"k\":\"%s\",\"f\":%d,\"par\":%d,\"r0\":%d,\"c0\":%d,\"m\":%d,\"n\":%d,\"am\":%d,\"an\":%d,\"pad\":%d,\"d\":%d,\"v\":",
            id, o->wide ? "L" : KN[o->k], o->fid, o->par, o->r0, o->c0, o->m, o->n, am, an, o->par ? 0 : o->snap_pad,
            depthof(o));
    if (badhdr) fputs("[]", out); else emit_matrix(o);
    fputc('}', out);
    o->isnew = 0;
  }
  fputs("]}\n", out);
  fflush(out);
}

/* ------------------------------------------------------------ helpers ---- */
static obj_t *get(long long id, kind_t k) {
  if (id <= 0 || id >= MAXOBJ || O[id].k != k) {
    char b[64];
    snprintf(b, 64, "id %lld (want %s)", id, KN[k]);
    die_harness("no such object", b);
  }
  return &O[id];
}
static mzed_t *E(long long id) { return get(id, K_E)->p; }
static mzd_slice_t *S(long long id) { return get(id, K_S)->p; }
static mzp_t *PP(long long id) { return get(id, K_P)->p; }
static mzd_poly_t *Y(long long id) { return get(id, K_Y)->p; }
static blm_t *BL(long long id) { return id ? get(id, K_B)->p : NULL; }
static gf2e *FF(long long id) { return get(id, K_FIELD)->p; }

/* register a freshly returned library object under id */
static void regE(long long id, mzed_t *A, int fid) {
  obj_t *o = newobj((int)id, K_E);
  o->p = A; o->fid = fid; o->m = A->nrows; o->n = A->ncols;
}
static void regS(long long id, mzd_slice_t *A, int fid) {
  obj_t *o = newobj((int)id, K_S);
  o->p = A; o->fid = fid; o->m = A->nrows; o->n = A->ncols;
}
static void regY(long long id, mzd_poly_t *A) {
  obj_t *o = newobj((int)id, K_Y);
  /* one with more coefficients than an entry of the trace has bits is shown in slices of 15 bits, one below the other */
  o->wide = A->depth > 31;
  o->p = A; o->fid = 0; o->m = A->nrows * (o->wide ? (A->depth + 14) / 15 : 1); o->n = A->ncols;
}
static njt_mzed_t *J(long long id) { return get(id, K_J)->p; }
static void regJ(long long id, njt_mzed_t *T, int fid) {
  obj_t *o = newobj((int)id, K_J);
  o->p = T; o->fid = fid; o->m = 1 << deg_of(fpoly[fid]); o->n = T->T->ncols;
}
static int fid_of(long long id) { return O[id].fid; }

/* ---------------------------------------------------------- accounting ---- */
/* What the library holds: matrices over GF(2) and permutations it obtained from
 * libm4ri and has not given back (counted by link-time wrappers around libm4ri's
 * constructors and destructors), and blocks of memory obtained while one of its
 * functions was running (counted by the sanitizer's allocation hooks).        */
static long long live_mzd, live_mzp;
#if defined(__SANITIZE_ADDRESS__)
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define LT (1 << 18)
static const volatile void *lt[LT];
static long long live_blk;
static int lt_full;
static size_t lt_hash(const volatile void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 46; }
static void on_malloc(const volatile void *p, size_t n) {
  if (!in_lib || lt_full || !p) return;
  if (live_blk > LT / 2) { lt_full = 1; return; }
  size_t i = lt_hash(p);
  while (lt[i] && lt[i] != (void *)1) i = (i + 1) % LT;
  lt[i] = p;
  live_blk++;
}
static void on_free(const volatile void *p) {
  if (!p) return;
  for (size_t i = lt_hash(p); lt[i]; i = (i + 1) % LT)
    if (lt[i] == p) { lt[i] = (void *)1; live_blk--; return; }
}
static void accounting_init(void) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#else
static long long live_blk = -1;
static void accounting_init(void) {}
#endif
#define NEWM(r, given) do { if ((r) && !(given)) live_mzd++; } while (0)
#define WRAP(ret, name, params, args, given) \
  ret __real_##name params; \
  ret __wrap_##name params { ret r_ = __real_##name args; NEWM(r_, given); return r_; }
WRAP(mzd_t *, mzd_init, (rci_t r, rci_t c), (r, c), 0)
WRAP(mzd_t *, mzd_init_window, (mzd_t *M, rci_t a, rci_t b, rci_t c, rci_t d), (M, a, b, c, d), 0)
WRAP(mzd_t *, mzd_copy, (mzd_t *D, mzd_t const *A), (D, A), D)
WRAP(mzd_t *, mzd_submatrix, (mzd_t *D, mzd_t const *A, rci_t a, rci_t b, rci_t c, rci_t d), (D, A, a, b, c, d), D)
WRAP(mzd_t *, mzd_mul, (mzd_t *D, mzd_t const *A, mzd_t const *B, int c), (D, A, B, c), D)
WRAP(mzd_t *, mzd_addmul, (mzd_t *D, mzd_t const *A, mzd_t const *B, int c), (D, A, B, c), D)
WRAP(mzd_t *, mzd_mul_naive, (mzd_t *D, mzd_t const *A, mzd_t const *B), (D, A, B), D)
WRAP(mzd_t *, mzd_mul_m4rm, (mzd_t *D, mzd_t const *A, mzd_t const *B, int c), (D, A, B, c), D)
WRAP(mzd_t *, mzd_transpose, (mzd_t *D, mzd_t const *A), (D, A), D)
WRAP(mzd_t *, mzd_concat, (mzd_t *D, mzd_t const *A, mzd_t const *B), (D, A, B), D)
WRAP(mzd_t *, mzd_stack, (mzd_t *D, mzd_t const *A, mzd_t const *B), (D, A, B), D)
WRAP(mzd_t *, mzd_add, (mzd_t *D, mzd_t const *A, mzd_t const *B), (D, A, B), D)
WRAP(mzd_t *, _mzd_add, (mzd_t *D, mzd_t const *A, mzd_t const *B), (D, A, B), D)
WRAP(mzd_t *, mzd_inv_m4ri, (mzd_t *D, mzd_t const *A, int k), (D, A, k), D)
void __real_mzd_free(mzd_t *A);
void __wrap_mzd_free(mzd_t *A) { live_mzd--; __real_mzd_free(A); }
mzp_t *__real_mzp_init(rci_t n);
mzp_t *__wrap_mzp_init(rci_t n) { live_mzp++; return __real_mzp_init(n); }
mzp_t *__real_mzp_init_window(mzp_t *P, rci_t a, rci_t b);
mzp_t *__wrap_mzp_init_window(mzp_t *P, rci_t a, rci_t b) { live_mzp++; return __real_mzp_init_window(P, a, b); }
mzp_t *__real_mzp_copy(mzp_t *P, mzp_t const *Q);
mzp_t *__wrap_mzp_copy(mzp_t *P, mzp_t const *Q) { mzp_t *r = __real_mzp_copy(P, Q); if (!P) live_mzp++; return r; }
void __real_mzp_free(mzp_t *P);
void __wrap_mzp_free(mzp_t *P) { live_mzp--; __real_mzp_free(P); }
void __real_mzp_free_window(mzp_t *P);
void __wrap_mzp_free_window(mzp_t *P) { live_mzp--; __real_mzp_free_window(P); }

/* --------------------------------------------------------------- fill ---- */
static uint32_t rv(int e, uint32_t mask) { return (uint32_t)(rnd() & ((1u << e) - 1) & mask); }
static uint32_t rnz(int e) { uint32_t v; do v = rnd() & ((1u << e) - 1); while (!v); return v; }

static void do_fill(obj_t *o, const char *kind, uint64_t seed, long long a, long long b) {
  int m = o->m, n = o->n;
  prng_s = seed * 0x2545F4914F6CDD1DULL + 1234567;
  int e;
  uint64_t p;
  if (o->k == K_Y) { e = ((mzd_poly_t *)o->p)->depth; if (e > 15) e = ((mzd_poly_t*)o->p)->depth > 30 ? 30 : e; p = 0; }
  else { p = fpoly[o->fid]; e = deg_of(p); }
  uint32_t full = e >= 31 ? 0x7fffffff : (1u << e) - 1;
  uint32_t *M = calloc((size_t)m * n + 1, 4);
#define AT(i, j) M[(size_t)(i)*n + (j)]
  if (!strcmp(kind, "zero")) {
  } else if (!strcmp(kind, "rand")) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(i, j) = rnd() & full;
  } else if (!strcmp(kind, "bits")) { /* only bits of mask a */
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(i, j) = rnd() & full & (uint32_t)a;
  } else if (!strcmp(kind, "sparse")) { /* density a per mille */
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { uint64_t q = rnd(); uint32_t v = rnd() & full; AT(i, j) = (long long)(q % 1000) < a ? v : 0; }
  } else if (!strcmp(kind, "const")) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(i, j) = a < 0 ? full : (uint32_t)(a & full);
  } else if (!strcmp(kind, "diag")) { /* a<0: random nonzero */
    for (int i = 0; i < m && i < n; i++) AT(i, i) = a < 0 ? rnz(e) : (uint32_t)(a & full);
  } else if (!strcmp(kind, "single")) { /* one nonzero element at (a,b) */
    if (a < m && b < n) AT(a, b) = rnz(e);
  } else if (!strcmp(kind, "index")) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(i, j) = ((uint32_t)i * 31 + (uint32_t)j * 7 + 1 + (uint32_t)a) & full;
  } else if (!strcmp(kind, "lowzero")) { /* first a columns zero, first b rows zero */
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(i, j) = (j < a || i < b) ? 0 : (rnd() & full);
  } else if (!strcmp(kind, "band")) { /* zero outside columns a..b-1 */
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { uint32_t v = rnd() & full; AT(i, j) = j >= a && j < b ? v : 0; }
  } else if (!strcmp(kind, "rank")) { /* rank <= a; b=1: zero out random columns, b=2: zero out random rows too, b=3: cluster */
    int r = (int)a;
    uint32_t *L = calloc((size_t)m * r + 1, 4), *R = calloc((size_t)r * n + 1, 4);
    for (size_t i = 0; i < (size_t)m * r; i++) L[i] = rnd() & full;
    for (size_t i = 0; i < (size_t)r * n; i++) R[i] = rnd() & full;
    if (b == 3) { /* staircase: row k of R starts late */
      int pos = 0;
      for (int k = 0; k < r; k++) {
        int left = n - pos - (r - k);
        if (left > 0) pos += (int)(rnd() % (uint64_t)(1 + (left < 9 ? left : (rnd() % 4 ? 2 : left / 2))));
        for (int j = 0; j < pos && j < n; j++) R[(size_t)k * n + j] = 0;
        if (pos < n) R[(size_t)k * n + pos] = rnz(e);
        pos++;
      }
    }
    for (int i = 0; i < m; i++)
      for (int k = 0; k < r; k++) {
        uint32_t x = L[(size_t)i * r + k];
        if (x) for (int j = 0; j < n; j++) AT(i, j) ^= xfmul(p, e, x, R[(size_t)k * n + j]);
      }
    if (b == 1 || b == 2) for (int j = 0; j < n; j++) if (rnd() % 3 == 0) for (int i = 0; i < m; i++) AT(i, j) = 0;
    if (b == 2) for (int i = 0; i < m; i++) if (rnd() % 3 == 0) for (int j = 0; j < n; j++) AT(i, j) = 0;
    free(L); free(R);
  } else if (!strcmp(kind, "upper") || !strcmp(kind, "lower")) { /* triangular; a: 0 unit diag,1 random nonzero diag; b: 1 junk in the other triangle, 2: sparse off-diagonal */
    int up = kind[0] == 'u';
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      if (i == j) AT(i, j) = a ? rnz(e) : 1;
      else if ((j > i) == up) { uint32_t v = rnd() & full; AT(i, j) = (b & 2) && rnd() % 8 ? 0 : v; }
      else AT(i, j) = (b & 1) ? (rnd() & full) : 0;
    }
  } else if (!strcmp(kind, "perm")) { /* scaled permutation matrix */
    int *q = malloc(sizeof(int) * (n + 1));
    for (int j = 0; j < n; j++) q[j] = j;
    for (int j = n - 1; j > 0; j--) { int k = rnd() % (j + 1); int t = q[j]; q[j] = q[k]; q[k] = t; }
    for (int i = 0; i < m && i < n; i++) AT(i, q[i]) = a ? rnz(e) : 1;
    free(q);
  } else if (!strcmp(kind, "inv")) { /* invertible: P*L*U; a: number of sparse-ness */
    int *q = malloc(sizeof(int) * (m + 1));
    for (int j = 0; j < m; j++) q[j] = j;
    for (int j = m - 1; j > 0; j--) { int k = rnd() % (j + 1); int t = q[j]; q[j] = q[k]; q[k] = t; }
    uint32_t *U = calloc((size_t)n * n + 1, 4);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) U[(size_t)i * n + j] = i == j ? rnz(e) : ((a && rnd() % (uint64_t)a) ? 0 : (rnd() & full));
    for (int i = 0; i < m; i++)
      for (int k = 0; k <= i && k < n; k++) {
        uint32_t x = k == i ? rnz(e) : ((a && rnd() % (uint64_t)a) ? 0 : (rnd() & full));
        if (x) for (int j = 0; j < n; j++) AT(q[i], j) ^= xfmul(p, e, x, U[(size_t)k * n + j]);
      }
    free(U); free(q);
  } else if (!strcmp(kind, "profile")) {
    /* prescribed pivot columns. a: an octal digit for each block of columns (0 no pivot, 1 the first column, 2 the last
       one, 3 some, 4 all, 5 the first half, 6 all but the last, 7 the second half); b = 16 * block length + 8 * (columns
       without pivot are zero) + mode (0 rows mixed, 1 rows in order, 2 in reverse order, 3 zero rows first, 4 later rows
       depend on the first one only) */
    int bl = (int)(b / 16), mode = (int)(b % 8), flat = (int)(b / 8 % 2), r = 0;
    int *pc = malloc(sizeof(int) * (n + 1)), *isp = calloc(n + 1, sizeof(int));
    for (int j = 0; j < n && r < m; j++) {
      int lo = j / bl * bl, hi = lo + bl < n ? lo + bl : n, d = (int)(a >> (3 * (j / bl > 20 ? 20 : j / bl))) & 7, t = j - lo, y = 0;
      switch (d) {
        case 1: y = t == 0; break;
        case 2: y = j == hi - 1; break;
        case 3: y = rnd() % (uint64_t)(hi - lo) < 3; break;
        case 4: y = 1; break;
        case 5: y = t < (hi - lo + 1) / 2; break;
        case 6: y = j < hi - 1; break;
        case 7: y = t >= (hi - lo) / 2; break;
      }
      if (y) { pc[r++] = j; isp[j] = 1; }
    }
    uint32_t *U = calloc((size_t)r * n + 1, 4);
    for (int k = 0; k < r; k++)
      for (int j = pc[k]; j < n; j++) U[(size_t)k * n + j] = j == pc[k] ? rnz(e) : (flat && !isp[j]) ? 0 : (rnd() & full);
    int *q = malloc(sizeof(int) * (m + 1));
    for (int i = 0; i < m; i++) q[i] = mode == 2 ? m - 1 - i : mode == 3 ? (i + m - r) % m : i;
    if (mode == 0) for (int i = m - 1; i > 0; i--) { int k = rnd() % (i + 1); int t = q[i]; q[i] = q[k]; q[k] = t; }
    for (int i = 0; i < m; i++)
      for (int k = 0; k < r && k <= i; k++) {
        uint32_t x = k == i ? rnz(e) : (mode == 1 || mode == 2) ? 0 : (mode == 3 && i >= r) ? 0 : (mode == 4 && i >= r && k) ? 0 : (rnd() & full);
        if (x) for (int j = 0; j < n; j++) AT(q[i], j) ^= xfmul(p, e, x, U[(size_t)k * n + j]);
      }
    free(U); free(q); free(pc); free(isp);
  } else if (!strcmp(kind, "reprow")) { /* a distinct rows, repeated with scalings */
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(i, j) = i < a ? (rnd() & full) : 0;
    for (int i = (int)a; i < m; i++) { int s = a ? rnd() % a : 0; uint32_t x = rnd() & full; if (a) for (int j = 0; j < n; j++) AT(i, j) = xfmul(p, e, x, AT(s, j)); }
  } else if (!strcmp(kind, "pids")) { /* LAPACK style permutation: i <= P[i] < n;  a: 0 random, 1 identity, 2 far swaps, 3 adjacent; 4: any P[i] < n */
    for (int j = 0; j < n; j++) {
      if (a == 0) AT(0, j) = j + rnd() % (uint64_t)(n - j);
      else if (a == 1) AT(0, j) = j;
      else if (a == 2) AT(0, j) = n - 1;
      else if (a == 4) AT(0, j) = rnd() % (uint64_t)n;
      else AT(0, j) = j + 1 < n ? j + 1 : j;
    }
  } else die_harness("unknown fill", kind);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) putv(o, i, j, AT(i, j));
  free(M);
#undef AT
}

/* ----------------------------------------------------------- dispatch ---- */
typedef mzed_t *(*fE3)(mzed_t *, const mzed_t *, const mzed_t *);
typedef mzd_slice_t *(*fS3)(mzd_slice_t *, const mzd_slice_t *, const mzd_slice_t *);
typedef mzed_t *(*fE3c)(mzed_t *, const mzed_t *, const mzed_t *, int);
typedef struct { const char *n; fE3 f; } tE3;
typedef struct { const char *n; fS3 f; } tS3;
typedef struct { const char *n; fE3c f; } tE3c;

static mzed_t *w_mul_init0(mzed_t *C, const mzed_t *A, const mzed_t *B) { return _mzed_mul_init(C, A, B, 0); }
static mzed_t *w_mul_init1(mzed_t *C, const mzed_t *A, const mzed_t *B) { return _mzed_mul_init(C, A, B, 1); }
static mzed_t *w_sub(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_sub(C, A, B); }
static mzd_slice_t *w_ssub(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_sub(C, A, B); }

static tE3 TE3[] = {
  {"mzed_add", mzed_add}, {"_mzed_add", _mzed_add}, {"mzed_sub", w_sub},
  {"mzed_mul", mzed_mul}, {"mzed_addmul", mzed_addmul}, {"_mzed_mul", _mzed_mul}, {"_mzed_addmul", _mzed_addmul},
  {"mzed_mul_naive", mzed_mul_naive}, {"mzed_addmul_naive", mzed_addmul_naive}, {"_mzed_mul_naive", _mzed_mul_naive},
  {"mzed_mul_newton_john", mzed_mul_newton_john}, {"mzed_addmul_newton_john", mzed_addmul_newton_john},
  {"_mzed_mul_newton_john", _mzed_mul_newton_john}, {"_mzed_mul_newton_john0", _mzed_mul_newton_john0},
  {"mzed_mul_karatsuba", mzed_mul_karatsuba}, {"mzed_addmul_karatsuba", mzed_addmul_karatsuba}, {"_mzed_addmul_karatsuba", _mzed_addmul_karatsuba},
  {"mzed_mul_blm", mzed_mul_blm}, {"mzed_addmul_blm", mzed_addmul_blm}, {"_mzed_addmul_blm", _mzed_addmul_blm},
  {"_mzed_mul_init0", w_mul_init0}, {"_mzed_mul_init1", w_mul_init1},
  {"mzed_concat", mzed_concat}, {"mzed_stack", mzed_stack}, {NULL, NULL}};
static tE3c TE3c[] = {
  {"mzed_mul_strassen", mzed_mul_strassen}, {"mzed_addmul_strassen", mzed_addmul_strassen},
  {"_mzed_mul_strassen", _mzed_mul_strassen}, {"_mzed_addmul_strassen", _mzed_addmul_strassen}, {NULL, NULL}};
static tS3 TS3[] = {
  {"mzd_slice_add", mzd_slice_add}, {"_mzd_slice_add", _mzd_slice_add}, {"mzd_slice_sub", w_ssub},
  {"mzd_slice_mul", mzd_slice_mul}, {"mzd_slice_addmul", mzd_slice_addmul},
  {"mzd_slice_mul_karatsuba", mzd_slice_mul_karatsuba}, {"mzd_slice_addmul_karatsuba", mzd_slice_addmul_karatsuba},
  {"_mzd_slice_addmul_karatsuba", _mzd_slice_addmul_karatsuba}, {"_mzd_slice_addmul_naive", _mzd_slice_addmul_naive},
  {"mzd_slice_concat", mzd_slice_concat}, {"mzd_slice_stack", mzd_slice_stack}, {NULL, NULL}};

static int hist_timeout = 240;

/* snapshot of a stdout capture */
static char *capture(void (*f)(void *), void *arg) {
  fflush(stdout);
  char tmpl[] = "/tmp/m4xcapXXXXXX";
  int fd = mkstemp(tmpl);
  unlink(tmpl);
  int save = dup(1);
  dup2(fd, 1);
  f(arg);
  fflush(stdout);
  dup2(save, 1);
  close(save);
  off_t len = lseek(fd, 0, SEEK_END);
  lseek(fd, 0, SEEK_SET);
  char *b = calloc(1, len + 1);
  if (read(fd, b, len) != len) die_harness("capture", NULL);
  close(fd);
  return b;
}
static void pr_e(void *p) { mzed_print(p); }
static void pr_s(void *p) { mzd_slice_print(p); }

static void emit_text(const char *b) { /* lines of the printed text, as JSON strings (sanitized) */
  extra(",\"txt\":[");
  int first = 1;
  while (*b) {
    const char *nl = strchr(b, '\n');
    int len = nl ? (int)(nl - b) : (int)strlen(b);
    extra("%s\"", first ? "" : ",");
    for (int i = 0; i < len; i++) { unsigned char c = b[i]; if (c < 32 || c > 126 || c == '"' || c == '\\') extra("?"); else extra("%c", c); }
    extra("\"");
    first = 0;
    b += len;
    if (*b) b++;
    else extra(",\"<no newline>\"");
  }
  extra("]");
}

static word wparse(const char *s) { return strtoull(s, NULL, 0); }

/* returns 1 if the operation produced an event, 0 for directives */
static int do_op(char *name, int nw, int n, long long *a, char **sa) {
  has_ret = 0;
  RET = 0;
#define IS(s) (!strcmp(name, s))
#define R(v) do { RET = (long long)(v); has_ret = 1; } while (0)
  for (tE3 *t = TE3; t->n; t++)
    if (IS(t->n)) {
      mzed_t *C = nw ? NULL : E(a[0]);
      mzed_t *A = E(a[1]), *B = E(a[2]);
      mzed_t *D = t->f(C, A, B);
      if (nw) regE(a[0], D, fid_of(a[1])); else R(D != C);
      return 1;
    }
  for (tE3c *t = TE3c; t->n; t++)
    if (IS(t->n)) {
      mzed_t *C = nw ? NULL : E(a[0]);
      mzed_t *A = E(a[1]), *B = E(a[2]);
      mzed_t *D = t->f(C, A, B, (int)a[3]);
      if (nw) regE(a[0], D, fid_of(a[1])); else R(D != C);
      return 1;
    }
  for (tS3 *t = TS3; t->n; t++)
    if (IS(t->n)) {
      mzd_slice_t *C = nw ? NULL : S(a[0]);
      mzd_slice_t *A = S(a[1]), *B = S(a[2]);
      mzd_slice_t *D = t->f(C, A, B);
      if (nw) regS(a[0], D, fid_of(a[1])); else R(D != C);
      return 1;
    }

  /* --- construction / destruction --- */
  if (IS("field")) { /* id minpoly(string) */
    word p = wparse(sa[1]);
    gf2e *ff = gf2e_init(p);
    obj_t *o = newobj((int)a[0], K_FIELD);
    o->p = ff;
    fpoly[a[0]] = p;
    extra(",\"poly\":%llu,\"deg\":%d,\"w\":%d", (unsigned long long)p, (int)ff->degree, (int)gf2e_degree_to_w(ff));
    return 1;
  }
  if (IS("field_free")) { gf2e_free(FF(a[0])); O[a[0]].k = K_NONE; return 1; }
  if (IS("mzed_init")) { regE(a[0], mzed_init(FF(a[1]), (rci_t)a[2], (rci_t)a[3]), (int)a[1]); return 1; }
  if (IS("mzd_slice_init")) { regS(a[0], mzd_slice_init(FF(a[1]), (rci_t)a[2], (rci_t)a[3]), (int)a[1]); return 1; }
  if (IS("mzp_init")) { obj_t *o = newobj((int)a[0], K_P); o->p = mzp_init((rci_t)a[1]); o->m = 1; o->n = (int)a[1]; return 1; }
  if (IS("mzd_poly_init")) { regY(a[0], mzd_poly_init((deg_t)a[1], (rci_t)a[2], (rci_t)a[3])); return 1; }
  if (IS("mzed_init_window")) {
    mzed_t *A = E(a[1]);
    mzed_t *W = mzed_init_window(A, a[2], a[3], a[4], a[5]);
    regE(a[0], W, fid_of(a[1]));
    O[a[0]].par = (int)a[1]; O[a[0]].r0 = (int)a[2]; O[a[0]].c0 = (int)a[3];
    return 1;
  }
  if (IS("mzd_slice_init_window")) {
    mzd_slice_t *A = S(a[1]);
    mzd_slice_t *W = mzd_slice_init_window(A, a[2], a[3], a[4], a[5]);
    regS(a[0], W, fid_of(a[1]));
    O[a[0]].par = (int)a[1]; O[a[0]].r0 = (int)a[2]; O[a[0]].c0 = (int)a[3];
    return 1;
  }
  if (IS("free")) {
    obj_t *o = &O[a[0]];
    switch (o->k) {
    case K_E: if (o->par) mzed_free_window(o->p); else mzed_free(o->p); break;
    case K_S: if (o->par) mzd_slice_free_window(o->p); else mzd_slice_free(o->p); break;
    case K_P: mzp_free(o->p); break;
    case K_Y: mzd_poly_free(o->p); break;
    case K_B: blm_free(o->p); break;
    case K_J: njt_mzed_free(o->p); break;
    default: die_harness("free of nothing", NULL);
    }
    free(o->snap);
    memset(o, 0, sizeof(*o));
    return 1;
  }
  if (IS("audit")) { /* what does the library hold now? */
    in_lib = 0;
    m4ri_mmc_cleanup();
    extra(",\"mzd\":%lld,\"mzp\":%lld,\"blk\":%lld", live_mzd, live_mzp, live_blk);
    return 1;
  }
  /* --- environment: raw writes by the harness itself --- */
  if (IS("fill")) { /* id kind seed [a b] */
    do_fill(&O[a[0]], sa[1], (uint64_t)a[2], n > 3 ? a[3] : 0, n > 4 ? a[4] : 0);
    return 1;
  }
  if (IS("pivots")) { /* id row number col: an identity block, zeros before it */
    for (int i = 0; i < a[2]; i++) for (int j = 0; j < a[3] + a[2]; j++) putv(&O[a[0]], (int)a[1] + i, j, j == a[3] + i);
    return 1;
  }
  if (IS("poke")) { putv(&O[a[0]], (int)a[1], (int)a[2], (uint32_t)a[3]); return 1; }
  if (IS("form")) { /* id t s1 s2 : input data by the formula of M4rieGen */
    obj_t *o = &O[a[0]];
    int e = o->k == K_Y ? (((mzd_poly_t *)o->p)->depth < 16 ? ((mzd_poly_t *)o->p)->depth : 16) : deg_of(fpoly[o->fid]);
    long long q = 1LL << e;
    for (long long i = 1; i <= o->m; i++)
      for (long long j = 1; j <= o->n; j++) {
        long long k = a[1] == 2 ? ((i - 1) % 2) + 1 : i;
        long long b = (k * k * 73 + j * j * 151 + ((k * j) % 977) * a[2] + a[3]) % 65521, v = b % q;
        if (a[1] == 1) v = (b / 7) % 4 == 0 ? v : 0;
        if (a[1] == 3 && i == j) v = 1 + b % (q - 1);
        putv(o, (int)i - 1, (int)j - 1, (uint32_t)v);
      }
    return 1;
  }
  if (IS("set")) { /* id v v v ... row major */
    obj_t *o = &O[a[0]];
    for (int k = 1; k < n; k++) putv(o, (k - 1) / o->n, (k - 1) % o->n, (uint32_t)a[k]);
    return 1;
  }

  /* --- elements --- */
  if (IS("mzed_read_elem")) { R(mzed_read_elem(E(a[0]), a[1], a[2])); return 1; }
  if (IS("mzed_write_elem")) { mzed_write_elem(E(a[0]), a[1], a[2], a[3]); return 1; }
  if (IS("mzed_add_elem")) { mzed_add_elem(E(a[0]), a[1], a[2], a[3]); return 1; }
  if (IS("mzd_slice_read_elem")) { R(mzd_slice_read_elem(S(a[0]), a[1], a[2])); return 1; }
  if (IS("mzd_slice_write_elem")) { mzd_slice_write_elem(S(a[0]), a[1], a[2], a[3]); return 1; }
  if (IS("mzd_slice_add_elem")) { mzd_slice_add_elem(S(a[0]), a[1], a[2], a[3]); return 1; }
  if (IS("mzed_read_all") || IS("mzd_slice_read_all")) { /* every element through the public reader */
    obj_t *o = &O[a[0]];
    extra(",\"q\":[");
    for (int i = 0; i < o->m; i++) {
      extra("%s[", i ? "," : "");
      for (int j = 0; j < o->n; j++)
        extra("%s%llu", j ? "," : "", (unsigned long long)(o->k == K_E ? mzed_read_elem(o->p, i, j) : mzd_slice_read_elem(o->p, i, j)));
      extra("]");
    }
    extra("]");
    return 1;
  }
  if (IS("mzed_set_ui")) { mzed_set_ui(E(a[0]), a[1]); return 1; }
  if (IS("mzd_slice_set_ui")) { mzd_slice_set_ui(S(a[0]), a[1]); return 1; }
  if (IS("mzed_randomize")) { srandom((unsigned)a[1]); mzed_randomize(E(a[0])); return 1; }
  if (IS("mzd_slice_randomize")) { srandom((unsigned)a[1]); mzd_slice_randomize(S(a[0])); return 1; }
  if (IS("mzd_poly_randomize")) { srandom((unsigned)a[1]); mzd_poly_randomize(Y(a[0])); return 1; }
  if (IS("mzed_copy")) { mzed_t *C = nw ? NULL : E(a[0]); mzed_t *D = mzed_copy(C, E(a[1])); if (nw) regE(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("mzd_slice_copy")) { mzd_slice_t *C = nw ? NULL : S(a[0]); mzd_slice_t *D = mzd_slice_copy(C, S(a[1])); if (nw) regS(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("mzed_submatrix")) { mzed_t *C = nw ? NULL : E(a[0]); mzed_t *D = mzed_submatrix(C, E(a[1]), a[2], a[3], a[4], a[5]); if (nw) regE(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("mzd_slice_submatrix")) { mzd_slice_t *C = nw ? NULL : S(a[0]); mzd_slice_t *D = mzd_slice_submatrix(C, S(a[1]), a[2], a[3], a[4], a[5]); if (nw) regS(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("mzed_cmp")) { R(mzed_cmp(E(a[0]), E(a[1]))); return 1; }
  if (IS("mzd_slice_cmp")) { R(mzd_slice_cmp(S(a[0]), S(a[1]))); return 1; }
  if (IS("mzed_is_zero")) { R(mzed_is_zero(E(a[0]))); return 1; }
  if (IS("mzd_slice_is_zero")) { R(mzd_slice_is_zero(S(a[0]))); return 1; }
  if (IS("mzed_first_zero_row")) { R(mzed_first_zero_row(E(a[0]))); return 1; }
  if (IS("mzed_print")) { char *b = capture(pr_e, E(a[0])); emit_text(b); free(b); return 1; }
  if (IS("mzd_slice_print")) { char *b = capture(pr_s, S(a[0])); emit_text(b); free(b); return 1; }

  /* --- row / column operations --- */
  if (IS("mzed_add_multiple_of_row")) { mzed_add_multiple_of_row(E(a[0]), a[1], E(a[2]), a[3], a[4], a[5]); return 1; }
  if (IS("mzed_add_row")) { mzed_add_row(E(a[0]), a[1], E(a[2]), a[3], a[4]); return 1; }
  if (IS("mzed_rescale_row")) { mzed_rescale_row(E(a[0]), a[1], a[2], a[3]); return 1; }
  if (IS("mzd_slice_rescale_row")) { mzd_slice_rescale_row(S(a[0]), a[1], a[2], a[3]); return 1; }
  if (IS("mzed_row_swap")) { mzed_row_swap(E(a[0]), a[1], a[2]); return 1; }
  if (IS("mzd_slice_row_swap")) { mzd_slice_row_swap(S(a[0]), a[1], a[2]); return 1; }
  if (IS("mzed_copy_row")) { mzed_copy_row(E(a[0]), a[1], E(a[2]), a[3]); return 1; }
  if (IS("mzd_slice_copy_row")) { mzd_slice_copy_row(S(a[0]), a[1], S(a[2]), a[3]); return 1; }
  if (IS("mzed_col_swap")) { mzed_col_swap(E(a[0]), a[1], a[2]); return 1; }
  if (IS("mzd_slice_col_swap")) { mzd_slice_col_swap(S(a[0]), a[1], a[2]); return 1; }
  if (IS("mzed_col_swap_in_rows")) { mzed_col_swap_in_rows(E(a[0]), a[1], a[2], a[3], a[4]); return 1; }
  if (IS("mzd_slice_col_swap_in_rows")) { mzd_slice_col_swap_in_rows(S(a[0]), a[1], a[2], a[3], a[4]); return 1; }
  if (IS("mzed_row_add")) { mzed_row_add(E(a[0]), a[1], a[2]); return 1; }
  if (IS("mzd_slice_row_add")) { mzd_slice_row_add(S(a[0]), a[1], a[2]); return 1; }
  if (IS("mzed_apply_p_left")) { mzed_apply_p_left(E(a[0]), PP(a[1])); return 1; }
  if (IS("mzed_apply_p_left_trans")) { mzed_apply_p_left_trans(E(a[0]), PP(a[1])); return 1; }
  if (IS("mzed_apply_p_right")) { mzed_apply_p_right(E(a[0]), PP(a[1])); return 1; }
  if (IS("mzed_apply_p_right_trans")) { mzed_apply_p_right_trans(E(a[0]), PP(a[1])); return 1; }
  if (IS("mzd_slice_apply_p_left")) { mzd_slice_apply_p_left(S(a[0]), PP(a[1])); return 1; }
  if (IS("mzd_slice_apply_p_left_trans")) { mzd_slice_apply_p_left_trans(S(a[0]), PP(a[1])); return 1; }
  if (IS("mzd_slice_apply_p_right")) { mzd_slice_apply_p_right(S(a[0]), PP(a[1])); return 1; }
  if (IS("mzd_slice_apply_p_right_trans")) { mzd_slice_apply_p_right_trans(S(a[0]), PP(a[1])); return 1; }
  if (IS("mzd_slice_apply_p_right_trans_tri")) { mzd_slice_apply_p_right_trans_tri(S(a[0]), PP(a[1])); return 1; }

  /* --- scalar --- */
  if (IS("mzed_mul_scalar")) { mzed_t *C = nw ? NULL : E(a[0]); mzed_t *D = mzed_mul_scalar(C, a[1], E(a[2])); if (nw) regE(a[0], D, fid_of(a[2])); else R(D != C); return 1; }
  if (IS("mzd_slice_mul_scalar")) { mzd_slice_t *C = nw ? NULL : S(a[0]); mzd_slice_t *D = mzd_slice_mul_scalar(C, a[1], S(a[2])); if (nw) regS(a[0], D, fid_of(a[2])); else R(D != C); return 1; }
  if (IS("mzd_slice_adapt_depth")) { mzd_slice_t *C = S(a[0]); mzd_slice_t *D = _mzd_slice_adapt_depth(C, (unsigned)a[1]); R(D != C); return 1; }
  if (IS("mzd_slice_addmul_scalar")) { mzd_slice_t *C = S(a[0]); mzd_slice_t *D = mzd_slice_addmul_scalar(C, a[1], S(a[2])); R(D != C); return 1; }

  /* --- conversions --- */
  if (IS("mzed_slice")) { mzd_slice_t *C = nw ? NULL : S(a[0]); mzd_slice_t *D = mzed_slice(C, E(a[1])); if (nw) regS(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("mzed_cling")) { mzed_t *C = nw ? NULL : E(a[0]); mzed_t *D = mzed_cling(C, S(a[1])); if (nw) regE(a[0], D, fid_of(a[1])); else R(D != C); return 1; }

  /* --- bilinear maps --- */
  if (IS("blm_init_crt")) { /* id field fn gn djb  p1..p16(optional; none = crt_init) */
    int p[M4RIE_CRT_LEN + 20];
    memset(p, 0, sizeof(p));
    int *pp = p;
    if (n > 5) { for (int i = 5; i < n && i - 5 < M4RIE_CRT_LEN; i++) p[i - 5] = (int)a[i]; }
    else pp = crt_init((deg_t)a[2], (deg_t)a[3]);
    blm_t *f = blm_init_crt(a[1] ? FF(a[1]) : NULL, (deg_t)a[2], (deg_t)a[3], pp, (int)a[4]);
    obj_t *o = newobj((int)a[0], K_B);
    o->p = f; o->fid = (int)a[1];
    extra(",\"crt\":[");
    for (int i = 0; i < M4RIE_CRT_LEN; i++) extra("%s%d", i ? "," : "", pp[i]);
    extra("],\"cost\":%d", blm_cost_crt(pp));
    const mzd_t *ms[3] = {f->F, f->G, f->H};
    const char *nm[3] = {"F", "G", "H"};
    for (int t = 0; t < 3; t++) {
      extra(",\"%s\":[", nm[t]);
      for (int i = 0; i < ms[t]->nrows; i++) {
        extra("%s[", i ? "," : "");
        for (int j = 0; j < ms[t]->ncols; j++) extra("%s%d", j ? "," : "", (int)rawbits(ms[t], i, j, 1));
        extra("]");
      }
      extra("]");
    }
    if (pp != p) m4ri_mm_free(pp);
    return 1;
  }
  if (IS("mzd_slice_mul_blm")) { mzd_slice_t *C = nw ? NULL : S(a[0]); mzd_slice_t *D = mzd_slice_mul_blm(C, S(a[1]), S(a[2]), BL(a[3])); if (nw) regS(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("_mzd_slice_mul_blm")) { mzd_slice_t *C = nw ? NULL : S(a[0]); mzd_slice_t *D = _mzd_slice_mul_blm(C, S(a[1]), S(a[2]), BL(a[3])); if (nw) regS(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  if (IS("mzd_slice_addmul_blm")) { mzd_slice_t *C = S(a[0]); mzd_slice_t *D = mzd_slice_addmul_blm(C, S(a[1]), S(a[2]), BL(a[3])); R(D != C); return 1; }

  /* --- polynomials over matrices --- */
  if (IS("_mzd_poly_add")) { R(_mzd_poly_add(Y(a[0]), Y(a[1]), Y(a[2]), (unsigned)a[3]) != Y(a[0])); return 1; }
  if (IS("mzd_poly_add")) { mzd_poly_t *C = nw ? NULL : Y(a[0]); mzd_poly_t *D = mzd_poly_add(C, Y(a[1]), Y(a[2])); if (nw) regY(a[0], D); else R(D != C); return 1; }
  if (IS("mzd_poly_adapt_depth")) { mzd_poly_t *C = Y(a[0]); mzd_poly_t *D = _mzd_poly_adapt_depth(C, (deg_t)a[1]); R(D != C); return 1; }
#define POLY(nm, call) if (IS(nm)) { mzd_poly_t *C = nw ? NULL : Y(a[0]); mzd_poly_t *D = call; if (nw) regY(a[0], D); else R(D != C); return 1; }
  POLY("mzd_poly_addmul_naive", _mzd_poly_addmul_naive(C, Y(a[1]), Y(a[2])))
  POLY("mzd_poly_addmul_karatsuba", _mzd_poly_addmul_karatsubs_balanced(C, Y(a[1]), Y(a[2])))
  POLY("mzd_poly_addmul_blm", _mzd_poly_addmul_blm(C, Y(a[1]), Y(a[2]), BL(a[3])))
  POLY("mzd_poly_addmul_crt", _mzd_poly_addmul_crt(C, Y(a[1]), Y(a[2])))
  POLY("mzd_poly_addmul_ext1", _mzd_poly_addmul_ext1(C, Y(a[1]), Y(a[2])))
  if (IS("mzd_poly_cmp")) { R(mzd_poly_cmp(Y(a[0]), Y(a[1]))); return 1; }

  /* --- echelon forms --- */
#define ECH(nm, call) if (IS(nm)) { R(call); return 1; }
  ECH("mzed_echelonize", mzed_echelonize(E(a[0]), (int)a[1]))
  ECH("mzed_echelonize_naive", mzed_echelonize_naive(E(a[0]), (int)a[1]))
  ECH("mzed_echelonize_newton_john", mzed_echelonize_newton_john(E(a[0]), (int)a[1]))
  ECH("mzed_echelonize_ple", mzed_echelonize_ple(E(a[0]), (int)a[1]))
  ECH("mzd_slice_echelonize", mzd_slice_echelonize(S(a[0]), (int)a[1]))
  /* --- PLE --- */
  ECH("mzed_ple_naive", mzed_ple_naive(E(a[0]), PP(a[1]), PP(a[2])))
  ECH("mzed_ple_newton_john", mzed_ple_newton_john(E(a[0]), PP(a[1]), PP(a[2])))
  ECH("mzed_ple", mzed_ple(E(a[0]), PP(a[1]), PP(a[2])))
  ECH("_mzed_ple", _mzed_ple(E(a[0]), PP(a[1]), PP(a[2]), (rci_t)a[3]))
  ECH("mzd_slice_ple", mzd_slice_ple(S(a[0]), PP(a[1]), PP(a[2])))
  ECH("_mzd_slice_ple", _mzd_slice_ple(S(a[0]), PP(a[1]), PP(a[2]), (rci_t)a[3]))
  ECH("mzd_slice_pluq", mzd_slice_pluq(S(a[0]), PP(a[1]), PP(a[2])))
  ECH("_mzd_slice_pluq", _mzd_slice_pluq(S(a[0]), PP(a[1]), PP(a[2]), (rci_t)a[3]))
  /* --- TRSM --- */
#define TRSM(nm) \
  if (IS("mzed_trsm_" #nm)) { mzed_trsm_##nm(E(a[0]), E(a[1])); return 1; } \
  if (IS("mzd_slice_trsm_" #nm)) { mzd_slice_trsm_##nm(S(a[0]), S(a[1])); return 1; }
  TRSM(upper_left) TRSM(lower_left) TRSM(upper_left_naive) TRSM(lower_left_naive) TRSM(upper_left_newton_john) TRSM(lower_left_newton_john)
  if (IS("_mzed_trsm_upper_left")) { _mzed_trsm_upper_left(E(a[0]), E(a[1]), (rci_t)a[2]); return 1; }
  if (IS("_mzed_trsm_lower_left")) { _mzed_trsm_lower_left(E(a[0]), E(a[1]), (rci_t)a[2]); return 1; }
  if (IS("_mzd_slice_trsm_upper_left")) { _mzd_slice_trsm_upper_left(S(a[0]), S(a[1]), (rci_t)a[2]); return 1; }
  if (IS("_mzd_slice_trsm_lower_left")) { _mzd_slice_trsm_lower_left(S(a[0]), S(a[1]), (rci_t)a[2]); return 1; }
  /* --- inverse --- */
  if (IS("mzed_invert_newton_john")) { mzed_t *C = nw ? NULL : E(a[0]); mzed_t *D = mzed_invert_newton_john(C, E(a[1])); if (nw) regE(a[0], D, fid_of(a[1])); else R(D != C); return 1; }
  /* --- Newton-John tables --- */
  if (IS("mzed_make_table")) { /* A r c [r0 c0] : (in a table that was made for r0, c0 before) the table must map every field element x to x * A[r] from column c on */
    mzed_t *A = E(a[0]);
    njt_mzed_t *T = n > 4 ? mzed_make_table(NULL, A, (rci_t)a[3], (rci_t)a[4]) : NULL;
    njt_mzed_t *T2 = mzed_make_table(T, A, (rci_t)a[1], (rci_t)a[2]);
    if (T != NULL) R(T2 != T);
    T = T2;
    obj_t tmp = {0};
    tmp.k = K_E; tmp.fid = fid_of(a[0]); tmp.p = T->T; 
    extra(",\"q\":[");
    long q = 1L << deg_of(fpoly[tmp.fid]);
    for (long x = 0; x < q; x++) {
      extra("%s[", x ? "," : "");
      for (int j = 0; j < A->ncols; j++) extra("%s%u", j ? "," : "", getv(&tmp, (int)T->L[x], j));
      extra("]");
    }
    extra("]");
    njt_mzed_free(T);
    return 1;
  }
  if (!strncmp(name, "mzed_process_rows", 17)) { /* M startrow endrow startcol  (r1 .. rk): tables from rows r_i with pivots in startcol.. */
    int k = (int)(n - 4);
    njt_mzed_t *T[6] = {0};
    mzed_t *M = E(a[0]);
    if (IS("mzed_process_rows_again")) { /* in tables that were used for something else before */
      for (int i = 0; i < k; i++) T[i] = i % 2 ? njt_mzed_init(M->finite_field, M->ncols) : NULL;
      for (int i = 0; i < k; i++) T[i] = mzed_make_table(T[i], M, (rci_t)a[4 + (i + 1) % k], (rci_t)a[3]);
    }
    for (int i = 0; i < k; i++) T[i] = mzed_make_table(T[i], M, (rci_t)a[4 + i], (rci_t)a[3] + i);
    rci_t s = a[1], e = a[2], c = a[3];
    if (k == 1) mzed_process_rows(M, s, e, c, T[0]);
    else if (k == 2) mzed_process_rows2(M, s, e, c, T[0], T[1]);
    else if (k == 3) mzed_process_rows3(M, s, e, c, T[0], T[1], T[2]);
    else if (k == 4) mzed_process_rows4(M, s, e, c, T[0], T[1], T[2], T[3]);
    else if (k == 5) mzed_process_rows5(M, s, e, c, T[0], T[1], T[2], T[3], T[4]);
    else if (k == 6) mzed_process_rows6(M, s, e, c, T[0], T[1], T[2], T[3], T[4], T[5]);
    for (int i = 0; i < k; i++) njt_mzed_free(T[i]);
    return 1;
  }
  /* tables as objects that stay */
  if (IS("njt_mzed_init")) { regJ(a[0], njt_mzed_init(FF(a[1]), (rci_t)a[2]), (int)a[1]); return 1; }
  if (IS("njt_make")) { /* T A r c */
    njt_mzed_t *T = mzed_make_table(nw ? NULL : J(a[0]), E(a[1]), (rci_t)a[2], (rci_t)a[3]);
    if (nw) regJ(a[0], T, fid_of(a[1])); else R(T != J(a[0]));
    return 1;
  }
  if (IS("njt_process")) { /* M startrow endrow startcol T1 .. Tk */
    mzed_t *M = E(a[0]);
    int k = (int)(n - 4);
    rci_t s = a[1], e = a[2], c = a[3];
    njt_mzed_t *T[6] = {0};
    for (int i = 0; i < k; i++) T[i] = J(a[4 + i]);
    if (k == 1) mzed_process_rows(M, s, e, c, T[0]);
    else if (k == 2) mzed_process_rows2(M, s, e, c, T[0], T[1]);
    else if (k == 3) mzed_process_rows3(M, s, e, c, T[0], T[1], T[2]);
    else if (k == 4) mzed_process_rows4(M, s, e, c, T[0], T[1], T[2], T[3]);
    else if (k == 5) mzed_process_rows5(M, s, e, c, T[0], T[1], T[2], T[3], T[4]);
    else if (k == 6) mzed_process_rows6(M, s, e, c, T[0], T[1], T[2], T[3], T[4], T[5]);
    return 1;
  }
  /* --- field arithmetic --- */
  if (IS("gf_row")) { /* field a b0 cnt : a * b for b in b0..b0+cnt-1 by ff->mul and by gf2e_mul, plus arith version */
    gf2e *ff = FF(a[0]);
    extra(",\"q\":[");
    for (long long b = a[2]; b < a[2] + a[3]; b++) extra("%s%llu", b > a[2] ? "," : "", (unsigned long long)ff->mul(ff, a[1], b));
    extra("],\"q2\":[");
    for (long long b = a[2]; b < a[2] + a[3]; b++) extra("%s%llu", b > a[2] ? "," : "", (unsigned long long)gf2e_mul(ff, a[1], b));
    extra("],\"q3\":[");
    for (long long b = a[2]; b < a[2] + a[3]; b++) extra("%s%llu", b > a[2] ? "," : "", (unsigned long long)_gf2e_mul_arith(ff, a[1], b));
    extra("]");
    return 1;
  }
  if (IS("gf_pairs")) { /* field seed cnt: random pairs */
    gf2e *ff = FF(a[0]);
    int e = deg_of(fpoly[a[0]]);
    prng_s = a[1] * 77777 + 5;
    extra(",\"q\":[");
    for (long long k = 0; k < a[2]; k++) {
      word x = rnd() & ((1ULL << e) - 1), y = rnd() & ((1ULL << e) - 1);
      if (rnd() % 8 == 0) x = 1ULL << (rnd() % e);
      if (rnd() % 8 == 0) y = (1ULL << e) - 1;
      extra("%s[%llu,%llu,%llu,%llu,%llu]", k ? "," : "", (unsigned long long)x, (unsigned long long)y, (unsigned long long)ff->mul(ff, x, y),
            (unsigned long long)gf2e_mul(ff, x, y), (unsigned long long)_gf2e_mul_arith(ff, x, y));
    }
    extra("]");
    return 1;
  }
  if (IS("gf_inv")) { /* field a0 cnt */
    gf2e *ff = FF(a[0]);
    extra(",\"q\":[");
    for (long long b = a[1]; b < a[1] + a[2]; b++) extra("%s%llu", b > a[1] ? "," : "", (unsigned long long)gf2e_inv(ff, b));
    extra("],\"q2\":[");
    for (long long b = a[1]; b < a[1] + a[2]; b++) extra("%s%llu", b > a[1] ? "," : "", (unsigned long long)ff->inv(ff, b));
    extra("]");
    return 1;
  }
  if (IS("gf_t16")) { /* field a : table of 2^16 words; sampled: seed cnt */
    gf2e *ff = FF(a[0]);
    word *t = gf2e_t16_init(ff, (word)a[1]);
    prng_s = a[2] * 99991 + 7;
    extra(",\"q\":[");
    for (long long k = 0; k < a[3]; k++) {
      word x = k < 4 ? (word[]){0, 1, 0xffff, 0x8000}[k] : (rnd() & 0xffff);
      extra("%s[%llu,%llu]", k ? "," : "", (unsigned long long)x, (unsigned long long)t[x]);
    }
    extra("]");
    gf2e_t16_free(t);
    return 1;
  }
  if (IS("gf_info")) {
    gf2e *ff = FF(a[0]);
    extra(",\"poly\":%llu,\"deg\":%d,\"w\":%d", (unsigned long long)ff->minpoly, (int)ff->degree, (int)gf2e_degree_to_w(ff));
    return 1;
  }
  if (IS("irreducibles")) { /* degree */
    const word *l = irreducible_polynomials[a[0]];
    extra(",\"q\":[");
    for (word i = 0; i <= l[0]; i++) extra("%s%llu", i ? "," : "", (unsigned long long)l[i]);
    extra("]");
    return 1;
  }
  if (IS("gf2x_mul")) { word x = wparse(sa[0]), y = wparse(sa[1]); extra_word("A", x); extra_word("B", y); extra_word("C", gf2x_mul(x, y, (deg_t)a[2])); return 1; }
  if (IS("gf2x_deg")) { word x = wparse(sa[0]); extra_word("A", x); R(gf2x_deg(x)); return 1; }
  if (IS("gf2x_divmod")) { /* a b : div, mod, divmod */
    word x = wparse(sa[0]), y = wparse(sa[1]), rem = 0;
    word q = gf2x_divmod(x, y, &rem);
    extra_word("A", x); extra_word("B", y);
    extra_word("C", q); extra_word("D", rem); extra_word("E", gf2x_div(x, y)); extra_word("G", gf2x_mod(x, y));
    return 1;
  }
  if (IS("gf2x_invmod")) { word x = wparse(sa[0]), y = wparse(sa[1]); extra_word("A", x); extra_word("B", y); extra_word("C", gf2x_invmod(x, y, (deg_t)a[2])); return 1; }
  die_harness("unknown operation", name);
  return 0;
}

/* ---------------------------------------------------------- histories ---- */
static volatile int *shm_step;
static volatile char *shm_op; /* json of the op being executed */

static int parse(char *line, char **name, int *nw, long long *a, char **sa) {
  int n = 0;
  char *sv;
  char *t = strtok_r(line, " \t\r\n", &sv);
  if (!t) return -1;
  *name = t;
  size_t L = strlen(t);
  *nw = 0;
  if (t[L - 1] == '!') { *nw = 1; t[L - 1] = 0; }
  while ((t = strtok_r(NULL, " \t\r\n", &sv))) {
    if (n >= 4096) die_harness("too many args", line);
    sa[n] = t;
    a[n] = (long long)strtoll(t, NULL, 0);
    n++;
  }
  return n;
}

static long long ARGS[4100];
static char *SARGS[4100];

static void run_history(char **lines, int cnt) {
  for (int i = 0; i < cnt; i++) {
    char *name;
    int nw;
    char *dup = strdup(lines[i]);
    int n = parse(dup, &name, &nw, ARGS, SARGS);
    if (n < 0) { free(dup); continue; }
    step = i;
    *shm_step = i;
    char buf[512];
    int k = snprintf(buf, sizeof buf, "\"op\":\"%s\",\"nw\":%d,\"a\":[", name, nw);
    for (int j = 0; j < n && j < 12; j++) k += snprintf(buf + k, sizeof buf - k, "%s%lld", j ? "," : "", ARGS[j] > 2000000000LL || ARGS[j] < -2000000000LL ? 0 : ARGS[j]);
    snprintf(buf + k, sizeof buf - k, "]");
    strcpy((char *)shm_op, buf);
    EXTRAn = 0;
    long long *EA = ARGS;
    in_lib = 1;
    do_op(name, nw, n, ARGS, SARGS);
    in_lib = 0;
    int en = n;
    if (!strcmp(name, "set") || !strcmp(name, "fill")) en = 1;
    for (int j = 0; j < en; j++) if (EA[j] > 2000000000LL || EA[j] < -2000000000LL) EA[j] = 0;
    emit_event(name, en, EA, nw);
    free(dup);
  }
}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: m4x SCRIPT OUT\n"); return 2; }
  FILE *f = fopen(argv[1], "r");
  if (!f) { perror(argv[1]); return 2; }
  unlink(argv[2]);
  out = fopen(argv[2], "a");
  if (!out) { perror(argv[2]); return 2; }
  setvbuf(out, NULL, _IOFBF, 1 << 20);
  static char sobuf[1 << 16];
  setvbuf(stdout, sobuf, _IOFBF, sizeof sobuf);
  extra("%s", "");   /* the buffer of extra fields is not the library's */
  accounting_init();
  if (getenv("M4X_TIMEOUT")) hist_timeout = atoi(getenv("M4X_TIMEOUT"));
  shm_step = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm_op = (volatile char *)shm_step + 64;
  char *line = NULL;
  size_t cap = 0;
  char **hl = NULL;
  int hn = 0, hcap = 0;
  int eof = 0;
  int cur = -1, nhang = 0;
  while (!eof) {
    ssize_t got = getline(&line, &cap, f);
    int newh = 0, nexth = 0;
    if (got < 0) { eof = 1; newh = 1; }
    else if (line[0] == '#') continue;
    else if (line[0] == 'H' && line[1] == ' ') { newh = 1; nexth = atoi(line + 2); }
    if (!newh) {
      if (hn == hcap) { hcap = hcap ? hcap * 2 : 64; hl = realloc(hl, hcap * sizeof(char *)); }
      hl[hn++] = strdup(line);
      continue;
    }
    if (cur >= 0 && nhang < 2) { /* after two hangs the rest of the script is left out */
      hist = cur;
      *shm_step = -1;
      fflush(out);
      int efd[2];
      if (pipe(efd)) { perror("pipe"); return 2; }
      pid_t pid = fork();
      if (pid == 0) {
        close(efd[0]);
        dup2(efd[1], 2);
        close(efd[1]);
        signal(SIGALRM, SIG_DFL);
        alarm(hist_timeout);
        run_history(hl, hn);
        cover_dump();
        fflush(out);
        _exit(0);
      }
      close(efd[1]);
      char ebuf[4096];
      size_t en = 0;
      char tmp[4096];
      ssize_t r;
      while ((r = read(efd[0], tmp, sizeof tmp)) > 0) {
        for (ssize_t i = 0; i < r && en < sizeof(ebuf) - 1; i++) ebuf[en++] = tmp[i];
      }
      ebuf[en] = 0;
      close(efd[0]);
      int st;
      waitpid(pid, &st, 0);
      const char *x = "ok";
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "history %d: harness error: %s\n", cur, ebuf); return 2; }
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { x = "hang"; nhang++; }
      else if (strstr(ebuf, "AddressSanitizer") || strstr(ebuf, "runtime error")) x = "crash";
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && !strstr(ebuf, "Assertion") && en > 0) x = "die";
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) x = "assert";
      else if (WIFSIGNALED(st)) x = "crash";
      else if (WEXITSTATUS(st) != 0) x = "exit";
      if (strcmp(x, "ok")) {
        /* the child may have left a partial line: it flushes only whole events, so none is expected */
        fprintf(out, "{\"h\":%d,\"s\":%d,%s,\"r\":0,\"x\":\"%s\",\"msg\":\"", cur, *shm_step, (char *)shm_op, x);
        for (size_t i = 0; i < en && i < 300; i++) { unsigned char c = ebuf[i]; fputc(c < 32 || c > 126 || c == '"' || c == '\\' ? ' ' : c, out); }
        fputs("\",\"o\":[]}\n", out);
        fflush(out);
      }
    }
    for (int i = 0; i < hn; i++) free(hl[i]);
    hn = 0;
    cur = nexth;
  }
  fclose(out);
  return 0;
}
