// Variant "gc": every entry point of R through which the C code of vctrs may
// allocate goes through this file (linked with -Wl,--wrap=...).  On a schedule
// (a window of consecutive allocations) the shim collects garbage right before
// the allocation, with the arguments of the call protected as R itself protects
// them, and then overwrites the freed memory with junk, so that any object that
// was still in use but not protected changes its value or crashes.
// Entry points that do not allocate for the given arguments do not collect.
#define _GNU_SOURCE
#include <link.h>
#include <stdint.h>
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <R_ext/Altrep.h>
#include <string.h>

extern void R_gc_torture(int gap, int wait, Rboolean inhibit);
extern SEXP __real_Rf_allocVector(SEXPTYPE, R_xlen_t);
extern SEXP __real_Rf_cons(SEXP, SEXP);

static long counter = 0, from = 0, to = 0, done = 0;
static int mode = 0, busy = 0;

// Which call stacks of vctrs have been collected in: on the schedules "new"
// (modes 3 and 4) an allocation is preceded by a collection the first times it
// is reached by a chain of C callers, and at random after that.
static unsigned char seen[1 << 18];
static uintptr_t text_lo = 0, text_hi = 0;
static int find_text(struct dl_phdr_info* info, size_t size, void* data) {
  uintptr_t me = (uintptr_t) &find_text;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    uintptr_t a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, b = a + info->dlpi_phdr[i].p_memsz;
    if (info->dlpi_phdr[i].p_type == PT_LOAD && me >= a && me < b) { text_lo = a; text_hi = b; return 1; }
  }
  return 0;
}
static __attribute__((noinline)) uint64_t stack_hash(void) {
  if (!text_hi) dl_iterate_phdr(&find_text, NULL);
  uint64_t h = 1469598103934665603ULL;
  uintptr_t* fp = (uintptr_t*) __builtin_frame_address(0);
  for (int k = 0; k < 6; ++k) {
    uintptr_t ret = fp[1];
    if (ret < text_lo || ret >= text_hi) break;
    h = (h ^ (ret - text_lo)) * 1099511628211ULL;
    uintptr_t* up = (uintptr_t*) fp[0];
    if (up <= fp || (uintptr_t) up - (uintptr_t) fp > 1000000) break;
    fp = up;
  }
  return h ^ (h >> 29);
}
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33); }
// from: seed; to: the first `to` times.  What counts is the pair of an
// allocation and the one before it.
static uint64_t previous = 0;
static int is_new(long i) {
  uint64_t h = stack_hash();
  unsigned char* p = seen + mix(h + 3 * mix(previous) + (mode == 4)) % sizeof(seen);
  previous = h;
  int out = *p < to;
  if (mode == 5) return out;
  if (*p < 255) ++*p;
  return out || mix((uint64_t) from * 1000003u + (uint64_t) i) % 64 == 0;
}

// Overwrites the free nodes that the next allocations will use, among them the
// ones just freed: they follow a fresh node in its list (R 4.3, 64 bits: a node
// has sxpinfo, attrib, next, previous, and then its data; vectors: length,
// truelength, data).  The list ends at a node inside libR.
static uintptr_t libr_lo = 0, libr_hi = 0;
static int find_libr(struct dl_phdr_info* info, size_t size, void* data) {
  uintptr_t me = (uintptr_t) &R_NilValue, lo = UINTPTR_MAX, hi = 0;
  int in = 0;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    if (info->dlpi_phdr[i].p_type != PT_LOAD) continue;
    uintptr_t a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, b = a + info->dlpi_phdr[i].p_memsz;
    if (a < lo) lo = a;
    if (b > hi) hi = b;
    if (me >= a && me < b) in = 1;
  }
  if (in) { libr_lo = lo; libr_hi = hi; }
  return in;
}
static void spoil(SEXP first, int bytes, int limit) {
  char* node = (char*) first;
  for (int k = 0; k < limit; ++k) {
    node = *(char**) (node + 16);
    if (node == (char*) first || ((uintptr_t) node >= libr_lo && (uintptr_t) node < libr_hi)) return;
    if (bytes == 0) {
      *(unsigned char*) node = LISTSXP;
      *(SEXP*) (node + 8) = R_NilValue;
      *(SEXP*) (node + 32) = R_UnboundValue;
      *(SEXP*) (node + 40) = R_UnboundValue;
      *(SEXP*) (node + 48) = R_NilValue;
    } else {
      *(unsigned char*) node = RAWSXP;
      *(SEXP*) (node + 8) = R_NilValue;
      memset(node + 48, 0x5a, bytes);
    }
  }
}
static void junk(void) {
  // size classes of small vectors (in doubles): 1, 2, 4, 8, 16
  static const int cls[] = {1, 2, 4, 8, 16};
  if (!libr_hi) dl_iterate_phdr(&find_libr, NULL);
  for (int k = 0; k < 5; ++k) spoil(__real_Rf_allocVector(RAWSXP, cls[k] * 8), cls[k] * 8, 500);
  spoil(__real_Rf_cons(R_UnboundValue, R_UnboundValue), 0, 1000);
  // large ones: malloc() and free() do the same with MALLOC_PERTURB_
}
static void collect(void) {
  busy = 1;
  ++done;
  if (mode == 2 || mode == 4) {
    R_gc();
  } else {
    R_gc_torture(1, 0, FALSE);
    (void) __real_Rf_cons(R_NilValue, R_NilValue);
    R_gc_torture(0, 0, FALSE);
  }
  junk();
  busy = 0;
}
static void point(SEXP a, SEXP b, SEXP c) {
  if (busy) return;
  long i = counter++;
  if (mode == 0) return;
  if (mode >= 3) {
    if (!is_new(i) || done >= (mode == 4 ? 4 : 100)) return;
    if (mode == 5) { ++done; return; }
  } else if (i < from || i >= to) {
    return;
  }
  PROTECT(a); PROTECT(b); PROTECT(c);
  collect();
  UNPROTECT(3);
}
#define N R_NilValue

// schedule: mode 0 counts only; collections at the points in [from, to): 1 minor,
// 2 full; at call stacks seen less than `to` times, or at random: 3 minor, 4 full;
// 5 only counts how many of these there are
double vh_gc_config(int m, double f, double t) {
  double out = (double) counter;
  mode = 0;
  if (m == 1 || m == 3) { // start from an empty young generation
    busy = 1; R_gc_torture(1, 0, FALSE); (void) __real_Rf_cons(N, N); R_gc_torture(0, 0, FALSE); busy = 0;
  }
  counter = 0; done = 0; previous = 0; from = (long) f; to = (long) t; mode = m;
  return out;
}
double vh_gc_done(void) { return (double) done; }

#define R1(NAME, T1, P) extern SEXP __real_##NAME(T1); SEXP __wrap_##NAME(T1 a) { P; return __real_##NAME(a); }
#define R2(NAME, T1, T2, P) extern SEXP __real_##NAME(T1, T2); SEXP __wrap_##NAME(T1 a, T2 b) { P; return __real_##NAME(a, b); }
#define R3(NAME, T1, T2, T3, P) extern SEXP __real_##NAME(T1, T2, T3); SEXP __wrap_##NAME(T1 a, T2 b, T3 c) { P; return __real_##NAME(a, b, c); }

#ifdef VH_EXACT
// Variant "asan": every vector gets a block of its own from malloc() of the
// sanitizer, so that an access out of its bounds or after its collection is seen.
#include <R_ext/Rallocators.h>
#include <stdlib.h>
static void* ex_alloc(R_allocator_t* al, size_t n) { return malloc(n); }
static void ex_free(R_allocator_t* al, void* p) { free(p); }
static R_allocator_t ex = { ex_alloc, ex_free, NULL, NULL };
static SEXP exact(SEXPTYPE a, R_xlen_t b) {
  switch (a) {
  case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case RAWSXP: case STRSXP: case VECSXP:
    return Rf_allocVector3(a, b, &ex);
  default: return __real_Rf_allocVector(a, b);
  }
}
extern SEXP __real_Rf_shallow_duplicate(SEXP);
static SEXP dup(SEXP x) {
  if (ALTREP(x)) return __real_Rf_shallow_duplicate(x);
  R_xlen_t n = Rf_xlength(x);
  SEXP out;
  switch (TYPEOF(x)) {
#define CP(TY, FN, CT) case TY: out = PROTECT(exact(TY, n)); if (n) memcpy(FN(out), FN(x), n * sizeof(CT)); break
  CP(LGLSXP, LOGICAL, int); CP(INTSXP, INTEGER, int); CP(REALSXP, REAL, double); CP(CPLXSXP, COMPLEX, Rcomplex); CP(RAWSXP, RAW, Rbyte);
  case STRSXP: out = PROTECT(exact(STRSXP, n)); for (R_xlen_t i = 0; i < n; ++i) SET_STRING_ELT(out, i, STRING_ELT(x, i)); break;
  case VECSXP: out = PROTECT(exact(VECSXP, n)); for (R_xlen_t i = 0; i < n; ++i) SET_VECTOR_ELT(out, i, VECTOR_ELT(x, i)); break;
  default: return __real_Rf_shallow_duplicate(x);
  }
  SHALLOW_DUPLICATE_ATTRIB(out, x);
  UNPROTECT(1);
  return out;
}
SEXP vh_exact(SEXP x) { return dup(x); }
SEXP __wrap_Rf_shallow_duplicate(SEXP a) { point(a, N, N); return dup(a); }
#else
#define exact __real_Rf_allocVector
R1(Rf_shallow_duplicate, SEXP, point(a, N, N))
#endif
SEXP __wrap_Rf_allocVector(SEXPTYPE a, R_xlen_t b) { point(N, N, N); return exact(a, b); }
SEXP __wrap_Rf_cons(SEXP a, SEXP b) { point(a, b, N); return __real_Rf_cons(a, b); }
R2(Rf_lcons, SEXP, SEXP, point(a, b, N))
R1(Rf_list1, SEXP, point(a, N, N))
R2(Rf_list2, SEXP, SEXP, point(a, b, N))
R1(Rf_lang1, SEXP, point(a, N, N))
R2(Rf_lang2, SEXP, SEXP, point(a, b, N))
R3(Rf_lang3, SEXP, SEXP, SEXP, point(a, b, c))
extern SEXP __real_Rf_lang4(SEXP, SEXP, SEXP, SEXP);
SEXP __wrap_Rf_lang4(SEXP a, SEXP b, SEXP c, SEXP d) { PROTECT(d); point(a, b, c); UNPROTECT(1); return __real_Rf_lang4(a, b, c, d); }
R1(Rf_mkChar, const char*, point(N, N, N))
R2(Rf_mkCharCE, const char*, cetype_t, point(N, N, N))
R3(Rf_mkCharLenCE, const char*, int, cetype_t, point(N, N, N))
R1(Rf_mkString, const char*, point(N, N, N))
R1(Rf_ScalarInteger, int, point(N, N, N))
R1(Rf_ScalarReal, double, point(N, N, N))
R1(Rf_ScalarString, SEXP, point(a, N, N))
R1(Rf_duplicate, SEXP, point(a, N, N))
R3(Rf_setAttrib, SEXP, SEXP, SEXP, if (c != R_NilValue) point(a, b, c))
R2(Rf_lengthgets, SEXP, R_len_t, point(a, N, N))
R2(Rf_xlengthgets, SEXP, R_xlen_t, point(a, N, N))
R2(Rf_coerceVector, SEXP, SEXPTYPE, if (TYPEOF(a) != b) point(a, N, N))
R2(Rf_eval, SEXP, SEXP, if (TYPEOF(a) == LANGSXP) point(a, b, N))
R3(R_NewEnv, SEXP, int, int, point(a, N, N))
R2(Rf_allocArray, SEXPTYPE, SEXP, point(b, N, N))
R1(Rf_allocSExp, SEXPTYPE, point(N, N, N))
R3(R_new_altrep, R_altrep_class_t, SEXP, SEXP, point(b, c, N))
R2(Rf_mkNamed, SEXPTYPE, const char**, point(N, N, N))
R1(Rf_asCharacterFactor, SEXP, point(a, N, N))
R3(Rf_match, SEXP, SEXP, int, point(a, b, N))
R3(R_MakeExternalPtr, void*, SEXP, SEXP, point(b, c, N))
R3(R_lsInternal3, SEXP, Rboolean, Rboolean, point(a, N, N))
// compact row names are expanded
R2(Rf_getAttrib, SEXP, SEXP, if (b == R_RowNamesSymbol) point(a, N, N))
extern void __real_Rf_defineVar(SEXP, SEXP, SEXP);
void __wrap_Rf_defineVar(SEXP a, SEXP b, SEXP c) { point(a, b, c); __real_Rf_defineVar(a, b, c); }
extern void __real_Rf_copyMostAttrib(SEXP, SEXP);
void __wrap_Rf_copyMostAttrib(SEXP a, SEXP b) { if (ATTRIB(a) != N) point(a, b, N); __real_Rf_copyMostAttrib(a, b); }
extern void __real_R_PreserveObject(SEXP);
void __wrap_R_PreserveObject(SEXP a) { point(a, N, N); __real_R_PreserveObject(a); }
extern char* __real_R_alloc(size_t, int);
char* __wrap_R_alloc(size_t a, int b) { point(N, N, N); return __real_R_alloc(a, b); }
// deferred vectors allocate when their elements are needed
#define PTR(NAME, RET) extern RET __real_##NAME(SEXP); RET __wrap_##NAME(SEXP a) { if (ALTREP(a)) point(a, N, N); return __real_##NAME(a); }
PTR(INTEGER, int*)
PTR(REAL, double*)
PTR(LOGICAL, int*)
PTR(INTEGER_RO, const int*)
PTR(REAL_RO, const double*)
PTR(LOGICAL_RO, const int*)
PTR(STRING_PTR_RO, const SEXP*)
PTR(STRING_PTR, SEXP*)
PTR(DATAPTR_RO, const void*)
extern SEXP __real_STRING_ELT(SEXP, R_xlen_t);
SEXP __wrap_STRING_ELT(SEXP a, R_xlen_t b) { if (ALTREP(a)) point(a, N, N); return __real_STRING_ELT(a, b); }
extern SEXP __real_VECTOR_ELT(SEXP, R_xlen_t);
SEXP __wrap_VECTOR_ELT(SEXP a, R_xlen_t b) { if (ALTREP(a)) point(a, N, N); return __real_VECTOR_ELT(a, b); }
