// Helpers for the harness (not part of vctrs): look at R objects from below.
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <string.h>

// TRUELENGTH of every string of a character vector
SEXP vh_truelength(SEXP x) {
  R_xlen_t n = Rf_xlength(x);
  SEXP out = PROTECT(Rf_allocVector(REALSXP, n));
  for (R_xlen_t i = 0; i < n; ++i) REAL(out)[i] = (double) TRUELENGTH(STRING_ELT(x, i));
  UNPROTECT(1);
  return out;
}
// What vctrs may have left in TRUELENGTH: R itself stores the hash of a string
// there when the string is looked up in an environment.
static int pjw_hash(const char* s) {
  unsigned h = 0, g;
  for (const char* p = s; *p; p++) {
    h = (h << 4) + (*p);
    if ((g = h & 0xf0000000) != 0) { h = h ^ (g >> 24); h = h ^ g; }
  }
  return (int) h;
}
SEXP vh_residue(SEXP x) {
  R_xlen_t n = Rf_xlength(x);
  SEXP out = PROTECT(Rf_allocVector(REALSXP, n));
  for (R_xlen_t i = 0; i < n; ++i) {
    SEXP s = STRING_ELT(x, i);
    double tl = (double) TRUELENGTH(s);
    if (LEVELS(s) & 1) tl -= (double) pjw_hash(CHAR(s));
    REAL(out)[i] = tl;
  }
  UNPROTECT(1);
  return out;
}
SEXP vh_set_truelength(SEXP x, SEXP tl) {
  R_xlen_t n = Rf_xlength(x);
  for (R_xlen_t i = 0; i < n; ++i) {
    if (STRING_ELT(x, i) != NA_STRING) SET_TRUELENGTH(STRING_ELT(x, i), (R_xlen_t) REAL(tl)[i]);
  }
  return R_NilValue;
}
// A deep copy sharing nothing that is mutable with `x` (strings are shared)
SEXP vh_deep_copy(SEXP x) { return Rf_duplicate(x); }
SEXP vh_address(SEXP x) {
  char buf[32];
  snprintf(buf, sizeof buf, "%p", (void*) x);
  return Rf_mkString(buf);
}
SEXP vh_is_object(SEXP x) { return Rf_ScalarLogical(OBJECT(x)); }
// bits of doubles, as raw
SEXP vh_bits(SEXP x) {
  R_xlen_t n = Rf_xlength(x) * (TYPEOF(x) == CPLXSXP ? 16 : 8);
  SEXP out = Rf_allocVector(RAWSXP, n);
  memcpy(RAW(out), DATAPTR_RO(x), n);
  return out;
}
// double from raw bits (NaN payloads)
SEXP vh_from_bits(SEXP x) {
  R_xlen_t n = Rf_xlength(x) / 8;
  SEXP out = Rf_allocVector(REALSXP, n);
  memcpy(REAL(out), RAW(x), n * 8);
  return out;
}
// Mark as shared for good, so that no reference-count dependent path may write to it
SEXP vh_mark_shared(SEXP x) { MARK_NOT_MUTABLE(x); return x; }
// number of bytes of C stack, protect stack depth are not accessible: skipped

// -- ALTREP wrappers around ordinary vectors ----------------------------------
// Lists (R itself wraps only atomic vectors), and atomic vectors that answer
// Elt and Get_region but materialise their memory only on demand.
#include <R_ext/Altrep.h>
#include <R_ext/Rdynload.h>
static R_altrep_class_t vh_list, vh_int, vh_dbl, vh_lgl, vh_chr;
static R_xlen_t vh_length(SEXP x) { return Rf_xlength(R_altrep_data1(x)); }
static void* vh_dataptr(SEXP x, Rboolean writable) {
  if (writable) {
    if (R_altrep_data2(x) == R_NilValue) R_set_altrep_data2(x, Rf_shallow_duplicate(R_altrep_data1(x)));
    R_set_altrep_data1(x, R_altrep_data2(x));
  }
  return (void*) DATAPTR_RO(R_altrep_data1(x));
}
static const void* vh_dataptr_or_null(SEXP x) { return R_altrep_data2(x) == R_NilValue ? NULL : DATAPTR_RO(R_altrep_data1(x)); }
static SEXP vh_list_elt(SEXP x, R_xlen_t i) { return VECTOR_ELT(R_altrep_data1(x), i); }
static void vh_list_set(SEXP x, R_xlen_t i, SEXP v) { vh_dataptr(x, TRUE); SET_VECTOR_ELT(R_altrep_data1(x), i, v); }
static SEXP vh_chr_elt(SEXP x, R_xlen_t i) { return STRING_ELT(R_altrep_data1(x), i); }
static void vh_chr_set(SEXP x, R_xlen_t i, SEXP v) { vh_dataptr(x, TRUE); SET_STRING_ELT(R_altrep_data1(x), i, v); }
static int vh_int_elt(SEXP x, R_xlen_t i) { return INTEGER_ELT(R_altrep_data1(x), i); }
static int vh_lgl_elt(SEXP x, R_xlen_t i) { return LOGICAL_ELT(R_altrep_data1(x), i); }
static double vh_dbl_elt(SEXP x, R_xlen_t i) { return REAL_ELT(R_altrep_data1(x), i); }
static SEXP vh_int_extract(SEXP x, SEXP indx, SEXP call) {
  SEXP in = R_altrep_data1(x); R_xlen_t n = Rf_xlength(indx), m = Rf_xlength(in);
  SEXP out = PROTECT(Rf_allocVector(INTSXP, n));
  for (R_xlen_t i = 0; i < n; ++i) {
    double k = TYPEOF(indx) == INTSXP ? (INTEGER_ELT(indx, i) == NA_INTEGER ? NA_REAL : INTEGER_ELT(indx, i)) : REAL_ELT(indx, i);
    INTEGER(out)[i] = (k >= 1 && k <= m) ? INTEGER_ELT(in, (R_xlen_t) k - 1) : NA_INTEGER;
  }
  UNPROTECT(1);
  return out;
}
static int vh_ready = 0;
static void vh_classes(void) {
  if (vh_ready) return;
#define COMMON(CLS) do { R_set_altrep_Length_method(CLS, vh_length); R_set_altvec_Dataptr_method(CLS, vh_dataptr); R_set_altvec_Dataptr_or_null_method(CLS, vh_dataptr_or_null); } while (0)
  vh_list = R_make_altlist_class("vh_list", "vhelp", NULL); COMMON(vh_list); R_set_altlist_Elt_method(vh_list, vh_list_elt); R_set_altlist_Set_elt_method(vh_list, vh_list_set);
  vh_chr = R_make_altstring_class("vh_chr", "vhelp", NULL); COMMON(vh_chr); R_set_altstring_Elt_method(vh_chr, vh_chr_elt); R_set_altstring_Set_elt_method(vh_chr, vh_chr_set);
  vh_int = R_make_altinteger_class("vh_int", "vhelp", NULL); COMMON(vh_int); R_set_altinteger_Elt_method(vh_int, vh_int_elt); R_set_altvec_Extract_subset_method(vh_int, vh_int_extract);
  vh_lgl = R_make_altlogical_class("vh_lgl", "vhelp", NULL); COMMON(vh_lgl); R_set_altlogical_Elt_method(vh_lgl, vh_lgl_elt);
  vh_dbl = R_make_altreal_class("vh_dbl", "vhelp", NULL); COMMON(vh_dbl); R_set_altreal_Elt_method(vh_dbl, vh_dbl_elt);
  vh_ready = 1;
}
// a wrapper of `x`, with its attributes
SEXP vh_wrap(SEXP x) {
  vh_classes();
  R_altrep_class_t cls;
  switch (TYPEOF(x)) {
  case VECSXP: cls = vh_list; break;
  case STRSXP: cls = vh_chr; break;
  case INTSXP: cls = vh_int; break;
  case LGLSXP: cls = vh_lgl; break;
  case REALSXP: cls = vh_dbl; break;
  default: return x;
  }
  SEXP inner = PROTECT(Rf_shallow_duplicate(x));
  SET_ATTRIB(inner, R_NilValue); SET_OBJECT(inner, 0);
  MARK_NOT_MUTABLE(inner);
  SEXP out = PROTECT(R_new_altrep(cls, inner, R_NilValue));
  SHALLOW_DUPLICATE_ATTRIB(out, x);
  UNPROTECT(2);
  return out;
}
// the same vector with spare capacity, as R leaves it after growing by assignment
SEXP vh_growable(SEXP x) {
  if (ALTREP(x) || !Rf_isVector(x)) return x;
  R_xlen_t n = Rf_xlength(x);
  SEXP out = PROTECT(Rf_allocVector(TYPEOF(x), n + 5));
  switch (TYPEOF(x)) {
  case VECSXP: for (R_xlen_t i = 0; i < n; ++i) SET_VECTOR_ELT(out, i, VECTOR_ELT(x, i)); break;
  case STRSXP: for (R_xlen_t i = 0; i < n; ++i) SET_STRING_ELT(out, i, STRING_ELT(x, i)); break;
  case INTSXP: memcpy(INTEGER(out), INTEGER(x), n * sizeof(int)); break;
  case LGLSXP: memcpy(LOGICAL(out), LOGICAL(x), n * sizeof(int)); break;
  case REALSXP: memcpy(REAL(out), REAL(x), n * sizeof(double)); break;
  default: UNPROTECT(1); return x;
  }
  SETLENGTH(out, n); SET_TRUELENGTH(out, n + 5); SET_GROWABLE_BIT(out);
  SHALLOW_DUPLICATE_ATTRIB(out, x);
  UNPROTECT(1);
  return out;
}

// -- the allocation schedule of variant "gc" (lib/gcshim.c) --------------------
#include <dlfcn.h>
static double (*gc_config)(int, double, double);
static double (*gc_done)(void);
SEXP vh_gc_attach(SEXP path) {
  void* h = dlopen(CHAR(STRING_ELT(path, 0)), RTLD_NOW | RTLD_NOLOAD);
  if (h) {
    gc_config = (double (*)(int, double, double)) dlsym(h, "vh_gc_config");
    gc_done = (double (*)(void)) dlsym(h, "vh_gc_done");
  }
  return Rf_ScalarLogical(gc_config != NULL && gc_done != NULL);
}
// sets the schedule; returns the number of allocation points since the last call
SEXP vh_gc(SEXP mode, SEXP from, SEXP to) {
  double d = gc_done(), n = gc_config(Rf_asInteger(mode), Rf_asReal(from), Rf_asReal(to));
  SEXP out = Rf_allocVector(REALSXP, 2);
  REAL(out)[0] = n; REAL(out)[1] = d;
  return out;
}

// -- exact blocks of the sanitizer (variant "asan") -----------------------------
static SEXP (*ex_dup)(SEXP);
SEXP vh_exact_attach(SEXP path) {
  void* h = dlopen(CHAR(STRING_ELT(path, 0)), RTLD_NOW | RTLD_NOLOAD);
  if (h) ex_dup = (SEXP (*)(SEXP)) dlsym(h, "vh_exact");
  return Rf_ScalarLogical(ex_dup != NULL);
}
// the vector and everything in it in blocks of their own
SEXP vh_exact_deep(SEXP x) {
  if (ALTREP(x) || !Rf_isVector(x) || TYPEOF(x) == EXPRSXP) return x;
  SEXP out = PROTECT(ex_dup(x));
  if (TYPEOF(out) == VECSXP) for (R_xlen_t i = 0; i < Rf_xlength(out); ++i) SET_VECTOR_ELT(out, i, vh_exact_deep(VECTOR_ELT(out, i)));
  for (SEXP a = ATTRIB(out); a != R_NilValue; a = CDR(a)) if (Rf_isVector(CAR(a))) SETCAR(a, vh_exact_deep(CAR(a)));
  UNPROTECT(1);
  return out;
}
SEXP vh_extptr(void) { return R_MakeExternalPtr(NULL, R_NilValue, R_NilValue); }
