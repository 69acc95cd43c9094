#include "common.h"
// Dates (days) and date-times (seconds), stored as integers or doubles
static int num_na(SEXP x, long i) { return TYPEOF(x) == INTSXP ? INTEGER(x)[i] == NA_INTEGER : d_isnan_any(REAL(x)[i]); }
static double num(SEXP x, long i) { return TYPEOF(x) == INTSXP ? (double)INTEGER(x)[i] : REAL(x)[i]; }
// stored as a double with the same instants; NaN / missing stay what they are
SEXP S_instants(SEXP x, SEXP r) {
  long n = XLENGTH(x); int ok = TYPEOF(r) == REALSXP && XLENGTH(r) == n; ASSERT(ok, "date: stored as a double of the same size"); if (!ok) return R_NilValue;
  for (long i = 0; i < n; i++) {
    if (TYPEOF(x) == INTSXP) ASSERT(SEL(INTEGER(x)[i] == NA_INTEGER, d_isna(REAL(r)[i]), dbits(REAL(r)[i]) == dbits((double)INTEGER(x)[i])), "date: the instant is unchanged");
    else ASSERT(dbits(REAL(x)[i]) == dbits(REAL(r)[i]), "date: the instant is unchanged");
  }
  return R_NilValue;
}
SEXP S_instants_c(SEXP xs, SEXP r) { // concatenation
  long p = 0, t = 0; for (long k = 0; k < XLENGTH(xs); k++) t += XLENGTH(VECTOR_ELT(xs, k));
  int ok = TYPEOF(r) == REALSXP && XLENGTH(r) == t; ASSERT(ok, "date: sizes add up"); if (!ok) return R_NilValue;
  for (long k = 0; k < XLENGTH(xs); k++) { SEXP x = VECTOR_ELT(xs, k); for (long i = 0; i < XLENGTH(x); i++, p++) ASSERT(num_na(x, i) ? d_isnan_any(REAL(r)[p]) : REAL(r)[p] == num(x, i), "date: the instant is unchanged"); }
  return R_NilValue;
}
SEXP S_same_instant(SEXP x, SEXP y, SEXP r) { // equality of instants, missing equal to missing
  for (long i = 0; i < XLENGTH(x); i++) {
    double a = num(x, i), b = num(y, i); int na = num_na(x, i), nb = num_na(y, i), nan = TYPEOF(x) == REALSXP && TYPEOF(y) == REALSXP ? d_isnan(a) == d_isnan(b) : !(TYPEOF(x) == REALSXP ? d_isnan(a) : 0) & !(TYPEOF(y) == REALSXP ? d_isnan(b) : 0);
    ASSERT(LOGICAL(r)[i] == ((na & nb & nan) | (!na & !nb & (a == b))), "date: equality is that of the instants, whatever the storage");
  }
  return R_NilValue;
}
// date x cast to UTC date-time r: midnight of the day
SEXP S_midnight(SEXP x, SEXP r) {
  long n = XLENGTH(x); int ok = TYPEOF(r) == REALSXP && XLENGTH(r) == n; ASSERT(ok, "date: stored as a double of the same size"); if (!ok) return R_NilValue;
  for (long i = 0; i < n; i++) ASSERT(num_na(x, i) ? d_isnan_any(REAL(r)[i]) : REAL(r)[i] == (double)((TYPEOF(x) == INTSXP ? (long)INTEGER(x)[i] : (long)REAL(x)[i]) * 86400), "date: becomes its midnight");
  return R_NilValue;
}
// date-time x (whole seconds, UTC) cast to a date
static long fdiv(long a, long b) { long q = a / b; return q - (a % b < 0); }
SEXP S_to_date(SEXP x, SEXP day, SEXP off, SEXP r) {
  long n = XLENGTH(x); int lossy = 0;
  for (long i = 0; i < n; i++) lossy |= (INTEGER(day)[i] != NA_INTEGER) & (INTEGER(off)[i] != 0);
  ASSERT(is_ok(r) == !lossy, "date: refused exactly when not midnight"); if (!is_ok(r)) { ASSERT(has_class(r, "vctrs_error_cast_lossy"), "date: the refusal is a lossy cast"); return R_NilValue; }
  SEXP v = val(r); int ok = TYPEOF(v) == REALSXP && XLENGTH(v) == n; ASSERT(ok, "date: stored as a double of the same size"); if (!ok) return R_NilValue;
  for (long i = 0; i < n; i++) ASSERT(INTEGER(day)[i] == NA_INTEGER ? d_isnan_any(REAL(v)[i]) : REAL(v)[i] == (double)INTEGER(day)[i], "date: the day of the midnight");
  return R_NilValue;
}
// whole seconds from days and seconds of the day
SEXP S_make(SEXP day, SEXP off) {
  long n = XLENGTH(day); SEXP r = PROTECT(Rf_allocVector(INTSXP, n));
  for (long i = 0; i < n; i++) INTEGER(r)[i] = (int)SEL(INTEGER(day)[i] == NA_INTEGER, NA_INTEGER, INTEGER(day)[i] * 86400 + INTEGER(off)[i]);
  UNPROTECT(1); return r;
}
// models of base R's calendar functions in UTC, for whole seconds and days
SEXP S_model_days(SEXP x, SEXP day, SEXP off) {
  long n = XLENGTH(x); SEXP r = PROTECT(Rf_allocVector(REALSXP, n));
  if (n && XLENGTH(day) == n) { // the days the harness made x from
    for (long i = 0; i < n; i++) { int k = INTEGER(day)[i], na = k == NA_INTEGER; symr_api_assume(na == num_na(x, i)); symr_api_assume(na | (num(x, i) == (double)(k * 86400 + INTEGER(off)[i]))); uint64_t b = SEL(na, dbits(NA_REAL), dbits((double)k)); memcpy(REAL(r) + i, &b, 8); }
    UNPROTECT(1); return r;
  }
  for (long i = 0; i < n; i++) { double d = num(x, i); int na = num_na(x, i); long s = (long)d, q = fdiv(s, 86400); uint64_t b = SEL(na, dbits(NA_REAL), dbits((double)q)); memcpy(REAL(r) + i, &b, 8); }
  UNPROTECT(1); return r;
}
SEXP S_model_seconds(SEXP x) {
  long n = XLENGTH(x); SEXP r = PROTECT(Rf_allocVector(REALSXP, n));
  for (long i = 0; i < n; i++) { double d = num(x, i); int na = num_na(x, i); long s = (long)d * 86400; uint64_t b = SEL(na, dbits(NA_REAL), dbits((double)s)); memcpy(REAL(r) + i, &b, 8); }
  UNPROTECT(1); return r;
}
// let the package look its calendar functions up again
#include <dlfcn.h>
SEXP S_relookup(SEXP path, SEXP ns) {
  void *h = dlopen(CHAR(STRING_ELT(path, 0)), RTLD_NOLOAD | RTLD_LAZY); void (*f)(SEXP) = h ? (void (*)(SEXP))dlsym(h, "vctrs_init_type_date_time") : 0;
  if (f) f(ns);
  return Rf_ScalarLogical(f != 0);
}
