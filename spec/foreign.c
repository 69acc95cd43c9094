#include "common.h"
// building blocks of the `[`, `[<-` and c() methods of classes that know nothing of vctrs (integer and double data)
static void pick_cell(SEXP x, long k, SEXP r, long j) { if (TYPEOF(x) == REALSXP) REAL(r)[j] = REAL(x)[k]; else INTEGER(r)[j] = INTEGER(x)[k]; }
SEXP S_take(SEXP x, SEXP i) {
  long n = XLENGTH(x), m = XLENGTH(i); int real = TYPEOF(x) == REALSXP; SEXP r = PROTECT(Rf_allocVector(TYPEOF(x), m));
  for (long k = 0; k < m; k++) {
    int l = INTEGER(i)[k];
    if (real) { uint64_t v = dbits(NA_REAL); for (long j = 0; j < n; j++) v = (uint64_t)SEL(l == j + 1, (long)dbits(REAL(x)[j]), (long)v); double d; memcpy(&d, &v, 8); REAL(r)[k] = d; }
    else { int v = NA_INTEGER; for (long j = 0; j < n; j++) v = (int)SEL(l == j + 1, INTEGER(x)[j], v); INTEGER(r)[k] = v; }
  }
  UNPROTECT(1); return r;
}
SEXP S_put(SEXP x, SEXP i, SEXP value) { // concrete locations
  long n = XLENGTH(x); SEXP r = PROTECT(Rf_allocVector(TYPEOF(x), n)); for (long j = 0; j < n; j++) pick_cell(x, j, r, j);
  for (long k = 0; k < XLENGTH(i); k++) pick_cell(value, XLENGTH(value) == 1 ? 0 : k, r, INTEGER(i)[k] - 1);
  UNPROTECT(1); return r;
}
SEXP S_join(SEXP xs) {
  long n = 0; for (long k = 0; k < XLENGTH(xs); k++) n += XLENGTH(VECTOR_ELT(xs, k));
  SEXP r = PROTECT(Rf_allocVector(TYPEOF(VECTOR_ELT(xs, 0)), n)); long p = 0;
  for (long k = 0; k < XLENGTH(xs); k++) for (long j = 0; j < XLENGTH(VECTOR_ELT(xs, k)); j++) pick_cell(VECTOR_ELT(xs, k), j, r, p++);
  UNPROTECT(1); return r;
}
