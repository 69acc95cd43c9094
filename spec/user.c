#include "common.h"
// the data of a classed integer vector, without its attributes, and functions of it (used as proxies of user classes)
static SEXP map(SEXP x, int k, int what) {
  long n = XLENGTH(x); SEXP r = PROTECT(Rf_allocVector(INTSXP, n));
  for (long i = 0; i < n; i++) { int v = INTEGER(x)[i], w = what == 0 ? v : what == 1 ? -v : what == 2 ? (v & 1) : (int)((unsigned)v * (unsigned)k); INTEGER(r)[i] = what == 0 ? v : (int)SEL(v == NA_INTEGER, NA_INTEGER, w); }
  UNPROTECT(1); return r;
}
SEXP S_bare(SEXP x) { return map(x, 0, 0); }
SEXP S_neg(SEXP x) { return map(x, 0, 1); }
SEXP S_odd(SEXP x) { return map(x, 0, 2); }
SEXP S_scale(SEXP x, SEXP k) { return map(x, int1(k), 3); }
SEXP S_bare_dbl(SEXP x) { long n = XLENGTH(x); SEXP r = PROTECT(Rf_allocVector(REALSXP, n)); for (long i = 0; i < n; i++) REAL(r)[i] = REAL(x)[i]; UNPROTECT(1); return r; }
