// Common types: shapes dimension by dimension, the base type lattice.
#include "common.h"
// x, y: arrays or plain vectors; r: attempt() of their common type
SEXP S_shape2(SEXP x, SEXP y, SEXP r) {
  const char *E = "shape: refused exactly when some dimension cannot be recycled", *M = "shape: the common shape recycles dimension by dimension, without observations";
  SEXP dx = dims(x), dy = dims(y); long nx = dx == R_NilValue ? 1 : XLENGTH(dx), ny = dy == R_NilValue ? 1 : XLENGTH(dy), n = nx > ny ? nx : ny; int ok = 1;
  for (long i = 1; i < nx && i < ny; i++) { int a = INTEGER(dx)[i], b = INTEGER(dy)[i]; ok &= (a == b) | (a == 1) | (b == 1); }
  ASSERT(is_ok(r) == ok, E); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); SEXP d = TYPEOF(v) == INTSXP && dims(v) == R_NilValue && XLENGTH(v) ? v : dims(v); // a bare shape or a type
  if (dx == R_NilValue && dy == R_NilValue) { ASSERT(d == R_NilValue, M); return R_NilValue; }
  ASSERT(TYPEOF(d) == INTSXP && XLENGTH(d) == n, M); if (TYPEOF(d) != INTSXP || XLENGTH(d) != n) return R_NilValue;
  ASSERT(INTEGER(d)[0] == 0, M);
  for (long i = 1; i < n; i++) {
    int e = i >= nx ? INTEGER(dy)[i] : i >= ny ? INTEGER(dx)[i] : (int)SEL(INTEGER(dx)[i] == 1, INTEGER(dy)[i], INTEGER(dx)[i]);
    ASSERT(INTEGER(d)[i] == e, M);
  }
  return R_NilValue;
}
static int all_na_lgl(SEXP x) { if (TYPEOF(x) != LGLSXP || Rf_isObject(x) || dims(x) != R_NilValue || XLENGTH(x) == 0) return 0; int r = 1; for (long i = 0; i < XLENGTH(x); i++) r &= LOGICAL(x)[i] == NA_LOGICAL; return r; }
// bare atomic vectors: the lattice; an all-missing logical adopts the other type
SEXP S_ptype2(SEXP x, SEXP y, SEXP r) {
  const char *E = "ptype2: refused exactly for unrelated base types", *M = "ptype2: the richer of the two base types, without observations";
  static const int num[] = {LGLSXP, INTSXP, REALSXP, CPLXSXP}; int kx = -1, ky = -1;
  for (int i = 0; i < 4; i++) { if (TYPEOF(x) == num[i]) kx = i; if (TYPEOF(y) == num[i]) ky = i; }
  int ux = (int)symr_api_pick(all_na_lgl(x)), uy = (int)symr_api_pick(all_na_lgl(y));
  int same = TYPEOF(x) == TYPEOF(y), lc = (kx == 0 && ky == 3) || (kx == 3 && ky == 0), ok = same | (kx >= 0 && ky >= 0 && !lc) | ux | uy; // logical and complex are unrelated
  ASSERT(is_ok(r) == ok, E); if (!is_ok(r) || !ok) return R_NilValue;
  SEXP v = val(r); int t = same ? TYPEOF(x) : ux ? TYPEOF(y) : uy ? TYPEOF(x) : num[kx > ky ? kx : ky];
  ASSERT(TYPEOF(v) == t && XLENGTH(v) == 0, M);
  ASSERT((ATTRIB(v) == R_NilValue) | (ux & uy), M); // two unspecified vectors stay unspecified
  return R_NilValue;
}
