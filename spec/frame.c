// Data frames are rectangular: every column has as many observations as the frame has rows.
#include "common.h"
static int rect(SEXP x, long n) {
  SEXP nm = Rf_getAttrib(x, R_NamesSymbol); int r = (TYPEOF(x) == VECSXP) && Rf_inherits(x, "data.frame");
  if (!r) return 0;
  SEXP rn = raw_rn(x);
  if (XLENGTH(x) ? TYPEOF(nm) != STRSXP || XLENGTH(nm) != XLENGTH(x) : TYPEOF(nm) != STRSXP || XLENGTH(nm) != 0) return 0;
  if (!(TYPEOF(rn) == INTSXP || TYPEOF(rn) == STRSXP)) return 0;
  r &= df_rows(x) == n;
  for (long k = 0; k < XLENGTH(x); k++) {
    SEXP c = VECTOR_ELT(x, k);
    r &= TYPEOF(c) == VECSXP && Rf_inherits(c, "data.frame") ? rect(c, n) : vsize(c) == n;
  }
  return r;
}
SEXP S_rect(SEXP x, SEXP n, SEXP msg) { ASSERT(rect(x, n == R_NilValue ? vsize(x) : (long)int1(n)), CHAR(STRING_ELT(msg, 0))); return R_NilValue; }
// n: a declared number of rows (any integer); r: attempt()
SEXP S_declared(SEXP n, SEXP r) {
  int v = int1(n), ok = (v != NA_INTEGER) & (v >= 0);
  ASSERT(is_ok(r) == ok, "data frame: a number of rows is refused exactly when missing or negative");
  if (is_ok(r)) ASSERT(rect(val(r), v), "data frame: as many rows as declared");
  return R_NilValue;
}
// r: attempt() of a frame of the given vectors (in order), size: declared size or NULL
SEXP S_frame(SEXP cols, SEXP size, SEXP r) {
  const char *E = "data frame: refused exactly when the columns cannot be recycled to one size", *M = "data frame: every column is recycled to the common size", *N = "data frame: as many rows as its columns";
  long k = XLENGTH(cols), n = 1, any = 0; int ok = 1;
  for (long i = 0; i < k; i++) { long s = vsize(VECTOR_ELT(cols, i)); ok &= !any | (n == 1) | (s == 1) | (s == n); n = SEL(!any | (n == 1), s, n); any = 1; }
  if (!any) n = 0;
  if (size != R_NilValue) { long d = int1(size); ok = (d != NA_INTEGER) & (d >= 0); for (long i = 0; i < k; i++) { long s = vsize(VECTOR_ELT(cols, i)); ok &= (s == d) | (s == 1); } n = d; }
  ASSERT(is_ok(r) == ok, E); if (!is_ok(r) || !ok) return R_NilValue;
  SEXP v = val(r); int c = TYPEOF(v) == VECSXP && XLENGTH(v) == k; ASSERT(c, M); if (!c) return R_NilValue;
  if (Rf_inherits(v, "data.frame")) ASSERT(rect(v, n), N);
  for (long i = 0; i < k; i++) {
    SEXP a = VECTOR_ELT(cols, i), b = VECTOR_ELT(v, i); long s = vsize(a), t = vsize(b); ASSERT(t == n, N);
    if (is_df(a) && !XLENGTH(a)) continue;
    if (t > 8 || s > 8) continue;
    for (long j = 0; j < t; j++) ASSERT(el_id(b, j, a, s == 1 ? 0 : j), M);
  }
  return R_NilValue;
}
SEXP S_rows_sum(SEXP n, SEXP m, SEXP r) { // rows of a combination; a sum above the maximum size is refused
  long s = (long)int1(n) + int1(m); ASSERT(is_ok(r) == (s <= 2147483647), "data frame: rows add up, up to the maximum size");
  if (is_ok(r)) ASSERT(rect(val(r), s), "data frame: rows add up"); return R_NilValue;
}

// Not a specification: column i of a matrix, for the symbolic stand-in of `x[, i]`
SEXP S_column(SEXP x, SEXP i) {
  int n = INTEGER(Rf_getAttrib(x, R_DimSymbol))[0]; long s = (long)(INTEGER(i)[0] - 1) * n; SEXP out = PROTECT(Rf_allocVector(TYPEOF(x), n));
  for (long k = 0; k < n; k++) switch (TYPEOF(x)) {
    case LGLSXP: LOGICAL(out)[k] = LOGICAL(x)[s + k]; break; case INTSXP: INTEGER(out)[k] = INTEGER(x)[s + k]; break; case REALSXP: REAL(out)[k] = REAL(x)[s + k]; break;
    case CPLXSXP: COMPLEX(out)[k] = COMPLEX(x)[s + k]; break; case RAWSXP: RAW(out)[k] = RAW(x)[s + k]; break; case STRSXP: SET_STRING_ELT(out, k, STRING_ELT(x, s + k)); break; default: SET_VECTOR_ELT(out, k, VECTOR_ELT(x, s + k)); }
  UNPROTECT(1); return out;
}
