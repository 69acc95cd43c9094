#include "common.h"
// names of the observations of a vector: NULL-safe, "" when it has none
static SEXP obs_name(SEXP x, long i) { if (is_df(x) || dims(x) != R_NilValue) return R_BlankString; SEXP n = Rf_getAttrib(x, R_NamesSymbol); return n == R_NilValue ? R_BlankString : STRING_ELT(n, i); }
static int has_names(SEXP x) { return x != R_NilValue && !is_df(x) && dims(x) == R_NilValue && Rf_getAttrib(x, R_NamesSymbol) != R_NilValue; }
static const char *SZ = "combine: size is the sum of the sizes, type the common type", *EL = "combine: observations in argument order", *NMS = "combine: names go with their observations";
// xs: inputs already cast to the common type (or NULL), r the combination; nm = inputs as given (their names)
SEXP S_concat(SEXP xs, SEXP nm, SEXP r) {
  long m = XLENGTH(xs), tot = 0; SEXP any = R_NilValue; int named = 0;
  for (long k = 0; k < m; k++) { SEXP x = VECTOR_ELT(xs, k); if (x == R_NilValue) continue; any = x; tot += vsize(x); if (has_names(VECTOR_ELT(nm, k))) named = 1; }
  if (any == R_NilValue) { ASSERT(r == R_NilValue, "combine: nothing from nothing"); return R_NilValue; }
  int ok = same_shape(any, r) && vsize(r) == tot; ASSERT(ok, SZ); if (!ok) return R_NilValue;
  ASSERT(is_df(r) || dims(r) != R_NilValue || has_names(r) == named, NMS);
  long p = 0;
  for (long k = 0; k < m; k++) { SEXP x = VECTOR_ELT(xs, k), y = VECTOR_ELT(nm, k); if (x == R_NilValue) continue; for (long i = 0; i < vsize(x); i++, p++) { ASSERT(el_id(r, p, x, i), EL); if (named && has_names(r)) ASSERT(STRING_ELT(Rf_getAttrib(r, R_NamesSymbol), p) == obs_name(y, i), NMS); } }
  return R_NilValue;
}
SEXP S_interleave(SEXP xs, SEXP r) { // non-NULL inputs, cast to the common type
  long m = XLENGTH(xs), n = 1, big = 0; for (long k = 0; k < m; k++) { long s = vsize(VECTOR_ELT(xs, k)); if (s != 1) { if (big && s != n) { ASSERT(!is_ok(r), "interleave: incompatible sizes are refused"); return R_NilValue; } n = s; big = 1; } }
  ASSERT(is_ok(r), "interleave: compatible sizes are accepted"); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); if (!m) { ASSERT(v == R_NilValue, "interleave: nothing from nothing"); return R_NilValue; }
  int ok = same_shape(VECTOR_ELT(xs, 0), v) && vsize(v) == n * m; ASSERT(ok, "interleave: all observations, common type"); if (!ok) return R_NilValue;
  int named = 0; for (long k = 0; k < m; k++) named |= has_names(VECTOR_ELT(xs, k));
  ASSERT(has_names(v) == named, NMS);
  for (long k = 0; k < m; k++) { SEXP x = VECTOR_ELT(xs, k); for (long i = 0; i < n; i++) { ASSERT(el_id(v, i * m + k, x, vsize(x) == 1 ? 0 : i), "interleave: observation k of input j at (k - 1) m + j"); if (named && has_names(v)) ASSERT(STRING_ELT(Rf_getAttrib(v, R_NamesSymbol), i * m + k) == obs_name(x, vsize(x) == 1 ? 0 : i), NMS); } }
  return R_NilValue;
}
SEXP S_interleave_idx(SEXP n_, SEXP size_, SEXP r) { long m = int1(n_), n = int1(size_); ASSERT(XLENGTH(r) == m, "interleave indices: one per input"); for (long k = 0; k < XLENGTH(r); k++) { SEXP v = VECTOR_ELT(r, k); int ok = TYPEOF(v) == INTSXP && XLENGTH(v) == n; ASSERT(ok, "interleave indices: the size"); if (ok) for (long i = 0; i < n; i++) ASSERT(INTEGER(v)[i] == i * m + k + 1, "interleave indices: every m-th location"); } return R_NilValue; }
SEXP S_concat_size(SEXP xs, SEXP r) { long t = 0; for (long k = 0; k < XLENGTH(xs); k++) t += vsize(VECTOR_ELT(xs, k)); ASSERT(is_ok(r) == (t <= 2147483647), "combine: refused exactly when the total size exceeds 2^31-1"); if (is_ok(r)) ASSERT(vsize(val(r)) == t, SZ); return R_NilValue; }
