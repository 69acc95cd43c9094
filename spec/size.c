#include "common.h"
// Sizes: each input's size, -1 for NULL
static int common(const long *s, long k, long *out) { // 1 if a common size exists
  long c = -1; int ok = 1;
  for (long i = 0; i < k; i++) { ok &= (s[i] < 0) | (c < 0) | (c == s[i]) | (c == 1) | (s[i] == 1); c = SEL(s[i] < 0, c, SEL((c < 0) | (c == 1), s[i], c)); }
  *out = c; return ok;
}
static long sizes(SEXP xs, long *s) { long k = XLENGTH(xs); if (k > 8) k = 8; for (long i = 0; i < k; i++) { SEXP x = VECTOR_ELT(xs, i); s[i] = x == R_NilValue ? -1 : vsize(x); } return k; }
SEXP S_size(SEXP x, SEXP r) { ASSERT(TYPEOF(r) == INTSXP && XLENGTH(r) == 1 && INTEGER(r)[0] == vsize(x), "size: the number of observations"); return R_NilValue; }
SEXP S_size_common(SEXP xs, SEXP absent, SEXP r) {
  long s[8], c, k = sizes(xs, s); int ok = common(s, k, &c);
  int none = c < 0; // pick: NULLs are concrete
  if (none && absent == R_NilValue) ok = 0;
  ASSERT(is_ok(r) == ok, "size common: refused exactly when two sizes other than 1 differ"); if (!is_ok(r)) { ASSERT(has_class(r, "vctrs_error_incompatible_size") || none, "size common: an incompatible size error"); return R_NilValue; }
  long want = none ? INTEGER(absent)[0] : c;
  ASSERT(TYPEOF(val(r)) == INTSXP && XLENGTH(val(r)) == 1 && INTEGER(val(r))[0] == want, "size common: the size all others are 1 or equal to"); return R_NilValue;
}
static void recycled(SEXP x, long n, SEXP r) {
  const char *m = "recycle: the requested size", *e = "recycle: the observation repeated, or unchanged";
  if (x == R_NilValue) { ASSERT(r == R_NilValue, m); return; }
  int ok = same_shape(x, r) && vsize(r) == n; ASSERT(ok, m); if (!ok) return;
  if (n > 16) return;
  long xn = vsize(x); for (long i = 0; i < n; i++) ASSERT(el_id(r, i, x, xn == 1 ? 0 : i), e);
  if (!is_df(x) && dims(x) == R_NilValue) { SEXP a = Rf_getAttrib(x, R_NamesSymbol), b = Rf_getAttrib(r, R_NamesSymbol); ASSERT((a == R_NilValue) == (b == R_NilValue), e); if (a != R_NilValue && b != R_NilValue) for (long i = 0; i < n; i++) ASSERT(STRING_ELT(b, i) == STRING_ELT(a, xn == 1 ? 0 : i), e); }
}
SEXP S_recycle(SEXP x, SEXP n_, SEXP r) { // n_: any number, or not a single one
  double d = 0; int single = XLENGTH(n_) == 1; if (single) d = TYPEOF(n_) == REALSXP ? REAL(n_)[0] : INTEGER(n_)[0] == NA_INTEGER ? -1 : INTEGER(n_)[0];
  long xs = vsize(x); int good = single; if (single) good = (d == d) & (d >= 0) & (d <= 2147483647.0) & (d == (double)(long)(int)d);
  long n = symr_api_sel(good, (int)d, 0);
  int ok = x == R_NilValue || (good & ((n == xs) | (xs == 1)));
  ASSERT(is_ok(r) == ok, "recycle: refused exactly when the size is neither 1 nor the requested one"); if (!is_ok(r)) return R_NilValue;
  recycled(x, n, val(r)); return R_NilValue;
}
SEXP S_recycle_common(SEXP xs, SEXP size, SEXP r) {
  long s[8], c, k = sizes(xs, s); int ok = 1;
  if (size == R_NilValue) ok = common(s, k, &c);
  else { c = INTEGER(size)[0]; ok = c >= 0; for (long i = 0; i < k; i++) ok &= (s[i] < 0) | (s[i] == c) | (s[i] == 1); }
  ASSERT(is_ok(r) == ok, "recycle common: refused exactly when the sizes are incompatible"); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); ASSERT(TYPEOF(v) == VECSXP && XLENGTH(v) == k, "recycle common: one result per input"); if (XLENGTH(v) != k) return R_NilValue;
  for (long i = 0; i < k; i++) recycled(VECTOR_ELT(xs, i), c, VECTOR_ELT(v, i));
  return R_NilValue;
}
SEXP S_list_sizes(SEXP xs, SEXP r) {
  long s[8], k = sizes(xs, s); INTS_OK(r, k, "list sizes: one per element"); for (long i = 0; i < k; i++) ASSERT(INTEGER(r)[i] == SEL(s[i] < 0, 0, s[i]), "list sizes: the size of each element"); return R_NilValue;
}
SEXP S_list_all_size(SEXP xs, SEXP n, SEXP r) { long s[8], k = sizes(xs, s); int all = 1; for (long i = 0; i < k; i++) all &= SEL(s[i] < 0, 0, s[i]) == INTEGER(n)[0]; ASSERT(flag(r) == all, "list sizes: all of that size"); return R_NilValue; }
SEXP S_ok_if(SEXP ok, SEXP x, SEXP lo, SEXP msg) { // single integer or double: accepted exactly if a whole number in lo..2^31-1
  double d = TYPEOF(x) == REALSXP ? REAL(x)[0] : INTEGER(x)[0] == NA_INTEGER ? R_NaN : INTEGER(x)[0];
  ASSERT(flag(ok) == ((d == d) & (d >= INTEGER(lo)[0]) & (d <= 2147483647.0) & (d == (double)(long)SEL((d == d) & (d >= -2147483648.0) & (d <= 2147483647.0), (int)d, 0))), CHAR(STRING_ELT(msg, 0))); return R_NilValue;
}
