#include "common.h"
static int names_ok(SEXP x, long i, SEXP r, long j) {
  if (is_df(x) || dims(x) != R_NilValue) return 1;
  SEXP a = Rf_getAttrib(x, R_NamesSymbol), b = Rf_getAttrib(r, R_NamesSymbol); if ((a == R_NilValue) != (b == R_NilValue)) return 0;
  return a == R_NilValue || STRING_ELT(a, i) == STRING_ELT(b, j);
}
// a numeric argument holding whole numbers: validity (no missing, not negative, representable) and value
static long whole(SEXP t, long i, int *bad) {
  if (TYPEOF(t) == REALSXP) { double d = REAL(t)[i]; int ok = (d == d) & (d >= 0) & (d <= 2147483647.0) & (d == (double)(int)d); *bad |= !ok; return SEL(ok, (int)d, 0); }
  int v = INTEGER(t)[i]; *bad |= v < 0; return SEL(v < 0, 0, v);
}
static const char *RF = "rep: refused exactly when times are missing, negative or not whole, or the result would exceed 2^31-1";
SEXP S_vecrep(SEXP x, SEXP times, SEXP r) {
  int bad = XLENGTH(times) != 1; long t = 0; if (!bad) t = whole(times, 0, &bad);
  long n = vsize(x); bad |= n * t > 2147483647; // n, t < 2^31
  ASSERT(is_ok(r) == !bad, RF); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); int ok = same_shape(x, v); ASSERT(ok, "rep: same type"); if (!ok) return R_NilValue;
  long m = vsize(v); ASSERT(m == n * t, "rep: times copies"); if (is_df(x) && XLENGTH(x) == 0) return R_NilValue;
  if (m > 300) return R_NilValue;
  m = symr_api_pick(m); for (long i = 0; i < m; i++) ASSERT(n && (el_id(v, i, x, i % n) & names_ok(x, i % n, v, i)), "rep: the vector, times times");
  return R_NilValue;
}
SEXP S_vecrep_each(SEXP x, SEXP times, SEXP r) {
  long n = vsize(x), k = XLENGTH(times); int bad = k != 1 && k != n; long tot = 0, t[64];
  if (k > 64) return R_NilValue;
  if (!bad) { for (long i = 0; i < k; i++) { t[i] = whole(times, i, &bad); tot += t[i]; } if (k == 1) tot *= n; bad |= tot > 2147483647; }
  ASSERT(is_ok(r) == !bad, RF); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); int ok = same_shape(x, v); ASSERT(ok, "rep: same type"); if (!ok) return R_NilValue;
  long m = vsize(v); ASSERT(m == tot, "rep each: the sum of the times"); if (is_df(x) && XLENGTH(x) == 0) return R_NilValue;
  if (m > 300 || n > 64) return R_NilValue;
  long s = 0; for (long i = 0; i < n; i++) { long c = t[k == 1 ? 0 : i]; for (long j = 0; j < m; j++) ASSERT(!((s <= j) & (j < s + c)) | (el_id(v, j, x, i) & names_ok(x, i, v, j)), "rep each: every observation in place, its times"); s += c; }
  return R_NilValue;
}
// dir: 1 down, 2 up, 3 downup, 4 updown
SEXP S_fill(SEXP x, SEXP dir_, SEXP max, SEXP r) {
  const char *s = "fill: same size and type", *v = "fill: valid observations untouched", *f = "fill: missing ones take the nearest valid one in the direction, up to the limit", *o = "fill: others stay missing";
  long n = vsize(x), dir = int1(dir_); if (n > 64) symr_api_assume(0);
  int ok = same_shape(x, r) && vsize(r) == n; ASSERT(ok, s); if (!ok) return R_NilValue;
  int na[64]; for (long i = 0; i < n; i++) na[i] = el_na(x, i);
  long lim = max == R_NilValue ? n : INTEGER(max)[0];
  int down = dir == 1 || dir == 3, both = dir > 2;
  for (long i = 0; i < n; i++) {
    // distance to the valid observation before / after
    long src = -1, dist = 0; int have = 0;
    for (long q = 1; q < n; q++) { long j = down ? i - q : i + q; if (j < 0 || j >= n) break; src = SEL(!have & !na[j], j, src); dist = SEL(!have & !na[j], q, dist); have |= !na[j]; }
    if (both) { int first = have; for (long q = 1; q < n; q++) { long j = down ? i + q : i - q; if (j < 0 || j >= n) break; src = SEL(!first & !have & !na[j], j, src); dist = SEL(!first & !have & !na[j], q, dist); have |= !na[j]; } }
    int fill = na[i] & have & (dist <= lim);
    ASSERT(na[i] | (el_id(r, i, x, i) & names_ok(x, i, r, i)), v);
    for (long j = 0; j < n; j++) ASSERT(!(fill & (src == j)) | (el_id(r, i, x, j) & names_ok(x, j, r, i)), f);
    ASSERT(!(na[i] & !fill) | el_na(r, i), o);
  }
  return R_NilValue;
}
// xs: named list, sizes; every combination once
SEXP S_grid(SEXP xs, SEXP slow_, SEXP r) {
  long k = XLENGTH(xs), prod = 1, s[6]; int slow = flag(slow_), big = 0, zero = 0; SEXP c[6], nm[6]; long m = 0; SEXP nms = Rf_getAttrib(xs, R_NamesSymbol);
  for (long i = 0; i < k && i < 6; i++) if (VECTOR_ELT(xs, i) != R_NilValue) { c[m] = VECTOR_ELT(xs, i); nm[m] = STRING_ELT(nms, i); s[m] = vsize(c[m]); m++; }
  for (long i = 0; i < m; i++) zero |= s[i] == 0;
  for (long i = 0; i < m; i++) { prod *= s[i]; prod = SEL(prod > 2147483647, 2147483648, prod); } // saturating
  prod = SEL(zero, 0, prod); big = prod > 2147483647;
  ASSERT(is_ok(r) == !big, "expand: refused exactly when the product of the sizes exceeds 2^31-1"); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); int ok = TYPEOF(v) == VECSXP && is_df(v) && XLENGTH(v) == m && vsize(v) == prod; ASSERT(ok, "expand: one column per input, one row per combination"); if (!ok) return R_NilValue;
  SEXP vn = Rf_getAttrib(v, R_NamesSymbol);
  for (long i = 0; i < m; i++) {
    SEXP x = VECTOR_ELT(v, i); ok = same_shape(c[i], x) && vsize(x) == prod && STRING_ELT(vn, i) == nm[i]; ASSERT(ok, "expand: columns keep type and name"); if (!ok) return R_NilValue;
    if (prod > 128) continue;
    long P = symr_api_pick(prod), each = 1; for (long j = 0; j < m; j++) if (slow ? j > i : j < i) each *= s[j];
    for (long q = 0; q < P; q++) ASSERT(el_id(x, q, c[i], (q / each) % s[i]), "expand: every combination once, in the order asked");
  }
  return R_NilValue;
}

// rows and times either overflow together or stay small: nothing huge is really allocated
SEXP S_assume_prod(SEXP a) { long p = 1; int zero = 0, anybig = 0; for (long i = 0; i < XLENGTH(a); i++) { long v = INTEGER(a)[i]; zero |= v == 0; anybig |= v > 256; p *= SEL(v < 0, 0, v); p = SEL(p > 2147483647, 2147483648, p); } symr_api_assume(((p > 2147483647) & !zero) | (!anybig & (p <= 256))); return R_NilValue; }
SEXP S_df_rows(SEXP x) { return Rf_ScalarInteger((int)vsize(x)); }
SEXP S_c(SEXP l) { SEXP r = PROTECT(Rf_allocVector(INTSXP, XLENGTH(l))); for (long i = 0; i < XLENGTH(l); i++) INTEGER(r)[i] = INTEGER(VECTOR_ELT(l, i))[0]; UNPROTECT(1); return r; }
