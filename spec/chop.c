#include "common.h"
static int nm_same(SEXP a, long i, SEXP b, long j) { // names of vectors (not of frames or arrays)
  if (is_df(a) || dims(a) != R_NilValue) return 1;
  SEXP p = Rf_getAttrib(a, R_NamesSymbol), q = Rf_getAttrib(b, R_NamesSymbol);
  if (p == R_NilValue) return q == R_NilValue || STRING_ELT(q, j) == R_BlankString;
  return q != R_NilValue && STRING_ELT(q, j) == STRING_ELT(p, i);
}
static int loc_bad(SEXP i, long n) { int bad = 0; for (long k = 0; k < XLENGTH(i); k++) { double d = TYPEOF(i) == REALSXP ? REAL(i)[k] : INTEGER(i)[k]; int na = TYPEOF(i) == REALSXP ? d != d : INTEGER(i)[k] == NA_INTEGER; bad |= !na & !((d >= 1) & (d <= (double)n) & (d == (double)(long)SEL((d >= 1) & (d <= (double)n), (int)d, 0))); } return bad; }
static int iloc(SEXP i, long k) { if (TYPEOF(i) == REALSXP) { double d = REAL(i)[k]; return (int)SEL(d != d, NA_INTEGER, (int)d); } return INTEGER(i)[k]; }
static void piece(SEXP x, SEXP i, SEXP p) {
  const char *s = "chop: each slice has the size of its index", *e = "chop: each slice equals the slice at its index";
  long n = vsize(x), m = XLENGTH(i); int ok = same_shape(x, p) && vsize(p) == m; ASSERT(ok, s); if (!ok) return;
  for (long k = 0; k < m; k++) { int l = iloc(i, k); ASSERT(!(l == NA_INTEGER) | el_missing_value(p, k), e); for (long j = 0; j < n; j++) ASSERT(!(l == j + 1) | (el_id(p, k, x, j) & nm_same(x, j, p, k)), e); }
}
SEXP S_chop(SEXP x, SEXP indices, SEXP r) {
  long n = vsize(x), m = XLENGTH(indices); int bad = 0; for (long k = 0; k < m; k++) bad |= loc_bad(VECTOR_ELT(indices, k), n);
  ASSERT(is_ok(r) == !bad, "chop: refused exactly when an index is out of bounds or not a location"); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); int ok = TYPEOF(v) == VECSXP && XLENGTH(v) == m; ASSERT(ok, "chop: one slice per index"); if (!ok) return R_NilValue;
  for (long k = 0; k < m; k++) piece(x, VECTOR_ELT(indices, k), VECTOR_ELT(v, k));
  return R_NilValue;
}
SEXP S_chop_sizes(SEXP x, SEXP sizes, SEXP r) {
  long n = vsize(x), m = XLENGTH(sizes), tot = 0; int bad = 0;
  for (long k = 0; k < m; k++) { if (TYPEOF(sizes) == REALSXP) { double d = REAL(sizes)[k]; int good = (d >= 0) & (d <= 2147483647.0) & (d == (double)(long)SEL((d >= 0) & (d <= 2147483647.0), (int)d, 0)); bad |= !good; tot += SEL(good, (int)d, 0); } else { int d = INTEGER(sizes)[k]; bad |= d < 0; tot += d; } }
  bad |= tot != n;
  ASSERT(is_ok(r) == !bad, "chop: refused exactly when sizes are negative, missing or do not add up"); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); int ok = TYPEOF(v) == VECSXP && XLENGTH(v) == m; ASSERT(ok, "chop: one slice per size"); if (!ok) return R_NilValue;
  const char *e = "chop: consecutive slices of the sizes asked"; long start = 0;
  for (long k = 0; k < m; k++) {
    SEXP p = VECTOR_ELT(v, k); long s = TYPEOF(sizes) == REALSXP ? (long)REAL(sizes)[k] : INTEGER(sizes)[k]; ok = same_shape(x, p); ASSERT(ok, "chop: same type"); if (!ok) return R_NilValue;
    long ps = vsize(p); ASSERT(ps == s, e); ps = symr_api_pick(ps);
    for (long q = 0; q < ps; q++) for (long j = 0; j < n; j++) ASSERT(!(start + q == j) | (el_id(p, q, x, j) & nm_same(x, j, p, q)), e);
    start += s;
  }
  return R_NilValue;
}
// pieces xs (already of the common type, or NULL) at indices; the result has one place per index
SEXP S_unchop(SEXP xs, SEXP indices, SEXP r) {
  long m = XLENGTH(xs), n = 0; int bad = XLENGTH(indices) != m; SEXP any = R_NilValue; int named = 0;
  if (!bad) {
    for (long k = 0; k < m; k++) n += XLENGTH(VECTOR_ELT(indices, k));
    for (long k = 0; k < m; k++) { SEXP x = VECTOR_ELT(xs, k), i = VECTOR_ELT(indices, k); if (loc_bad(i, n)) bad = 1; if (x != R_NilValue) { any = x; long s = vsize(x); if (s != 1 && s != XLENGTH(i)) bad = 1; if (!is_df(x) && dims(x) == R_NilValue && Rf_getAttrib(x, R_NamesSymbol) != R_NilValue) named = 1; } }
  }
  ASSERT(is_ok(r) == !bad, "unchop: refused exactly when an index is out of bounds or a piece does not fit its index"); if (!is_ok(r)) return R_NilValue;
  SEXP v = val(r); if (any == R_NilValue) { ASSERT(v == R_NilValue, "unchop: nothing from nothing"); return R_NilValue; }
  int ok = same_shape(any, v) && vsize(v) == n; ASSERT(ok, "unchop: one observation per index, type of the pieces"); if (!ok) return R_NilValue;
  SEXP vn = is_df(any) || dims(any) != R_NilValue ? R_NilValue : Rf_getAttrib(v, R_NamesSymbol); ASSERT((vn != R_NilValue) == named, "unchop: names of the pieces are kept");
  for (long j = 0; j < n; j++) {
    int set = 0;
    for (long k = m - 1; k >= 0; k--) {
      SEXP x = VECTOR_ELT(xs, k), i = VECTOR_ELT(indices, k); if (x == R_NilValue) continue; long s = vsize(x);
      SEXP xn = is_df(x) || dims(x) != R_NilValue ? R_NilValue : Rf_getAttrib(x, R_NamesSymbol);
      for (long q = XLENGTH(i) - 1; q >= 0; q--) {
        int h = iloc(i, q) == j + 1; ASSERT(!(h & !set) | el_id(v, j, x, s == 1 ? 0 : q), "unchop: element k of a piece goes to location k of its index, last write winning");
        if (named && vn != R_NilValue) ASSERT(!(h & !set) | (STRING_ELT(vn, j) == (xn == R_NilValue ? R_BlankString : STRING_ELT(xn, s == 1 ? 0 : q))), "unchop: names go with their observations");
        set |= h;
      }
    }
    ASSERT(set | el_missing_value(v, j), "unchop: a location nobody writes is missing");
    if (named && vn != R_NilValue) ASSERT(set | (STRING_ELT(vn, j) == R_BlankString), "unchop: a location without a name has an empty one");
  }
  return R_NilValue;
}
SEXP S_assume_perm(SEXP ps) { // a list of integer vectors that together are a permutation of 1..n
  int v[16], bad = 0; long n = 0; for (long k = 0; k < XLENGTH(ps); k++) for (long i = 0; i < XLENGTH(VECTOR_ELT(ps, k)); i++) v[n++] = INTEGER(VECTOR_ELT(ps, k))[i];
  for (long i = 0; i < n; i++) { bad |= (v[i] < 1) | (v[i] > n); for (long j = 0; j < i; j++) bad |= v[i] == v[j]; } symr_api_assume(!bad); return R_NilValue;
}
// the observation and name of a at i against those of b, exactly, and the same attributes elsewhere checked by the harness
SEXP S_identical(SEXP a, SEXP b, SEXP msg) {
  const char *m = CHAR(STRING_ELT(msg, 0)); if (a == R_NilValue || b == R_NilValue) { ASSERT(a == b, m); return R_NilValue; }
  int ok = same_shape(a, b) && vsize(a) == vsize(b); ASSERT(ok, m); if (!ok) return R_NilValue;
  for (long i = 0; i < vsize(a); i++) ASSERT(el_id(a, i, b, i) & nm_same(a, i, b, i), m); return R_NilValue;
}
