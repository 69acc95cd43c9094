// 64-bit integers through their two-column proxy: injective, order preserving, exactly restored.
#include "common.h"
SEXP S_i64_proxy(SEXP x, SEXP p) {
  long n = vsize(x);
  ASSERT(TYPEOF(p) == VECSXP && is_df(p) && XLENGTH(p) == 2 && vsize(p) == n, "integer64: the proxy has one row per integer");
  SEXP l = VECTOR_ELT(p, 0), r = VECTOR_ELT(p, 1);
  ASSERT(TYPEOF(l) == REALSXP && TYPEOF(r) == REALSXP && XLENGTH(l) == n && XLENGTH(r) == n, "integer64: the proxy has two double columns");
  for (long i = 0; i < n; i++) {
    int na = cell_na(x, i);
    ASSERT((!na & !d_isnan_any(REAL(l)[i]) & !d_isnan_any(REAL(r)[i])) | (na & d_isna(REAL(l)[i]) & d_isna(REAL(r)[i])), "integer64: the proxy is missing exactly where the integer is");
    for (long j = 0; j < i; j++) {
      double a = REAL(l)[i], b = REAL(r)[i], c = REAL(l)[j], d = REAL(r)[j];
      int both = !cell_na(x, i) & !cell_na(x, j), lt = cell_lt(x, i, x, j), gt = cell_lt(x, j, x, i);
      ASSERT(!both | (((a < c) | ((a == c) & (b < d))) == lt), "integer64: the proxy orders like the integers");
      ASSERT(!both | (((a > c) | ((a == c) & (b > d))) == gt), "integer64: the proxy orders like the integers");
      ASSERT(!both | (((a == c) & (b == d)) == (!lt & !gt)), "integer64: equal proxies are equal integers");
    }
  }
  return R_NilValue;
}
SEXP S_i64_restored(SEXP x, SEXP r, SEXP msg) { // bit for bit
  int same = is_i64(r) && XLENGTH(r) == XLENGTH(x);
  if (same) for (long i = 0; i < XLENGTH(x); i++) same &= dbits(REAL(x)[i]) == dbits(REAL(r)[i]);
  ASSERT(same, CHAR(STRING_ELT(msg, 0))); return R_NilValue;
}
SEXP S_i64_slice(SEXP x, SEXP loc, SEXP r) {
  long n = XLENGTH(loc); const char *m = "integer64: restoring a sliced proxy gives the sliced integers"; ASSERT(is_i64(r) && XLENGTH(r) == n, m); if (XLENGTH(r) != n) return R_NilValue;
  for (long i = 0; i < n; i++) for (long j = 0; j < XLENGTH(x); j++) ASSERT((INTEGER(loc)[i] != j + 1) | (dbits(REAL(r)[i]) == dbits(REAL(x)[j])), m);
  return R_NilValue;
}
