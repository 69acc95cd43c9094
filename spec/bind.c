#include "common.h"
static long col_of(SEXP x, SEXP name) { SEXP n = Rf_getAttrib(x, R_NamesSymbol); for (long i = 0; i < XLENGTH(x); i++) if (STRING_ELT(n, i) == name) return i; return -1; }
static const char *BS = "rbind: size is the sum of the sizes, columns the union by first appearance", *BC = "rbind: every cell is the input cell", *BM = "rbind: missing where the input lacks the column";
static int cast_id(SEXP x, long i, SEXP r, long j) { // observation, carried to another type
  if (is_df(x)) { if (!is_df(r)) return 0; int ok = 1; SEXP rn = Rf_getAttrib(r, R_NamesSymbol); for (long k = 0; k < XLENGTH(r); k++) { long c = col_of(x, STRING_ELT(rn, k)); ok &= c < 0 ? el_missing_value(VECTOR_ELT(r, k), j) : cast_id(VECTOR_ELT(x, c), i, VECTOR_ELT(r, k), j); } return ok; }
  if (TYPEOF(x) == LGLSXP && !Rf_isObject(x) && TYPEOF(r) != LGLSXP && (is_df(r) || TYPEOF(r) == STRSXP || TYPEOF(r) == RAWSXP || TYPEOF(r) == VECSXP)) return el_missing_value(r, j); // unspecified
  long c = vcells(x), n = vsize(x), m = vsize(r); int ok = vcells(r) == c;
  for (long k = 0; ok && k < c; k++) { int e = conv(x, i + k * n, r, j + k * m); ok = c == 1 ? e : (ok & e); if (c == 1) return e; }
  return ok;
}
// xs: data frames (or NULL); p: prototype with the union of the columns in order, common types; first: index of the names_to column or -1
SEXP S_rbind(SEXP xs, SEXP p, SEXP r) {
  long m = XLENGTH(xs), tot = 0, k = XLENGTH(p); for (long i = 0; i < m; i++) if (VECTOR_ELT(xs, i) != R_NilValue) tot += vsize(VECTOR_ELT(xs, i));
  int ok = is_df(r) && same_shape(p, r) && vsize(r) == tot && exact(Rf_getAttrib(p, R_NamesSymbol), Rf_getAttrib(r, R_NamesSymbol)); ASSERT(ok, BS); if (!ok) return R_NilValue;
  SEXP pn = Rf_getAttrib(p, R_NamesSymbol);
  for (long c = 0; c < k; c++) {
    SEXP col = VECTOR_ELT(r, c); long pos = 0;
    for (long i = 0; i < m; i++) { SEXP x = VECTOR_ELT(xs, i); if (x == R_NilValue) continue; long s = vsize(x), l = col_of(x, STRING_ELT(pn, c)); for (long j = 0; j < s; j++, pos++) { if (l < 0) ASSERT(el_missing_value(col, pos), BM); else ASSERT(cast_id(VECTOR_ELT(x, l), j, col, pos), BC); } }
  }
  return R_NilValue;
}
SEXP S_rbind_from(SEXP xs, SEXP ids, SEXP col) { // names_to column: the id of the input each row came from
  long m = XLENGTH(xs), pos = 0; const char *e = "rbind: names_to records the input of each row"; int ok = TYPEOF(col) == TYPEOF(ids); ASSERT(ok, e); if (!ok) return R_NilValue;
  for (long i = 0; i < m; i++) { SEXP x = VECTOR_ELT(xs, i); long s = x == R_NilValue ? 0 : vsize(x); for (long j = 0; j < s; j++, pos++) { ok = pos < XLENGTH(col); if (ok) ASSERT(cell_eq(col, pos, ids, i), e); } }
  ASSERT(pos == XLENGTH(col), e); return R_NilValue;
}
SEXP S_cbind(SEXP cols, SEXP n_, SEXP r) { // cols: the expected columns in order, unrecycled
  long m = XLENGTH(cols), n = int1(n_); const char *s = "cbind: all columns in order, recycled to the common size", *e = "cbind: every column keeps its observations";
  int ok = is_df(r) && XLENGTH(r) == m && vsize(r) == n; ASSERT(ok, s); if (!ok) return R_NilValue;
  for (long k = 0; k < m; k++) { SEXP x = VECTOR_ELT(cols, k), y = VECTOR_ELT(r, k); ok = same_shape(x, y) && vsize(y) == n; ASSERT(ok, s); if (!ok) return R_NilValue; for (long i = 0; i < n; i++) ASSERT(el_id(y, i, x, vsize(x) == 1 ? 0 : i), e); }
  return R_NilValue;
}
