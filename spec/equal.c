#include "common.h"
// vec_equal(): the first column that is not TRUE decides the row
SEXP S_equal(SEXP x, SEXP y, SEXP res, SEXP na_equal) {
  long n = vsize(x); LGLS_OK(res, n, "vec_equal: one logical per observation");
  int ne = flag(na_equal); long L = nleaf(x);
  for (long i = 0; i < n; i++) {
    long e = 1;
    for (long k = L - 1; k >= 0; k--) {
      long c = leaf_eq(x, y, k, i, i);
      if (!ne) c = SEL(leaf_na(x, k, i) | leaf_na(y, k, i), NA_LOGICAL, c);
      e = SEL(c == 1, e, c);
    }
    ASSERT(LOGICAL(res)[i] == (int)e, ne ? "vec_equal: equality of observations, missing equals missing" : "vec_equal: equality of observations, missing propagates");
  }
  return R_NilValue;
}
SEXP S_lgl_same(SEXP a, SEXP b, SEXP msg) {
  ASSERT(XLENGTH(a) == XLENGTH(b), CHAR(STRING_ELT(msg, 0)));
  for (long i = 0; i < XLENGTH(a) && i < XLENGTH(b); i++) ASSERT(INTEGER(a)[i] == INTEGER(b)[i], CHAR(STRING_ELT(msg, 0)));
  return R_NilValue;
}
// xy, yz => xz for each observation
SEXP S_transitive(SEXP a, SEXP b, SEXP c) {
  for (long i = 0; i < XLENGTH(a); i++) ASSERT(!(LOGICAL(a)[i] == 1 & LOGICAL(b)[i] == 1) | LOGICAL(c)[i] == 1, "vec_equal: transitive");
  return R_NilValue;
}
SEXP S_obj_equal(SEXP x, SEXP y, SEXP res) {
  ASSERT(TYPEOF(res) == LGLSXP && XLENGTH(res) == 1, "obj_equal: flag");
  ASSERT(LOGICAL(res)[0] == obj_same(x, y), "obj_equal: same type, length and elements");
  return R_NilValue;
}
SEXP S_compare(SEXP x, SEXP y, SEXP res, SEXP na_equal) {
  long n = vsize(x); INTS_OK(res, n, "vec_compare: one integer per observation");
  int ne = flag(na_equal); long L = nleaf(x);
  for (long i = 0; i < n; i++) {
    long e = 0;
    for (long k = L - 1; k >= 0; k--) {
      long c = SEL(leaf_lt(x, y, k, i, i), -1, SEL(leaf_lt(y, x, k, i, i), 1, e));
      if (!ne) c = SEL(leaf_na(x, k, i) | leaf_na(y, k, i), NA_INTEGER, c);
      e = c;
    }
    ASSERT(INTEGER(res)[i] == (int)e, ne ? "vec_compare: value order, missing lowest" : "vec_compare: value order, missing propagates");
  }
  return R_NilValue;
}
// r1 = compare(x, y), r2 = compare(y, x), e = equal(x, y)
SEXP S_compare_eq(SEXP r1, SEXP r2, SEXP e) {
  long n = XLENGTH(r1); INTS_OK(r2, n, "size"); LGLS_OK(e, n, "size");
  for (long i = 0; i < n; i++) {
    ASSERT(SEL(INTEGER(r1)[i] == NA_INTEGER, NA_INTEGER, -(long)INTEGER(r1)[i]) == INTEGER(r2)[i], "vec_compare: antisymmetric");
    ASSERT((INTEGER(r1)[i] == 0) == (LOGICAL(e)[i] == 1), "vec_compare: 0 exactly where vec_equal is TRUE");
  }
  return R_NilValue;
}
SEXP S_missing(SEXP x, SEXP det, SEXP any, SEXP complete) {
  long n = vsize(x); LGLS_OK(det, n, "vec_detect_missing: one logical per observation"); LGLS_OK(any, 1, "vec_any_missing: flag");
  int a = 0;
  for (long i = 0; i < n; i++) { int m = el_na(x, i); a |= m; ASSERT(LOGICAL(det)[i] == m, "vec_detect_missing: TRUE exactly where every part is missing"); }
  ASSERT(LOGICAL(any)[0] == a, "vec_any_missing: TRUE exactly when some observation is missing");
  LGLS_OK(complete, n, "vec_detect_complete: one logical per observation");
  for (long i = 0; i < n; i++) ASSERT(LOGICAL(complete)[i] == !el_incomplete(x, i), "vec_detect_complete: TRUE exactly where no part is missing");
  return R_NilValue;
}
// loc = vec_locate_complete(x): the increasing list of complete locations
SEXP S_locate_complete(SEXP x, SEXP loc) {
  ASSERT(TYPEOF(loc) == INTSXP, "vec_locate_complete: integer"); if (TYPEOF(loc) != INTSXP) return R_NilValue;
  long n = vsize(x), c = 0, m = XLENGTH(loc);
  for (long i = 0; i < n; i++) c += !el_incomplete(x, i);
  ASSERT(c == m, "vec_locate_complete: as many as complete observations");
  for (long k = 0; k < m; k++) {
    long l = symr_api_pick(INTEGER(loc)[k]); int ok = l >= 1 && l <= n;
    ASSERT(ok, "vec_locate_complete: in range"); if (!ok) return R_NilValue;
    ASSERT(!el_incomplete(x, l - 1), "vec_locate_complete: complete"); if (k) ASSERT(l > INTEGER(loc)[k - 1], "vec_locate_complete: increasing");
  }
  return R_NilValue;
}
// elements of y are those of x at locations loc (concretised)
SEXP S_is_slice(SEXP x, SEXP loc, SEXP y, SEXP msg) {
  const char *m = CHAR(STRING_ELT(msg, 0)); long n = vsize(x), k = XLENGTH(loc);
  ASSERT(vsize(y) == k && TYPEOF(x) == TYPEOF(y), m); if (vsize(y) != k) return R_NilValue;
  for (long i = 0; i < k; i++) { long l = symr_api_pick(INTEGER(loc)[i]); if (l >= 1 && l <= n) ASSERT(el_eq(x, l - 1, y, i), m); else ASSERT(el_na(y, i), m); }
  return R_NilValue;
}
