#include "common.h"
// vec_match(): smallest equal location
SEXP S_match(SEXP needles, SEXP haystack, SEXP res, SEXP na_equal) {
  long n = vsize(needles), m = vsize(haystack);
  ASSERT(TYPEOF(res) == INTSXP && XLENGTH(res) == n, "vec_match: one integer per needle");
  if (XLENGTH(res) != n) return R_NilValue;
  int ne = flag(na_equal);
  for (long i = 0; i < n; i++) {
    long e = NA_INTEGER;
    for (long j = m - 1; j >= 0; j--) e = SEL(el_eq(needles, i, haystack, j), j + 1, e);
    if (!ne) e = SEL(el_incomplete(needles, i), NA_INTEGER, e);
    ASSERT(INTEGER(res)[i] == (int)e, "vec_match: first equal location or NA");
  }
  return R_NilValue;
}
