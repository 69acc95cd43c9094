#include "common.h"
// vec_locate_matches() with default options but one: the needle or haystack value reported has the problem
enum { W_NOTHING = 1, W_REMAINING, W_INCOMPLETE, W_MULTIPLE, W_HAYSTACK };
SEXP S_why_match(SEXP x, SEXP y, SEXP what, SEXP i_) {
  long n = vsize(x), h = vsize(y); int w = int1(what); ASSERT(TYPEOF(i_) == INTSXP && XLENGTH(i_) == 1, "errors: a location"); int i = int1(i_);
  int side = w == W_REMAINING || w == W_HAYSTACK; long m = side ? h : n, o = side ? n : h; SEXP a = side ? y : x, b = side ? x : y;
  ASSERT((i >= 1) & (i <= m), "errors: a location");
  for (long k = 0; k < m; k++) {
    int cnt = 0; for (long j = 0; j < o; j++) cnt += el_eq(a, k, b, j);
    int bad = w == W_INCOMPLETE ? el_incomplete(a, k) : (w == W_MULTIPLE || w == W_HAYSTACK) ? cnt > 1 : cnt == 0;
    ASSERT(!(i == k + 1) | bad, "errors: the value reported has the problem");
  }
  return R_NilValue;
}
// a warning is raised exactly when a needle (and, for many-to-many, also a haystack value) has several matches
SEXP S_why_warned(SEXP x, SEXP y, SEXP both, SEXP got) {
  long n = vsize(x), h = vsize(y); int many_x = 0, many_y = 0;
  for (long k = 0; k < n; k++) { int c = 0; for (long j = 0; j < h; j++) c += el_eq(x, k, y, j); many_x |= c > 1; }
  for (long j = 0; j < h; j++) { int c = 0; for (long k = 0; k < n; k++) c += el_eq(x, k, y, j); many_y |= c > 1; }
  ASSERT((many_x & (many_y | !flag(both))) == flag(got), "errors: a warning exactly when there are several matches");
  return R_NilValue;
}
// the same for integers matched by "<=" or ">=" (missing values match each other only)
SEXP S_why_range(SEXP x, SEXP y, SEXP le_, SEXP haystack, SEXP i_) {
  long n = vsize(x), h = vsize(y); int le = flag(le_), side = flag(haystack); ASSERT(TYPEOF(i_) == INTSXP && XLENGTH(i_) == 1, "errors: a location"); int i = int1(i_);
  const int *a = INTEGER(x), *b = INTEGER(y); long m = side ? h : n, o = side ? n : h;
  ASSERT((i >= 1) & (i <= m), "errors: a location");
  for (long k = 0; k < m; k++) {
    int cnt = 0;
    for (long j = 0; j < o; j++) { int u = side ? a[j] : a[k], v = side ? b[k] : b[j]; cnt += (u == v) | ((u != NA_INTEGER) & (v != NA_INTEGER) & (le ? u <= v : u >= v)); }
    ASSERT(!(i == k + 1) | (cnt > 1), "errors: the value reported has the problem");
  }
  return R_NilValue;
}
