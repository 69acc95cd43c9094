#include "common.h"
// stable sorting permutation
SEXP S_order(SEXP x, SEXP res, SEXP desc, SEXP small, SEXP nd, SEXP what) {
  const char *w = CHAR(STRING_ELT(what, 0)); static char m1[80], m2[80];
  strcpy(m1, w); strcat(m1, ": a permutation of the locations"); strcpy(m2, w); strcat(m2, ": sorted and stable");
  long n = vsize(x); ordopt_t o = ordopt(desc, small, nd);
  INTS_OK(res, n, m1); const int *r = INTEGER(res);
  // rank of each observation, computed independently; r must be its inverse
  for (long i = 0; i < n; i++) {
    long k = 0;
    for (long j = 0; j < n; j++) if (j != i) k += ord_lt2(x, j, x, i, o) | (j < i ? ord_eq2(x, j, x, i, o) : 0);
    for (long p = 0; p < n; p++) ASSERT(!(k == p) | (r[p] == i + 1), m2);
  }
  return R_NilValue;
}
SEXP S_rank(SEXP x, SEXP res, SEXP ties, SEXP na, SEXP desc, SEXP small, SEXP nd) {
  long n = vsize(x); ordopt_t o = ordopt(desc, small, nd); int t = int1(ties), skip = flag(na);
  const char *m = "vec_rank: rank implied by the order and the ties rule"; INTS_OK(res, n, "vec_rank: one integer per observation");
  static int first[2048]; if (n > 2048) return R_NilValue;
  if (t == 4) for (long j = 0; j < n; j++) { int f = 1; for (long h = 0; h < j; h++) f &= !(ord_eq2(x, h, x, j, o) & (skip ? !el_incomplete(x, h) : 1)); first[j] = f; }
  for (long i = 0; i < n; i++) {
    long lt = 0, eq = 0, eqb = 0, dist = 0; int drop = skip ? el_incomplete(x, i) : 0;
    for (long j = 0; j < n; j++) {
      int in = skip ? !el_incomplete(x, j) : 1;
      int l = ord_lt2(x, j, x, i, o) & in, e = j == i ? in : ord_eq2(x, j, x, i, o) & in;
      lt += l; eq += e; if (j < i) eqb += e;
      if (t == 4) dist += l & first[j];
    }
    long e = t == 1 ? lt + 1 : t == 2 ? lt + eq : t == 3 ? lt + eqb + 1 : dist + 1;
    ASSERT(INTEGER(res)[i] == (int)SEL(drop, NA_INTEGER, e), m);
  }
  return R_NilValue;
}
// sorted and stable, checked on neighbours (large inputs)
SEXP S_order_big(SEXP x, SEXP res, SEXP desc, SEXP small, SEXP nd) {
  long n = vsize(x); ordopt_t o = ordopt(desc, small, nd); const char *m = "vec_order_radix: sorted and stable", *p = "vec_order_radix: a permutation of the locations";
  INTS_OK(res, n, p); char seen[1024] = {0}; if (n > 1024) return R_NilValue;
  long prev = -1;
  for (long k = 0; k < n; k++) {
    long l = symr_api_pick(INTEGER(res)[k]) - 1; int ok = l >= 0 && l < n && !seen[l]; ASSERT(ok, p); if (!ok) return R_NilValue;
    seen[l] = 1;
    if (prev >= 0) ASSERT(ord_lt2(x, prev, x, l, o) | (prev < l ? ord_eq2(x, prev, x, l, o) : 0), m);
    prev = l;
  }
  return R_NilValue;
}
