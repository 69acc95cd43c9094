#include "common.h"
// vec_locate_matches(): opts = c(incomplete, incomplete value, no_match, no_match value, remaining, remaining value, multiple, relationship, nan_distinct)
enum { C_COMPARE, C_MATCH, C_DROP, C_ERROR, C_VALUE };
enum { A_DROP, A_ERROR, A_VALUE };
enum { U_ALL, U_ANY, U_FIRST, U_LAST };
enum { R_NONE, R_11, R_1M, R_M1, R_MM, R_WMM };
enum { P_EQ, P_GT, P_GE, P_LT, P_LE };
static int is_cell_inc(leaf_t l, long i) { return cell_na(l.v, l.off + i); }
static long miss_class(leaf_t l, long i, int nd) { return nd ? SEL(cell_nan(l.v, l.off + i), 1, 0) : 0; }
static int cond(int op, int lt, int eq) { return op == P_EQ ? eq : op == P_GT ? !(lt | eq) : op == P_GE ? !lt : op == P_LT ? lt : lt | eq; }
SEXP S_locate(SEXP x, SEXP y, SEXP ops, SEXP filters, SEXP opts, SEXP r, SEXP warned) {
  const char *E = "matches: refused exactly when the options forbid the result", *M = "matches: exactly the pairs satisfying the conditions, in order", *W = "matches: a many-to-many relationship warns exactly when there is one";
  int *o = INTEGER(opts), ci = o[0], cn = o[2], cr = o[4], mu = o[6], rel = o[7], nd = o[8]; int *op = INTEGER(ops), *fl = INTEGER(filters);
  long n = vsize(x), h = vsize(y), C = nleaf(x); int ok = is_ok(r); SEXP res = val(r);
  if (n > 5 || h > 5 || C > 3) return R_NilValue;
  int m[5][5], inc[5], bad_inc = 0;
  for (long i = 0; i < n; i++) {
    inc[i] = 0;
    if (ci >= C_DROP) for (long c = 0; c < C; c++) inc[i] |= is_cell_inc(leaf(x, c), i);
    bad_inc |= inc[i] & (ci == C_ERROR);
    for (long j = 0; j < h; j++) {
      int all = !inc[i];
      for (long c = 0; c < C; c++) {
        leaf_t a = leaf(x, c), b = leaf(y, c); int xi = is_cell_inc(a, i), yi = is_cell_inc(b, j);
        int lt = cell_lt(a.v, a.off + i, b.v, b.off + j), eq = cell_eq(a.v, a.off + i, b.v, b.off + j);
        int both = (ci == C_MATCH || op[c] == P_EQ || op[c] == P_GE || op[c] == P_LE) ? miss_class(a, i, nd) == miss_class(b, j, nd) : 0;
        all &= (!xi & !yi & cond(op[c], lt, eq)) | (xi & yi & both);
      }
      m[i][j] = all;
    }
  }
  // filter: the best matching haystack values, lexicographically over the filtered columns
  int any_filter = 0; for (long c = 0; c < C; c++) any_filter |= fl[c] != 0;
  if (any_filter) {
    int better[5][5];
    for (long j = 0; j < h; j++) for (long k = 0; k < h; k++) {
      int b = 0;
      for (long c = C - 1; c >= 0; c--) {
        if (!fl[c]) continue;
        leaf_t q = leaf(y, c); int ji = is_cell_inc(q, j), ki = is_cell_inc(q, k), v = !ji & !ki;
        int l1 = v & cell_lt(q.v, q.off + j, q.v, q.off + k), l2 = v & cell_lt(q.v, q.off + k, q.v, q.off + j);
        int w = fl[c] == 1 ? l1 : l2, lo = fl[c] == 1 ? l2 : l1; b = w | (!lo & b);
      }
      better[j][k] = b;
    }
    for (long i = 0; i < n; i++) { int f[5]; for (long j = 0; j < h; j++) { int d = 0; for (long k = 0; k < h; k++) d |= m[i][k] & better[k][j]; f[j] = m[i][j] & !d; } for (long j = 0; j < h; j++) m[i][j] = f[j]; }
  }
  int some[5]; for (long i = 0; i < n; i++) { some[i] = 0; for (long j = 0; j < h; j++) some[i] |= m[i][j]; }
  if (mu == U_FIRST) for (long i = 0; i < n; i++) { int p = 0; for (long j = 0; j < h; j++) { int t = m[i][j]; m[i][j] = t & !p; p |= t; } }
  if (mu == U_LAST) for (long i = 0; i < n; i++) { int p = 0; for (long j = h - 1; j >= 0; j--) { int t = m[i][j]; m[i][j] = t & !p; p |= t; } }
  int bad_no = 0; for (long i = 0; i < n; i++) bad_no |= !inc[i] & !some[i] & (cn == A_ERROR);
  SEXP rn = R_NilValue, rh = R_NilValue;
  if (ok) {
    int shape = TYPEOF(res) == VECSXP && XLENGTH(res) == 2; ASSERT(shape, M); if (!shape) return R_NilValue;
    rn = field(res, "needles"); rh = field(res, "haystack"); shape = TYPEOF(rn) == INTSXP && TYPEOF(rh) == INTSXP && XLENGTH(rn) == XLENGTH(rh) && df_rows(res) == XLENGTH(rn);
    ASSERT(shape, M); if (!shape) return R_NilValue;
  }
  if (mu == U_ANY) { // some match of each needle: take the one that was returned
    if (!ok) { if (cr != A_ERROR && rel == R_NONE) ASSERT(bad_inc | bad_no, E); return R_NilValue; }
    for (long i = 0; i < n; i++) for (long j = 0; j < h; j++) { int in = 0; for (long p = 0; p < XLENGTH(rn); p++) in |= (INTEGER(rn)[p] == i + 1) & (INTEGER(rh)[p] == j + 1); m[i][j] &= in; }
    for (long i = 0; i < n; i++) { int p = 0; for (long j = 0; j < h; j++) { int t = m[i][j]; m[i][j] = t & !p; p |= t; } ASSERT(p == some[i], M); }
  }
  int many_n = 0, many_h = 0, rem[5], bad_rem = 0;
  for (long i = 0; i < n; i++) { int p = 0; for (long j = 0; j < h; j++) { many_n |= p & m[i][j]; p |= m[i][j]; } }
  for (long j = 0; j < h; j++) { int p = 0; for (long i = 0; i < n; i++) { many_h |= p & m[i][j]; p |= m[i][j]; } rem[j] = !p; bad_rem |= rem[j] & (cr == A_ERROR); }
  int bad_rel = ((rel == R_11) & (many_n | many_h)) | ((rel == R_1M) & many_h) | ((rel == R_M1) & many_n);
  int err = bad_inc | bad_no | bad_rem | bad_rel;
  ASSERT(!ok == err, E); if (!ok) return R_NilValue;
  ASSERT(flag(warned) == ((rel == R_WMM) & many_n & many_h), W);
  long L = XLENGTH(rn), pos = 0;
  #define ITEM(keep, a, b) do { int kp = (keep); long va = (a), vb = (b); for (long p = 0; p < L; p++) ASSERT(!(kp & (pos == p)) | ((INTEGER(rn)[p] == (int)va) & (INTEGER(rh)[p] == (int)vb)), M); pos += kp; } while (0)
  for (long i = 0; i < n; i++) {
    if (ci == C_VALUE) ITEM(inc[i], i + 1, o[1]);
    if (cn == A_VALUE) ITEM(!inc[i] & !some[i], i + 1, o[3]);
    for (long j = 0; j < h; j++) ITEM(m[i][j], i + 1, j + 1);
  }
  if (cr == A_VALUE) for (long j = 0; j < h; j++) ITEM(rem[j], o[5], j + 1);
  ASSERT(pos == L, M);
  return R_NilValue;
}
