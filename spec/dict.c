#include "common.h"
#define MAXN 2048
// first occurrences of x: F[i] the first equal location, I[i] whether i is first, G[i] the number of the group of i, NG the number of groups
static long F[MAXN], I[MAXN], G[MAXN], NG; static int E[MAXN];
static void firsts(SEXP x) {
  long n = vsize(x); if (n > MAXN) symr_api_assume(0);
  NG = 0;
  for (long i = 0; i < n; i++) {
    long f = i, fst = 1, g;
    for (long j = i - 1; j >= 0; j--) { E[j] = el_eq(x, i, x, j); f = SEL(E[j], j, f); fst &= !E[j]; }
    g = NG + 1; for (long j = i - 1; j >= 0; j--) g = SEL(E[j], G[j], g);
    F[i] = f; I[i] = fst; NG += fst; G[i] = g;
  }
}
SEXP S_in(SEXP needles, SEXP haystack, SEXP res, SEXP na_equal) {
  long n = vsize(needles), m = vsize(haystack); LGLS_OK(res, n, "vec_in: one logical per needle");
  for (long i = 0; i < n; i++) {
    int in = 0; for (long j = 0; j < m; j++) in |= el_eq(needles, i, haystack, j);
    long e = in; if (!flag(na_equal)) e = SEL(el_incomplete(needles, i), NA_LOGICAL, e);
    ASSERT(LOGICAL(res)[i] == (int)e, "vec_in: TRUE exactly when an equal observation exists");
  }
  return R_NilValue;
}
// locations: exactly the first occurrences, increasing
static int check_firsts(SEXP x, SEXP loc, const char *m) {
  ASSERT(TYPEOF(loc) == INTSXP, m); if (TYPEOF(loc) != INTSXP) return 0;
  long n = vsize(x), k = XLENGTH(loc); firsts(x);
  ASSERT(NG == k, m);
  for (long j = 0; j < k; j++) {
    long l = symr_api_pick(INTEGER(loc)[j]); int in = l >= 1 && l <= n; ASSERT(in, m); if (!in) return 0;
    ASSERT(I[l - 1] == 1, m); if (j) ASSERT(l > INTEGER(loc)[j - 1], m);
  }
  return 1;
}
SEXP S_unique_loc(SEXP x, SEXP loc) { check_firsts(x, loc, "vec_unique_loc: exactly the first occurrences in order"); return R_NilValue; }
SEXP S_unique_count(SEXP x, SEXP cnt) {
  INTS_OK(cnt, 1, "vec_unique_count: one integer"); firsts(x);
  ASSERT(INTEGER(cnt)[0] == NG, "vec_unique_count: number of distinct observations"); return R_NilValue;
}
SEXP S_dup(SEXP x, SEXP id, SEXP det, SEXP any) {
  long n = vsize(x); INTS_OK(id, n, "vec_duplicate_id: one integer per observation"); LGLS_OK(det, n, "vec_duplicate_detect: one logical per observation"); LGLS_OK(any, 1, "vec_duplicate_any: flag");
  firsts(x);
  for (long i = 0; i < n; i++) {
    ASSERT(INTEGER(id)[i] == F[i] + 1, "vec_duplicate_id: first occurrence");
    int d = !I[i]; for (long j = i + 1; j < n; j++) d |= el_eq(x, i, x, j);
    ASSERT(LOGICAL(det)[i] == d, "vec_duplicate_detect: occurs more than once");
  }
  ASSERT(LOGICAL(any)[0] == (NG < n), "vec_duplicate_any: some observation occurs more than once"); return R_NilValue;
}
// vec_count(): x concrete.  sort: 1 count, 2 key, 3 location, 4 none
SEXP S_count(SEXP x, SEXP res, SEXP sort) {
  SEXP key = field(res, "key"), cnt = field(res, "count"); long n = vsize(x), d; int s = int1(sort); firsts(x); d = symr_api_pick(NG);
  ASSERT(vsize(res) == d && vsize(key) == d && TYPEOF(cnt) == INTSXP && XLENGTH(cnt) == d, "vec_count: one row per distinct observation");
  if (vsize(key) != d || TYPEOF(cnt) != INTSXP || XLENGTH(cnt) != d) return R_NilValue;
  long prev = -1, pc = 0;
  for (long k = 0; k < d; k++) {
    long c = 0, f = -1; for (long i = 0; i < n; i++) if (el_eq(x, i, key, k)) { c++; if (f < 0) f = i; }
    ASSERT(c == INTEGER(cnt)[k] && c > 0, "vec_count: true number of occurrences");
    for (long j = 0; j < k; j++) ASSERT(!el_eq(key, k, key, j), "vec_count: keys are distinct");
    if (k && s == 3) ASSERT(f > prev, "vec_count: sorted by location");
    if (k && s == 1) ASSERT(pc > c || (pc == c && f > prev), "vec_count: sorted by decreasing count, then location");
    if (k && s == 2 && nleaf(x) == 1) ASSERT(leaf_na(key, 0, k) || (!leaf_na(key, 0, k - 1) && leaf_lt(key, key, 0, k - 1, k)), "vec_count: sorted by key, missing last");
    prev = f; pc = c;
  }
  return R_NilValue;
}
SEXP S_group_id(SEXP x, SEXP res, SEXP n) {
  long m = vsize(x); INTS_OK(res, m, "vec_group_id: one integer per observation"); INTS_OK(n, 1, "vec_group_id: n"); firsts(x);
  for (long i = 0; i < m; i++) ASSERT(INTEGER(res)[i] == G[i], "vec_group_id: groups numbered by first appearance");
  ASSERT(INTEGER(n)[0] == NG, "vec_group_id: number of groups"); return R_NilValue;
}
// partition (key, loc); order: 0 by first appearance
static int check_groups(SEXP x, SEXP key, SEXP loc, int appearance, const char *m) {
  firsts(x); long n = vsize(x), g = symr_api_pick(NG), tot = 0;
  ASSERT(TYPEOF(loc) == VECSXP && XLENGTH(loc) == g && vsize(key) == g, m); if (TYPEOF(loc) != VECSXP || XLENGTH(loc) != g || vsize(key) != g) return 0;
  for (long k = 0; k < g; k++) {
    SEXP l = VECTOR_ELT(loc, k); ASSERT(TYPEOF(l) == INTSXP && XLENGTH(l) > 0, m); if (TYPEOF(l) != INTSXP || XLENGTH(l) == 0) return 0;
    tot += XLENGTH(l);
    for (long j = 0; j < XLENGTH(l); j++) {
      long v = symr_api_pick(INTEGER(l)[j]); int ok = v >= 1 && v <= n; ASSERT(ok, m); if (!ok) return 0;
      ASSERT(el_eq(x, v - 1, key, k), m); if (j) ASSERT(v > INTEGER(l)[j - 1], m); else ASSERT(I[v - 1] == 1, m);
    }
    for (long j = 0; n <= 8 && j < k; j++) ASSERT(!el_eq(key, j, key, k), m);
    if (k && appearance) ASSERT(INTEGER(l)[0] > INTEGER(VECTOR_ELT(loc, k - 1))[0], m);
  }
  ASSERT(tot == n, m); return 1;
}
SEXP S_group_loc(SEXP x, SEXP res) { check_groups(x, field(res, "key"), field(res, "loc"), 1, "vec_group_loc: partition by equality in order of first appearance"); return R_NilValue; }
// na/nan as the order sees them
SEXP S_sorted_groups(SEXP x, SEXP res, SEXP desc, SEXP na_small, SEXP nan_distinct) {
  SEXP key = field(res, "key"), loc = field(res, "loc"); ordopt_t o = ordopt(desc, na_small, nan_distinct);
  const char *m = "vec_locate_sorted_groups: groups ordered by key", *m2 = "vec_locate_sorted_groups: partition by equality";
  long n = vsize(x), g = vsize(key), tot = 0;
  ASSERT(TYPEOF(loc) == VECSXP && XLENGTH(loc) == g, m2); if (TYPEOF(loc) != VECSXP || XLENGTH(loc) != g) return R_NilValue;
  for (long k = 0; k < g; k++) {
    SEXP l = VECTOR_ELT(loc, k); ASSERT(TYPEOF(l) == INTSXP && XLENGTH(l) > 0, m2); if (TYPEOF(l) != INTSXP || XLENGTH(l) == 0) return R_NilValue;
    tot += XLENGTH(l);
    for (long j = 0; j < XLENGTH(l); j++) {
      long v = symr_api_pick(INTEGER(l)[j]); int ok = v >= 1 && v <= n; ASSERT(ok, m2); if (!ok) return R_NilValue;
      ASSERT(j == 0 ? el_eq(x, v - 1, key, k) : ord_eq2(x, v - 1, key, k, o), m2); if (j) ASSERT(v > INTEGER(l)[j - 1], m2);
    }
    if (k) ASSERT(ord_lt2(key, k - 1, key, k, o), m);
  }
  ASSERT(tot == n, m2); return R_NilValue;
}
SEXP S_group_rle(SEXP x, SEXP g, SEXP len, SEXP n) {
  const char *m = "vec_group_rle: runs of group ids"; long N = vsize(x), k = XLENGTH(g);
  ASSERT(TYPEOF(g) == INTSXP && TYPEOF(len) == INTSXP && XLENGTH(len) == k && TYPEOF(n) == INTSXP, m); if (TYPEOF(g) != INTSXP || TYPEOF(len) != INTSXP || XLENGTH(len) != k) return R_NilValue;
  firsts(x); ASSERT(INTEGER(n)[0] == NG, "vec_group_rle: number of groups");
  long pos = 0;
  for (long j = 0; j < k; j++) {
    long l = symr_api_pick(INTEGER(len)[j]); ASSERT(l > 0 && pos + l <= N, m); if (l <= 0 || pos + l > N) return R_NilValue;
    for (long i = pos; i < pos + l; i++) ASSERT(INTEGER(g)[j] == G[i], m);
    if (j) ASSERT(!el_eq(x, pos, x, pos - 1), m);
    pos += l;
  }
  ASSERT(pos == N, m); return R_NilValue;
}
SEXP S_split(SEXP x, SEXP by, SEXP res) {
  const char *m = "vec_split: values of each key in order"; SEXP key = field(res, "key"), v = field(res, "val");
  firsts(by); long n = vsize(by), g = symr_api_pick(NG);
  ASSERT(TYPEOF(v) == VECSXP && XLENGTH(v) == g && vsize(key) == g, m); if (TYPEOF(v) != VECSXP || XLENGTH(v) != g || vsize(key) != g) return R_NilValue;
  for (long k = 0; k < g; k++) {
    SEXP e = VECTOR_ELT(v, k); ASSERT(TYPEOF(e) == TYPEOF(x), m); if (TYPEOF(e) != TYPEOF(x)) return R_NilValue;
    long c = 0; // c-th match goes to e[c]
    for (long i = 0; i < n; i++) {
      int in = el_eq(by, i, key, k);
      for (long j = 0; j <= i && j < vsize(e); j++) ASSERT(!(in & (c == j)) | el_eq(x, i, e, j), m);
      c += in;
    }
    ASSERT(c == vsize(e), m);
    int f = 0; for (long i = 0; i < n; i++) f |= I[i] & (G[i] == k + 1) & el_eq(by, i, key, k);
    ASSERT(f, "vec_split: keys in order of first appearance");
  }
  return R_NilValue;
}
// ---- sets: 1 intersect, 2 difference, 3 union, 4 symmetric difference
SEXP S_set(SEXP x, SEXP y, SEXP res, SEXP op) {
  const char *msg[] = {"", "vec_set_intersect", "vec_set_difference", "vec_set_union", "vec_set_symmetric_difference"};
  int o = int1(op); const char *m = msg[o]; long n = vsize(x), p = vsize(y), r = vsize(res), c = 0;
  ASSERT(TYPEOF(res) == TYPEOF(x), m); if (TYPEOF(res) != TYPEOF(x)) return R_NilValue;
  static long IX[MAXN]; firsts(x); for (long i = 0; i < n; i++) IX[i] = I[i];
  firsts(y);
  for (long i = 0; i < n + p; i++) {
    int keep;
    if (i < n) { int iny = 0; for (long j = 0; j < p; j++) iny |= el_eq(x, i, y, j); keep = IX[i] & (o == 1 ? iny : o == 3 ? 1 : !iny); }
    else { int inx = 0; for (long j = 0; j < n; j++) inx |= el_eq(y, i - n, x, j); keep = o >= 3 ? I[i - n] & !inx : 0; }
    for (long j = 0; j <= i && j < r; j++) { int same = i < n ? el_eq(x, i, res, j) : el_eq(y, i - n, res, j); ASSERT(!(keep & (c == j)) | same, m); }
    c += keep;
  }
  ASSERT(c == r, m); return R_NilValue;
}
// ---- runs
SEXP S_runs(SEXP x, SEXP id, SEXP idn, SEXP sizes, SEXP dstart, SEXP dend, SEXP lstart, SEXP lend) {
  long n = vsize(x); INTS_OK(id, n, "vec_identify_runs: one integer per observation"); INTS_OK(idn, 1, "vec_identify_runs: n"); LGLS_OK(dstart, n, "vec_detect_run_bounds: one logical per observation"); LGLS_OK(dend, n, "vec_detect_run_bounds: one logical per observation");
  long run = 0;
  for (long i = 0; i < n; i++) {
    int st = i == 0 ? 1 : !el_eq(x, i, x, i - 1), en = i == n - 1 ? 1 : !el_eq(x, i, x, i + 1);
    run += st;
    ASSERT(INTEGER(id)[i] == run, "vec_identify_runs: a new run exactly where adjacent observations differ");
    ASSERT(LOGICAL(dstart)[i] == st, "vec_detect_run_bounds: start"); ASSERT(LOGICAL(dend)[i] == en, "vec_detect_run_bounds: end");
  }
  ASSERT(INTEGER(idn)[0] == run, "vec_identify_runs: number of runs");
  long R = symr_api_pick(run); INTS_OK(sizes, R, "vec_run_sizes: one per run"); INTS_OK(lstart, R, "vec_locate_run_bounds: one per run"); INTS_OK(lend, R, "vec_locate_run_bounds: one per run");
  long k = 0, cur = 0;
  for (long i = 0; i < n; i++) {
    int st = i == 0 ? 1 : !el_eq(x, i, x, i - 1), en = i == n - 1 ? 1 : !el_eq(x, i, x, i + 1);
    k += st; cur = SEL(st, 1, cur + 1);
    for (long j = 0; j < R; j++) {
      ASSERT(!(st & (k == j + 1)) | (INTEGER(lstart)[j] == i + 1), "vec_locate_run_bounds: start");
      ASSERT(!(en & (k == j + 1)) | ((INTEGER(lend)[j] == i + 1) & (INTEGER(sizes)[j] == cur)), "vec_run_sizes / vec_locate_run_bounds: end");
    }
  }
  return R_NilValue;
}
SEXP S_unrep(SEXP x, SEXP key, SEXP times) {
  const char *m = "vec_unrep: repeating the keys by the times gives the vector"; long n = vsize(x), R = vsize(key); INTS_OK(times, R, m);
  long pos = 0;
  for (long j = 0; j < R; j++) {
    long t = symr_api_pick(INTEGER(times)[j]); ASSERT(t > 0 && pos + t <= n, m); if (t <= 0 || pos + t > n) return R_NilValue;
    for (long i = 0; i < t; i++) ASSERT(el_eq(x, pos + i, key, j), m);
    pos += t; if (j) ASSERT(!el_eq(key, j, key, j - 1), "vec_unrep: adjacent keys differ");
  }
  ASSERT(pos == n, m); return R_NilValue;
}
// ---- hashes
SEXP S_hash(SEXP x, SEXP hx, SEXP y, SEXP hy) {
  const char *m = "vec_hash: equal observations hash equally"; long n = vsize(x), p = vsize(y);
  ASSERT(TYPEOF(hx) == RAWSXP && XLENGTH(hx) == 4 * n && TYPEOF(hy) == RAWSXP && XLENGTH(hy) == 4 * p, m); if (XLENGTH(hx) != 4 * n || XLENGTH(hy) != 4 * p) return R_NilValue;
  for (long i = 0; i < n; i++) for (long j = 0; j < p; j++) {
    int same = 1; for (int k = 0; k < 4; k++) same &= RAW(hx)[4 * i + k] == RAW(hy)[4 * j + k];
    ASSERT(!el_eq(x, i, y, j) | same, m);
  }
  return R_NilValue;
}
SEXP S_obj_hash(SEXP x, SEXP hx, SEXP y, SEXP hy) {
  const char *m = "obj_hash: equal objects hash equally"; ASSERT(TYPEOF(hx) == RAWSXP && XLENGTH(hx) == XLENGTH(hy), m); if (XLENGTH(hx) != XLENGTH(hy)) return R_NilValue;
  int same = 1; for (int k = 0; k < XLENGTH(hx); k++) same &= RAW(hx)[k] == RAW(hy)[k];
  ASSERT(!obj_same(x, y) | same, m); return R_NilValue;
}
