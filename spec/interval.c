#include "common.h"
// Intervals [start, end), starts and ends compared lexicographically over their columns
static int lt(SEXP x, long i, SEXP y, long j) {
  int r = 0;
  for (long k = nleaf(x) - 1; k >= 0; k--) { leaf_t a = leaf(x, k), b = leaf(y, k); int l = cell_lt(a.v, a.off + i, b.v, b.off + j), g = cell_lt(b.v, b.off + j, a.v, a.off + i); r = l | (!g & r); }
  return r;
}
static int le(SEXP x, long i, SEXP y, long j) { return !lt(y, j, x, i); }
static int valid(SEXP s, SEXP e, long i) { return (el_na(s, i) & el_na(e, i)) | (!el_incomplete(s, i) & !el_incomplete(e, i) & lt(s, i, e, i)); }
SEXP S_ivalid(SEXP s, SEXP e) { int ok = 1; for (long i = 0; i < vsize(s); i++) ok &= valid(s, e, i); symr_api_assume(ok); return R_NilValue; }
SEXP S_icomplete(SEXP s) { int ok = 1; for (long i = 0; i < vsize(s); i++) ok &= !el_incomplete(s, i); symr_api_assume(ok); return R_NilValue; }
static int in(SEXP s, SEXP e, long i, SEXP gs, SEXP ge, long k) { return le(gs, k, s, i) & le(e, i, ge, k); }
static int shape_ok(SEXP r, SEXP s, SEXP *gs, SEXP *ge, const char *m) {
  int ok = TYPEOF(r) == VECSXP && XLENGTH(r) == 2; if (ok) { *gs = field(r, "start"); *ge = field(r, "end"); ok = vsize(*gs) == vsize(*ge) && TYPEOF(*gs) == TYPEOF(s) && TYPEOF(*ge) == TYPEOF(s) && vsize(r) == vsize(*gs) && nleaf(*gs) == nleaf(s) && nleaf(*ge) == nleaf(s); }
  ASSERT(ok, m); return ok;
}
static int groups(SEXP s, SEXP e, SEXP gs, SEXP ge, int abut, int group_missing) {
  const char *m = "interval groups: disjoint, sorted, from the inputs", *c = "interval groups: every interval is covered, and nothing else", *mm = "interval groups: missing intervals grouped last or dropped";
  long n = vsize(s), g = vsize(gs); int anyna = 0; for (long i = 0; i < n; i++) anyna |= el_na(s, i);
  // number of groups of non-missing intervals
  int want_na = anyna & group_missing; int lastna = 0;
  if (g) lastna = el_na(gs, g - 1) & el_na(ge, g - 1);
  ASSERT(want_na == lastna, mm); if (want_na != lastna) return -1;
  g -= symr_api_pick(lastna);
  for (long k = 0; k < g; k++) {
    ASSERT(!el_incomplete(gs, k) & !el_incomplete(ge, k), mm);
    if (k + 1 < g) ASSERT(abut ? lt(ge, k, gs, k + 1) : le(ge, k, gs, k + 1), m);
    int as = 0, ae = 0;
    for (long i = 0; i < n; i++) { as |= el_eq(s, i, gs, k) & in(s, e, i, gs, ge, k) & !el_na(s, i); ae |= el_eq(e, i, ge, k) & in(s, e, i, gs, ge, k) & !el_na(s, i); }
    ASSERT(as & ae, m);
    for (long i = 0; i < n; i++) { // connected: an interval that ends before the group does is continued by another
      int mem = !el_na(s, i) & in(s, e, i, gs, ge, k) & lt(e, i, ge, k), cont = 0;
      for (long j = 0; j < n; j++) cont |= !el_na(s, j) & (abut ? le(s, j, e, i) : lt(s, j, e, i)) & lt(e, i, e, j);
      ASSERT(!mem | cont, c);
    }
  }
  for (long i = 0; i < n; i++) { int any = 0; for (long k = 0; k < g; k++) any |= in(s, e, i, gs, ge, k); ASSERT(any | el_na(s, i), c); }
  return (int)g;
}
SEXP S_igroups(SEXP s, SEXP e, SEXP r, SEXP abut, SEXP grp) {
  SEXP gs, ge; if (!shape_ok(r, s, &gs, &ge, "interval groups: a start and an end")) return R_NilValue;
  groups(s, e, gs, ge, flag(abut), flag(grp)); return R_NilValue;
}
SEXP S_ilocate(SEXP s, SEXP e, SEXP r, SEXP abut, SEXP grp) {
  const char *m = "interval groups: every interval located in its group, once";
  int ok = TYPEOF(r) == VECSXP && XLENGTH(r) == 2; ASSERT(ok, m); if (!ok) return R_NilValue;
  SEXP key = field(r, "key"), loc = field(r, "loc"), gs, ge; if (!shape_ok(key, s, &gs, &ge, "interval groups: a start and an end")) return R_NilValue;
  int g = groups(s, e, gs, ge, flag(abut), flag(grp)); if (g < 0) return R_NilValue;
  ok = TYPEOF(loc) == VECSXP && XLENGTH(loc) == vsize(key) && vsize(r) == vsize(key); ASSERT(ok, m); if (!ok) return R_NilValue;
  long n = vsize(s); long K = XLENGTH(loc);
  for (long i = 0; i < n; i++) {
    int cnt = 0;
    for (long k = 0; k < K; k++) { SEXP l = VECTOR_ELT(loc, k); if (TYPEOF(l) != INTSXP) { ASSERT(0, m); return R_NilValue; }
      for (long p = 0; p < XLENGTH(l); p++) { int h = INTEGER(l)[p] == i + 1; cnt += h; ASSERT(!h | (k < g ? (!el_na(s, i) & in(s, e, i, gs, ge, k)) : el_na(s, i)), m); } }
    ASSERT(cnt == (flag(grp) ? 1 : !el_na(s, i)), m);
  }
  for (long k = 0; k < K; k++) { SEXP l = VECTOR_ELT(loc, k); ASSERT(XLENGTH(l) > 0, m); for (long p = 0; p < XLENGTH(l); p++) ASSERT((INTEGER(l)[p] >= 1) & (INTEGER(l)[p] <= n), m); }
  return R_NilValue;
}
static int covered(SEXP s, SEXP e, SEXP p, long i) { int r = 0; for (long k = 0; k < vsize(s); k++) r |= !el_na(s, k) & le(s, k, p, i) & lt(p, i, e, k); return r; }
SEXP S_icompl(SEXP s, SEXP e, SEXP lo, SEXP up, SEXP r) {
  const char *m = "interval complement: disjoint, sorted, not empty", *c = "interval complement: exactly the points of the bounds that no interval covers";
  SEXP gs, ge; if (!shape_ok(r, s, &gs, &ge, m)) return R_NilValue;
  long n = vsize(s), g = vsize(gs);
  for (long k = 0; k < g; k++) { ASSERT(!el_incomplete(gs, k) & !el_incomplete(ge, k) & lt(gs, k, ge, k), m); if (k + 1 < g) ASSERT(lt(ge, k, gs, k + 1), m); }
  // every point at which coverage can change
  SEXP P[5] = {s, e, gs, ge, lo};
  for (int a = 0; a < 5; a++) {
    if (P[a] == R_NilValue) continue;
    for (long i = 0; i < vsize(P[a]); i++) {
      int lower, upper = 0; // inside the bounds
      if (lo != R_NilValue) lower = le(lo, 0, P[a], i); else { lower = 0; for (long k = 0; k < n; k++) lower |= !el_na(s, k) & le(s, k, P[a], i); }
      if (up != R_NilValue) upper = lt(P[a], i, up, 0); else for (long k = 0; k < n; k++) upper |= !el_na(s, k) & lt(P[a], i, e, k);
      int want = lower & upper & !covered(s, e, P[a], i);
      ASSERT(el_na(P[a], i) | (covered(gs, ge, P[a], i) == want), c);
    }
  }
  return R_NilValue;
}
SEXP S_icont(SEXP s, SEXP e, SEXP r) {
  const char *m = "interval containers: exactly the intervals no other contains, once, in ascending order", *mm = "interval containers: missing intervals have their own, last";
  long n = vsize(s), k = XLENGTH(r); int ok = TYPEOF(r) == INTSXP; ASSERT(ok, m); if (!ok) return R_NilValue;
  long v[64]; if (k > 64) symr_api_assume(0);
  for (long j = 0; j < k; j++) { v[j] = symr_api_pick(INTEGER(r)[j]); int in = v[j] >= 1 && v[j] <= n; ASSERT(in, m); if (!in) return R_NilValue; v[j]--; }
  int anyna = 0; for (long i = 0; i < n; i++) anyna |= el_na(s, i);
  int lastna = k ? el_na(s, v[k - 1]) : 0; ASSERT(anyna == lastna, mm); k -= symr_api_pick(lastna);
  for (long j = 0; j < k; j++) {
    ASSERT(!el_na(s, v[j]), mm); int strict = 0;
    for (long i = 0; i < n; i++) strict |= !el_na(s, i) & in(s, e, v[j], s, e, i) & !in(s, e, i, s, e, v[j]);
    ASSERT(!strict, m);
    if (j + 1 < k) ASSERT(lt(s, v[j], s, v[j + 1]), m);
  }
  for (long i = 0; i < n; i++) { int c = 0; for (long j = 0; j < k; j++) c |= in(s, e, i, s, e, v[j]); ASSERT(c | el_na(s, i), m); }
  return R_NilValue;
}
