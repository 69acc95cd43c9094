#include "common.h"
// Factors: the label of an element, or NA
static SEXP lv(SEXP x) { return Rf_getAttrib(x, R_LevelsSymbol); }
static SEXP label(SEXP x, long i) { // x: factor or character, levels concrete
  if (TYPEOF(x) == STRSXP) return STRING_ELT(x, i);
  SEXP l = lv(x); int c = INTEGER(x)[i]; long r = (long)NA_STRING;
  for (long k = XLENGTH(l); k >= 1; k--) r = SEL(c == k, (long)STRING_ELT(l, k - 1), r);
  return (SEXP)r;
}
static int has(SEXP l, SEXP s) { int r = 0; for (long k = 0; k < XLENGTH(l); k++) r |= STRING_ELT(l, k) == s; return r; }
static int in_range(SEXP x, long i) { int c = INTEGER(x)[i]; return (c == NA_INTEGER) | ((c >= 1) & (c <= XLENGTH(lv(x)))); }
static int same_chr(SEXP a, SEXP b) { if (TYPEOF(a) != STRSXP || TYPEOF(b) != STRSXP || XLENGTH(a) != XLENGTH(b)) return 0; int r = 1; for (long i = 0; i < XLENGTH(a); i++) r &= STRING_ELT(a, i) == STRING_ELT(b, i); return r; }
static int distinct(SEXP l) { int r = 1; for (long i = 0; i < XLENGTH(l); i++) for (long j = 0; j < i; j++) r &= STRING_ELT(l, i) != STRING_ELT(l, j); return r; }
static const char *LAB = "factor: every element keeps its label", *LEV = "factor: levels of the common type", *REF = "factor: refused exactly when a used label is absent from the target";
static void keeps(SEXP x, SEXP out) {
  long n = XLENGTH(x); int ok = XLENGTH(out) == n && (TYPEOF(out) == STRSXP || (TYPEOF(out) == INTSXP && TYPEOF(lv(out)) == STRSXP)); ASSERT(ok, LAB); if (!ok) return;
  for (long i = 0; i < n; i++) { if (TYPEOF(out) == INTSXP) ASSERT(in_range(out, i), "factor: codes within the levels"); ASSERT(label(x, i) == label(out, i), LAB); }
}
// x (factor or character) cast to the factor `to`, r: attempt
SEXP S_fct_cast(SEXP x, SEXP to, SEXP r) {
  SEXP l = lv(to); int lossy = 0; long n = XLENGTH(x);
  if (XLENGTH(l)) for (long i = 0; i < n; i++) { SEXP s = label(x, i); lossy |= (s != NA_STRING) & !has(l, s); }
  ASSERT(is_ok(r) == !lossy, REF);
  if (!is_ok(r)) { ASSERT(has_class(r, "vctrs_error_cast_lossy"), "factor: the refusal is a lossy cast"); return R_NilValue; }
  SEXP v = val(r); keeps(x, v);
  if (XLENGTH(l)) ASSERT(same_chr(lv(v), l), "factor: the levels are those of the target"); else ASSERT(distinct(lv(v)), "factor: levels are distinct");
  return R_NilValue;
}
// levels of a character's own factor: its values in order of first appearance, missing excluded
SEXP S_self_levels(SEXP x, SEXP out) {
  SEXP l = lv(out); long p = 0, n = XLENGTH(x), m = XLENGTH(l);
  for (long i = 0; i < n; i++) {
    int fresh = STRING_ELT(x, i) != NA_STRING; for (long j = 0; j < i; j++) fresh &= STRING_ELT(x, i) != STRING_ELT(x, j);
    for (long k = 0; k < m; k++) ASSERT(!(fresh & (p == k)) | (STRING_ELT(l, k) == STRING_ELT(x, i)), "factor: own levels by first appearance");
    p += fresh;
  }
  ASSERT(p == m, "factor: own levels by first appearance"); return R_NilValue;
}
// levels l of the union of several level sets: first appearance order
SEXP S_union(SEXP ls, SEXP l) {
  long p = 0, m = XLENGTH(l); int tot_ok = TYPEOF(l) == STRSXP; ASSERT(tot_ok, LEV); if (!tot_ok) return R_NilValue;
  for (long a = 0; a < XLENGTH(ls); a++) for (long i = 0; i < XLENGTH(VECTOR_ELT(ls, a)); i++) {
    SEXP s = STRING_ELT(VECTOR_ELT(ls, a), i); int fresh = 1;
    for (long b = 0; b <= a; b++) for (long j = 0; j < (b == a ? i : XLENGTH(VECTOR_ELT(ls, b))); j++) fresh &= STRING_ELT(VECTOR_ELT(ls, b), j) != s;
    for (long k = 0; k < m; k++) ASSERT(!(fresh & (p == k)) | (STRING_ELT(l, k) == s), LEV);
    p += fresh;
  }
  ASSERT(p == m, LEV); return R_NilValue;
}
SEXP S_assume_distinct(SEXP l) { for (long i = 0; i < XLENGTH(l); i++) for (long j = 0; j < i; j++) symr_api_assume(STRING_ELT(l, i) != STRING_ELT(l, j)); return R_NilValue; }
// out: the combination of xs, label by label
SEXP S_labels(SEXP xs, SEXP out) {
  long p = 0, t = 0; for (long a = 0; a < XLENGTH(xs); a++) t += XLENGTH(VECTOR_ELT(xs, a));
  int ok = XLENGTH(out) == t; ASSERT(ok, "factor: sizes add up"); if (!ok) return R_NilValue;
  for (long a = 0; a < XLENGTH(xs); a++) { SEXP x = VECTOR_ELT(xs, a); for (long i = 0; i < XLENGTH(x); i++, p++) { if (TYPEOF(out) == INTSXP) ASSERT(in_range(out, p), "factor: codes within the levels"); ASSERT(label(x, i) == label(out, p), LAB); } }
  return R_NilValue;
}
