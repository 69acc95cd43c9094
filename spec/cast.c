#include "common.h"
// Casting between bare types: what each element becomes, and when it is refused
static int d_int_ok(double d) { return (d != d) | ((d >= -2147483647.0) & (d <= 2147483647.0) & (d == (double)(int)d)); }
enum { T_LGL = 1, T_INT, T_DBL, T_CPL, T_RAW, T_CHR, T_LIST };
static int tcode(const char *s) { const char *n[] = {"", "lgl", "int", "dbl", "cpl", "raw", "chr", "list"}; for (int i = 1; i < 8; i++) if (!strcmp(s, n[i])) return i; return 0; }
static int scode(SEXP x) { switch (TYPEOF(x)) { case LGLSXP: return T_LGL; case INTSXP: return T_INT; case REALSXP: return T_DBL; case CPLXSXP: return T_CPL; case RAWSXP: return T_RAW; case STRSXP: return T_CHR; case VECSXP: return T_LIST; } return 0; }
// 0 never possible, 1 element is representable, 2 lossy
static int cast_el(SEXP x, long i, int to) {
  int from = scode(x); if (from == to) return 1;
  if (from == T_LGL) { for (int ok = 1; ok;) { ok = to == T_INT || to == T_DBL; return ok ? 1 : 0; } }
  if (from == T_INT) { int v = INTEGER(x)[i]; if (to == T_DBL) return 1; if (to == T_LGL) return SEL((v == 0) | (v == 1) | (v == NA_INTEGER), 1, 2); return 0; }
  if (from == T_DBL) { double d = REAL(x)[i]; if (to == T_INT) return SEL(d_int_ok(d), 1, 2); if (to == T_LGL) return SEL((d == 0) | (d == 1) | (d != d), 1, 2); return 0; }
  return 0;
}
static int possible(int from, int to) {
  if (from == to) return 1;
  if (from == T_LGL) return to == T_INT || to == T_DBL || to == T_CPL;
  if (from == T_INT) return to == T_LGL || to == T_DBL || to == T_CPL;
  if (from == T_DBL) return to == T_LGL || to == T_INT || to == T_CPL;
  return 0;
}
SEXP S_cast_ok(SEXP to_, SEXP x, SEXP ok, SEXP msg) {
  int to = tcode(CHAR(STRING_ELT(to_, 0))), from = scode(x), bad = !possible(from, to);
  if (!bad) for (long i = 0; i < XLENGTH(x); i++) bad |= cast_el(x, i, to) == 2;
  ASSERT(flag(ok) == !bad, CHAR(STRING_ELT(msg, 0))); return R_NilValue;
}

static int all_na_lgl(SEXP x) { if (TYPEOF(x) != LGLSXP || Rf_isObject(x)) return 0; int r = XLENGTH(x) > 0; for (long i = 0; i < XLENGTH(x); i++) r &= LOGICAL(x)[i] == NA_LOGICAL; return symr_api_pick(r); }
enum { C_OK, C_LOSSY, C_NEVER };
static int cast_fate(SEXP x, SEXP to) { // whether the cast is refused
  if (x == R_NilValue || to == R_NilValue) return C_OK;
  if (all_na_lgl(x) && dims(x) == R_NilValue) return C_OK;
  if (is_df(x) || is_df(to)) {
    if (!is_df(x) || !is_df(to)) return C_NEVER;
    int f = C_OK; SEXP xn = Rf_getAttrib(x, R_NamesSymbol);
    for (long k = 0; k < XLENGTH(x); k++) { SEXP t = field(to, CHAR(STRING_ELT(xn, k))); int g = t == R_NilValue ? C_LOSSY : cast_fate(VECTOR_ELT(x, k), t); if (g == C_NEVER) f = C_NEVER; else f = (int)SEL((f == C_OK) & (g != C_OK), C_LOSSY, f); }
    return f;
  }
  SEXP dx = dims(x), dt = dims(to); long nx = dx == R_NilValue ? 1 : XLENGTH(dx), nt = dt == R_NilValue ? 1 : XLENGTH(dt);
  if (!possible(scode(x), scode(to))) return C_NEVER;
  if (nx > nt) return C_NEVER;
  for (long k = 1; k < nx; k++) if (INTEGER(dx)[k] != INTEGER(dt)[k] && INTEGER(dx)[k] != 1) return C_NEVER;
  int lossy = 0; for (long i = 0; i < XLENGTH(x); i++) lossy |= cast_el(x, i, scode(to)) == 2;
  return (int)SEL(lossy, C_LOSSY, C_OK);
}
static void cast_val(SEXP x, SEXP to, SEXP r) {
  const char *t = "cast: type and shape of the target", *v = "cast: every element keeps its value";
  if (x == R_NilValue || to == R_NilValue) { ASSERT(exact(x, r), v); return; }
  int ok = same_shape(to, r) && vsize(r) == vsize(x); ASSERT(ok, t); if (!ok) return;
  long n = vsize(x);
  if (all_na_lgl(x) && TYPEOF(to) != LGLSXP && dims(x) == R_NilValue) { for (long i = 0; i < n; i++) ASSERT(el_missing_value(r, i), v); return; }
  if (is_df(to)) {
    SEXP tn = Rf_getAttrib(to, R_NamesSymbol), rn = Rf_getAttrib(r, R_NamesSymbol); ASSERT(exact(tn, rn), t);
    for (long k = 0; k < XLENGTH(to); k++) { SEXP c = field(x, CHAR(STRING_ELT(tn, k))), rc = VECTOR_ELT(r, k); if (c != R_NilValue) cast_val(c, VECTOR_ELT(to, k), rc); else { ok = same_shape(VECTOR_ELT(to, k), rc) && vsize(rc) == n; ASSERT(ok, t); if (ok) for (long i = 0; i < n; i++) ASSERT(el_missing_value(rc, i), "cast: a column that is not there is missing"); } }
    return;
  }
  // shape: dimensions of size 1 are repeated
  SEXP dx = dims(x), dr = dims(r); long nd = dr == R_NilValue ? 1 : XLENGTH(dr), cells = vcells(r);
  for (long c = 0; c < cells; c++) {
    long rest = c, cx = 0, stride = 1;
    for (long k = 1; k < nd; k++) { long p = rest % INTEGER(dr)[k]; rest /= INTEGER(dr)[k]; long xd = dx != R_NilValue && k < XLENGTH(dx) ? INTEGER(dx)[k] : 1; if (xd != 1) cx += p * stride; stride *= xd; }
    for (long i = 0; i < n; i++) ASSERT(conv(x, cx * n + i, r, c * n + i), v);
  }
}
SEXP S_cast(SEXP x, SEXP to, SEXP r) {
  int f = cast_fate(x, to);
  ASSERT(is_ok(r) == (f == C_OK), "cast: refused exactly when some element cannot be represented");
  if (!is_ok(r)) { ASSERT((f != C_LOSSY) | has_class(r, "vctrs_error_cast_lossy"), "cast: a lossy cast raises the lossy cast error"); ASSERT((f != C_NEVER) | is_df(x) | !has_class(r, "vctrs_error_cast_lossy"), "cast: an impossible cast is not a lossy one"); return R_NilValue; }
  cast_val(x, to, val(r)); return R_NilValue;
}
