#include "common.h"
// Filtered sequences: res must be the v[i] with keep[i], in order
static void seq_check(const long *keep, const long *v, const SEXP *nm, long m, SEXP res, int has_names, const char *msg, const char *nmsg) {
  long tot = 0, L = XLENGTH(res);
  for (long i = 0; i < m; i++) tot += keep[i];
  ASSERT(tot == L, msg);
  SEXP rn = Rf_getAttrib(res, R_NamesSymbol);
  ASSERT((rn != R_NilValue) == (has_names != 0), nmsg);
  long pos = 0;
  for (long i = 0; i < m; i++) {
    for (long p = 0; p < L; p++) {
      int here = keep[i] & (pos == p);
      ASSERT(!here | (INTEGER(res)[p] == (int)v[i]), msg);
      if (has_names && rn != R_NilValue) ASSERT(!here | (STRING_ELT(rn, p) == nm[i]), nmsg);
    }
    pos += keep[i];
  }
}
enum { M_PROP = 1, M_REMOVE, M_ERROR };
enum { N_INVERT = 1, N_ERROR, N_IGNORE };
enum { O_ERROR = 1, O_REMOVE, O_EXTEND };
enum { Z_REMOVE = 1, Z_ERROR, Z_IGNORE };
static const char *M = "subscript: locations prescribed by its rules", *NM = "subscript: names follow the selection", *EM = "subscript: refused exactly when the options forbid it";
static int dbl_int(double d) { return (d == d) & (d >= -2147483647.0) & (d <= 2147483647.0) & (d == (double)(int)d); }
// n: integer (may be symbolic); opts = c(missing, negative, oob, zero)
SEXP S_location(SEXP i, SEXP n_, SEXP names, SEXP opts, SEXP r) {
  long n = INTEGER(n_)[0], k = XLENGTH(i); int om = INTEGER(opts)[0], on = INTEGER(opts)[1], oo = INTEGER(opts)[2], oz = INTEGER(opts)[3];
  int ok = is_ok(r); SEXP res = val(r); if (ok) ASSERT(TYPEOF(res) == INTSXP, "subscript: integer locations"); if (ok && TYPEOF(res) != INTSXP) return R_NilValue;
  long keep[16], v[16]; SEXP nm[16]; if (k > 16) return R_NilValue;
  SEXP inm = Rf_getAttrib(i, R_NamesSymbol); int hn = inm != R_NilValue;
  for (long j = 0; j < k; j++) nm[j] = hn ? STRING_ELT(inm, j) : R_NilValue;
  if (TYPEOF(i) == LGLSXP) {
    if (k != n && k != 1) { ASSERT(!ok, EM); return R_NilValue; }
    int err = 0;
    if (om == M_ERROR) for (long j = 0; j < k; j++) err |= LOGICAL(i)[j] == NA_LOGICAL;
    ASSERT(!ok == err, EM); if (!ok) return R_NilValue;
    if (n > 16) return R_NilValue;
    for (long j = 0; j < n; j++) { int x = LOGICAL(i)[k == n ? j : 0]; nm[j] = hn ? STRING_ELT(inm, k == n ? j : 0) : R_NilValue; v[j] = SEL(x == NA_LOGICAL, NA_INTEGER, j + 1); keep[j] = ((x == NA_LOGICAL) & (om == M_PROP)) | (x == 1); }
    // a missing value that was selected keeps the name of its element only when recycled
    long tot = 0, L = XLENGTH(res); for (long j = 0; j < n; j++) tot += keep[j];
    ASSERT(tot == L, M); long pos = 0;
    for (long j = 0; j < n; j++) { for (long p = 0; p < L; p++) ASSERT(!(keep[j] & (pos == p)) | (INTEGER(res)[p] == (int)v[j]), M); pos += keep[j]; }
    SEXP rn = Rf_getAttrib(res, R_NamesSymbol); ASSERT((rn != R_NilValue) == hn || L == 0, NM);
    return R_NilValue;
  }
  if (TYPEOF(i) == STRSXP) {
    int err = names == R_NilValue; SEXP blank = R_BlankString; long m = XLENGTH(names);
    for (long j = 0; j < k; j++) {
      SEXP s = STRING_ELT(i, j); int na = s == NA_STRING; long loc = NA_INTEGER;
      for (long h = m - 1; h >= 0; h--) loc = SEL(STRING_ELT(names, h) == s, h + 1, loc);
      v[j] = SEL(na, NA_INTEGER, loc); keep[j] = !(na & (om == M_REMOVE));
      err |= (s == blank) | (na & (om == M_ERROR)) | (!na & (loc == NA_INTEGER));
    }
    ASSERT(!ok == err, EM); if (!ok) return R_NilValue;
    seq_check(keep, v, nm, k, res, hn, M, NM); return R_NilValue;
  }
  // numbers
  int frac = 0, anyneg = 0, anypos = 0, anyna = 0, anyzero = 0, poob = 0, noob = 0;
  for (long j = 0; j < k; j++) {
    if (TYPEOF(i) == REALSXP) { double d = REAL(i)[j]; int good = dbl_int(d); frac |= !(d != d) & !good; v[j] = SEL(good, (int)d, NA_INTEGER); }
    else v[j] = INTEGER(i)[j];
    int na = v[j] == NA_INTEGER; anyna |= na; anyzero |= v[j] == 0; anyneg |= !na & (v[j] < 0); anypos |= v[j] > 0; poob |= v[j] > n; noob |= !na & (-v[j] > n);
  }
  int err = frac | (anyna & (om == M_ERROR)) | (anyzero & (oz == Z_ERROR)) | (anyneg & (on == N_ERROR)) | (poob & (oo == O_ERROR)) | (noob & (oo != O_REMOVE));
  int inv = anyneg & (on == N_INVERT);
  err |= inv & (anypos | (anyna & (om != M_REMOVE)));
  if (oo == O_EXTEND) { // the positive locations past the end must be n+1..n+c, in any order, each once
    int bad = 0; long c = 0;
    for (long j = 0; j < k; j++) { c += v[j] > n; for (long h = 0; h < j; h++) bad |= (v[j] > n) & (v[j] == v[h]); }
    for (long j = 0; j < k; j++) bad |= v[j] > n + c;
    err |= bad;
  }
  ASSERT(!ok == err, EM); if (!ok) return R_NilValue;
  if (symr_api_pick(inv)) {
    n = symr_api_pick(n); if (n > 16) return R_NilValue;
    long w[16];
    for (long l = 0; l < n; l++) { int ex = 0; for (long j = 0; j < k; j++) ex |= v[j] == -(l + 1); keep[l] = !ex; w[l] = l + 1; }
    seq_check(keep, w, nm, n, res, 0, M, NM); return R_NilValue;
  }
  for (long j = 0; j < k; j++) {
    int na = v[j] == NA_INTEGER, oob = !na & ((v[j] > n) | (-v[j] > n));
    keep[j] = !(na & (om == M_REMOVE)) & !((v[j] == 0) & (oz == Z_REMOVE)) & !(oob & (oo == O_REMOVE));
  }
  seq_check(keep, v, nm, k, res, hn, M, NM);
  return R_NilValue;
}
// a single location: an integer, never missing unless asked
SEXP S_location2(SEXP i, SEXP n_, SEXP names, SEXP opts, SEXP r) {
  long n = INTEGER(n_)[0]; int om = INTEGER(opts)[0], on = INTEGER(opts)[1]; int ok = is_ok(r);
  int err; long v;
  if (TYPEOF(i) == STRSXP) { v = NA_INTEGER; SEXP s = STRING_ELT(i, 0); for (long h = XLENGTH(names) - 1; h >= 0; h--) v = SEL(STRING_ELT(names, h) == s, h + 1, v); err = (s == R_BlankString) | ((s != NA_STRING) & (v == NA_INTEGER)); v = SEL(s == NA_STRING, NA_INTEGER, v); }
  else { double d = TYPEOF(i) == REALSXP ? REAL(i)[0] : INTEGER(i)[0] == NA_INTEGER ? NA_REAL : INTEGER(i)[0]; int good = dbl_int(d); err = !(d != d) & !good; v = good ? (int)d : NA_INTEGER; }
  int na = v == NA_INTEGER; err |= XLENGTH(i) != 1; err |= na & (om == M_ERROR); err |= !na & ((v == 0) | (v > n) | (-v > n) | ((v < 0) & (on != N_IGNORE)));
  ASSERT(!ok == err, "location2: refused exactly when not one valid location"); if (!ok) return R_NilValue;
  ASSERT(TYPEOF(val(r)) == INTSXP && XLENGTH(val(r)) == 1 && INTEGER(val(r))[0] == (int)v, "location2: that location");
  return R_NilValue;
}

// Slicing -------------------------------------------------------------------
// res[k] is observation loc[k] of x (1-based), missing where loc[k] is NA; names alongside
SEXP S_slice(SEXP x, SEXP loc, SEXP res) {
  long n = vsize(x), m = XLENGTH(loc);
  const char *s = "slice: size is the number of selected locations", *e = "slice: element k is the selected observation", *na = "slice: a missing location selects a missing observation", *nmsg = "slice: names follow the selection";
  int ok = same_shape(x, res); ASSERT(ok && vsize(res) == m, s); if (!ok || vsize(res) != m) return R_NilValue;
  SEXP xn = is_df(x) || dims(x) != R_NilValue ? R_NilValue : Rf_getAttrib(x, R_NamesSymbol), rn = is_df(x) || dims(x) != R_NilValue ? R_NilValue : Rf_getAttrib(res, R_NamesSymbol);
  ASSERT((xn == R_NilValue) == (rn == R_NilValue), nmsg); int hn = xn != R_NilValue && rn != R_NilValue;
  for (long k = 0; k < m; k++) {
    int l = INTEGER(loc)[k];
    ASSERT(!(l == NA_INTEGER) | el_missing_value(res, k), na);
    if (hn) ASSERT(!(l == NA_INTEGER) | (STRING_ELT(rn, k) == R_BlankString), nmsg);
    for (long j = 0; j < n; j++) { ASSERT(!(l == j + 1) | el_id(res, k, x, j), e); if (hn) ASSERT(!(l == j + 1) | (STRING_ELT(rn, k) == STRING_ELT(xn, j)), nmsg); }
  }
  return R_NilValue;
}
// r is x with value[k] written at loc[k], last write winning, missing locations skipped
SEXP S_assigned(SEXP x, SEXP loc, SEXP value, SEXP r) {
  long n = vsize(x), m = XLENGTH(loc), vs = vsize(value);
  const char *s = "assign: size and type of the vector unchanged", *e = "assign: selected locations hold the value, last one wins", *o = "assign: other observations untouched";
  int ok = same_shape(x, r) && vsize(r) == n; ASSERT(ok, s); if (!ok) return R_NilValue;
  for (long j = 0; j < n; j++) {
    int any = 0;
    for (long k = m - 1; k >= 0; k--) { int h = INTEGER(loc)[k] == j + 1; ASSERT(!(h & !any) | el_id(r, j, value, vs == 1 ? 0 : k), e); any |= h; }
    ASSERT(any | el_id(r, j, x, j), o);
  }
  return R_NilValue;
}
SEXP S_copy(SEXP x) { return Rf_duplicate(x); }
SEXP S_exact(SEXP a, SEXP b, SEXP msg) { ASSERT(exact(a, b), CHAR(STRING_ELT(msg, 0))); return R_NilValue; }
SEXP S_same(SEXP a, SEXP b, SEXP msg) { // equal observations, same storage
  const char *m = CHAR(STRING_ELT(msg, 0));
  if (a == R_NilValue || b == R_NilValue) { ASSERT(a == b, m); return R_NilValue; }
  int ok = same_shape(a, b) && vsize(a) == vsize(b); ASSERT(ok, m); if (!ok) return R_NilValue;
  for (long i = 0; i < vsize(a); i++) ASSERT(el_eq(a, i, b, i), m);
  return R_NilValue;
}
SEXP S_slice_names(SEXP nm, SEXP loc, SEXP out) {
  const char *m = "slice: row names follow the selection"; long k = XLENGTH(loc); if (!k) return R_NilValue; int ok = TYPEOF(out) == STRSXP && XLENGTH(out) == k; ASSERT(ok, m); if (!ok) return R_NilValue;
  for (long j = 0; j < k; j++) { int l = INTEGER(loc)[j]; ASSERT(!(l == NA_INTEGER) | (STRING_ELT(out, j) == R_BlankString), m); for (long h = 0; h < XLENGTH(nm); h++) ASSERT(!(l == h + 1) | (STRING_ELT(out, j) == STRING_ELT(nm, h)), m); }
  return R_NilValue;
}
SEXP S_slice_err(SEXP n_, SEXP i, SEXP ok) { // default rules: NA kept, zeros dropped, all-negative excluded
  long n = INTEGER(n_)[0]; int neg = 0, pos = 0, na = 0, oob = 0;
  for (long j = 0; j < XLENGTH(i); j++) { long v = INTEGER(i)[j]; int m = v == NA_INTEGER; na |= m; neg |= !m & (v < 0); pos |= v > 0; oob |= !m & ((v > n) | (-v > n)); }
  ASSERT(flag(ok) == !(oob | (neg & (pos | na))), "slice: out of bounds or mixed subscripts are refused, others are not"); return R_NilValue;
}
SEXP S_rep(SEXP i, SEXP k) { long n = INTEGER(k)[0]; SEXP r = PROTECT(Rf_allocVector(INTSXP, n)); for (long j = 0; j < n; j++) INTEGER(r)[j] = INTEGER(i)[0]; UNPROTECT(1); return r; }
