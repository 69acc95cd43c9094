// Concrete counterpart of the harness entry points: same R interface, values
// come from a recorded assignment, assertions are evaluated and reported.
#include "expr.h"
#include <string>
#include <vector>
#include <algorithm>
#define R_NO_REMAP
#include <Rinternals.h>
typedef uint64_t u64;
static std::vector<u64> g_vals; static size_t g_next; static std::vector<std::string> g_failed; static long g_asserts; static bool g_assumeBad;
static u64 take(unsigned w, u64 def) { u64 v = g_next < g_vals.size() ? g_vals[g_next] : def; g_next++; return v & mask(w); }
static unsigned bitsFor(u64 k) { unsigned b = 1; while (b < 64 && (k - 1) >> b) b++; return b; }
static u64 rangeVar(u64 k) { u64 v = take(bitsFor(k), 0); if (v >= k) { g_assumeBad = true; v = 0; } return v; }
static u64 pool(const std::vector<u64> &p) { if (p.size() == 1) return p[0]; return p[rangeVar(p.size())]; }
extern "C" {
void symr_api_assert(int c, const char *msg) { g_asserts++; if (!c) g_failed.push_back(msg); }
void symr_api_assume(int c) { if (!c) { g_assumeBad = true; Rf_error("assumption does not hold"); } }
long symr_api_pick(long v) { return v; }
SEXP symr_R_reset(SEXP s) { return R_NilValue; }
SEXP symr_R_int(SEXP x, SEXP at, SEXP full, SEXP lo, SEXP hi, SEXP na) {
  x = PROTECT(Rf_duplicate(x));
  for (int k = 0; k < Rf_length(at); k++) {
    int *p = INTEGER(x) + INTEGER(at)[k];
    if (Rf_asLogical(full)) { *p = (int)take(32, 0); continue; }
    double l = Rf_asReal(lo), h = Rf_asReal(hi); u64 n = (u64)(h - l) + 1;
    if (Rf_asLogical(na) && n < 40) { u64 v = rangeVar(n + 1); *p = v == n ? NA_INTEGER : (int)((int64_t)l + (int64_t)v); continue; }
    u64 v = n > 1 ? rangeVar(n) : 0;
    *p = (int)((int64_t)l + (int64_t)v);
    if (Rf_asLogical(na) && take(1, 0)) *p = NA_INTEGER;
  }
  UNPROTECT(1); return x;
}
SEXP symr_R_lgl(SEXP x, SEXP at, SEXP na) {
  x = PROTECT(Rf_duplicate(x));
  for (int k = 0; k < Rf_length(at); k++) { int *p = LOGICAL(x) + INTEGER(at)[k]; int l[3] = {0, 1, NA_LOGICAL}; *p = l[rangeVar(Rf_asLogical(na) ? 3 : 2)]; }
  UNPROTECT(1); return x;
}
SEXP symr_R_dbl(SEXP x, SEXP at, SEXP pl, SEXP na, SEXP nan) {
  x = PROTECT(Rf_duplicate(x));
  for (int k = 0; k < Rf_length(at); k++) {
    double *p = REAL(x) + INTEGER(at)[k]; u64 b;
    if (TYPEOF(pl) == REALSXP) { std::vector<u64> v; for (int i = 0; i < Rf_length(pl); i++) v.push_back(asu(REAL(pl)[i])); b = pool(v); }
    else b = take(64, 0);
    memcpy(p, &b, 8);
  }
  UNPROTECT(1); return x;
}
SEXP symr_R_i64(SEXP x, SEXP at) { x = PROTECT(Rf_duplicate(x)); for (int k = 0; k < Rf_length(at); k++) { u64 b = take(64, 0); memcpy(REAL(x) + INTEGER(at)[k], &b, 8); } UNPROTECT(1); return x; }
SEXP symr_R_attr(SEXP x, SEXP name, SEXP v) { SEXP r = PROTECT(Rf_shallow_duplicate(x)); Rf_setAttrib(r, Rf_installTrChar(STRING_ELT(name, 0)), v); UNPROTECT(1); return r; }
SEXP symr_R_raw(SEXP x, SEXP at, SEXP pl) {
  x = PROTECT(Rf_duplicate(x)); std::vector<u64> v;
  if (TYPEOF(pl) == RAWSXP) for (int i = 0; i < Rf_length(pl); i++) v.push_back(RAW(pl)[i]);
  for (int k = 0; k < Rf_length(at); k++) RAW(x)[INTEGER(at)[k]] = v.empty() ? take(8, 0) : pool(v);
  UNPROTECT(1); return x; }
SEXP symr_R_str(SEXP raw) { return Rf_ScalarString(Rf_mkCharLenCE((const char *)RAW(raw), Rf_length(raw), CE_UTF8)); }
SEXP symr_R_cpl(SEXP x, SEXP at, SEXP pl) {
  x = PROTECT(Rf_duplicate(x)); std::vector<u64> v; for (int i = 0; i < Rf_length(pl); i++) v.push_back(asu(REAL(pl)[i]));
  for (int k = 0; k < Rf_length(at); k++) for (int j = 0; j < 2; j++) { u64 b = pool(v); memcpy((double *)(COMPLEX(x) + INTEGER(at)[k]) + j, &b, 8); }
  UNPROTECT(1); return x;
}
SEXP symr_R_chr(SEXP x, SEXP at, SEXP pl) {
  x = PROTECT(Rf_duplicate(x)); std::vector<u64> v; for (int i = 0; i < Rf_length(pl); i++) v.push_back(i);
  for (int k = 0; k < Rf_length(at); k++) SET_STRING_ELT(x, INTEGER(at)[k], STRING_ELT(pl, pool(v)));
  UNPROTECT(1); return x;
}
SEXP symr_R_choice(SEXP k) { int n = Rf_asInteger(k); if (n <= 1) return Rf_ScalarInteger(1); return Rf_ScalarInteger((int)rangeVar(n) + 1); }
SEXP symr_R_conc(SEXP x) { return x; }
SEXP symr_R_issym(SEXP x) { return Rf_ScalarLogical(0); }
SEXP symr_R_assert(SEXP c, SEXP msg) { g_asserts++; if (Rf_length(c) != 1 || LOGICAL(c)[0] != 1) g_failed.push_back(CHAR(STRING_ELT(msg, 0))); return R_NilValue; }
SEXP symr_R_set_nrow(SEXP df, SEXP n) {
  df = PROTECT(Rf_shallow_duplicate(df)); SEXP rn = PROTECT(Rf_allocVector(INTSXP, 2)); INTEGER(rn)[0] = NA_INTEGER; INTEGER(rn)[1] = -INTEGER(n)[0];
  for (SEXP a = ATTRIB(df); TYPEOF(a) == LISTSXP; a = CDR(a)) if (TAG(a) == R_RowNamesSymbol) SETCAR(a, rn);
  UNPROTECT(2); return df;
}
SEXP symr_R_load_vals(SEXP v) { g_vals.clear(); for (int i = 0; i < Rf_length(v); i++) g_vals.push_back(strtoull(CHAR(STRING_ELT(v, i)), nullptr, 10)); g_next = 0; g_failed.clear(); g_asserts = 0; g_assumeBad = false; return R_NilValue; }
SEXP symr_R_result() {
  SEXP r = PROTECT(Rf_allocVector(VECSXP, 3)); SEXP f = Rf_allocVector(STRSXP, g_failed.size()); SET_VECTOR_ELT(r, 0, f);
  for (size_t i = 0; i < g_failed.size(); i++) SET_STRING_ELT(f, i, Rf_mkChar(g_failed[i].c_str()));
  SET_VECTOR_ELT(r, 1, Rf_ScalarReal(g_asserts)); SET_VECTOR_ELT(r, 2, Rf_ScalarLogical(g_assumeBad));
  UNPROTECT(1); return r;
}
}
extern "C" {
long symr_api_sel(int c, long a, long b) { return c ? a : b; }
long symr_api_strkey(SEXP x) { const unsigned char *s = (const unsigned char *)CHAR(x); u64 k = 0; int i = 0; for (; i < 7 && s[i]; i++) k = (k << 8) | s[i]; for (; i < 7; i++) k <<= 8; return (long)k; }
}
