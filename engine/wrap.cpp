// Wrappers for the R API functions through which symbolic data flows, and the
// entry points used by harnesses.
#include "runtime.h"
#include <unistd.h>
#include <ctype.h>
#include <cmath>
#include <dlfcn.h>
#include <sys/mman.h>
#define R_NO_REMAP
#define USE_RINTERNALS
#include <Rinternals.h>
#include <R_ext/Rdynload.h>
typedef uintptr_t up;
static size_t eltsize(SEXP x) {
  switch (TYPEOF(x)) { case LGLSXP: case INTSXP: return 4; case REALSXP: return 8; case CPLXSXP: return 16; case RAWSXP: return 1; case STRSXP: case VECSXP: return 8; default: return 0; }
}
static bool isAtomicVec(SEXP x) { switch (TYPEOF(x)) { case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case RAWSXP: case STRSXP: return true; default: return false; } }
static void *dptr(SEXP x) {
  switch (TYPEOF(x)) { case LGLSXP: return LOGICAL(x); case INTSXP: return INTEGER(x); case REALSXP: return REAL(x); case CPLXSXP: return COMPLEX(x); case RAWSXP: return RAW(x);
  case STRSXP: return (void *)STRING_PTR_RO(x); default: return nullptr; }
}
static bool vecSym(SEXP x) { return isAtomicVec(x) && !ALTREP(x) && Rf_xlength(x) && shAny((up)dptr(x), Rf_xlength(x) * eltsize(x)); }
static void concVec(SEXP x, const char *why) {
  if (!g_on) return;
  if (TYPEOF(x) == VECSXP) { for (R_xlen_t i = 0; i < Rf_xlength(x); i++) concVec(VECTOR_ELT(x, i), why); return; }
  if (!vecSym(x)) return;
  size_t es = eltsize(x), n = Rf_xlength(x) * (es == 16 ? 2 : 1); if (es == 16) es = 8;
  char *p = (char *)dptr(x);
  for (size_t i = 0; i < n; i++) {
    u64 v = 0; memcpy(&v, p + i * es, es);
    Expr *e = shGet((up)p + i * es, es);
    if (e && e->op != OP_CONST) { if (e->val == v) concretizeE(e, v, why, 0); shClear((up)p + i * es, es); }
  }
}
static void concAll(SEXP x, const char *why) { concVec(x, why); for (SEXP a = ATTRIB(x); TYPEOF(a) == LISTSXP; a = CDR(a)) concVec(CAR(a), why); }
static void copyShadow(SEXP from, SEXP to, int depth = 0) {
  if (from == to || depth > 12 || TYPEOF(from) != TYPEOF(to)) return;
  if (TYPEOF(from) == VECSXP) {
    R_xlen_t n = std::min(Rf_xlength(from), Rf_xlength(to));
    for (R_xlen_t i = 0; i < n; i++) copyShadow(VECTOR_ELT(from, i), VECTOR_ELT(to, i), depth + 1);
  } else if (isAtomicVec(from) && !ALTREP(from) && !ALTREP(to)) {
    size_t n = std::min(Rf_xlength(from), Rf_xlength(to)) * eltsize(from);
    if (n && (shAny((up)dptr(from), n) || shAny((up)dptr(to), n))) shCopy((up)dptr(to), (up)dptr(from), n);
  } else if (TYPEOF(from) == LISTSXP) { if (CAR(from) != CAR(to)) copyShadow(CAR(from), CAR(to), depth + 1); copyShadow(CDR(from), CDR(to), depth + 1); return; }
  else return;
  SEXP a = ATTRIB(from), b = ATTRIB(to);
  while (TYPEOF(a) == LISTSXP && TYPEOF(b) == LISTSXP) { if (TAG(a) == TAG(b)) copyShadow(CAR(a), CAR(b), depth + 1); a = CDR(a); b = CDR(b); }
}
static size_t len(SEXP x) { return Rf_xlength(x); }

extern "C" {
#define PTRW(RT, NAME, ES) RT symr_w_##NAME(SEXP x) { argConc(0, (u64)x); RT p = NAME(x); region((void *)p, len(x) * ES); return p; }
PTRW(int *, INTEGER, 4) PTRW(const int *, INTEGER_RO, 4) PTRW(int *, LOGICAL, 4) PTRW(const int *, LOGICAL_RO, 4)
PTRW(double *, REAL, 8) PTRW(const double *, REAL_RO, 8) PTRW(Rcomplex *, COMPLEX, 16) PTRW(const Rcomplex *, COMPLEX_RO, 16)
PTRW(Rbyte *, RAW, 1) PTRW(const Rbyte *, RAW_RO, 1) PTRW(SEXP *, STRING_PTR, 8) PTRW(const SEXP *, STRING_PTR_RO, 8)
PTRW(const void *, DATAPTR_RO, eltsize(x)) 
void *STDVEC_DATAPTR(SEXP);
PTRW(void *, STDVEC_DATAPTR, eltsize(x))

SEXP symr_w_STRING_ELT(SEXP x, R_xlen_t i) {
  argConc(0, (u64)x); Expr *ei = argShadow(1, i);
  if (ALTREP(x)) { if (ei) concretizeE(ei, i, wfn(), wsite()); return STRING_ELT(x, i); }
  SEXP r = STRING_ELT(x, i);
  if (!g_on) return r;
  const SEXP *p = STRING_PTR_RO(x); region((void *)p, len(x) * 8);
  Expr *sa = ei ? mk(OP_ADD, 64, mk(OP_MUL, 64, ei, mkConst(8, 64)), mkConst((u64)p, 64)) : nullptr;
  setRet(__symr_load((up)(p + i), sa, 8, (u64)r, wfn(), wsite()));
  return r;
}
void symr_w_SET_STRING_ELT(SEXP x, R_xlen_t i, SEXP v) {
  argConc(0, (u64)x); Expr *ei = argShadow(1, i), *ev = argShadow(2, (u64)v);
  if (g_on && !ALTREP(x)) {
    const SEXP *p = STRING_PTR_RO(x); region((void *)p, len(x) * 8);
    Expr *sa = ei ? mk(OP_ADD, 64, mk(OP_MUL, 64, ei, mkConst(8, 64)), mkConst((u64)p, 64)) : nullptr;
    __symr_store((up)(p + i), sa, 8, ev, (u64)v, wfn(), wsite());
  }
  SET_STRING_ELT(x, i, v);
}
static const u64 ALLOC_MAX = 256;
static void boundAlloc(Expr *n, u64 v) {
  if (!n) return;
  n = resolve(n); if (n->op == OP_CONST) return;
  Expr *small = mk(OP_ULE, 1, n, mkConst(ALLOC_MAX, n->w));
  branchOn(small, "alloc-bound", 0);
  if (v > ALLOC_MAX) { st.allocBounded++; endPath("alloc bound"); }
  concretizeE(n, v, "alloc", 0);
}
SEXP symr_w_Rf_allocVector(SEXPTYPE t, R_xlen_t n) {
  argConc(0, t); boundAlloc(argShadow(1, n), n);
  SEXP x = Rf_allocVector(t, n);
  if (g_on && n) { void *p = TYPEOF(x) == VECSXP ? (void *)STRING_PTR_RO : nullptr; (void)p; if (isAtomicVec(x)) { void *d = dptr(x); shClear((up)d, len(x) * eltsize(x)); region(d, len(x) * eltsize(x)); } }
  return x;
}
char *symr_w_R_alloc(size_t n, int s) {
  boundAlloc(argShadow(0, n), n); argConc(1, s);
  char *p = R_alloc(n, s); if (g_on) { shClear((up)p, n * s); region(p, n * s); } return p;
}
SEXP symr_w_Rf_ScalarInteger(int v) { Expr *e = argShadow(0, (unsigned)v); SEXP x = Rf_ScalarInteger(v); if (e && g_on) shPut((up)INTEGER(x), e, 4); return x; }
SEXP symr_w_Rf_ScalarReal(double v) { Expr *e = argShadow(0, asu(v)); SEXP x = Rf_ScalarReal(v); if (e && g_on) shPut((up)REAL(x), e, 8); return x; }
SEXP symr_w_Rf_ScalarLogical(int v) { argConc(0, (unsigned)v); return Rf_ScalarLogical(v); }
SEXP symr_w_Rf_ScalarString(SEXP v) { Expr *e = argShadow(0, (u64)v); SEXP x = Rf_ScalarString(v); if (e && g_on) shPut((up)STRING_PTR_RO(x), e, 8); return x; }
SEXP symr_w_Rf_duplicate(SEXP x) { argConc(0, (u64)x); SEXP r = Rf_duplicate(x); if (g_on) copyShadow(x, r); return r; }
SEXP symr_w_Rf_shallow_duplicate(SEXP x) { argConc(0, (u64)x); SEXP r = Rf_shallow_duplicate(x); if (g_on) copyShadow(x, r); return r; }
static SEXP lengthened(SEXP x, SEXP r) {
  if (g_on && r != x) {
    copyShadow(x, r);
    SEXP a = Rf_getAttrib(x, R_NamesSymbol), b = Rf_getAttrib(r, R_NamesSymbol);
    if (a != R_NilValue && b != R_NilValue) copyShadow(a, b);
  }
  return r;
}
SEXP symr_w_Rf_lengthgets(SEXP x, R_len_t n) { argConc(0, (u64)x); boundAlloc(argShadow(1, n), n); return lengthened(x, Rf_lengthgets(x, n)); }
SEXP symr_w_Rf_xlengthgets(SEXP x, R_xlen_t n) { argConc(0, (u64)x); boundAlloc(argShadow(1, n), n); return lengthened(x, Rf_xlengthgets(x, n)); }
SEXP symr_w_Rf_coerceVector(SEXP x, SEXPTYPE t) {
  argConc(0, (u64)x); argConc(1, t);
  if (!g_on || !vecSym(x) || TYPEOF(x) == (int)t) { if (g_on && TYPEOF(x) == VECSXP) concAll(x, "coerceVector"); return Rf_coerceVector(x, t); }
  bool il = TYPEOF(x) == LGLSXP || TYPEOF(x) == INTSXP;
  if (!(il && (t == INTSXP || t == REALSXP)) ) { concVec(x, "coerceVector"); return Rf_coerceVector(x, t); }
  SEXP r = Rf_coerceVector(x, t);
  const int *p = TYPEOF(x) == LGLSXP ? LOGICAL(x) : INTEGER(x);
  for (size_t i = 0; i < len(x); i++) {
    Expr *e = shGet((up)(p + i), 4); if (!e || e->op == OP_CONST) continue;
    if (e->val != (unsigned)p[i]) { st.stale++; continue; }
    if (t == INTSXP) shPut((up)(INTEGER(r) + i), e, 4);
    else shPut((up)(REAL(r) + i), mkIte(mk(OP_EQ, 1, e, mkConst(0x80000000u, 32)), mkConst(asu(R_NaReal), 64), mk(OP_SITOFP, 64, e)), 8);
  }
  return r;
}
SEXP symr_w_Rf_setAttrib(SEXP x, SEXP s, SEXP v) {
  argConc(0, (u64)x); argConc(1, (u64)s); argConc(2, (u64)v);
  if (!g_on) return Rf_setAttrib(x, s, v);
  bool free_dims = false; // of an empty array: any dimensions, one of them zero
  if (s == R_DimSymbol && TYPEOF(v) == INTSXP && isAtomicVec(x) && len(x) == 0 && vecSym(v)) {
    bool zero = false;
    for (size_t i = 0; i < len(v); i++) { Expr *e = shGet((up)(INTEGER(v) + i), 4); if (!e || e->op == OP_CONST) { if (INTEGER(v)[i] == 0) zero = true; } }
    if (zero) {
      free_dims = true;
      for (size_t i = 0; i < len(v); i++) { Expr *e = shGet((up)(INTEGER(v) + i), 4); if (e && e->op != OP_CONST) branchOn(mk(OP_SLT, 1, e, mkConst(0, 32)), "dims", (unsigned)i); }
    }
  }
  if ((s == R_DimSymbol && !free_dims) || s == R_DimNamesSymbol) concVec(v, "setAttrib");
  if (s == R_RowNamesSymbol && TYPEOF(v) == INTSXP && vecSym(v)) {
    Expr *e0 = shGet((up)INTEGER(v), 4);
    if (len(v) != 2 || INTEGER(v)[0] != NA_INTEGER || (e0 && e0->op != OP_CONST)) concVec(v, "row.names");
  }
  SEXP r = Rf_setAttrib(x, s, v);
  for (SEXP a = ATTRIB(x); TYPEOF(a) == LISTSXP; a = CDR(a)) if (TAG(a) == s && CAR(a) != v) copyShadow(v, CAR(a));
  return r;
}
SEXP symr_w_Rf_getAttrib(SEXP x, SEXP s) {
  argConc(0, (u64)x); argConc(1, (u64)s);
  if (g_on && s == R_RowNamesSymbol) for (SEXP a = ATTRIB(x); TYPEOF(a) == LISTSXP; a = CDR(a)) if (TAG(a) == s) concVec(CAR(a), "getAttrib row.names");
  return Rf_getAttrib(x, s);
}
SEXP symr_w_Rf_match(SEXP a, SEXP b, int nm) { argConc(0, (u64)a); argConc(1, (u64)b); argConc(2, nm); if (g_on) { concVec(a, "match"); concVec(b, "match"); } return Rf_match(a, b, nm); }
SEXP symr_w_Rf_asCharacterFactor(SEXP x) {
  argConc(0, (u64)x); SEXP lv = Rf_getAttrib(x, R_LevelsSymbol); bool lift = g_on && TYPEOF(x) == INTSXP && vecSym(x) && TYPEOF(lv) == STRSXP && !vecSym(lv) && len(lv) <= 16;
  if (!lift) { if (g_on) concAll(x, "asCharacterFactor"); return Rf_asCharacterFactor(x); }
  int nl = (int)len(lv), *p = INTEGER(x);
  for (size_t i = 0; i < len(x); i++) { // R refuses codes outside the levels
    Expr *e = shGet((up)(p + i), 4); if (!e || e->op == OP_CONST) continue;
    branchOn(mk(OP_OR, 1, mk(OP_EQ, 1, e, mkConst(0x80000000u, 32)), mk(OP_ULT, 1, mk(OP_SUB, 32, e, mkConst(1, 32)), mkConst(nl, 32))), "asCharacterFactor", 0);
  }
  SEXP r = Rf_asCharacterFactor(x);
  for (size_t i = 0; i < len(x); i++) {
    Expr *e = shGet((up)(p + i), 4); if (!e || e->op == OP_CONST) continue;
    Expr *v = mkConst((u64)NA_STRING, 64);
    for (int k = nl; k >= 1; k--) v = mkIte(mk(OP_EQ, 1, e, mkConst(k, 32)), mkConst((u64)STRING_ELT(lv, k - 1), 64), v);
    shPut((up)(STRING_PTR_RO(r) + i), v->op == OP_CONST ? nullptr : v, 8);
  }
  region((void *)STRING_PTR_RO(r), len(r) * 8);
  return r;
}
int symr_w_R_IsNA(double d) {
  Expr *e = argShadow(0, asu(d)); int r = R_IsNA(d);
  if (e && g_on) setRet(mkZext(mk(OP_AND, 1, mk(OP_FUNO, 1, e), mk(OP_EQ, 1, mkExtract(e, 0, 32), mkConst(1954, 32))), 32));
  return r;
}
double symr_w_floor(double d) { Expr *e = argShadow(0, asu(d)); double r = floor(d); if (e && g_on) setRet(mk(OP_FLOOR, 64, e)); return r; }
double symr_w_ceil(double d) { Expr *e = argShadow(0, asu(d)); double r = ceil(d); if (e && g_on) setRet(mk(OP_FCEIL, 64, e)); return r; }
double symr_w_trunc(double d) { Expr *e = argShadow(0, asu(d)); double r = trunc(d); if (e && g_on) setRet(mk(OP_FTRUNC, 64, e)); return r; }
// natives that read the contents of vectors
#define CONC1(RT, NAME) RT symr_w_##NAME(SEXP x) { argConc(0, (u64)x); if (g_on) concAll(x, #NAME); return NAME(x); }
CONC1(int, Rf_asInteger) CONC1(int, Rf_asLogical) CONC1(double, Rf_asReal) CONC1(SEXP, Rf_asChar) CONC1(void, Rf_PrintValue)
int symr_w_INTEGER_ELT(SEXP x, R_xlen_t i) { argConc(0, (u64)x); argConc(1, i); int r = INTEGER_ELT(x, i); if (g_on && !ALTREP(x)) setRet(__symr_load((up)(INTEGER(x) + i), nullptr, 4, (unsigned)r, wfn(), wsite())); return r; }
int symr_w_LOGICAL_ELT(SEXP x, R_xlen_t i) { argConc(0, (u64)x); argConc(1, i); int r = LOGICAL_ELT(x, i); if (g_on && !ALTREP(x)) setRet(__symr_load((up)(LOGICAL(x) + i), nullptr, 4, (unsigned)r, wfn(), wsite())); return r; }
double symr_w_REAL_ELT(SEXP x, R_xlen_t i) { argConc(0, (u64)x); argConc(1, i); double r = REAL_ELT(x, i); if (g_on && !ALTREP(x)) setRet(__symr_load((up)(REAL(x) + i), nullptr, 8, asu(r), wfn(), wsite())); return r; }

// ---------------------------------------------------------------- spec API
void symr_api_assert(int c, const char *msg) {
  Expr *e = argShadow(0, (unsigned)c);
  if (!g_on) return;
  if (!e) { st.asserts++; st.constAsserts++; if (!c) failNow(msg); return; }
  assertE(mkNot(mk(OP_EQ, 1, e, mkConst(0, e->w))), msg);
}
void symr_api_assume(int c) {
  Expr *e = argShadow(0, (unsigned)c);
  if (!g_on) { if (!c) Rf_error("assumption does not hold"); return; }
  if (!e) { if (!c) endPath("assume"); return; }
  assumeE(mkNot(mk(OP_EQ, 1, e, mkConst(0, e->w))), "spec");
}
// concretise (enumerate the values of) v
long symr_api_pick(long v) { Expr *e = argShadow(0, v); if (e && g_on) concretizeE(e, v, wfn(), wsite()); return v; }
}

// ---------------------------------------------------------------- harness entry points
static unsigned bitsFor(u64 k) { unsigned b = 1; while (b < 64 && (k - 1) >> b) b++; return b; } // k values
static Expr *rangeVar(u64 k, u64 def) { // uniform over 0..k-1, null in native mode
  unsigned b = bitsFor(k);
  if (!g_on) g_warmLimit = k;
  Expr *e = newVar(b, def % k, "range");
  if (e && k != (b >= 64 ? 0 : 1ull << b)) assumeE(mk(OP_ULE, 1, e, mkConst(k - 1, b)), "domain");
  if (e && k <= 64) setDomain(e, k);
  return e;
}
static u64 g_def;
static u64 nextDef() { return g_def++; }
static Expr *iteTree(Expr *ix, const std::vector<u64> &v, unsigned w);
static u64 symPool(const std::vector<u64> &pool, unsigned w, Expr **out);
static void symIntElt(int *p, bool full, double lo, double hi, bool na) {
  if (full) {
    Expr *e = newVar(32, nextDef() % 7, "int"); *p = (int)lastVarVal();
    if (e) { if (!na) assumeE(mkNot(mk(OP_EQ, 1, e, mkConst(0x80000000u, 32))), "domain"); shPut((up)p, resolve(e)->op == OP_CONST ? nullptr : e, 4); }
    return;
  }
  u64 k = (u64)(hi - lo) + 1;
  if (na && k < 40) { // one small variable: last value is NA
    std::vector<u64> pool; for (u64 i = 0; i < k; i++) pool.push_back((unsigned)(int)((int64_t)lo + (int64_t)i));
    pool.push_back(0x80000000u); Expr *t; *p = (int)symPool(pool, 32, &t); if (g_on) shPut((up)p, t, 4);
    return;
  }
  Expr *e = k > 1 ? rangeVar(k, nextDef()) : nullptr; u64 v = k > 1 ? lastVarVal() : 0;
  int val = (int)((int64_t)lo + (int64_t)v); Expr *r = nullptr;
  if (g_on && e && k <= 64) { // small domains: table of constants (simplifies well)
    std::vector<u64> pool; for (u64 i = 0; i < k; i++) pool.push_back((unsigned)(int)((int64_t)lo + (int64_t)i));
    r = iteTree(e, pool, 32);
  } else
  if (g_on) r = e ? mk(OP_ADD, 32, e->w > 32 ? mkExtract(e, 0, 32) : mkZext(e, 32), mkConst((u64)(int64_t)lo, 32)) : mkConst((u64)(int64_t)lo, 32);
  if (na) { Expr *n = newVar(1, 0, "na"); bool isna = lastVarVal(); if (g_on) r = mkIte(n, mkConst(0x80000000u, 32), r); if (isna) val = NA_INTEGER; }
  *p = val;
  if (g_on) shPut((up)p, r->op == OP_CONST ? nullptr : r, 4);
}
static Expr *iteTree(Expr *ix, const std::vector<u64> &v, unsigned w) {
  Expr *e = mkConst(v.back(), w);
  for (int i = (int)v.size() - 2; i >= 0; i--) e = mkIte(mk(OP_EQ, 1, ix, mkConst(i, ix->w)), mkConst(v[i], w), e);
  return e;
}
static u64 symPool(const std::vector<u64> &pool, unsigned w, Expr **out) {
  *out = nullptr;
  if (pool.size() == 1) return pool[0];
  Expr *e = rangeVar(pool.size(), nextDef()); u64 i = lastVarVal();
  if (g_on && e) { Expr *t = iteTree(e, pool, w); if (t->op != OP_CONST) *out = t; }
  return pool[i < pool.size() ? i : 0];
}
extern "C" {
SEXP symr_R_reset(SEXP s) { g_def = (u64)Rf_asInteger(s); return R_NilValue; }
// x: fresh vector, at: 0-based positions
SEXP symr_R_int(SEXP x, SEXP at, SEXP full, SEXP lo, SEXP hi, SEXP na) {
  bool on = g_on; g_on = false; x = PROTECT(Rf_duplicate(x)); g_on = on;
  for (int k = 0; k < Rf_length(at); k++) symIntElt(INTEGER(x) + INTEGER(at)[k], Rf_asLogical(full), Rf_asReal(lo), Rf_asReal(hi), Rf_asLogical(na));
  region(INTEGER(x), len(x) * 4);
  UNPROTECT(1); return x;
}
SEXP symr_R_lgl(SEXP x, SEXP at, SEXP na) {
  x = PROTECT(Rf_duplicate(x));
  for (int k = 0; k < Rf_length(at); k++) {
    int *p = LOGICAL(x) + INTEGER(at)[k];
    std::vector<u64> pool{0, 1}; if (Rf_asLogical(na)) pool.push_back(0x80000000u);
    Expr *t; *p = (int)symPool(pool, 32, &t); if (g_on) shPut((up)p, t, 4);
  }
  region(LOGICAL(x), len(x) * 4);
  UNPROTECT(1); return x;
}
// mode 0: any double (na/nan allowed per flags); mode 1: pool
SEXP symr_R_dbl(SEXP x, SEXP at, SEXP pool, SEXP na, SEXP nan) {
  x = PROTECT(Rf_duplicate(x));
  for (int k = 0; k < Rf_length(at); k++) {
    double *p = REAL(x) + INTEGER(at)[k];
    if (TYPEOF(pool) == REALSXP) {
      std::vector<u64> v; for (int i = 0; i < Rf_length(pool); i++) v.push_back(asu(REAL(pool)[i]));
      Expr *e; u64 b = symPool(v, 64, &e); memcpy(p, &b, 8); if (g_on) shPut((up)p, e, 8);
    } else {
      Expr *e = newVar(64, asu((double)(nextDef() % 7)), "dbl"); u64 b = lastVarVal(); memcpy(p, &b, 8);
      if (g_on) {
        Expr *isnan = mk(OP_FUNO, 1, e), *isna = mk(OP_EQ, 1, mkExtract(e, 0, 32), mkConst(1954, 32));
        if (!Rf_asLogical(na)) assumeE(mkNot(mk(OP_AND, 1, isnan, isna)), "domain");
        if (!Rf_asLogical(nan)) assumeE(mkNot(mk(OP_AND, 1, isnan, mkNot(isna))), "domain");
        shPut((up)p, resolve(e)->op == OP_CONST ? nullptr : e, 8);
      }
    }
  }
  region(REAL(x), len(x) * 8);
  UNPROTECT(1); return x;
}
// 64-bit pattern restricted to [lo, hi] as signed integers (bit64)
SEXP symr_R_i64(SEXP x, SEXP at) {
  x = PROTECT(Rf_duplicate(x));
  for (int k = 0; k < Rf_length(at); k++) {
    double *p = REAL(x) + INTEGER(at)[k];
    Expr *e = newVar(64, nextDef() % 7, "i64"); u64 b = lastVarVal(); memcpy(p, &b, 8); if (g_on) shPut((up)p, e, 8);
  }
  region(REAL(x), len(x) * 8);
  UNPROTECT(1); return x;
}
SEXP symr_R_attr(SEXP x, SEXP name, SEXP v) { // shallow copy of x with an attribute set
  bool on = g_on; g_on = false; SEXP r = PROTECT(Rf_shallow_duplicate(x));
  if (on && isAtomicVec(x)) { size_t n = len(x) * eltsize(x); if (n) shClear((up)dptr(r), n); copyShadow(x, r); region(dptr(r), n); }
  Rf_setAttrib(r, Rf_installTrChar(STRING_ELT(name, 0)), v);
  if (on) for (SEXP a = ATTRIB(r); TYPEOF(a) == LISTSXP; a = CDR(a)) if (CAR(a) != v && TAG(a) == Rf_installTrChar(STRING_ELT(name, 0))) copyShadow(v, CAR(a));
  g_on = on; UNPROTECT(1); return r;
}
SEXP symr_R_raw(SEXP x, SEXP at, SEXP pool) {
  x = PROTECT(Rf_duplicate(x));
  if (TYPEOF(pool) == RAWSXP) {
    std::vector<u64> v; for (int i = 0; i < Rf_length(pool); i++) v.push_back(RAW(pool)[i]);
    for (int k = 0; k < Rf_length(at); k++) { Rbyte *p = RAW(x) + INTEGER(at)[k]; Expr *e; *p = (Rbyte)symPool(v, 8, &e); if (g_on) shPut((up)p, e, 1); }
  } else
  for (int k = 0; k < Rf_length(at); k++) { Rbyte *p = RAW(x) + INTEGER(at)[k]; Expr *e = newVar(8, nextDef() % 7, "raw"); *p = lastVarVal(); if (g_on) shPut((up)p, e, 1); }
  region(RAW(x), len(x));
  UNPROTECT(1); return x;
}
// interning compares the text with every string there is; of those only the reserved names of vctrs matter: decide them
static void internFork(const char *p, long n) {
  static const char *special[] = { "...", "NA" };
  for (const char *q : special) {
    if ((long)strlen(q) != n) continue;
    Expr *all = nullptr;
    for (long i = 0; i < n; i++) { Expr *e = shGet((up)p + i, 1); if (!e) { if (p[i] != q[i]) { all = nullptr; break; } continue; } Expr *c = mk(OP_EQ, 1, e, mkConst((unsigned char)q[i], 8)); all = all ? mk(OP_AND, 1, all, c) : c; }
    if (all && all->op != OP_CONST) branchOn(all, "intern", (unsigned)n);
  }
}
SEXP symr_R_str(SEXP raw) { // a string of these (symbolic) bytes
  if (g_on && len(raw)) internFork((const char *)RAW(raw), len(raw));
  SEXP c = PROTECT(Rf_mkCharLenCE((const char *)RAW(raw), len(raw), CE_UTF8));
  if (g_on && len(raw)) { shCopy((up)CHAR(c), (up)RAW(raw), len(raw)); region((void *)CHAR(c), len(raw) + 1); }
  SEXP r = Rf_ScalarString(c); UNPROTECT(1); return r;
}
SEXP symr_R_cpl(SEXP x, SEXP at, SEXP pool) {
  x = PROTECT(Rf_duplicate(x));
  std::vector<u64> v; for (int i = 0; i < Rf_length(pool); i++) v.push_back(asu(REAL(pool)[i]));
  for (int k = 0; k < Rf_length(at); k++) {
    double *p = (double *)(COMPLEX(x) + INTEGER(at)[k]);
    for (int j = 0; j < 2; j++) { Expr *e; u64 b = symPool(v, 64, &e); memcpy(p + j, &b, 8); if (g_on) shPut((up)(p + j), e, 8); }
  }
  region(COMPLEX(x), len(x) * 16);
  UNPROTECT(1); return x;
}
SEXP symr_R_chr(SEXP x, SEXP at, SEXP pool) {
  x = PROTECT(Rf_duplicate(x));
  std::vector<u64> v; for (int i = 0; i < Rf_length(pool); i++) v.push_back((u64)STRING_ELT(pool, i));
  for (int k = 0; k < Rf_length(at); k++) {
    Expr *e; u64 b = symPool(v, 64, &e); SET_STRING_ELT(x, INTEGER(at)[k], (SEXP)b);
    if (g_on) shPut((up)(STRING_PTR_RO(x) + INTEGER(at)[k]), e, 8);
  }
  region((void *)STRING_PTR_RO(x), len(x) * 8);
  UNPROTECT(1); return x;
}
// concrete choice in 1..k, all explored
SEXP symr_R_choice(SEXP k) {
  int n = Rf_asInteger(k);
  if (n <= 1) return Rf_ScalarInteger(1);
  Expr *e = rangeVar(n, nextDef()); u64 v = lastVarVal();
  if (e) concretizeE(e, v, "choice", 0);
  return Rf_ScalarInteger((int)v + 1);
}
SEXP symr_R_warm(SEXP on) { g_warmRandom = Rf_asLogical(on); return R_NilValue; }
SEXP symr_R_warmrun(SEXP harness) { warmLog(CHAR(STRING_ELT(harness, 0))); return R_NilValue; }
SEXP symr_R_conc(SEXP x) { if (g_on) concAll(x, "conc"); return x; }
SEXP symr_R_issym(SEXP x) { return Rf_ScalarLogical(g_on && vecSym(x)); }
SEXP symr_R_assert(SEXP c, SEXP msg) {
  if (!g_on) return R_NilValue;
  const char *m = strdup(CHAR(STRING_ELT(msg, 0)));
  int *p = LOGICAL(c);
  Expr *e = len(c) == 1 ? shGet((up)p, 4) : nullptr;
  if (e && e->op != OP_CONST && e->val == (unsigned)*p) assertE(mkNot(mk(OP_EQ, 1, e, mkConst(0, 32))), m);
  else { st.asserts++; st.constAsserts++; if (len(c) != 1 || *p != 1) failNow(m); }
  return R_NilValue;
}
// row.names c(NA, -n) for a data frame with a symbolic number of rows (x: integer(1) n >= 0)
SEXP symr_R_set_nrow(SEXP df, SEXP n) {
  bool on = g_on; g_on = false; df = PROTECT(Rf_shallow_duplicate(df)); g_on = on;
  SEXP rn = PROTECT(Rf_allocVector(INTSXP, 2)); INTEGER(rn)[0] = NA_INTEGER; INTEGER(rn)[1] = -INTEGER(n)[0];
  Expr *e = g_on ? shGet((up)INTEGER(n), 4) : nullptr;
  if (e && e->op != OP_CONST) shPut((up)(INTEGER(rn) + 1), mk(OP_SUB, 32, mkConst(0, 32), e), 4);
  region(INTEGER(rn), 8);
  for (SEXP a = ATTRIB(df); TYPEOF(a) == LISTSXP; a = CDR(a)) if (TAG(a) == R_RowNamesSymbol) SETCAR(a, rn);
  UNPROTECT(2); return df;
}
static SEXP g_fnlist;
static std::string g_errmsg;
static SEXP runBody(void *d) {
  SEXP call = PROTECT(Rf_lang1(VECTOR_ELT(g_fnlist, *(int *)d)));
  Rf_eval(call, R_GlobalEnv); UNPROTECT(1); return R_NilValue;
}
static SEXP runErr(SEXP cond, void *) {
  g_on = false;
  SEXP call = PROTECT(Rf_lang2(Rf_install("conditionMessage"), cond)); int err = 0;
  SEXP m = R_tryEvalSilent(call, R_GlobalEnv, &err);
  g_errmsg = err || TYPEOF(m) != STRSXP || !Rf_length(m) ? "R error" : CHAR(STRING_ELT(m, 0));
  if (g_errmsg.empty()) g_errmsg = "R error";
  UNPROTECT(1); return R_NilValue;
}
// Duplicates made inside R itself (base replacement functions such as `names<-`) keep their expressions:
// the two duplication functions of libR are entered through a hook, since calls within libR cannot be interposed.
struct Hook { unsigned char *p; unsigned char orig[12], jmp[12]; };
static Hook g_hk[2];
static void hookSet(Hook &h, bool on) { memcpy(h.p, on ? h.jmp : h.orig, 12); }
static SEXP hookRun(Hook &h, SEXP x) {
  hookSet(h, false); SEXP r = ((SEXP(*)(SEXP))h.p)(x); hookSet(h, true);
  if (g_on && r != x) copyShadow(x, r);
  return r;
}
static SEXP hkDup(SEXP x) { return hookRun(g_hk[0], x); }
static SEXP hkShallow(SEXP x) { return hookRun(g_hk[1], x); }
static void hookInstall() {
  void *f[2] = {dlsym(RTLD_DEFAULT, "Rf_duplicate"), dlsym(RTLD_DEFAULT, "Rf_shallow_duplicate")}, *t[2] = {(void *)hkDup, (void *)hkShallow};
  for (int i = 0; i < 2; i++) {
    up pg = (up)f[i] & ~(up)4095;
    if (!f[i] || mprotect((void *)pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) { fprintf(stderr, "symr: no hook on duplicates\n"); continue; }
    Hook &h = g_hk[i]; h.p = (unsigned char *)f[i]; memcpy(h.orig, h.p, 12);
    h.jmp[0] = 0x48; h.jmp[1] = 0xb8; memcpy(h.jmp + 2, &t[i], 8); h.jmp[10] = 0xff; h.jmp[11] = 0xe0;
    hookSet(h, true);
  }
}
SEXP symr_R_explore(SEXP fns, SEXP names, SEXP weights, SEXP cfg, SEXP out) {
  g_fnlist = fns; hookInstall();
  Config C; for (int i = 0; i < Rf_length(names); i++) { C.names.push_back(CHAR(STRING_ELT(names, i))); C.weight.push_back(REAL(weights)[i]); }
  double *c = REAL(cfg); C.workers = c[0]; C.budget = c[1]; C.childTimeout = c[2]; C.seed = c[3]; C.maxFails = c[4]; C.stopOnFail = c[5];
  C.out = CHAR(STRING_ELT(out, 0));
  explore(C, [](int h) -> std::string {
    g_errmsg.clear(); g_def = 0;
    R_tryCatchError(runBody, &h, runErr, nullptr);
    return g_errmsg;
  });
  return R_NilValue;
}
}
// pure natives lifted over small domains
static u64 strkey(u64 p) { const unsigned char *s = (const unsigned char *)CHAR((SEXP)p); u64 k = 0; int i = 0; for (; i < 7 && s[i]; i++) k = (k << 8) | s[i]; for (; i < 7; i++) k <<= 8; return k; }
static bool lift1(u64 v, unsigned w, const std::function<u64(u64)> &f) {
  Expr *e = argShadow(0, v); if (!e || !g_on) return false;
  Expr *r = mapTab(e, nullptr, [&](u64 a, u64) { return f(a); }, w);
  if (!r) { concretizeE(e, v, wfn(), wsite()); return false; }
  setRet(r); return true;
}
extern "C" {
#ifndef LEVELS
int LEVELS(SEXP);
#endif
int symr_w_LEVELS(SEXP x) { lift1((u64)x, 32, [](u64 p) { return (u64)(unsigned)LEVELS((SEXP)p); }); return LEVELS(x); }
int symr_w_Rf_getCharCE(SEXP x) { lift1((u64)x, 32, [](u64 p) { return (u64)(unsigned)Rf_getCharCE((SEXP)p); }); return Rf_getCharCE(x); }
const char *symr_w_R_CHAR(SEXP x) { lift1((u64)x, 64, [](u64 p) { return (u64)CHAR((SEXP)p); }); return CHAR(x); }
const char *symr_w_Rf_translateCharUTF8(SEXP x) { lift1((u64)x, 64, [](u64 p) { return (u64)Rf_translateCharUTF8((SEXP)p); }); return Rf_translateCharUTF8(x); }
size_t symr_w_strlen(const char *x) { lift1((u64)x, 64, [](u64 p) { return (u64)strlen((const char *)p); }); return strlen(x); }
const unsigned short **symr_w___ctype_b_loc(void) { const unsigned short **t = (const unsigned short **)__ctype_b_loc(); if (g_on) region((void *)(*t - 128), 384 * 2); return t; }
// strings made from symbolic bytes keep them (the same bytes: the cache of strings stays valid)
SEXP symr_w_Rf_mkCharLenCE(const char *p, int n, cetype_t e) { argConc(0, (u64)p); argConc(1, (unsigned)n); argConc(2, (unsigned)e); if (g_on && n > 0 && shAny((up)p, n)) internFork(p, n); SEXP r = Rf_mkCharLenCE(p, n, e); if (g_on && n > 0 && shAny((up)p, n)) { shCopy((up)CHAR(r), (up)p, n); region((void *)CHAR(r), n + 1); } return r; }
int symr_w_strcmp(const char *a, const char *b) {
  int r = strcmp(a, b); Expr *ea = argShadow(0, (u64)a), *eb = argShadow(1, (u64)b);
  if (!g_on || (!ea && !eb)) return r;
  if (!ea) ea = mkConst((u64)a, 64); if (!eb) eb = mkConst((u64)b, 64);
  auto sgn = [](int x) { return x < 0 ? -1 : x > 0; };
  Expr *lt = mapTab(ea, eb, [&](u64 x, u64 y) { return (u64)(strcmp((const char *)x, (const char *)y) < 0); }, 1);
  Expr *gt = mapTab(ea, eb, [&](u64 x, u64 y) { return (u64)(strcmp((const char *)x, (const char *)y) > 0); }, 1);
  if (!lt || !gt) { concretizeE(ea, (u64)a, wfn(), wsite()); concretizeE(eb, (u64)b, wfn(), wsite()); return r; }
  setRet(mkIte(lt, mkConst(-1, 32), mkIte(gt, mkConst(1, 32), mkConst(0, 32))));
  return sgn(r);
}
// value-level helpers for specifications
long symr_api_sel(int c, long a, long b) {
  Expr *ec = argShadow(0, (unsigned)c), *ea = argShadow(1, a), *eb = argShadow(2, b);
  long r = c ? a : b;
  if (!g_on) return r;
  if (!ec) { setRet(c ? ea : eb); return r; }
  setRet(mkIte(mkNot(mk(OP_EQ, 1, ec, mkConst(0, ec->w))), ea ? ea : mkConst(a, 64), eb ? eb : mkConst(b, 64)));
  return r;
}
long symr_api_strkey(SEXP s) { lift1((u64)s, 64, strkey); return (long)strkey((u64)s); }
}
