// Fields of records
#include "common.h"
// does the index designate position k (or, k = -1, any)?
static int at(SEXP x, SEXP i, long k) {
  long n = XLENGTH(x), lo = k < 0 ? 0 : k, hi = k < 0 ? n : k + 1;
  if (TYPEOF(i) == INTSXP) { int v = INTEGER(i)[0]; return (v > lo) & (v <= hi); }
  if (TYPEOF(i) == REALSXP) { double v = REAL(i)[0]; return (v >= (double)(lo + 1)) & (v < (double)(hi + 1)); }
  if (TYPEOF(i) == STRSXP) { SEXP s = STRING_ELT(i, 0), nm = Rf_getAttrib(x, R_NamesSymbol); int r = 0; for (long j = lo; j < hi; j++) r |= (STRING_ELT(nm, j) == s) & (s != NA_STRING) & (s != R_BlankString); return r; }
  return 0;
}
SEXP S_field_get(SEXP x, SEXP i, SEXP r) {
  ASSERT(is_ok(r) == at(x, i, -1), "field: refused exactly when there is no such field"); if (!is_ok(r)) return R_NilValue;
  int ok = 0; for (long k = 0; k < XLENGTH(x); k++) if (val(r) == VECTOR_ELT(x, k)) ok |= at(x, i, k);
  ASSERT(ok, "field: the field at that position or of that name"); return R_NilValue;
}
SEXP S_field_set(SEXP x, SEXP i, SEXP v, SEXP r) {
  long n = vsize(VECTOR_ELT(x, 0)); ASSERT(is_ok(r) == (at(x, i, -1) & (vsize(v) == n)), "field: refused exactly when there is no such field or the size differs"); if (!is_ok(r)) return R_NilValue;
  SEXP o = val(r); int ok = TYPEOF(o) == VECSXP && XLENGTH(o) == XLENGTH(x); ASSERT(ok, "field: as many fields as before"); if (!ok) return R_NilValue;
  ASSERT(node_same(ATTRIB(o), ATTRIB(x)), "field: attributes are kept");
  int all = 0; for (long k = 0; k < XLENGTH(x); k++) { int s = at(x, i, k); for (long j = 0; j < XLENGTH(x); j++) s &= obj_same(VECTOR_ELT(o, j), j == k ? v : VECTOR_ELT(x, j)); all |= s; }
  ASSERT(all, "field: the new field, and the other fields as they were");
  return R_NilValue;
}
SEXP S_list_get(SEXP x, SEXP i, SEXP r) { // an element of a list
  ASSERT(is_ok(r) == at(x, i, -1), "list-of: refused exactly when there is no such element"); if (!is_ok(r)) return R_NilValue;
  int ok = 0; for (long k = 0; k < XLENGTH(x); k++) if (val(r) == VECTOR_ELT(x, k)) ok |= at(x, i, k);
  ASSERT(ok, "list-of: the element at that position or of that name"); return R_NilValue;
}
