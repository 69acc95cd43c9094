// Restoration: the data, names and dimensions of one vector, the other attributes of another
#include "common.h"
static int shape_attr(SEXP tag) { return tag == R_NamesSymbol || tag == R_DimSymbol || tag == R_DimNamesSymbol || tag == R_RowNamesSymbol; }
static SEXP raw_attr(SEXP x, SEXP tag) { for (SEXP a = ATTRIB(x); a != R_NilValue; a = CDR(a)) if (TAG(a) == tag) return CAR(a); return R_NilValue; }
static int cells_same(SEXP a, SEXP b, long i) {
  switch (TYPEOF(a)) {
  case REALSXP: return dbits(REAL(a)[i]) == dbits(REAL(b)[i]);
  case CPLXSXP: return (dbits(COMPLEX(a)[i].r) == dbits(COMPLEX(b)[i].r)) & (dbits(COMPLEX(a)[i].i) == dbits(COMPLEX(b)[i].i));
  case VECSXP: return obj_same(VECTOR_ELT(a, i), VECTOR_ELT(b, i));
  default: return cell_eq_bare(a, i, b, i);
  }
}
// out: the data, names, dim and dimnames of x and the other attributes of to
SEXP S_restored(SEXP x, SEXP to, SEXP out) {
  int ok = TYPEOF(out) == TYPEOF(x) && XLENGTH(out) == XLENGTH(x); ASSERT(ok, "restore: the type and length of the data"); if (!ok) return R_NilValue;
  for (long i = 0; i < XLENGTH(x); i++) ASSERT(cells_same(x, out, i), "restore: the data itself is not changed");
  int df = TYPEOF(out) == VECSXP && Rf_inherits(to, "data.frame"), arr = raw_attr(x, R_DimSymbol) != R_NilValue;
  SEXP nm = raw_attr(x, R_NamesSymbol);
  if (df && nm == R_NilValue) { SEXP o = raw_attr(out, R_NamesSymbol); int e = TYPEOF(o) == STRSXP && XLENGTH(o) == XLENGTH(x); if (e) for (long i = 0; i < XLENGTH(x); i++) e &= STRING_ELT(o, i) == R_BlankString; ASSERT(e, "restore: unnamed columns have empty names"); }
  else ASSERT(obj_same(raw_attr(out, R_NamesSymbol), arr ? R_NilValue : nm), "restore: the names of the data");
  ASSERT(obj_same(raw_attr(out, R_DimSymbol), raw_attr(x, R_DimSymbol)), "restore: the dimensions of the data");
  ASSERT(obj_same(raw_attr(out, R_DimNamesSymbol), raw_attr(x, R_DimNamesSymbol)), "restore: the dimension names of the data");
  if (!df) ASSERT(raw_attr(out, R_RowNamesSymbol) == R_NilValue, "restore: row names are only for data frames");
  for (SEXP a = ATTRIB(to); a != R_NilValue; a = CDR(a)) if (!shape_attr(TAG(a))) ASSERT(obj_same(raw_attr(out, TAG(a)), CAR(a)), "restore: the attributes of the target");
  for (SEXP a = ATTRIB(out); a != R_NilValue; a = CDR(a)) if (!shape_attr(TAG(a))) ASSERT(obj_same(CAR(a), raw_attr(to, TAG(a))), "restore: no attribute the target does not have");
  ASSERT(OBJECT(out) == OBJECT(to), "restore: the class bit of the target"); ASSERT(!IS_S4_OBJECT(to) == !IS_S4_OBJECT(out), "restore: the S4 bit of the target");
  return R_NilValue;
}
// out: the data of x, names or dimensions of x, no other attribute
SEXP S_bare_data(SEXP x, SEXP out) {
  int ok = TYPEOF(out) == TYPEOF(x) && XLENGTH(out) == XLENGTH(x); ASSERT(ok, "data: the type and length of the vector"); if (!ok) return R_NilValue;
  for (long i = 0; i < XLENGTH(x); i++) ASSERT(cells_same(x, out, i), "data: the data itself is not changed");
  for (SEXP a = ATTRIB(out); a != R_NilValue; a = CDR(a)) ASSERT(shape_attr(TAG(a)), "data: no attribute but names and dimensions");
  int arr = raw_attr(x, R_DimSymbol) != R_NilValue;
  if (!arr) ASSERT(obj_same(raw_attr(out, R_NamesSymbol), raw_attr(x, R_NamesSymbol)), "data: the names are kept");
  ASSERT(obj_same(raw_attr(out, R_DimSymbol), raw_attr(x, R_DimSymbol)) && obj_same(raw_attr(out, R_DimNamesSymbol), raw_attr(x, R_DimNamesSymbol)), "data: the dimensions are kept");
  ASSERT(!OBJECT(out) && !IS_S4_OBJECT(out), "data: no class");
  return R_NilValue;
}
SEXP S_row_names(SEXP x, SEXP out, SEXP msg) { ASSERT(obj_same(raw_attr(x, R_RowNamesSymbol), raw_attr(out, R_RowNamesSymbol)), CHAR(STRING_ELT(msg, 0))); return R_NilValue; }
