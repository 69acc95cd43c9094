// Inputs are what they were: data, names and every attribute.
#include "common.h"
static int same_all(SEXP a, SEXP b) {
  if (a == b) return 1;
  if (TYPEOF(a) != TYPEOF(b)) return 0;
  int r = 1;
  switch (TYPEOF(a)) {
  case LISTSXP: {
    SEXP p = a, q = b;
    for (; p != R_NilValue && q != R_NilValue; p = CDR(p), q = CDR(q)) { if (TAG(p) != TAG(q)) return 0; r &= same_all(CAR(p), CAR(q)); }
    return p == q ? r : 0;
  }
  case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case STRSXP: case RAWSXP: case VECSXP: break;
  default: return 0;
  }
  if (XLENGTH(a) != XLENGTH(b) || OBJECT(a) != OBJECT(b)) return 0;
  for (long i = 0; i < XLENGTH(a); i++) {
    switch (TYPEOF(a)) {
    case VECSXP: r &= same_all(VECTOR_ELT(a, i), VECTOR_ELT(b, i)); break;
    case REALSXP: r &= dbits(REAL(a)[i]) == dbits(REAL(b)[i]); break;
    case CPLXSXP: r &= (dbits(COMPLEX(a)[i].r) == dbits(COMPLEX(b)[i].r)) & (dbits(COMPLEX(a)[i].i) == dbits(COMPLEX(b)[i].i)); break;
    default: r &= cell_eq(a, i, b, i);
    }
  }
  return r & same_all(ATTRIB(a), ATTRIB(b));
}
SEXP S_unchanged(SEXP x, SEXP y, SEXP msg) { ASSERT(same_all(x, y), CHAR(STRING_ELT(msg, 0))); return R_NilValue; }
