// What is a vector, what is a list, and assertions about sizes
#include "common.h"
static int atomic(SEXP x) { switch (TYPEOF(x)) { case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case STRSXP: case RAWSXP: return 1; default: return 0; } }
static int last_is(SEXP x, const char *c) { SEXP k = Rf_getAttrib(x, R_ClassSymbol); return TYPEOF(k) == STRSXP && XLENGTH(k) > 0 && !strcmp(CHAR(STRING_ELT(k, XLENGTH(k) - 1)), c); }
static int only_is(SEXP x, const char *c) { SEXP k = Rf_getAttrib(x, R_ClassSymbol); return TYPEOF(k) == STRSXP && XLENGTH(k) == 1 && !strcmp(CHAR(STRING_ELT(k, 0)), c); }
static int is_list(SEXP x) { return TYPEOF(x) == VECSXP && (!OBJECT(x) || last_is(x, "list") || only_is(x, "AsIs")); }
static int is_vec(SEXP x) { return atomic(x) || (TYPEOF(x) == VECSXP && (!OBJECT(x) || Rf_inherits(x, "list") || Rf_inherits(x, "data.frame") || Rf_inherits(x, "vctrs_rcrd") || Rf_inherits(x, "AsIs"))); }
SEXP S_is_vector(SEXP x, SEXP v, SEXP c) { ASSERT(flag(v) == is_vec(x), "vector: atomic vectors, lists and data frames are vectors, other objects are not"); ASSERT(is_ok(c) == is_vec(x), "vector: the check refuses exactly what is not a vector"); if (!is_ok(c)) ASSERT(has_class(c, "vctrs_error_scalar_type"), "vector: a scalar type error"); return R_NilValue; }
SEXP S_is_list(SEXP x, SEXP v, SEXP c) { ASSERT(flag(v) == is_list(x), "list: bare lists and lists that say so"); ASSERT(is_ok(c) == is_list(x), "list: the check refuses exactly what is not a list"); return R_NilValue; }
SEXP S_all_vectors(SEXP xs, SEXP v, SEXP c) { int a = 1; for (long i = 0; i < XLENGTH(xs); i++) a &= is_vec(VECTOR_ELT(xs, i)); ASSERT(flag(v) == a, "vector: whether every element is a vector"); ASSERT(is_ok(c) == a, "vector: the check refuses exactly lists with an element that is not a vector"); return R_NilValue; }
// size: one integer or double of any value
static int size_is(long s, SEXP size) { if (TYPEOF(size) == INTSXP) return s == (long)INTEGER(size)[0]; return (double)s == REAL(size)[0]; }
SEXP S_check_size(SEXP x, SEXP size, SEXP r) { ASSERT(is_ok(r) == size_is(vsize(x), size), "size: the check refuses exactly other sizes"); return R_NilValue; }
static int whole(SEXP size) { if (TYPEOF(size) == INTSXP) return 1; double d = REAL(size)[0]; int in = (d > -2147483648.0) & (d < 2147483648.0); return (d == d) & (!in | (d == (double)(long)SEL(in, (int)d, 0))); }
SEXP S_check_all_size(SEXP xs, SEXP size, SEXP r) { int a = whole(size); for (long i = 0; i < XLENGTH(xs); i++) { SEXP x = VECTOR_ELT(xs, i); a &= size_is(x == R_NilValue ? 0 : vsize(x), size); } ASSERT(is_ok(r) == a, "size: the check refuses exactly lists with an element of another size"); return R_NilValue; }
// r: xs without the elements of size 0
SEXP S_drop_empty(SEXP xs, SEXP r) {
  long n = XLENGTH(xs), k = 0, m = XLENGTH(r), w = 0; SEXP a = Rf_getAttrib(xs, R_NamesSymbol), b = Rf_getAttrib(r, R_NamesSymbol);
  for (long i = 0; i < n; i++) { SEXP x = VECTOR_ELT(xs, i); w += (x == R_NilValue ? 0 : vsize(x)) != 0; }
  ASSERT(m == w, "empty: as many elements as are not empty"); ASSERT((a == R_NilValue) == (b == R_NilValue), "empty: names are kept");
  for (long i = 0; i < n; i++) {
    SEXP x = VECTOR_ELT(xs, i); int full = symr_api_pick((x == R_NilValue ? 0 : vsize(x)) != 0); if (!full) continue;
    if (k < m) { ASSERT(VECTOR_ELT(r, k) == x, "empty: the other elements are kept, in order"); if (a != R_NilValue && b != R_NilValue) ASSERT(STRING_ELT(b, k) == STRING_ELT(a, i), "empty: names are kept"); } k++;
  }
  return R_NilValue;
}
