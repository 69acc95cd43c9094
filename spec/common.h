// Reference notions used by all specifications: size, equality, order and
// missingness of observations.  Branch-free on vector contents.
#pragma once
#define R_NO_REMAP
#include <Rinternals.h>
#include <R_ext/Rdynload.h>
#include <stdint.h>
#include <string.h>
extern void symr_api_assert(int c, const char *msg);
extern void symr_api_assume(int c);
extern long symr_api_pick(long v);
extern long symr_api_sel(int c, long a, long b);
extern long symr_api_strkey(SEXP s); // order preserving key of a (short) string
#define ASSERT(c, msg) symr_api_assert((c) ? 1 : 0, msg)
#define SEL(c, a, b) symr_api_sel(c, a, b)
#define NOINL __attribute__((noinline))
static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline int d_isnan_any(double d) { return d != d; }
static inline int d_isna(double d) { return (d != d) & ((uint32_t)dbits(d) == 1954u); }
static inline int d_isnan(double d) { return (d != d) & ((uint32_t)dbits(d) != 1954u); }
static inline int d_same(double a, double b) { return (a == b) | (d_isna(a) & d_isna(b)) | (d_isnan(a) & d_isnan(b)); }

static inline SEXP attr(SEXP x, const char *n) { return Rf_getAttrib(x, Rf_install(n)); }
static inline int is_rcrd(SEXP x) { return TYPEOF(x) == VECSXP && Rf_inherits(x, "vctrs_rcrd"); }
static inline int is_df(SEXP x) { return TYPEOF(x) == VECSXP && (Rf_inherits(x, "data.frame") || Rf_inherits(x, "vctrs_rcrd")); } // row-wise types
static inline int is_i64(SEXP x) { return TYPEOF(x) == REALSXP && Rf_inherits(x, "integer64"); }
static inline SEXP dims(SEXP x) { SEXP d = Rf_getAttrib(x, R_DimSymbol); return d; }
// raw row.names attribute (not expanded)
static inline SEXP raw_rn(SEXP x) { for (SEXP a = ATTRIB(x); a != R_NilValue; a = CDR(a)) if (TAG(a) == R_RowNamesSymbol) return CAR(a); return R_NilValue; }
static long vsize(SEXP x);
static inline long df_rows(SEXP x) {
  if (is_rcrd(x)) return XLENGTH(x) ? vsize(VECTOR_ELT(x, 0)) : 0;
  SEXP r = raw_rn(x);
  if (TYPEOF(r) == INTSXP && XLENGTH(r) == 2) { int *p = INTEGER(r); if (p[0] == NA_INTEGER) { long n = p[1]; return n < 0 ? -n : n; } }
  return XLENGTH(r);
}
static long vsize(SEXP x) {
  if (x == R_NilValue) return 0;
  if (is_df(x)) return df_rows(x);
  SEXP d = dims(x); if (d != R_NilValue) return INTEGER(d)[0];
  return XLENGTH(x);
}
// number of cells of one observation of an array
static inline long vcells(SEXP x) { SEXP d = dims(x); if (d == R_NilValue) return 1; long k = 1; for (int i = 1; i < XLENGTH(d); i++) k *= INTEGER(d)[i]; return k; }

static int cell_eq(SEXP x, long i, SEXP y, long j); // same storage type
static int obj_same(SEXP a, SEXP b);
static int cell_eq(SEXP x, long i, SEXP y, long j);
static int cell_na(SEXP x, long i) {
  switch (TYPEOF(x)) {
  case LGLSXP: return LOGICAL(x)[i] == NA_LOGICAL;
  case INTSXP: return INTEGER(x)[i] == NA_INTEGER;
  case REALSXP: if (is_i64(x)) return dbits(REAL(x)[i]) == 0x8000000000000000ull; return d_isnan_any(REAL(x)[i]);
  case CPLXSXP: return d_isnan_any(COMPLEX(x)[i].r) | d_isnan_any(COMPLEX(x)[i].i);
  case STRSXP: return STRING_ELT(x, i) == NA_STRING;
  case VECSXP: return VECTOR_ELT(x, i) == R_NilValue;
  default: return 0;
  }
}
static int cell_nan(SEXP x, long i) { // NaN but not NA
  if (TYPEOF(x) == REALSXP && !is_i64(x)) return d_isnan(REAL(x)[i]);
  return 0;
}
static int cell_eq_bare(SEXP x, long i, SEXP y, long j) { // without regard to class
  if (TYPEOF(x) == REALSXP) return d_same(REAL(x)[i], REAL(y)[j]);
  return cell_eq(x, i, y, j);
}
static int cell_eq(SEXP x, long i, SEXP y, long j) {
  if (TYPEOF(x) != TYPEOF(y)) return 0;
  switch (TYPEOF(x)) {
  case LGLSXP: return LOGICAL(x)[i] == LOGICAL(y)[j];
  case INTSXP: return INTEGER(x)[i] == INTEGER(y)[j];
  case REALSXP: if (is_i64(x)) return dbits(REAL(x)[i]) == dbits(REAL(y)[j]); return d_same(REAL(x)[i], REAL(y)[j]);
  case CPLXSXP: return d_same(COMPLEX(x)[i].r, COMPLEX(y)[j].r) & d_same(COMPLEX(x)[i].i, COMPLEX(y)[j].i);
  case STRSXP: return STRING_ELT(x, i) == STRING_ELT(y, j);
  case RAWSXP: return RAW(x)[i] == RAW(y)[j];
  case VECSXP: return obj_same(VECTOR_ELT(x, i), VECTOR_ELT(y, j));
  default: return x == y;
  }
}
// two objects: same type, length, values and attributes (in the same order)
static int node_same(SEXP x, SEXP y) {
  int r = 1;
  for (; x != R_NilValue && y != R_NilValue && TYPEOF(x) == TYPEOF(y); x = CDR(x), y = CDR(y)) {
    if (TYPEOF(x) != LISTSXP && TYPEOF(x) != LANGSXP) return 0;
    if (TAG(x) != TAG(y)) return 0;
    r &= node_same(ATTRIB(x), ATTRIB(y)) & obj_same(CAR(x), CAR(y));
  }
  return (x == y) & r;
}
static int obj_same(SEXP a, SEXP b) {
  if (a == b) return 1;
  if (TYPEOF(a) != TYPEOF(b)) return 0;
  switch (TYPEOF(a)) {
  case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case STRSXP: case RAWSXP: case VECSXP: case EXPRSXP: break;
  case LISTSXP: case LANGSXP: return node_same(a, b);
  case CLOSXP: return node_same(ATTRIB(a), ATTRIB(b)) & (CLOENV(a) == CLOENV(b)) & obj_same(BODY(a), BODY(b)) & obj_same(FORMALS(a), FORMALS(b));
  default: return 0;
  }
  if (XLENGTH(a) != XLENGTH(b)) return 0;
  int r = node_same(ATTRIB(a), ATTRIB(b));
  for (long i = 0; i < XLENGTH(a); i++) r &= TYPEOF(a) == EXPRSXP ? obj_same(VECTOR_ELT(a, i), VECTOR_ELT(b, i)) : cell_eq_bare(a, i, b, i);
  return r;
}
// cell order: -1/0/1 for non-missing cells
static int cell_lt(SEXP x, long i, SEXP y, long j) {
  switch (TYPEOF(x)) {
  case LGLSXP: return LOGICAL(x)[i] < LOGICAL(y)[j];
  case INTSXP: return INTEGER(x)[i] < INTEGER(y)[j];
  case REALSXP: if (is_i64(x)) return (int64_t)dbits(REAL(x)[i]) < (int64_t)dbits(REAL(y)[j]); return REAL(x)[i] < REAL(y)[j];
  case CPLXSXP: { Rcomplex a = COMPLEX(x)[i], b = COMPLEX(y)[j]; return (a.r < b.r) | ((a.r == b.r) & (a.i < b.i)); }
  case STRSXP: return symr_api_strkey(STRING_ELT(x, i)) < symr_api_strkey(STRING_ELT(y, j));
  case RAWSXP: return RAW(x)[i] < RAW(y)[j];
  default: return 0;
  }
}
// observations -------------------------------------------------------------
static int el_eq(SEXP x, long i, SEXP y, long j) { // missing equals missing
  if (is_df(x)) { int r = 1; for (long k = 0; k < XLENGTH(x); k++) r &= el_eq(VECTOR_ELT(x, k), i, VECTOR_ELT(y, k), j); return r; }
  long c = vcells(x), n = vsize(x), m = vsize(y); int r = 1;
  for (long k = 0; k < c; k++) r &= cell_eq(x, i + k * n, y, j + k * m);
  return r;
}
static int el_na(SEXP x, long i) { // every part missing
  if (is_df(x)) { int r = 1; for (long k = 0; k < XLENGTH(x); k++) r &= el_na(VECTOR_ELT(x, k), i); return r; }
  long c = vcells(x), n = vsize(x); int r = 1;
  for (long k = 0; k < c; k++) r &= cell_na(x, i + k * n);
  return r;
}
static int el_incomplete(SEXP x, long i) { // some part missing
  if (is_df(x)) { int r = 0; for (long k = 0; k < XLENGTH(x); k++) r |= el_incomplete(VECTOR_ELT(x, k), i); return r; }
  long c = vcells(x), n = vsize(x); int r = 0;
  for (long k = 0; k < c; k++) r |= cell_na(x, i + k * n);
  return r;
}
static inline int all_same(SEXP x, SEXP y) { // same size and equal observations
  long n = vsize(x); if (n != vsize(y)) return 0; int r = 1;
  for (long i = 0; i < n; i++) r &= el_eq(x, i, y, i);
  return r;
}
static inline int is_ok(SEXP r) { return LOGICAL(VECTOR_ELT(r, 0))[0]; }
static inline SEXP val(SEXP r) { return VECTOR_ELT(r, 1); }
static inline int has_class(SEXP r, const char *c) { SEXP k = VECTOR_ELT(r, 2); if (TYPEOF(k) != STRSXP) return 0; for (int i = 0; i < XLENGTH(k); i++) if (!strcmp(CHAR(STRING_ELT(k, i)), c)) return 1; return 0; }
static inline int flag(SEXP x) { return LOGICAL(x)[0]; }
static inline int int1(SEXP x) { return INTEGER(x)[0]; }
// leaves: the columns of a (nested) data frame, the columns of arrays -------
typedef struct { SEXP v; long off; } leaf_t;
static long nleaf(SEXP x) { if (is_df(x)) { long n = 0; for (long k = 0; k < XLENGTH(x); k++) n += nleaf(VECTOR_ELT(x, k)); return n; } return vcells(x); }
static leaf_t leaf(SEXP x, long k) {
  if (is_df(x)) for (long c = 0; c < XLENGTH(x); c++) { long m = nleaf(VECTOR_ELT(x, c)); if (k < m) return leaf(VECTOR_ELT(x, c), k); k -= m; }
  leaf_t r = {x, k * vsize(x)}; return r;
}
static int leaf_na(SEXP x, long k, long i) { leaf_t l = leaf(x, k); return cell_na(l.v, l.off + i); }
// order with missing below everything, NaN below NA
static long cell_class(SEXP x, long i) { return SEL(cell_nan(x, i), 0, SEL(cell_na(x, i), 1, 2)); }
static int leaf_eq(SEXP x, SEXP y, long k, long i, long j) { leaf_t a = leaf(x, k), b = leaf(y, k); return cell_eq(a.v, a.off + i, b.v, b.off + j); }
static int leaf_lt(SEXP x, SEXP y, long k, long i, long j) {
  leaf_t a = leaf(x, k), b = leaf(y, k); long p = cell_class(a.v, a.off + i), q = cell_class(b.v, b.off + j);
  return (p < q) | ((p == 2) & (q == 2) & cell_lt(a.v, a.off + i, b.v, b.off + j));
}
#define INTS_OK(res, n, msg) do { ASSERT(TYPEOF(res) == INTSXP && XLENGTH(res) == (n), msg); if (TYPEOF(res) != INTSXP || XLENGTH(res) != (n)) return R_NilValue; } while (0)
#define LGLS_OK(res, n, msg) do { ASSERT(TYPEOF(res) == LGLSXP && XLENGTH(res) == (n), msg); if (TYPEOF(res) != LGLSXP || XLENGTH(res) != (n)) return R_NilValue; } while (0)
static inline SEXP field(SEXP x, const char *n) {
  SEXP nm = Rf_getAttrib(x, R_NamesSymbol);
  for (long i = 0; i < XLENGTH(nm); i++) if (!strcmp(CHAR(STRING_ELT(nm, i)), n)) return VECTOR_ELT(x, i);
  return R_NilValue;
}

// sort order ----------------------------------------------------------------
// position of a cell relative to the numbers: missing first or last, NaN between NA and the numbers (or with NA)
static long ord_class(SEXP x, long i, int first, int nd) {
  int na = cell_na(x, i), nan;
  if (TYPEOF(x) == CPLXSXP) { Rcomplex c = COMPLEX(x)[i]; nan = !(d_isna(c.r) | d_isna(c.i)) & na; } else nan = cell_nan(x, i);
  return SEL(na, SEL(nan, nd ? (first ? 1 : 3) : (first ? 0 : 4), first ? 0 : 4), 2);
}
typedef struct { const int *desc, *small; long nd_, ns; int nan_distinct; } ordopt_t;
static inline ordopt_t ordopt(SEXP desc, SEXP small, SEXP nd) { ordopt_t o = {LOGICAL(desc), LOGICAL(small), XLENGTH(desc), XLENGTH(small), LOGICAL(nd)[0]}; return o; }
// column -> option index: options are per top-level column
static long leaf_col(SEXP x, long k) { if (!is_df(x)) return 0; for (long c = 0; c < XLENGTH(x); c++) { long m = nleaf(VECTOR_ELT(x, c)); if (k < m) return c; k -= m; } return 0; }
static long dbl_class(double d, int first, int nd) { return SEL(d != d, SEL(d_isnan(d), nd ? (first ? 1 : 3) : (first ? 0 : 4), first ? 0 : 4), 2); }
static int ord_cmp_leaf(SEXP x, SEXP y, long k, long i, long j, ordopt_t o, int *eq) {
  leaf_t a = leaf(x, k), b = leaf(y, k); long c = leaf_col(x, k);
  int d = o.desc[o.nd_ == 1 ? 0 : c], s = o.small[o.ns == 1 ? 0 : c], first = s != d;
  if (TYPEOF(a.v) == CPLXSXP) { // real part, then imaginary part; one missing part makes a numeric other part missing
    Rcomplex p = COMPLEX(a.v)[a.off + i], q = COMPLEX(b.v)[b.off + j]; int nd = o.nan_distinct;
    long pr = dbl_class(p.r, first, nd), pi = dbl_class(p.i, first, nd), qr = dbl_class(q.r, first, nd), qi = dbl_class(q.i, first, nd);
    long pr2 = SEL((pr == 2) & (pi != 2), pi, pr), pi2 = SEL((pi == 2) & (pr != 2), pr, pi), qr2 = SEL((qr == 2) & (qi != 2), qi, qr), qi2 = SEL((qi == 2) & (qr != 2), qr, qi);
    int lr = (pr2 < qr2) | ((pr2 == 2) & (qr2 == 2) & (d ? q.r < p.r : p.r < q.r)), er = (pr2 == qr2) & ((pr2 != 2) | (p.r == q.r));
    int li = (pi2 < qi2) | ((pi2 == 2) & (qi2 == 2) & (d ? q.i < p.i : p.i < q.i)), ei = (pi2 == qi2) & ((pi2 != 2) | (p.i == q.i));
    *eq = er & ei; return lr | (er & li);
  }
  long p = ord_class(a.v, a.off + i, first, o.nan_distinct), q = ord_class(b.v, b.off + j, first, o.nan_distinct);
  int v = d ? cell_lt(b.v, b.off + j, a.v, a.off + i) : cell_lt(a.v, a.off + i, b.v, b.off + j);
  *eq = (p == q) & ((p != 2) | cell_eq(a.v, a.off + i, b.v, b.off + j));
  return (p < q) | ((p == 2) & (q == 2) & v);
}
static int ord_lt2(SEXP x, long i, SEXP y, long j, ordopt_t o) { // lexicographic
  int r = 0; for (long k = nleaf(x) - 1; k >= 0; k--) { int e, l = ord_cmp_leaf(x, y, k, i, j, o, &e); r = l | (e & r); } return r;
}
static int ord_eq2(SEXP x, long i, SEXP y, long j, ordopt_t o) { int r = 1; for (long k = nleaf(x) - 1; k >= 0; k--) { int e; ord_cmp_leaf(x, y, k, i, j, o, &e); r &= e; } return r; }

static int el_missing_value(SEXP x, long i) { // the value a missing subscript selects
  if (is_df(x)) { int r = 1; for (long k = 0; k < XLENGTH(x); k++) r &= el_missing_value(VECTOR_ELT(x, k), i); return r; }
  long c = vcells(x), n = vsize(x); int r = 1;
  for (long k = 0; k < c; k++) r &= TYPEOF(x) == RAWSXP ? RAW(x)[i + k * n] == 0 : TYPEOF(x) == REALSXP && !is_i64(x) ? d_isna(REAL(x)[i + k * n]) : cell_na(x, i + k * n);
  return r;
}
// bit for bit the same observation
static int cell_id(SEXP x, long i, SEXP y, long j) {
  if (TYPEOF(x) != TYPEOF(y)) return 0;
  switch (TYPEOF(x)) {
  case REALSXP: return dbits(REAL(x)[i]) == dbits(REAL(y)[j]);
  case CPLXSXP: return (dbits(COMPLEX(x)[i].r) == dbits(COMPLEX(y)[j].r)) & (dbits(COMPLEX(x)[i].i) == dbits(COMPLEX(y)[j].i));
  default: return cell_eq(x, i, y, j);
  }
}
static int el_id(SEXP x, long i, SEXP y, long j) {
  if (is_df(x)) { int r = 1; for (long k = 0; k < XLENGTH(x); k++) r &= el_id(VECTOR_ELT(x, k), i, VECTOR_ELT(y, k), j); return r; }
  long c = vcells(x), n = vsize(x), m = vsize(y); int r = 1;
  for (long k = 0; k < c; k++) r &= cell_id(x, i + k * n, y, j + k * m);
  return r;
}
static int same_shape(SEXP a, SEXP b) {
  if (TYPEOF(a) != TYPEOF(b)) return 0;
  if (is_df(a)) { if (XLENGTH(a) != XLENGTH(b)) return 0; int r = 1; for (long k = 0; k < XLENGTH(a); k++) r &= same_shape(VECTOR_ELT(a, k), VECTOR_ELT(b, k)) && vsize(VECTOR_ELT(a, k)) == vsize(a) && vsize(VECTOR_ELT(b, k)) == vsize(b); return r; }
  return vcells(a) == vcells(b);
}
static int exact(SEXP a, SEXP b) { // same data, bit for bit (NaN payloads aside), recursively
  if (a == b) return 1;
  if (TYPEOF(a) != TYPEOF(b)) return 0;
  switch (TYPEOF(a)) { case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case STRSXP: case RAWSXP: case VECSXP: break; default: return 0; }
  if (XLENGTH(a) != XLENGTH(b)) return 0;
  int r = 1;
  for (long i = 0; i < XLENGTH(a); i++) {
    if (TYPEOF(a) == VECSXP) r &= exact(VECTOR_ELT(a, i), VECTOR_ELT(b, i));
    else if (TYPEOF(a) == REALSXP) r &= dbits(REAL(a)[i]) == dbits(REAL(b)[i]);
    else r &= cell_eq(a, i, b, i);
  }
  return r;
}
// value of x[i] carried to r[j] of another type
static int conv(SEXP x, long i, SEXP r, long j) {
  if (TYPEOF(x) == TYPEOF(r)) return cell_id(x, i, r, j);
  if (cell_na(x, i)) { // missing stays missing
    if (TYPEOF(r) == CPLXSXP) return d_isnan_any(COMPLEX(r)[j].r) & (TYPEOF(x) != REALSXP || d_isna(COMPLEX(r)[j].r) == d_isna(REAL(x)[i])); // NaN stays distinct from missing
    return TYPEOF(r) == RAWSXP ? RAW(r)[j] == 0 : TYPEOF(r) == REALSXP && TYPEOF(x) != REALSXP && !is_i64(r) ? d_isna(REAL(r)[j]) : cell_na(r, j);
  }
  double d = TYPEOF(x) == REALSXP ? REAL(x)[i] : (TYPEOF(x) == INTSXP || TYPEOF(x) == LGLSXP) ? (double)INTEGER(x)[i] : 0;
  switch (TYPEOF(r)) {
  case LGLSXP: return (LOGICAL(r)[j] != NA_LOGICAL) & ((double)LOGICAL(r)[j] == d) & ((LOGICAL(r)[j] == 0) | (LOGICAL(r)[j] == 1));
  case INTSXP: return (INTEGER(r)[j] != NA_INTEGER) & ((double)INTEGER(r)[j] == d);
  case REALSXP: return dbits(REAL(r)[j]) == dbits(d);
  case CPLXSXP: return (COMPLEX(r)[j].r == d) & (COMPLEX(r)[j].i == 0);
  }
  return 0;
}
