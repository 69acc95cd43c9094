#include "common.h"
#include <R_ext/Rdynload.h>
#include <stdbool.h>
// The functions that vctrs offers to other packages' C code, called the way they call them.
#define CC(T, name, ...) T (*f)(__VA_ARGS__) = (T (*)(__VA_ARGS__))R_GetCCallable("vctrs", name)
SEXP S_cc_is_vector(SEXP x) { CC(bool, "obj_is_vector", SEXP); return Rf_ScalarLogical(f(x)); }
SEXP S_cc_is_vector2(SEXP x) { CC(bool, "vec_is_vector", SEXP); return Rf_ScalarLogical(f(x)); }
SEXP S_cc_size(SEXP x) { CC(R_len_t, "short_vec_size", SEXP); return Rf_ScalarInteger(f(x)); }
SEXP S_cc_recycle(SEXP x, SEXP n) { CC(SEXP, "short_vec_recycle", SEXP, R_len_t); return f(x, INTEGER(n)[0]); }
SEXP S_cc_cast(SEXP x, SEXP to) { CC(SEXP, "exp_vec_cast", SEXP, SEXP); return f(x, to); }
SEXP S_cc_chop(SEXP x, SEXP i) { CC(SEXP, "exp_vec_chop", SEXP, SEXP); return f(x, i); }
SEXP S_cc_slice(SEXP x, SEXP i) { CC(SEXP, "exp_vec_slice_impl", SEXP, SEXP); return f(x, i); }
SEXP S_cc_names(SEXP x) { CC(SEXP, "exp_vec_names", SEXP); return f(x); }
SEXP S_cc_set_names(SEXP x, SEXP nm) { CC(SEXP, "exp_vec_set_names", SEXP, SEXP); return f(x, nm); }
static SEXP seq_(SEXP a) { CC(SEXP, "exp_short_compact_seq", R_len_t, R_len_t, bool); int *p = INTEGER(a); return f(p[0], p[1], p[2]); }
SEXP S_cc_slice_seq(SEXP x, SEXP a) { SEXP i = PROTECT(seq_(a)), r = S_cc_slice(x, i); UNPROTECT(1); return r; }
SEXP S_cc_slice_seq2(SEXP x, SEXP a) { // re-initialised in place
  CC(void, "exp_short_init_compact_seq", int *, R_len_t, R_len_t, bool); int *p = INTEGER(a); SEXP z = PROTECT(Rf_allocVector(INTSXP, 3)); INTEGER(z)[0] = 0; INTEGER(z)[1] = 1; INTEGER(z)[2] = 1;
  SEXP i = PROTECT(seq_(z)); f(INTEGER(i), p[0], p[1], p[2]); SEXP r = S_cc_slice(x, i); UNPROTECT(2); return r;
}
