From abaec8d564054d8d2f9d744a07a72c0e4b0f81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 01/26] fix: don't write out of bounds in
 vec_locate_run_bounds()

---
 src/runs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..f40e688 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -63,11 +63,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
   r_ssize loc = compute_iter_loc(size, which);
   const r_ssize step = compute_iter_step(which);
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
+  // Only write at bounds. Once the `n`th bound has been located, `j` is OOB
+  // for the remaining elements of that run.
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
+    if (v_where[loc]) {
+      v_out[j] = loc + 1;
+      j += step;
+    }
     loc += step;
   }
 
-- 
2.43.0


From 57eab92df9eb4b30e7b940de65c49b905d2bee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:27 +0000
Subject: [PATCH 02/26] fix: vec_as_location2() returns an integer for a
 propagated missing string

---
 R/subscript-loc.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 3e529f0..fde5f62 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -236,7 +236,8 @@ vec_as_location2_result <- function(i,
         call = call
       ))
     } else {
-      result <- result(i)
+      # Always a location, even when `i` is a string
+      result <- result(set_names(NA_integer_, names(i)))
     }
     return(result)
   }
-- 
2.43.0


From 352092802142657b137604c85ab864dafb3228bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 03/26] fix: vec_assign() doesn't modify the columns of its
 input when the proxy is a fresh data frame

---
 src/slice-assign.c |  2 +-
 src/slice-assign.h | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/slice-assign.c b/src/slice-assign.c
index 9508f0a..9e78d06 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -33,7 +33,7 @@ r_obj* vec_assign_opts(r_obj* x,
 
   r_obj* proxy = KEEP(vec_proxy(x));
   const enum vctrs_owned owned = vec_owned(proxy);
-  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
+  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, vec_proxy_owned(proxy), &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
 
diff --git a/src/slice-assign.h b/src/slice-assign.h
index ccadf73..0970f72 100644
--- a/src/slice-assign.h
+++ b/src/slice-assign.h
@@ -64,12 +64,19 @@ r_obj* vec_proxy_assign_opts(r_obj* proxy,
                              const enum vctrs_owned owned,
                              const struct vec_assign_opts* opts);
 
+// A fresh data frame proxy generally shares its columns with the original
+// object, so owning the data frame doesn't imply owning its columns
+static inline
+enum vctrs_owned vec_proxy_owned(r_obj* proxy) {
+  return is_data_frame(proxy) ? VCTRS_OWNED_false : vec_owned(proxy);
+}
+
 static inline
 r_obj* vec_proxy_assign(r_obj* proxy,
                         r_obj* index,
                         r_obj* value) {
   struct vec_assign_opts args = { 0 };
-  return vec_proxy_assign_opts(proxy, index, value, vec_owned(proxy), &args);
+  return vec_proxy_assign_opts(proxy, index, value, vec_proxy_owned(proxy), &args);
 }
 
 static inline
@@ -84,7 +91,7 @@ r_obj* vec_proxy_check_assign(r_obj* proxy,
     .value_arg = value_arg,
     .call = call
   };
-  return vec_proxy_assign_opts(proxy, index, value, vec_owned(proxy), &opts);
+  return vec_proxy_assign_opts(proxy, index, value, vec_proxy_owned(proxy), &opts);
 }
 
 r_obj* chr_assign(r_obj* out,
-- 
2.43.0


From e014e1078e14865b6c5cfbbea857e0a6a2781361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 04/26] fix: NaN can be cast to logical when the target is
 unspecified

---
 R/type-bare.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-bare.R b/R/type-bare.R
index 84cf6e4..ba786c9 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -218,7 +218,7 @@ vec_cast.logical.double <- function(x,
     to_arg = to_arg,
     call = call
   )
-  lossy <- !x %in% c(0, 1, NA_real_)
+  lossy <- !x %in% c(0, 1, NA_real_, NaN)
   maybe_lossy_cast(
     out,
     x,
-- 
2.43.0


From b68fdb3a4a45c03355acc3815d761ffcf6e23614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 05/26] fix: vec_locate_matches() applies filters to the values
 matching in all columns

---
 src/decl/match-decl.h |   7 +++
 src/match.c           | 122 +++++++++++++++++++++++-------------------
 2 files changed, 74 insertions(+), 55 deletions(-)

diff --git a/src/decl/match-decl.h b/src/decl/match-decl.h
index 51d8979..f7dbc11 100644
--- a/src/decl/match-decl.h
+++ b/src/decl/match-decl.h
@@ -115,6 +115,13 @@ struct vctrs_match_bounds int_locate_match(int val_needle,
                                            r_ssize loc_lower_bound_o_haystack,
                                            r_ssize loc_upper_bound_o_haystack);
 
+static
+struct vctrs_match_bounds df_locate_filtered_match(const struct poly_df_data* p_haystack,
+                                                   const int* v_o_haystack,
+                                                   const enum vctrs_filter* v_filters,
+                                                   r_ssize loc_lower_match_o_haystack,
+                                                   r_ssize loc_upper_match_o_haystack);
+
 static
 r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* y,
diff --git a/src/match.c b/src/match.c
index 61faff2..7307319 100644
--- a/src/match.c
+++ b/src/match.c
@@ -506,7 +506,6 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack) {
   const enum vctrs_ops op = v_ops[col];
-  const enum vctrs_filter filter = v_filters[col];
   const r_ssize n_col = p_needles->n_col;
 
   const int* v_needles = (const int*) p_needles->v_col_ptr[col];
@@ -697,60 +696,18 @@ void df_locate_matches_recurse(r_ssize col,
   if (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
     // Hit!
 
-    switch (filter) {
-    case VCTRS_FILTER_max: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the max values of this group. That's the upper match of the
-      // haystack and its corresponding lower duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_lower_match_o_haystack = int_locate_lower_duplicate(
-          val_upper_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_min: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the min values of this group. That's the lower match of the
-      // haystack and its corresponding upper duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_upper_match_o_haystack = int_locate_upper_duplicate(
-          val_lower_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_none: {
-      break;
-    }
+    if (any_filters && col == n_col - 1) {
+      // Filters apply to the values matching the needle in all columns, so we
+      // can only apply them once we have finished with the last column.
+      const struct vctrs_match_bounds filtered = df_locate_filtered_match(
+        p_haystack,
+        v_o_haystack,
+        v_filters,
+        loc_lower_match_o_haystack,
+        loc_upper_match_o_haystack
+      );
+      loc_lower_match_o_haystack = filtered.lower;
+      loc_upper_match_o_haystack = filtered.upper;
     }
 
     if (col < n_col - 1) {
@@ -1204,6 +1161,61 @@ struct vctrs_match_bounds int_locate_match(int val_needle,
 
 // -----------------------------------------------------------------------------
 
+// Apply the filters, one column after the other, to the non-empty range of
+// matches `[loc_lower_match_o_haystack, loc_upper_match_o_haystack]` of a needle.
+// Within a nesting container, every column is in increasing order over these
+// matches. The minimum values of a column are the lower match and its upper
+// duplicates, the maximum values are the upper match and its lower duplicates.
+static
+struct vctrs_match_bounds df_locate_filtered_match(const struct poly_df_data* p_haystack,
+                                                   const int* v_o_haystack,
+                                                   const enum vctrs_filter* v_filters,
+                                                   r_ssize loc_lower_match_o_haystack,
+                                                   r_ssize loc_upper_match_o_haystack) {
+  const r_ssize n_col = p_haystack->n_col;
+
+  for (r_ssize col = 0; col < n_col; ++col) {
+    const enum vctrs_filter filter = v_filters[col];
+
+    if (filter == VCTRS_FILTER_none) {
+      continue;
+    }
+
+    const int* v_haystack = (const int*) p_haystack->v_col_ptr[col];
+    const int val_lower_match_haystack = v_haystack[v_o_haystack[loc_lower_match_o_haystack] - 1];
+    const int val_upper_match_haystack = v_haystack[v_o_haystack[loc_upper_match_o_haystack] - 1];
+
+    if (val_lower_match_haystack == val_upper_match_haystack) {
+      continue;
+    }
+
+    if (filter == VCTRS_FILTER_max) {
+      loc_lower_match_o_haystack = int_locate_lower_duplicate(
+        val_upper_match_haystack,
+        v_haystack,
+        v_o_haystack,
+        loc_lower_match_o_haystack,
+        loc_upper_match_o_haystack
+      );
+    } else {
+      loc_upper_match_o_haystack = int_locate_upper_duplicate(
+        val_lower_match_haystack,
+        v_haystack,
+        v_o_haystack,
+        loc_lower_match_o_haystack,
+        loc_upper_match_o_haystack
+      );
+    }
+  }
+
+  return (struct vctrs_match_bounds) {
+    loc_lower_match_o_haystack,
+    loc_upper_match_o_haystack
+  };
+}
+
+// -----------------------------------------------------------------------------
+
 static
 r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* y,
-- 
2.43.0


From f4041b64efb5de1c2c989198a864c08491ac0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 06/26] fix: vec_locate_matches() finds all incomplete needles
 when they have to be reported

---
 src/match.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/match.c b/src/match.c
index 7307319..26b5ce3 100644
--- a/src/match.c
+++ b/src/match.c
@@ -876,12 +876,19 @@ void df_locate_matches_recurse(r_ssize col,
 
   switch (op) {
   case VCTRS_OPS_eq: {
+    // When tracking incomplete needles, we have to visit all of them even if
+    // there aren't any haystack values left to match
+    const bool track_incomplete =
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_error;
+
     do_lhs =
       (loc_lower_duplicate_o_needles > loc_lower_bound_o_needles) &&
-      (loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
+      (track_incomplete || loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
     do_rhs =
       (loc_upper_duplicate_o_needles < loc_upper_bound_o_needles) &&
-      (loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
+      (track_incomplete || loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
 
     // Limit bounds of both needle and haystack using existing info
     if (do_lhs) {
-- 
2.43.0


From 81e0fa5b5c76c8ef2ee5295e38153493a12ecf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 07/26] fix: vec_recycle() refuses a size that is not a single
 number

---
 src/size.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/size.c b/src/size.c
index cc6668b..e75d883 100644
--- a/src/size.c
+++ b/src/size.c
@@ -242,6 +242,12 @@ r_obj* ffi_recycle(r_obj* x,
                            vec_args.empty,
                            vec_args.empty,
                            recycle_call));
+  if (r_length(size_obj) != 1) {
+    r_abort_lazy_call(recycle_call,
+                      "%s must be a single number, not %s.",
+                      r_c_str_format_error_arg("size"),
+                      r_obj_type_friendly_length(size_obj));
+  }
   R_len_t size = r_int_get(size_obj, 0);
   FREE(1);
 
-- 
2.43.0


From 97c590feb8b60b59a917669359c4ccb41e5d8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:13 +0000
Subject: [PATCH 08/26] fix: expanding a grid with an empty input is empty
 whatever the input order

---
 src/expand.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expand.c b/src/expand.c
index e3b7172..ff131e4 100644
--- a/src/expand.c
+++ b/src/expand.c
@@ -63,6 +63,14 @@ r_obj* vec_expand_grid(r_obj* xs,
 
   r_ssize size = 1;
 
+  // An empty input makes the result empty, no matter how large the
+  // intermediate products would be
+  for (r_ssize i = 0; i < n; ++i) {
+    if (v_sizes[i] == 0) {
+      size = 0;
+    }
+  }
+
   for (r_ssize i = 0; i < n; ++i) {
     size = r_ssize_mult(size, v_sizes[i]);
     v_cumulative[i] = size;
-- 
2.43.0


From 005958a61d789dbb10735155ab88fbb5dd129da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 09/26] fix: combining vectors refuses a total size beyond the
 maximum

---
 src/slice.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/slice.c b/src/slice.c
index acced87..fc03fe8 100644
--- a/src/slice.c
+++ b/src/slice.c
@@ -432,6 +432,12 @@ r_obj* vec_init(r_obj* x, r_ssize n) {
                       "%s must be a positive integer.",
                       r_c_str_format_error_arg("n"));
   }
+  if (n > INT_MAX) {
+    r_abort_lazy_call(lazy_calls.vec_init,
+                      "Long vectors are not yet supported. "
+                      "Can't create a vector of size %.0f.",
+                      (double) n);
+  }
 
   r_obj* i = KEEP(compact_rep(r_globals.na_int, n));
   r_obj* out = vec_slice_unsafe(x, i);
-- 
2.43.0


From 91fcbf2b0c88c6186f4921bd4ff4e81e374393e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 10/26] fix: unique name repair never returns the reserved name
 `...`

Stripping the positional suffix off a name such as `......1` left `...`,
which is not a valid unique name.
---
 src/names.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/names.c b/src/names.c
index 5f08908..6dc5365 100644
--- a/src/names.c
+++ b/src/names.c
@@ -297,6 +297,10 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
     int pos = suffix_pos(nm);
     if (pos >= 0) {
       elt = Rf_mkCharLenCE(nm, pos, Rf_getCharCE(elt));
+      // Stripping might leave a reserved name, e.g. `"......1"` -> `"..."`
+      if (needs_suffix(elt)) {
+        elt = strings_empty;
+      }
       r_chr_poke(new_names, i, elt);
       continue;
     }
-- 
2.43.0


From 199c85551ff4eb1d4729beb96d24e823f6d71054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:43 +0000
Subject: [PATCH 11/26] fix: restore the wrapped class of `I()` vectors

vec_restore.AsIs() only put the AsIs class back on the proxy, so slicing,
assigning or combining I(factor), I(Date), I(integer64)... lost the class and
attributes of the wrapped vector.
---
 R/type-asis.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/type-asis.R b/R/type-asis.R
index 8ba2b96..c1a8659 100644
--- a/R/type-asis.R
+++ b/R/type-asis.R
@@ -35,7 +35,9 @@ vec_proxy.AsIs <- function(x, ...) {
 
 #' @export
 vec_restore.AsIs <- function(x, to, ...) {
-  asis_restore(x)
+  to <- asis_strip(to)
+  out <- vec_restore(x, to)
+  asis_restore(out)
 }
 
 #' @export
-- 
2.43.0


From 4f3ae0d8895e39529a1226394221a4bcbbf88963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 12/26] fix: ordering data frames with a complex column after
 three or more tied groups

---
 src/order.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/order.c b/src/order.c
index 51d0615..fe506a8 100644
--- a/src/order.c
+++ b/src/order.c
@@ -3905,9 +3905,6 @@ static void vec_order_chunk_switch(bool decreasing,
       const int loc = p_o_col[j] - 1;                          \
       p_x_chunk_col[j] = cpl_normalise_missing(p_col[loc]).r;  \
     }                                                          \
-                                                               \
-    /* Decrement `i` to rerun column */                        \
-    --i;                                                       \
   } else {                                                     \
     /* Second pass - imaginary */                              \
     for (r_ssize j = 0; j < group_size; ++j) {                 \
@@ -4109,6 +4106,11 @@ void df_order_internal(SEXP x,
       p_o_col += group_size;
     }
 
+    // Decrement `i` to rerun the column once all chunks have been processed
+    if (rerun_complex) {
+      --i;
+    }
+
     // Reset TRUELENGTHs between columns if ordering character vectors.
     // When ordering by appearance, `chr_appearance_counting()` resets the
     // TRUELENGTHs between chunks.
-- 
2.43.0


From 4881f905b37e1bdf2b4043045c11a4c99ea7d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:29 +0000
Subject: [PATCH 13/26] fix: compare the attributes of both objects in equality

vec_equal_attrib() compared the tags of x with themselves and ignored
attributes that only y has, so equality of objects was not symmetric.
---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From ac08013f93272a6228ebb022f3da1d8141ecd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:33 +0000
Subject: [PATCH 14/26] fix: compare argument names in equality of calls,
 pairlists and formals

The tags of language objects were ignored: f(a = 1) and f(b = 1), or
function(a) NULL and function(b) NULL, compared equal and vec_unique()
dropped one of them.
---
 src/equal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..274403f 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -308,6 +308,10 @@ bool equal_object_normalized(SEXP x, SEXP y) {
   case LANGSXP:
   case LISTSXP:
   case BCODESXP: {
+    if (type != BCODESXP && TAG(x) != TAG(y)) {
+      return false;
+    }
+
     if (!equal_object_normalized(ATTRIB(x), ATTRIB(y))) {
       return false;
     }
-- 
2.43.0


From 5ef37a88ac8cf226c8935da7452bd81adc871f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:52 +0000
Subject: [PATCH 15/26] fix: refuse `NaN` as the index of a field or list
 element

`NaN` passed the bounds checks and was converted to an arbitrary offset.
---
 src/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields.c b/src/fields.c
index 5ab2547..f156456 100644
--- a/src/fields.c
+++ b/src/fields.c
@@ -38,7 +38,7 @@ int find_offset(SEXP x, SEXP index) {
   } else if (TYPEOF(index) == REALSXP) {
     double val = REAL(index)[0];
 
-    if (R_IsNA(val))
+    if (ISNAN(val))
       Rf_errorcall(R_NilValue, "Invalid index: NA_real_");
 
     val--;
-- 
2.43.0


From 496965d491e95eeeb026dac2c5d19d871e13d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:52 +0000
Subject: [PATCH 16/26] fix: clear the object bit when restoring to an
 unclassed target

`vec_restore()` dropped the class of `x` but left its OBJECT bit set, so
the result was treated as a scalar.
---
 src/proxy-restore.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/proxy-restore.c b/src/proxy-restore.c
index b6cd48b..b43d191 100644
--- a/src/proxy-restore.c
+++ b/src/proxy-restore.c
@@ -144,9 +144,8 @@ r_obj* vec_restore_default(r_obj* x, r_obj* to, enum vctrs_owned owned) {
     FREE(1);
   }
 
-  if (cls != r_null) {
-    r_attrib_poke(x, r_syms.class_, cls);
-  }
+  // Also clears the OBJECT bit of `x` if `to` is not classed
+  r_attrib_poke(x, r_syms.class_, cls);
 
   if (is_s4) {
     r_mark_s4(x);
-- 
2.43.0


From be6bd36546101830cc527d3d87aa0030d68a7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 17/26] fix: `x[]` returns the record unchanged instead of
 failing

---
 R/type-rcrd.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-rcrd.R b/R/type-rcrd.R
index c457285..a4a3ea0 100644
--- a/R/type-rcrd.R
+++ b/R/type-rcrd.R
@@ -98,7 +98,7 @@ vec_cast.vctrs_rcrd.vctrs_rcrd <- function(x, to, ...) {
   if (!missing(...)) {
     abort("Can't index record vectors on dimensions greater than 1.")
   }
-  vec_slice(x, maybe_missing(i))
+  vec_slice(x, maybe_missing(i, TRUE))
 }
 
 #' @export
-- 
2.43.0


From e22d9262b7e8fab18ac2ef17873b184a61a1a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 18/26] fix: list_unchop() no longer keeps the name of an
 overwritten element

With overlapping indices a later unnamed element overwrote the value at a
location but left the name of the earlier element there.
---
 src/c-unchop.c           | 21 +++++++++++++++++++--
 src/decl/c-unchop-decl.h |  3 +++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 7fc6504..b1ffa0e 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -142,14 +142,19 @@ r_obj* list_unchop(r_obj* xs,
       if (x_nms != r_null) {
         R_LAZY_ALLOC(out_names, out_names_pi, R_TYPE_character, out_size);
 
-        // If there is no name to assign, skip the assignment since
-        // `out_names` already contains empty strings
         if (x_nms != chrs_empty) {
           out_names = chr_assign(out_names, loc, x_nms, VCTRS_OWNED_true);
           KEEP_AT(out_names, out_names_pi);
         }
       }
 
+      // If there is no name to assign, `out_names` normally contains empty
+      // strings already. But an earlier element of `xs` might have named the
+      // same locations if `indices` overlap.
+      if (out_names != r_null && (x_nms == r_null || x_nms == chrs_empty)) {
+        chr_assign_empty(out_names, loc);
+      }
+
       FREE(2);
     }
 
@@ -215,6 +220,18 @@ r_obj* ffi_list_unchop(r_obj* x,
   return out;
 }
 
+static
+void chr_assign_empty(r_obj* x, r_obj* loc) {
+  const r_ssize n = r_length(loc);
+  const int* v_loc = r_int_cbegin(loc);
+
+  for (r_ssize i = 0; i < n; ++i) {
+    if (v_loc[i] != r_globals.na_int) {
+      r_chr_poke(x, v_loc[i] - 1, r_strs.empty);
+    }
+  }
+}
+
 
 // This is essentially:
 // vec_slice_fallback(vec_c_fallback_invoke(!!!x), order(vec_c(!!!indices)))
diff --git a/src/decl/c-unchop-decl.h b/src/decl/c-unchop-decl.h
index 04ed327..3a4fc04 100644
--- a/src/decl/c-unchop-decl.h
+++ b/src/decl/c-unchop-decl.h
@@ -16,3 +16,6 @@ r_obj* list_unchop_fallback(r_obj* ptype,
                             enum fallback_homogeneous homogenous,
                             struct vctrs_arg* p_error_arg,
                             struct r_lazy error_call);
+
+static
+void chr_assign_empty(r_obj* x, r_obj* loc);
-- 
2.43.0


From c37fff3a8596d579d554b2840695075eaaba40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 19/26] fix: missing durations can be added to dates

`vec_arith()` with a date and a missing duration failed with
"missing value where TRUE/FALSE needed" instead of giving a missing date.
---
 R/type-date-time.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1369b67..7894d16 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -578,7 +578,7 @@ chr_date_as_posixct <- function(x, tzone) {
 
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
-  lossy <- x != x_floor
+  lossy <- !is.na(x) & x != x_floor
   maybe_lossy_cast(x_floor, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
 
-- 
2.43.0


From e1b691baae936122fa4ba23328ee0b43c0e19d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:49 +0000
Subject: [PATCH 20/26] fix: casting a duration to other units keeps its names

The cast went through date-time arithmetic, which drops names, while a cast to
the same units keeps them.
---
 R/type-date-time.R | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 7894d16..8a408a0 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -312,9 +312,8 @@ vec_cast.difftime.difftime <- function(x, to, ...) {
     }
     x
   } else {
-    # Hack: I can't see any obvious way of changing the units
-    origin <- as.POSIXct(0, origin = "1970-01-01")
-    difftime(origin, origin - x, units = units(to))
+    units(x) <- units(to)
+    x
   }
 }
 
-- 
2.43.0


From b5bc8878ff55f5bc030144d6c65c2ae14b4d3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:45 +0000
Subject: [PATCH 21/26] fix: `base_c_invoke()` locates empty inputs properly

`seq(n + 1, n + input)` counts down when an input is empty, so that missing
values combined with zero-size vectors that are combined with their `c()`
method ended up with bogus locations.
---
 R/c.R | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/R/c.R b/R/c.R
index 0838809..93b714b 100644
--- a/R/c.R
+++ b/R/c.R
@@ -118,10 +118,7 @@ fallback_is_unspecified <- function(x) {
 }
 
 c_locs <- function(xs) {
-  locs <- reduce(lengths(xs), .init = list(0), function(output, input) {
-    n <- last(last(output))
-    c(output, list(seq(n + 1, n + input)))
-  })
-
-  locs[-1]
+  sizes <- list_sizes(xs)
+  ends <- cumsum(sizes)
+  map2(ends - sizes + 1L, ends, seq2)
 }
-- 
2.43.0


From 84469068a078188bb730b37d51e64c8dff7dfa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:07 +0000
Subject: [PATCH 22/26] fix: data frames with columns that use the `c()`
 fallback combine properly

`vec_c()` combined such columns from the inputs as supplied instead of the
inputs cast to the common type. Columns were then taken by position, which
mixed up unrelated columns or crashed when an input had fewer of them.

Columns missing from an input are now missing values of no particular type
for the `c()` method, which used to be dispatched on an empty logical vector,
and for classes without one, which couldn't be combined with them.
---
 src/c.c           | 36 ++++++++++++++++++++++++++++++++----
 src/decl/c-decl.h |  3 +++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/c.c b/src/c.c
index 8d20628..2af08f5 100644
--- a/src/c.c
+++ b/src/c.c
@@ -109,6 +109,11 @@ r_obj* vec_c_opts(r_obj* xs,
     .call = error_call
   };
 
+  // The columns that need a fallback are combined from the cast inputs
+  const bool df_fallback =
+    fallback_opts->s3 && is_data_frame(ptype) && df_needs_fallback(ptype);
+  r_obj* fallback_xs = KEEP(df_fallback ? r_alloc_list(xs_size) : xs);
+
   for (; i < xs_size; ++i) {
     r_obj* x = r_list_get(xs, i);
     r_ssize size = p_sizes[i];
@@ -134,13 +139,17 @@ r_obj* vec_c_opts(r_obj* xs,
       FREE(2);
     }
 
-    if (!size) {
+    if (!size && (!df_fallback || x == r_null)) {
       continue;
     }
 
     c_cast_opts.x = x;
     x = KEEP(vec_cast_opts(&c_cast_opts));
 
+    if (df_fallback) {
+      r_list_poke(fallback_xs, i, x);
+    }
+
     // Total ownership of `out` because it was freshly created with `vec_init()`
     out = vec_proxy_assign_opts(out, loc, x, VCTRS_OWNED_true, &c_assign_opts);
     KEEP_AT(out, out_pi);
@@ -150,7 +159,7 @@ r_obj* vec_c_opts(r_obj* xs,
   }
 
   if (is_data_frame(out) && fallback_opts->s3) {
-    df_c_fallback(out, ptype, xs, out_size, name_spec, name_repair, error_call);
+    df_c_fallback(out, ptype, fallback_xs, out_size, name_spec, name_repair, error_call);
   }
   out = KEEP(vec_restore_recurse(out, ptype, VCTRS_OWNED_true));
 
@@ -165,7 +174,7 @@ r_obj* vec_c_opts(r_obj* xs,
     out = vec_set_names(out, r_null);
   }
 
-  FREE(8);
+  FREE(9);
   return out;
 }
 
@@ -359,7 +368,7 @@ void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call) {
 }
 
 
-// `ptype` contains fallback information
+// `ptype` contains fallback information. `xs` must have been cast to `ptype`.
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
                    r_obj* xs,
@@ -397,6 +406,9 @@ void df_c_fallback(r_obj* out,
       FREE(1);
     } else if (vec_is_common_class_fallback(ptype_col)) {
       r_obj* xs_col = KEEP(list_pluck(xs, i));
+      if (class_implements_base_c(r_attrib_get(ptype_col, syms_fallback_class))) {
+        fallback_poke_unspecified(xs_col);
+      }
 
       r_obj* out_col = vec_c_fallback(
         ptype_col,
@@ -425,6 +437,22 @@ void df_c_fallback(r_obj* out,
   FREE(n_prot);
 }
 
+// Columns that are missing from an input have been initialised with the
+// fallback class. These are missing values for any type.
+static
+void fallback_poke_unspecified(r_obj* xs) {
+  const r_ssize n = r_length(xs);
+
+  for (r_ssize i = 0; i < n; ++i) {
+    r_obj* x = r_list_get(xs, i);
+
+    if (vec_is_common_class_fallback(x)) {
+      const r_ssize size = r_length(x);
+      r_list_poke(xs, i, size ? vec_init(r_globals.empty_lgl, size) : r_null);
+    }
+  }
+}
+
 static
 bool df_needs_fallback(r_obj* x) {
   r_ssize n_cols = r_length(x);
diff --git a/src/decl/c-decl.h b/src/decl/c-decl.h
index 0cde5aa..f361907 100644
--- a/src/decl/c-decl.h
+++ b/src/decl/c-decl.h
@@ -9,3 +9,6 @@ void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call);
 
 static
 bool df_needs_fallback(r_obj* x);
+
+static
+void fallback_poke_unspecified(r_obj* xs);
-- 
2.43.0


From 41ab7e444873f470675bd39e7c0acef413937728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:07 +0000
Subject: [PATCH 23/26] fix: `list_unchop()` places columns and elements that
 use the `c()` fallback

The indices and the recycling of the inputs were ignored for data frame
columns that are combined with a `c()` method, and `NULL` elements shifted
the locations of vectors that are combined with one.
---
 src/bind.c               |  2 +-
 src/c-unchop.c           | 85 ++++++++++++++++++++++++++--------------
 src/c.c                  | 12 ++++--
 src/c.h                  |  3 ++
 src/decl/c-decl.h        |  3 --
 src/decl/c-unchop-decl.h |  3 ++
 6 files changed, 71 insertions(+), 37 deletions(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..321aad2 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -240,7 +240,7 @@ r_obj* vec_rbind(r_obj* xs,
     r_attrib_poke(out, r_syms.row_names, row_names);
   }
 
-  df_c_fallback(out, ptype, xs, n_rows, name_spec, name_repair, error_call);
+  df_c_fallback(out, ptype, xs, n_rows, r_null, name_spec, name_repair, error_call);
   out = vec_restore_recurse(out, ptype, VCTRS_OWNED_true);
   KEEP_AT(out, out_pi);
 
diff --git a/src/c-unchop.c b/src/c-unchop.c
index b1ffa0e..dcc2ebe 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -111,7 +111,10 @@ r_obj* list_unchop(r_obj* xs,
   struct cast_opts unchop_cast_opts = {
     .to = ptype,
     .p_x_arg = p_x_arg,
-    .call = error_call
+    .call = error_call,
+    .fallback = {
+      .s3 = S3_FALLBACK_true
+    }
   };
 
   const struct vec_assign_opts unchop_assign_opts = {
@@ -121,6 +124,10 @@ r_obj* list_unchop(r_obj* xs,
     .call = error_call
   };
 
+  // The columns that need a fallback are combined from the cast inputs
+  const bool df_fallback = is_data_frame(ptype) && df_needs_fallback(ptype);
+  r_obj* fallback_xs = KEEP(df_fallback ? r_alloc_list(xs_size) : xs);
+
   for (; i < xs_size; ++i) {
     r_obj* x = r_list_get(xs, i);
 
@@ -161,6 +168,10 @@ r_obj* list_unchop(r_obj* xs,
     unchop_cast_opts.x = x;
     x = KEEP(vec_cast_opts(&unchop_cast_opts));
 
+    if (df_fallback) {
+      r_list_poke(fallback_xs, i, x);
+    }
+
     // Total ownership of `proxy` because it was freshly created with `vec_init()`
     proxy = vec_proxy_assign_opts(proxy, loc, x, VCTRS_OWNED_true, &unchop_assign_opts);
     KEEP_AT(proxy, proxy_pi);
@@ -168,8 +179,19 @@ r_obj* list_unchop(r_obj* xs,
     FREE(2);
   }
 
-  if (is_data_frame(proxy)) {
-    df_c_fallback(proxy, ptype, xs, out_size, name_spec, name_repair, error_call);
+  if (df_fallback) {
+    r_obj* locations = KEEP(unchop_fallback_locations(fallback_xs, locs, out_size));
+    df_c_fallback(
+      proxy,
+      ptype,
+      fallback_xs,
+      out_size,
+      locations,
+      name_spec,
+      name_repair,
+      error_call
+    );
+    FREE(1);
   }
   r_obj* out = KEEP(vec_restore_recurse(proxy, ptype, VCTRS_OWNED_true));
 
@@ -184,7 +206,7 @@ r_obj* list_unchop(r_obj* xs,
     out = vec_set_names(out, r_null);
   }
 
-  FREE(7);
+  FREE(8);
   return out;
 }
 
@@ -280,43 +302,46 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     out = KEEP(vec_c_fallback(ptype, xs, name_spec, name_repair, p_error_arg, error_call));
   }
 
-  const struct name_repair_opts name_repair_opts = {
-    .type = NAME_REPAIR_none,
-    .fn = r_null,
-    .call = error_call
-  };
+  r_obj* locations = KEEP(unchop_fallback_locations(xs, indices, out_size));
 
-  indices = KEEP(vec_c(
-    indices,
-    r_globals.empty_int,
-    r_null,
-    &name_repair_opts,
-    vec_args.indices,
-    error_call
-  ));
+  out = KEEP(vec_slice_fallback(out, locations));
+
+  FREE(6);
+  return out;
+}
 
-  const int* p_indices = r_int_cbegin(indices);
+// Locations of the observations of the output within the combined `xs`. `NULL`
+// elements of `xs` don't contribute any observation to the latter.
+static
+r_obj* unchop_fallback_locations(r_obj* xs, r_obj* locs, r_ssize out_size) {
+  const r_ssize n = r_length(xs);
 
-  r_obj* locations = KEEP(r_alloc_integer(out_size));
-  int* p_locations = r_int_begin(locations);
+  r_obj* out = KEEP(r_alloc_integer(out_size));
 
   // Initialize with missing to handle locations that are never selected
-  for (r_ssize i = 0; i < out_size; ++i) {
-    p_locations[i] = r_globals.na_int;
-  }
+  r_int_fill(out, r_globals.na_int, out_size);
+  int* v_out = r_int_begin(out);
 
-  for (r_ssize i = 0; i < out_size; ++i) {
-    const int index = p_indices[i];
+  int counter = 0;
 
-    if (index == r_globals.na_int) {
+  for (r_ssize i = 0; i < n; ++i) {
+    if (r_list_get(xs, i) == r_null) {
       continue;
     }
 
-    p_locations[index - 1] = i + 1;
-  }
+    r_obj* loc = r_list_get(locs, i);
+    const r_ssize loc_size = r_length(loc);
+    const int* v_loc = r_int_cbegin(loc);
 
-  out = KEEP(vec_slice_fallback(out, locations));
+    for (r_ssize j = 0; j < loc_size; ++j) {
+      ++counter;
+
+      if (v_loc[j] != r_globals.na_int) {
+        v_out[v_loc[j] - 1] = counter;
+      }
+    }
+  }
 
-  FREE(7);
+  FREE(1);
   return out;
 }
diff --git a/src/c.c b/src/c.c
index 2af08f5..c0ad9a6 100644
--- a/src/c.c
+++ b/src/c.c
@@ -159,7 +159,7 @@ r_obj* vec_c_opts(r_obj* xs,
   }
 
   if (is_data_frame(out) && fallback_opts->s3) {
-    df_c_fallback(out, ptype, fallback_xs, out_size, name_spec, name_repair, error_call);
+    df_c_fallback(out, ptype, fallback_xs, out_size, r_null, name_spec, name_repair, error_call);
   }
   out = KEEP(vec_restore_recurse(out, ptype, VCTRS_OWNED_true));
 
@@ -369,10 +369,12 @@ void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call) {
 
 
 // `ptype` contains fallback information. `xs` must have been cast to `ptype`.
+// If supplied, `locations` orders the observations of the combined columns.
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
                    r_obj* xs,
                    r_ssize n_rows,
+                   r_obj* locations,
                    r_obj* name_spec,
                    const struct name_repair_opts* name_repair,
                    struct r_lazy error_call) {
@@ -402,7 +404,7 @@ void df_c_fallback(r_obj* out,
     if (is_data_frame(col) && df_needs_fallback(ptype_col)) {
       r_obj* xs_col = KEEP(list_pluck(xs, i));
       r_obj* out_col = r_list_get(out, i);
-      df_c_fallback(out_col, ptype_col, xs_col, n_rows, name_spec, name_repair, error_call);
+      df_c_fallback(out_col, ptype_col, xs_col, n_rows, locations, name_spec, name_repair, error_call);
       FREE(1);
     } else if (vec_is_common_class_fallback(ptype_col)) {
       r_obj* xs_col = KEEP(list_pluck(xs, i));
@@ -418,6 +420,11 @@ void df_c_fallback(r_obj* out,
         vec_args.empty,
         error_call
       );
+      if (locations != r_null) {
+        KEEP(out_col);
+        out_col = vec_slice_unsafe(out_col, locations);
+        FREE(1);
+      }
       r_list_poke(out, i, out_col);
 
       if (vec_size(out_col) != n_rows) {
@@ -453,7 +460,6 @@ void fallback_poke_unspecified(r_obj* xs) {
   }
 }
 
-static
 bool df_needs_fallback(r_obj* x) {
   r_ssize n_cols = r_length(x);
   r_obj* const * v_x = r_list_cbegin(x);
diff --git a/src/c.h b/src/c.h
index 91aecdb..e09792e 100644
--- a/src/c.h
+++ b/src/c.h
@@ -34,10 +34,13 @@ r_obj* vec_c_fallback(r_obj* ptype,
 bool needs_vec_c_fallback(r_obj* ptype);
 bool needs_vec_c_homogeneous_fallback(r_obj* xs, r_obj* ptype);
 
+bool df_needs_fallback(r_obj* x);
+
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
                    r_obj* xs,
                    r_ssize n_rows,
+                   r_obj* locations,
                    r_obj* name_spec,
                    const struct name_repair_opts* name_repair,
                    struct r_lazy error_call);
diff --git a/src/decl/c-decl.h b/src/decl/c-decl.h
index f361907..0844ba7 100644
--- a/src/decl/c-decl.h
+++ b/src/decl/c-decl.h
@@ -7,8 +7,5 @@ int vec_c_fallback_validate_args(r_obj* x, r_obj* name_spec);
 static
 void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call);
 
-static
-bool df_needs_fallback(r_obj* x);
-
 static
 void fallback_poke_unspecified(r_obj* xs);
diff --git a/src/decl/c-unchop-decl.h b/src/decl/c-unchop-decl.h
index 3a4fc04..b5e4127 100644
--- a/src/decl/c-unchop-decl.h
+++ b/src/decl/c-unchop-decl.h
@@ -19,3 +19,6 @@ r_obj* list_unchop_fallback(r_obj* ptype,
 
 static
 void chr_assign_empty(r_obj* x, r_obj* loc);
+
+static
+r_obj* unchop_fallback_locations(r_obj* xs, r_obj* locs, r_ssize out_size);
-- 
2.43.0


From 8d8efbf34d4b5110d7263106fe8d47bbff339e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:42 +0000
Subject: [PATCH 24/26] fix: errors about incompatible types name the right
 input

The argument of a `NULL` or all-missing input was reported with the type of
another one, as in `vec_c(1L, NULL, "a")`.
---
 src/ptype2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ptype2.c b/src/ptype2.c
index 406d417..b7158aa 100644
--- a/src/ptype2.c
+++ b/src/ptype2.c
@@ -42,14 +42,16 @@ r_obj* vec_ptype2_opts_impl(const struct ptype2_opts* opts,
     return vec_ptype2_from_unspecified(opts, x_type, y, y_arg);
   }
   if (y_type == VCTRS_TYPE_null) {
-    *left = x == r_null;
+    *left = true;
     return vec_ptype2_from_unspecified(opts, x_type, x, x_arg);
   }
 
   if (x_type == VCTRS_TYPE_unspecified) {
+    *left = y_type == VCTRS_TYPE_unspecified;
     return vec_ptype2_from_unspecified(opts, y_type, y, y_arg);
   }
   if (y_type == VCTRS_TYPE_unspecified) {
+    *left = true;
     return vec_ptype2_from_unspecified(opts, x_type, x, x_arg);
   }
 
-- 
2.43.0


From 1b9b3c7a399bcf1bcd2450885385c4bf1d7e178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:12 +0000
Subject: [PATCH 25/26] fix: errors about names like `..1` report their
 locations

---
 R/conditions.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/conditions.R b/R/conditions.R
index 9dbe56f..1569c48 100644
--- a/R/conditions.R
+++ b/R/conditions.R
@@ -733,6 +733,7 @@ cnd_body.vctrs_error_names_cannot_be_dot_dot <- function(cnd, ...) {
   names <- names[locations]
 
   split <- vec_group_loc(names)
+  split$loc <- map(split$loc, function(loc) locations[loc])
 
   info <- map2_chr(split$key, split$loc, make_names_loc_bullet)
 
-- 
2.43.0


From 9bd59b47e28b88f8becf382a4c8ef2433b43c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 26/26] fix: min(), max() and range() of several vctrs vectors
 use all of them

---
 R/type-vctr.R | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/R/type-vctr.R b/R/type-vctr.R
index 57c9643..5cfe860 100644
--- a/R/type-vctr.R
+++ b/R/type-vctr.R
@@ -545,6 +545,10 @@ vec_cast_or_na <- function(x, to, ...) {
 
 #' @export
 min.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (...length() > 0L) {
+    x <- vec_c(x, ...)
+  }
+
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(Inf, x))
   }
@@ -566,6 +570,10 @@ min.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
 
 #' @export
 max.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (...length() > 0L) {
+    x <- vec_c(x, ...)
+  }
+
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(-Inf, x))
   }
@@ -587,6 +595,10 @@ max.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
 
 #' @export
 range.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (...length() > 0L) {
+    x <- vec_c(x, ...)
+  }
+
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(c(Inf, -Inf), x))
   }
-- 
2.43.0

