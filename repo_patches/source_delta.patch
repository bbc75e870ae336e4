From fab48a82fe3cfb8a4c65c7dbd509ce7506032637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 01/53] fix: location2 functions reject a named zero like an
 unnamed one

---
 R/subscript-loc.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 3e529f0..62e8916 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -241,7 +241,7 @@ vec_as_location2_result <- function(i,
     return(result)
   }
 
-  if (identical(i, 0L)) {
+  if (typeof(i) == "integer" && i == 0L) {
     return(result(err = new_error_location2_type(
       i = i,
       subscript_arg = arg,
-- 
2.43.0


From 2927106bb65952187b7992ffaf2419e531a038b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 02/53] fix: list elements that differ in their attributes are
 unequal in both directions

---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From cbc9dad69565a4ab77c077a156d8bb9e0022701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 03/53] fix: integer64 casts that lose a value are lossy cast
 errors

---
 R/type-integer64.R | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 765c856..637668b 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -88,8 +88,11 @@ vec_cast.integer64.integer <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer integer64
-vec_cast.integer.integer64 <- function(x, to, ...) {
-  as.integer(x)
+vec_cast.integer.integer64 <- function(x, to, ..., x_arg = "", to_arg = "", call = caller_env()) {
+  # Out of range values become missing with a warning
+  out <- suppressWarnings(as.integer(x))
+  lossy <- is.na(out) & !is.na(x)
+  maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg, call = call)
 }
 
 #' @export
@@ -106,14 +109,19 @@ vec_cast.logical.integer64 <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer64 double
-vec_cast.integer64.double <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.double <- function(x, to, ..., x_arg = "", to_arg = "", call = caller_env()) {
+  out <- suppressWarnings(bit64::as.integer64(x))
+  lossy <- !is.na(x) & (is.na(out) | x != trunc(x))
+  maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg, call = call)
 }
 
 #' @export
 #' @method vec_cast.double integer64
-vec_cast.double.integer64 <- function(x, to, ...) {
-  as.double(x)
+vec_cast.double.integer64 <- function(x, to, ..., x_arg = "", to_arg = "", call = caller_env()) {
+  out <- suppressWarnings(as.double(x))
+  roundtrip <- suppressWarnings(bit64::as.integer64(out))
+  lossy <- !is.na(x) & (is.na(roundtrip) | roundtrip != x)
+  maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg, call = call)
 }
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 9881abf0de56bc941435cb54f00dffa2ad79981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 04/53] fix: restoring an AsIs vector restores the class and
 attributes under AsIs

---
 R/type-asis.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/type-asis.R b/R/type-asis.R
index 8ba2b96..ed21365 100644
--- a/R/type-asis.R
+++ b/R/type-asis.R
@@ -35,6 +35,8 @@ vec_proxy.AsIs <- function(x, ...) {
 
 #' @export
 vec_restore.AsIs <- function(x, to, ...) {
+  # Restore the class and attributes under the `AsIs` class first
+  x <- vec_restore(x, asis_strip(to))
   asis_restore(x)
 }
 
-- 
2.43.0


From 57d8bb1899d71350cd04315cd154f06f5f3db879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 05/53] fix: assigning to a record or POSIXlt vector doesn't
 modify it in place

---
 src/owned.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/owned.h b/src/owned.h
index 3d8d226..dc70838 100644
--- a/src/owned.h
+++ b/src/owned.h
@@ -6,7 +6,14 @@
 #include "utils.h"
 
 
+// Ownership is recursive. A list without references doesn't own its elements
+// because they may be shared with another object. This is the case of the
+// proxies of records and POSIXlt, which are fresh data frames of the original
+// fields. Unreferenced lists are still not cloned by `vec_clone_referenced()`.
 static inline enum vctrs_owned vec_owned(SEXP x) {
+  if (TYPEOF(x) == VECSXP) {
+    return VCTRS_OWNED_false;
+  }
   return NO_REFERENCES(x) ? VCTRS_OWNED_true : VCTRS_OWNED_false;
 }
 
-- 
2.43.0


From 06b06ad32a99c9c5c0b65b3732fd2044d5ac9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 06/53] fix: list_unchop() casts size 1 elements before
 recycling them

---
 src/c-unchop.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 7fc6504..d3d9f4b 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -122,9 +122,9 @@ r_obj* list_unchop(r_obj* xs,
   };
 
   for (; i < xs_size; ++i) {
-    r_obj* x = r_list_get(xs, i);
+    r_obj* elt = r_list_get(xs, i);
 
-    if (x == r_null) {
+    if (elt == r_null) {
       continue;
     }
 
@@ -132,7 +132,7 @@ r_obj* list_unchop(r_obj* xs,
     const r_ssize loc_size = r_length(loc);
 
     // Each element of `xs` is recycled to its corresponding index's size
-    x = KEEP(vec_check_recycle(x, loc_size, p_x_arg, error_call));
+    r_obj* x = KEEP(vec_check_recycle(elt, loc_size, p_x_arg, error_call));
 
     if (assign_names) {
       r_obj* outer = xs_is_named ? r_chr_get(xs_names, i) : r_null;
@@ -153,14 +153,17 @@ r_obj* list_unchop(r_obj* xs,
       FREE(2);
     }
 
-    unchop_cast_opts.x = x;
+    // Cast before recycling. An unspecified element recycled to size 0 would no
+    // longer be unspecified.
+    unchop_cast_opts.x = elt;
     x = KEEP(vec_cast_opts(&unchop_cast_opts));
+    x = KEEP(vec_check_recycle(x, loc_size, p_x_arg, error_call));
 
     // Total ownership of `proxy` because it was freshly created with `vec_init()`
     proxy = vec_proxy_assign_opts(proxy, loc, x, VCTRS_OWNED_true, &unchop_assign_opts);
     KEEP_AT(proxy, proxy_pi);
 
-    FREE(2);
+    FREE(3);
   }
 
   if (is_data_frame(proxy)) {
-- 
2.43.0


From f1fc5c33895a5dba2908514a7e946075fe97b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 07/53] fix: vec_recycle() rejects a size that is not a single
 non-negative number

The size was read from the first element without checking that there is one,
that it isn't missing or that it isn't negative.
---
 src/size.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/size.c b/src/size.c
index cc6668b..ab87bf3 100644
--- a/src/size.c
+++ b/src/size.c
@@ -242,7 +242,9 @@ r_obj* ffi_recycle(r_obj* x,
                            vec_args.empty,
                            vec_args.empty,
                            recycle_call));
-  R_len_t size = r_int_get(size_obj, 0);
+
+  struct vctrs_arg size_arg = new_wrapper_arg(NULL, "size");
+  r_ssize size = vec_as_short_length(size_obj, &size_arg, recycle_call);
   FREE(1);
 
   struct r_lazy x_arg_ = { .x = syms.x_arg, .env = frame };
-- 
2.43.0


From e011ca9ee816e2bcab8a76afd3c77b17f3763cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 08/53] fix: calls, pairlists and functions with different
 argument names are not equal

---
 src/equal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..8b36710 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -307,6 +307,10 @@ bool equal_object_normalized(SEXP x, SEXP y) {
   case DOTSXP:
   case LANGSXP:
   case LISTSXP:
+    if (TAG(x) != TAG(y)) {
+      return false;
+    }
+    // fallthrough
   case BCODESXP: {
     if (!equal_object_normalized(ATTRIB(x), ATTRIB(y))) {
       return false;
-- 
2.43.0


From 36b46c4fa855e819159250db2b2dbdb55e308950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 09/53] fix: complex and raw vectors in lists can be hashed

---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 154c9fb..c9bb042 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -107,7 +107,9 @@ static inline uint32_t list_hash_scalar_na_propagate(SEXP x, R_len_t i) {
 static uint32_t lgl_hash(SEXP x);
 static uint32_t int_hash(SEXP x);
 static uint32_t dbl_hash(SEXP x);
+static uint32_t cpl_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
+static uint32_t raw_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
 static uint32_t fn_hash(SEXP x);
@@ -141,7 +143,9 @@ static uint32_t sexp_hash(SEXP x) {
   case LGLSXP: return lgl_hash(x);
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
+  case CPLXSXP: return cpl_hash(x);
   case STRSXP: return chr_hash(x);
+  case RAWSXP: return raw_hash(x);
   case EXPRSXP:
   case VECSXP: return list_hash(x);
   case DOTSXP:
@@ -178,9 +182,15 @@ static uint32_t int_hash(SEXP x) {
 static uint32_t dbl_hash(SEXP x) {
   HASH(double, REAL_RO, dbl_hash_scalar);
 }
+static uint32_t cpl_hash(SEXP x) {
+  HASH(Rcomplex, COMPLEX_RO, cpl_hash_scalar);
+}
 static uint32_t chr_hash(SEXP x) {
   HASH(SEXP, STRING_PTR_RO, chr_hash_scalar);
 }
+static uint32_t raw_hash(SEXP x) {
+  HASH(Rbyte, RAW_RO, raw_hash_scalar);
+}
 
 #undef HASH
 
-- 
2.43.0


From eeb6192944d672a7dde600e7a7273e3670af1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 10/53] fix: byte-compiling a function doesn't change what it
 is equal to

---
 src/equal.c | 2 +-
 src/hash.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 8b36710..b449032 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -334,7 +334,7 @@ bool equal_object_normalized(SEXP x, SEXP y) {
     if (!equal_object_normalized(ATTRIB(x), ATTRIB(y))) {
       return false;
     }
-    if (!equal_object_normalized(BODY(x), BODY(y))) {
+    if (!equal_object_normalized(R_ClosureExpr(x), R_ClosureExpr(y))) {
       return false;
     }
     if (!equal_object_normalized(CLOENV(x), CLOENV(y))) {
diff --git a/src/hash.c b/src/hash.c
index c9bb042..e18aef4 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -221,7 +221,7 @@ static uint32_t node_hash(SEXP x) {
 
 static uint32_t fn_hash(SEXP x) {
   uint32_t hash = 0;
-  hash = hash_combine(hash, hash_object(BODY(x)));
+  hash = hash_combine(hash, hash_object(R_ClosureExpr(x)));
   hash = hash_combine(hash, hash_object(CLOENV(x)));
   hash = hash_combine(hash, hash_object(FORMALS(x)));
   return hash;
-- 
2.43.0


From 875aea98a92fc7aa92b43b63d54e6b68fc5a5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 11/53] fix: S4 objects in lists are compared and hashed by
 their slots

---
 src/equal.c | 4 ++++
 src/hash.c  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index b449032..b664d2f 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -345,6 +345,10 @@ bool equal_object_normalized(SEXP x, SEXP y) {
     }
     return true;
 
+  // The slots are attributes
+  case S4SXP:
+    return vec_equal_attrib(x, y);
+
   case NILSXP:
   case SYMSXP:
   case SPECIALSXP:
diff --git a/src/hash.c b/src/hash.c
index e18aef4..bf4ac1f 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -140,6 +140,7 @@ SEXP vctrs_hash_object(SEXP x) {
 static uint32_t sexp_hash(SEXP x) {
   switch (TYPEOF(x)) {
   case NILSXP: return 0;
+  case S4SXP: return 0;
   case LGLSXP: return lgl_hash(x);
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
-- 
2.43.0


From 2b6dd16a46845d6d2242cd5e0d7292afb0302347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 12/53] fix: raw matrices are compared and ordered by row

---
 R/type-bare.R | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/R/type-bare.R b/R/type-bare.R
index 84cf6e4..7d6acd3 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -382,7 +382,14 @@ vec_proxy_compare.raw <- function(x, ...) {
   # because:
   # order(as.raw(1:3))
   # #> Error in order(as.raw(1:3)): unimplemented type 'raw' in 'orderVector1'
-  as.integer(x)
+  out <- as.integer(x)
+
+  if (vec_dim_n(x) > 1) {
+    dim(out) <- dim(x)
+    out <- vec_proxy_compare(out)
+  }
+
+  out
 }
 
 #' @export
-- 
2.43.0


From 21b8ebd3282a6eabfacd7610c745b6117c813805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 13/53] fix: comparing vectors stored as raw isn't an internal
 error

---
 src/compare.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compare.c b/src/compare.c
index dbfeb66..ed34a80 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -51,6 +51,7 @@ r_obj* vec_compare(r_obj* x, r_obj* y, bool na_equal) {
     case VCTRS_TYPE_double:    COMPARE(double, r_dbl_cbegin, dbl_compare_na_equal);
     case VCTRS_TYPE_character: COMPARE(r_obj*, r_chr_cbegin, chr_compare_na_equal);
     case VCTRS_TYPE_complex:   r_abort("Can't compare complexes.");
+    case VCTRS_TYPE_raw:       r_abort("Can't compare raw vectors.");
     case VCTRS_TYPE_scalar:    r_abort("Can't compare scalars.");
     case VCTRS_TYPE_list:      r_abort("Can't compare lists.");
     default:                   stop_unimplemented_vctrs_type("vec_compare", type);
@@ -62,6 +63,7 @@ r_obj* vec_compare(r_obj* x, r_obj* y, bool na_equal) {
     case VCTRS_TYPE_double:    COMPARE(double, r_dbl_cbegin, dbl_compare_na_propagate);
     case VCTRS_TYPE_character: COMPARE(r_obj*, r_chr_cbegin, chr_compare_na_propagate);
     case VCTRS_TYPE_complex:   r_abort("Can't compare complexes.");
+    case VCTRS_TYPE_raw:       r_abort("Can't compare raw vectors.");
     case VCTRS_TYPE_scalar:    r_abort("Can't compare scalars.");
     case VCTRS_TYPE_list:      r_abort("Can't compare lists.");
     default:                   stop_unimplemented_vctrs_type("vec_compare", type);
@@ -171,6 +173,7 @@ void vec_compare_col(int* v_out,
     case VCTRS_TYPE_double:    COMPARE_COL(double, r_dbl_cbegin, dbl_compare_na_equal); break;
     case VCTRS_TYPE_character: COMPARE_COL(r_obj*, r_chr_cbegin, chr_compare_na_equal); break;
     case VCTRS_TYPE_complex:   r_abort("Can't compare complexes.");
+    case VCTRS_TYPE_raw:       r_abort("Can't compare raw vectors.");
     case VCTRS_TYPE_scalar:    r_abort("Can't compare scalars.");
     case VCTRS_TYPE_list:      r_abort("Can't compare lists.");
     default:                   stop_unimplemented_vctrs_type("vec_compare_col", type);
@@ -182,6 +185,7 @@ void vec_compare_col(int* v_out,
     case VCTRS_TYPE_double:    COMPARE_COL(double, r_dbl_cbegin, dbl_compare_na_propagate); break;
     case VCTRS_TYPE_character: COMPARE_COL(r_obj*, r_chr_cbegin, chr_compare_na_propagate); break;
     case VCTRS_TYPE_complex:   r_abort("Can't compare complexes.");
+    case VCTRS_TYPE_raw:       r_abort("Can't compare raw vectors.");
     case VCTRS_TYPE_scalar:    r_abort("Can't compare scalars.");
     case VCTRS_TYPE_list:      r_abort("Can't compare lists.");
     default:                   stop_unimplemented_vctrs_type("vec_compare_col", type);
-- 
2.43.0


From d27d4ffbff27695abcfd5474d089b35ef7e16312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 14/53] fix: ordering a data frame reruns a complex column
 once, not once per group

---
 src/order.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/order.c b/src/order.c
index 51d0615..6dde7ad 100644
--- a/src/order.c
+++ b/src/order.c
@@ -3905,9 +3905,6 @@ static void vec_order_chunk_switch(bool decreasing,
       const int loc = p_o_col[j] - 1;                          \
       p_x_chunk_col[j] = cpl_normalise_missing(p_col[loc]).r;  \
     }                                                          \
-                                                               \
-    /* Decrement `i` to rerun column */                        \
-    --i;                                                       \
   } else {                                                     \
     /* Second pass - imaginary */                              \
     for (r_ssize j = 0; j < group_size; ++j) {                 \
@@ -4115,6 +4112,12 @@ void df_order_internal(SEXP x,
     if (chr_ordered && type == VCTRS_TYPE_character) {
       truelength_reset(p_truelength_info);
     }
+
+    // Decrement `i` to rerun complex columns, once per column rather than once
+    // per group chunk
+    if (rerun_complex) {
+      --i;
+    }
   }
 }
 
-- 
2.43.0


From 143e5e1ab8ced5cca6c1921cd499ba33794b0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 15/53] fix: matching rows with a raw column after a missing
 value propagates it

---
 src/hash.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hash.c b/src/hash.c
index bf4ac1f..5ec6024 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -365,8 +365,13 @@ static inline void chr_hash_fill_na_propagate(uint32_t* p, R_len_t size, SEXP x)
 static inline void raw_hash_fill_na_equal(uint32_t* p, R_len_t size, SEXP x) {
   HASH_FILL(Rbyte, RAW_RO, raw_hash_scalar);
 }
+// Raw vectors don't have missing values, but other columns of the same data
+// frame might have already been found missing
+static inline bool raw_hash_is_missing(Rbyte x) {
+  return false;
+}
 static inline void raw_hash_fill_na_propagate(uint32_t* p, R_len_t size, SEXP x) {
-  HASH_FILL(Rbyte, RAW_RO, raw_hash_scalar);
+  HASH_FILL_NA_PROPAGATE_CMP(Rbyte, RAW_RO, raw_hash_scalar, raw_hash_is_missing);
 }
 
 #undef HASH_FILL_NA_PROPAGATE_CMP
-- 
2.43.0


From de894c285a6ddebdc4d865d8e9612187db841a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:02 +0000
Subject: [PATCH 16/53] fix: vec_locate_matches() detects incomplete needles
 beyond the ends of the haystack

---
 src/match.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/match.c b/src/match.c
index 61faff2..736d40e 100644
--- a/src/match.c
+++ b/src/match.c
@@ -919,12 +919,19 @@ void df_locate_matches_recurse(r_ssize col,
 
   switch (op) {
   case VCTRS_OPS_eq: {
+    // If there is no `haystack` left to match then we are typically done, but
+    // if we are tracking incomplete needles we still need to detect them
+    const bool track_incomplete =
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_error;
+
     do_lhs =
       (loc_lower_duplicate_o_needles > loc_lower_bound_o_needles) &&
-      (loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
+      (track_incomplete || loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
     do_rhs =
       (loc_upper_duplicate_o_needles < loc_upper_bound_o_needles) &&
-      (loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
+      (track_incomplete || loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
 
     // Limit bounds of both needle and haystack using existing info
     if (do_lhs) {
-- 
2.43.0


From 2fd38c1e5193cd375887ee8dba3e45da09809243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:21 +0000
Subject: [PATCH 17/53] fix: vec_locate_matches() filters the haystack values
 that match on every column

---
 src/decl/match-decl.h |   7 ++
 src/match.c           | 147 +++++++++++++++++++++++-------------------
 2 files changed, 88 insertions(+), 66 deletions(-)

diff --git a/src/decl/match-decl.h b/src/decl/match-decl.h
index 51d8979..aa5f97e 100644
--- a/src/decl/match-decl.h
+++ b/src/decl/match-decl.h
@@ -115,6 +115,13 @@ struct vctrs_match_bounds int_locate_match(int val_needle,
                                            r_ssize loc_lower_bound_o_haystack,
                                            r_ssize loc_upper_bound_o_haystack);
 
+static
+struct vctrs_match_bounds df_filter_match(const struct poly_df_data* p_haystack,
+                                          const int* v_o_haystack,
+                                          const enum vctrs_filter* v_filters,
+                                          r_ssize loc_lower_match_o_haystack,
+                                          r_ssize loc_upper_match_o_haystack);
+
 static
 r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* y,
diff --git a/src/match.c b/src/match.c
index 736d40e..320da11 100644
--- a/src/match.c
+++ b/src/match.c
@@ -506,7 +506,6 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack) {
   const enum vctrs_ops op = v_ops[col];
-  const enum vctrs_filter filter = v_filters[col];
   const r_ssize n_col = p_needles->n_col;
 
   const int* v_needles = (const int*) p_needles->v_col_ptr[col];
@@ -697,62 +696,6 @@ void df_locate_matches_recurse(r_ssize col,
   if (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
     // Hit!
 
-    switch (filter) {
-    case VCTRS_FILTER_max: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the max values of this group. That's the upper match of the
-      // haystack and its corresponding lower duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_lower_match_o_haystack = int_locate_lower_duplicate(
-          val_upper_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_min: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the min values of this group. That's the lower match of the
-      // haystack and its corresponding upper duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_upper_match_o_haystack = int_locate_upper_duplicate(
-          val_lower_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_none: {
-      break;
-    }
-    }
-
     if (col < n_col - 1) {
       // For this column, we've bounded the needles locations to the upper/lower
       // duplicates of the current needle, and the haystack locations to the
@@ -783,6 +726,22 @@ void df_locate_matches_recurse(r_ssize col,
     } else {
       // We just finished locating matches for the last column,
       // and we still have at least 1 hit, so record it
+      r_ssize loc_lower_filtered_o_haystack = loc_lower_match_o_haystack;
+      r_ssize loc_upper_filtered_o_haystack = loc_upper_match_o_haystack;
+
+      if (any_filters) {
+        // Filters apply to the haystack values that match on every column.
+        // The bounds for the whole match are still required below.
+        const struct vctrs_match_bounds filtered_bounds = df_filter_match(
+          p_haystack,
+          v_o_haystack,
+          v_filters,
+          loc_lower_match_o_haystack,
+          loc_upper_match_o_haystack
+        );
+        loc_lower_filtered_o_haystack = filtered_bounds.lower;
+        loc_upper_filtered_o_haystack = filtered_bounds.upper;
+      }
 
       for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
         const int loc_needles = v_o_needles[i] - 1;
@@ -793,13 +752,13 @@ void df_locate_matches_recurse(r_ssize col,
         case VCTRS_MULTIPLE_any: {
           if (first_touch) {
             // Arbitrarily record the lower match
-            r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, loc_lower_match_o_haystack);
+            r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, loc_lower_filtered_o_haystack);
             break;
           }
 
           if (any_filters) {
             const int loc_first_match_haystack = v_o_haystack[loc_first_match_o_haystack] - 1;
-            const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
+            const int loc_lower_match_haystack = v_o_haystack[loc_lower_filtered_o_haystack] - 1;
 
             const int cmp = p_matches_df_compare_na_equal(
               p_haystack,
@@ -813,7 +772,7 @@ void df_locate_matches_recurse(r_ssize col,
             //  1 = New haystack value "wins", it becomes new match
             //  0 = Equal values, nothing to update
             if (cmp == 1) {
-              r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, loc_lower_match_o_haystack);
+              r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, loc_lower_filtered_o_haystack);
             }
           }
 
@@ -824,14 +783,14 @@ void df_locate_matches_recurse(r_ssize col,
         case VCTRS_MULTIPLE_warning:
         case VCTRS_MULTIPLE_first:
         case VCTRS_MULTIPLE_last: {
-          const int size_match = loc_upper_match_o_haystack - loc_lower_match_o_haystack + 1;
+          const int size_match = loc_upper_filtered_o_haystack - loc_lower_filtered_o_haystack + 1;
 
           if (first_touch) {
-            r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, loc_lower_match_o_haystack);
+            r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, loc_lower_filtered_o_haystack);
             r_dyn_int_poke(p_size_match, loc_needles, size_match);
 
             if (any_filters) {
-              v_loc_filter_match_o_haystack[loc_needles] = loc_lower_match_o_haystack;
+              v_loc_filter_match_o_haystack[loc_needles] = loc_lower_filtered_o_haystack;
             }
 
             break;
@@ -841,7 +800,7 @@ void df_locate_matches_recurse(r_ssize col,
             const int loc_filter_match_o_haystack = v_loc_filter_match_o_haystack[loc_needles];
 
             const int loc_filter_match_haystack = v_o_haystack[loc_filter_match_o_haystack] - 1;
-            const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
+            const int loc_lower_match_haystack = v_o_haystack[loc_lower_filtered_o_haystack] - 1;
 
             const int cmp = p_matches_df_compare_na_equal(
               p_haystack,
@@ -861,11 +820,11 @@ void df_locate_matches_recurse(r_ssize col,
             if (cmp == -1) {
               break;
             } else if (cmp == 1) {
-              v_loc_filter_match_o_haystack[loc_needles] = loc_lower_match_o_haystack;
+              v_loc_filter_match_o_haystack[loc_needles] = loc_lower_filtered_o_haystack;
             }
           }
 
-          r_dyn_push_back(p_loc_first_match_o_haystack, &loc_lower_match_o_haystack);
+          r_dyn_push_back(p_loc_first_match_o_haystack, &loc_lower_filtered_o_haystack);
           r_dyn_push_back(p_size_match, &size_match);
           r_dyn_push_back(p_loc_needles, &loc_needles);
           break;
@@ -1211,6 +1170,62 @@ struct vctrs_match_bounds int_locate_match(int val_needle,
 
 // -----------------------------------------------------------------------------
 
+// Limit a range of `haystack` matches to the ones that satisfy the filters,
+// where the filters of the first columns take precedence. All columns are in
+// increasing order within a nesting container, so the result is a range too.
+static
+struct vctrs_match_bounds df_filter_match(const struct poly_df_data* p_haystack,
+                                          const int* v_o_haystack,
+                                          const enum vctrs_filter* v_filters,
+                                          r_ssize loc_lower_match_o_haystack,
+                                          r_ssize loc_upper_match_o_haystack) {
+  const r_ssize n_col = p_haystack->n_col;
+
+  for (r_ssize col = 0; col < n_col; ++col) {
+    const enum vctrs_filter filter = v_filters[col];
+
+    if (filter == VCTRS_FILTER_none) {
+      continue;
+    }
+
+    const int* v_haystack = (const int*) p_haystack->v_col_ptr[col];
+
+    const int val_lower_match_haystack = v_haystack[v_o_haystack[loc_lower_match_o_haystack] - 1];
+    const int val_upper_match_haystack = v_haystack[v_o_haystack[loc_upper_match_o_haystack] - 1];
+
+    if (val_lower_match_haystack == val_upper_match_haystack) {
+      continue;
+    }
+
+    if (filter == VCTRS_FILTER_max) {
+      // Upper match of the haystack and its corresponding lower duplicate
+      loc_lower_match_o_haystack = int_locate_lower_duplicate(
+        val_upper_match_haystack,
+        v_haystack,
+        v_o_haystack,
+        loc_lower_match_o_haystack,
+        loc_upper_match_o_haystack
+      );
+    } else {
+      // Lower match of the haystack and its corresponding upper duplicate
+      loc_upper_match_o_haystack = int_locate_upper_duplicate(
+        val_lower_match_haystack,
+        v_haystack,
+        v_o_haystack,
+        loc_lower_match_o_haystack,
+        loc_upper_match_o_haystack
+      );
+    }
+  }
+
+  return (struct vctrs_match_bounds) {
+    loc_lower_match_o_haystack,
+    loc_upper_match_o_haystack
+  };
+}
+
+// -----------------------------------------------------------------------------
+
 static
 r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* y,
-- 
2.43.0


From 0879c0d5120fbde95b7149ccf2410d2e31c0b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:00 +0000
Subject: [PATCH 18/53] fix: vec_rbind() accepts an unnamed input with several
 rows among named ones

---
 src/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..57787b9 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -219,7 +219,7 @@ r_obj* vec_rbind(r_obj* xs,
 
         // If there is no name to assign, skip the assignment since
         // `out_names` already contains empty strings
-        if (inner != chrs_empty) {
+        if (x_nms != chrs_empty) {
           row_names = chr_assign(row_names, loc, x_nms, VCTRS_OWNED_true);
           KEEP_AT(row_names, rownames_pi);
         }
-- 
2.43.0


From ccfdbaa3ab9a273637911bf368322d6a88050d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 19/53] fix: vec_locate_run_bounds() no longer writes past the
 end of its result

---
 src/runs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..28163c9 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -63,11 +63,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
   r_ssize loc = compute_iter_loc(size, which);
   const r_ssize step = compute_iter_step(which);
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
+  // Only write at bound locations. The values that follow the last bound
+  // have no location of their own in `out`.
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
+    if (v_where[loc]) {
+      v_out[j] = loc + 1;
+      j += step;
+    }
     loc += step;
   }
 
-- 
2.43.0


From 48d86c479d4ff8d7264c414d92bbfcd3c89c0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 20/53] fix: vec_fill_missing() leaves elements that have no
 value to be filled with

---
 src/fill.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fill.c b/src/fill.c
index 7bc37ca..b3a8255 100644
--- a/src/fill.c
+++ b/src/fill.c
@@ -74,7 +74,8 @@ void vec_fill_missing_down(const int* p_na, r_ssize size, bool leading, int* p_l
   }
 
   for (r_ssize i = loc; i < size; ++i) {
-    if (!p_na[i]) {
+    // `loc` is only missing until the first value to fill with is found
+    if (!p_na[i] || p_na[loc]) {
       loc = i;
     }
 
@@ -111,7 +112,8 @@ void vec_fill_missing_down_with_max_fill(const int* p_na, r_ssize size, bool lea
   r_ssize n_fill = 0;
 
   for (r_ssize i = loc; i < size; ++i) {
-    if (!p_na[i]) {
+    // `loc` is only missing until the first value to fill with is found
+    if (!p_na[i] || p_na[loc]) {
       loc = i;
       n_fill = 0;
       p_loc[i] = i + 1;
@@ -147,7 +149,8 @@ void vec_fill_missing_up(const int* p_na, r_ssize size, bool leading, int* p_loc
   }
 
   for (r_ssize i = loc; i >= 0; --i) {
-    if (!p_na[i]) {
+    // `loc` is only missing until the first value to fill with is found
+    if (!p_na[i] || p_na[loc]) {
       loc = i;
     }
 
@@ -184,7 +187,8 @@ void vec_fill_missing_up_with_max_fill(const int* p_na, r_ssize size, bool leadi
   r_ssize n_fill = 0;
 
   for (r_ssize i = loc; i >= 0; --i) {
-    if (!p_na[i]) {
+    // `loc` is only missing until the first value to fill with is found
+    if (!p_na[i] || p_na[loc]) {
       loc = i;
       n_fill = 0;
       p_loc[i] = i + 1;
-- 
2.43.0


From b49899a3c5d4f10c6f0335916fa8a001d99f321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 21/53] fix: unique names repair replaces names that are `...`
 once their suffix is stripped

---
 src/names.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/names.c b/src/names.c
index 5f08908..2004131 100644
--- a/src/names.c
+++ b/src/names.c
@@ -284,21 +284,18 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
   for (r_ssize i = 0; i < n; ++i) {
     r_obj* elt = v_new_names[i];
 
-    // Set `NA` and dots values to "" so they get replaced by `...n`
-    // later on
-    if (needs_suffix(elt)) {
-      elt = strings_empty;
-      r_chr_poke(new_names, i, elt);
-      continue;
-    }
-
     // Strip `...n` suffixes
     const char* nm = r_str_c_string(elt);
     int pos = suffix_pos(nm);
     if (pos >= 0) {
       elt = Rf_mkCharLenCE(nm, pos, Rf_getCharCE(elt));
       r_chr_poke(new_names, i, elt);
-      continue;
+    }
+
+    // Set `NA` and dots values to "" so they get replaced by `...n`
+    // later on. This includes what remains of a stripped name.
+    if (needs_suffix(elt)) {
+      r_chr_poke(new_names, i, strings_empty);
     }
   }
 
-- 
2.43.0


From eb8d4a28a350d78fc3ac98e943f503a03a1e8070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 22/53] fix: names that only start like `..1` are valid unique
 names

---
 src/names.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/names.c b/src/names.c
index 2004131..66ba84b 100644
--- a/src/names.c
+++ b/src/names.c
@@ -367,7 +367,15 @@ bool is_dotdotint(const char* name) {
     name += 2;
   }
 
-  return (bool) strtol(name, NULL, 10);
+  // Only digits may follow
+  if (!isdigit(*name)) {
+    return false;
+  }
+
+  char* end = NULL;
+  const long value = strtol(name, &end, 10);
+
+  return value != 0 && *end == '\0';
 }
 
 static
-- 
2.43.0


From 67f9eebbb192c6abc993c628a9a0df5e962af496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:50 +0000
Subject: [PATCH 23/53] fix: universal names repair never returns `...`

---
 R/names.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/names.R b/R/names.R
index 6a5755f..cc02a8e 100644
--- a/R/names.R
+++ b/R/names.R
@@ -376,6 +376,9 @@ make_syntactic <- function(names) {
   re$leading_dots[needs_dots] <- ifelse(needs_third_dot, "...", "..")
   new_names <- paste0(re$leading_dots, re$numbers, re$leftovers)
 
+  # An illegal character next to dots might have been replaced with `.`
+  new_names[new_names == "..."] <- "...."
+
   new_names
 }
 
-- 
2.43.0


From 53b26eaa8dd80df08edb20e33b2d25f3d6a6ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:15 +0000
Subject: [PATCH 24/53] fix: universal names repair returns unique names when a
 name looks like a suffixed one

---
 R/names.R | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/R/names.R b/R/names.R
index cc02a8e..d09b6d3 100644
--- a/R/names.R
+++ b/R/names.R
@@ -325,6 +325,12 @@ as_universal_names <- function(names, quiet = FALSE) {
   needs_suffix <- empty | vec_duplicate_detect(new_names)
   new_names <- append_pos(new_names, needs_suffix = needs_suffix)
 
+  # A syntactic name might look like a suffixed one, e.g. `1` becomes `...1`
+  while (any(clash <- !needs_suffix & vec_duplicate_detect(new_names))) {
+    new_names <- append_pos(new_names, needs_suffix = clash)
+    needs_suffix <- needs_suffix | clash
+  }
+
   if (!quiet) {
     describe_repair(names, new_names)
   }
-- 
2.43.0


From 78fd0c4aa65544641316a35b1f6f2688b7b1b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 25/53] fix: field() and field<- no longer crash on a NaN index

---
 src/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields.c b/src/fields.c
index 5ab2547..f156456 100644
--- a/src/fields.c
+++ b/src/fields.c
@@ -38,7 +38,7 @@ int find_offset(SEXP x, SEXP index) {
   } else if (TYPEOF(index) == REALSXP) {
     double val = REAL(index)[0];
 
-    if (R_IsNA(val))
+    if (ISNAN(val))
       Rf_errorcall(R_NilValue, "Invalid index: NA_real_");
 
     val--;
-- 
2.43.0


From 18c2948ff3be0d52f9184473efae624c8c7956ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:12 +0000
Subject: [PATCH 26/53] fix: difftime vectors stored as integers can be
 assigned and unchopped

---
 NAMESPACE          |  1 +
 R/type-date-time.R | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/NAMESPACE b/NAMESPACE
index 8d02a50..7ebb59e 100644
--- a/NAMESPACE
+++ b/NAMESPACE
@@ -302,6 +302,7 @@ S3method(vec_proxy,Date)
 S3method(vec_proxy,POSIXct)
 S3method(vec_proxy,POSIXlt)
 S3method(vec_proxy,default)
+S3method(vec_proxy,difftime)
 S3method(vec_proxy,exclude)
 S3method(vec_proxy,factor)
 S3method(vec_proxy,numeric_version)
diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1369b67..3ca7354 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -61,6 +61,10 @@ vec_proxy.POSIXlt <- function(x, ...) {
   new_data_frame(unclass(x))
 }
 #' @export
+vec_proxy.difftime <- function(x, ...) {
+  duration_validate(x)
+}
+#' @export
 vec_proxy_equal.POSIXlt <- function(x, ...) {
   x <- vec_cast(x, new_datetime(tzone = tzone(x)))
   vec_proxy_equal(x, ...)
@@ -306,11 +310,7 @@ vec_cast.difftime <- function(x, to, ...) {
 #' @method vec_cast.difftime difftime
 vec_cast.difftime.difftime <- function(x, to, ...) {
   if (identical(units(x), units(to))) {
-    if (typeof(x) == "integer") {
-      # Catch corrupt difftime objects (#1602)
-      storage.mode(x) <- "double"
-    }
-    x
+    duration_validate(x)
   } else {
     # Hack: I can't see any obvious way of changing the units
     origin <- as.POSIXct(0, origin = "1970-01-01")
@@ -558,6 +558,14 @@ datetime_validate <- function(x) {
   .Call(vctrs_datetime_validate, x)
 }
 
+# Ensure that a `difftime` is internally stored as a double vector (#1602)
+duration_validate <- function(x) {
+  if (typeof(x) == "integer") {
+    storage.mode(x) <- "double"
+  }
+  x
+}
+
 # as.character.Date() calls format() which tries to guess a simplified format.
 # Supplying a known format is faster and much more memory efficient.
 date_as_character <- function(x) {
-- 
2.43.0


From ea7d3ef42c1563ed2271db40e7e3f3bdc3f764ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:54 +0000
Subject: [PATCH 27/53] fix: a missing duration can be added to a date

---
 R/type-date-time.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 3ca7354..77d5956 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -586,7 +586,7 @@ chr_date_as_posixct <- function(x, tzone) {
 
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
-  lossy <- x != x_floor
+  lossy <- !is.na(x) & x != x_floor
   maybe_lossy_cast(x_floor, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
 
-- 
2.43.0


From 859de945005455b085a11e9ff57397c18df1e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 28/53] fix: take every argument into account in min(), max()
 and range() of a vctrs_vctr

The methods silently ignored all arguments but the first.
---
 R/type-vctr.R | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/R/type-vctr.R b/R/type-vctr.R
index 57c9643..42077ff 100644
--- a/R/type-vctr.R
+++ b/R/type-vctr.R
@@ -545,6 +545,9 @@ vec_cast_or_na <- function(x, to, ...) {
 
 #' @export
 min.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (dots_n(...)) {
+    x <- vec_c(x, ...)
+  }
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(Inf, x))
   }
@@ -566,6 +569,9 @@ min.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
 
 #' @export
 max.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (dots_n(...)) {
+    x <- vec_c(x, ...)
+  }
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(-Inf, x))
   }
@@ -587,6 +593,9 @@ max.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
 
 #' @export
 range.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (dots_n(...)) {
+    x <- vec_c(x, ...)
+  }
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(c(Inf, -Inf), x))
   }
-- 
2.43.0


From 9ad7ff139432e072f0e17e57b68c5659535ca86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 29/53] fix: honour fromLast in unique() and duplicated() of a
 vctrs_vctr

The argument was swallowed by the dots, so the first duplicates were
kept and reported regardless.
---
 R/type-vctr.R | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/R/type-vctr.R b/R/type-vctr.R
index 42077ff..6fb4463 100644
--- a/R/type-vctr.R
+++ b/R/type-vctr.R
@@ -465,13 +465,22 @@ anyNA.vctrs_vctr <- function(x, recursive = FALSE) {
 }
 
 #' @export
-unique.vctrs_vctr <- function(x, incomparables = FALSE, ...) {
-  vec_unique(x)
+unique.vctrs_vctr <- function(x, incomparables = FALSE, fromLast = FALSE, ...) {
+  if (is_true(fromLast)) {
+    vec_slice(x, !duplicated(x, fromLast = TRUE))
+  } else {
+    vec_unique(x)
+  }
 }
 
 #' @export
-duplicated.vctrs_vctr <- function(x, incomparables = FALSE, ...) {
-  vec_duplicate_id(x) != seq_along(x)
+duplicated.vctrs_vctr <- function(x, incomparables = FALSE, fromLast = FALSE, ...) {
+  if (is_true(fromLast)) {
+    x <- vec_slice(x, rev(vec_seq_along(x)))
+    rev(duplicated(x))
+  } else {
+    vec_duplicate_id(x) != vec_seq_along(x)
+  }
 }
 
 #' @export
-- 
2.43.0


From 976f404ecc84232f80bbfadd7c5ddf8154483af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 30/53] fix: allow x[] on records

The missing subscript was passed on to vec_slice(), which failed.
---
 R/type-rcrd.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-rcrd.R b/R/type-rcrd.R
index c457285..a4a3ea0 100644
--- a/R/type-rcrd.R
+++ b/R/type-rcrd.R
@@ -98,7 +98,7 @@ vec_cast.vctrs_rcrd.vctrs_rcrd <- function(x, to, ...) {
   if (!missing(...)) {
     abort("Can't index record vectors on dimensions greater than 1.")
   }
-  vec_slice(x, maybe_missing(i))
+  vec_slice(x, maybe_missing(i, TRUE))
 }
 
 #' @export
-- 
2.43.0


From 31a84086f022a1b6bc844ef9111949208119329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:35 +0000
Subject: [PATCH 31/53] fix: finalise the common type in
 vec_interval_complement()

Logical intervals that are all missing could not be combined with a
logical `lower` or `upper`.
---
 src/interval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interval.c b/src/interval.c
index ec12044..88cb40e 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -324,6 +324,7 @@ r_obj* vec_interval_complement(r_obj* start,
     &_
   );
   KEEP_N(ptype, &n_prot);
+  ptype = KEEP_N(vec_ptype_finalise(ptype), &n_prot);
 
   start = vec_cast_params(
     start,
-- 
2.43.0


From c1e7e3e9a19246b47bcf4f3e5db745e5af9d2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:47 +0000
Subject: [PATCH 32/53] fix: apply the tidyverse recycling rules to differences
 of date-times

vec_arith("-", x, y) recycled dates and date-times with base rules,
unlike every other combination.
---
 R/type-date-time.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 77d5956..4d98bfd 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -359,7 +359,7 @@ vec_arith.difftime.default <- function(op, x, y, ...) stop_incompatible_op(op, x
 #' @export
 vec_arith.Date.Date <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "days"),
+    `-` = difftime_common(x, y, units = "days"),
     stop_incompatible_op(op, x, y)
   )
 }
@@ -367,7 +367,7 @@ vec_arith.Date.Date <- function(op, x, y, ...) {
 #' @export
 vec_arith.POSIXct.POSIXct <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "secs"),
+    `-` = difftime_common(x, y, units = "secs"),
     stop_incompatible_op(op, x, y)
   )
 }
@@ -524,6 +524,12 @@ vec_arith.numeric.difftime <- function(op, x, y, ...) {
 
 # Helpers -----------------------------------------------------------------
 
+# `difftime()` with the vctrs recycling rules
+difftime_common <- function(x, y, units) {
+  args <- vec_recycle_common(x, y)
+  difftime(args[[1L]], args[[2L]], units = units)
+}
+
 # The tz attribute for POSIXlt can have 3 components
 # (time zone name, abbreviated name, abbreviated DST name)
 tzone <- function(x) {
-- 
2.43.0


From 57d7347799eb58f5511cb9589a1f6b0b1de6a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 33/53] fix: describe AsIs objects that are not vectors

Errors about such objects (e.g. obj_check_vector(I(mean))) were replaced by
'Not a vector.' from vec_ptype_abbr() while the backtrace was formatted.
---
 R/type-asis.R | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/R/type-asis.R b/R/type-asis.R
index ed21365..a8ccd0f 100644
--- a/R/type-asis.R
+++ b/R/type-asis.R
@@ -13,13 +13,22 @@ NULL
 #' @export
 vec_ptype_full.AsIs <- function(x, ...) {
   x <- asis_strip(x)
-  paste0("I<", vec_ptype_full(x), ">")
+  paste0("I<", asis_inner(x, vec_ptype_full), ">")
 }
 
 #' @export
 vec_ptype_abbr.AsIs <- function(x, ...) {
   x <- asis_strip(x)
-  paste0("I<", vec_ptype_abbr(x), ">")
+  paste0("I<", asis_inner(x, vec_ptype_abbr), ">")
+}
+
+# `I()` may wrap objects that are not vectors, such as functions
+asis_inner <- function(x, describe) {
+  if (is.object(x) || is_vector(x)) {
+    describe(x)
+  } else {
+    typeof(x)
+  }
 }
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 77952c0062286cde839443832ca0af044976b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:19 +0000
Subject: [PATCH 34/53] fix: ignore the row names of data frame columns in
 vec_is() and vec_assert()

vec_is(x, x) was FALSE for a data frame with a column that is a data frame
with row names.
---
 R/assert.R | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/R/assert.R b/R/assert.R
index 31ffedf..f3d5e04 100644
--- a/R/assert.R
+++ b/R/assert.R
@@ -411,12 +411,27 @@ is_same_type <- function(x, ptype) {
 
   # FIXME: Remove row names for matrices and arrays, and handle empty
   # but existing dimnames
-  x <- vec_set_names(x, NULL)
-  ptype <- vec_set_names(ptype, NULL)
+  x <- vec_strip_names(x)
+  ptype <- vec_strip_names(ptype)
 
   identical(x, ptype)
 }
 
+# Also removes the row names of data frame columns
+vec_strip_names <- function(x) {
+  x <- vec_set_names(x, NULL)
+
+  if (is.data.frame(x)) {
+    attrib <- attributes(x)
+    x <- lapply(unclass(x), function(col) {
+      if (is.data.frame(col)) vec_strip_names(col) else col
+    })
+    attributes(x) <- attrib
+  }
+
+  x
+}
+
 vec_assert_type_explain <- function(x, type, arg) {
   arg <- str_backtick(arg)
   x <- paste0("<", vec_ptype_full(x), ">")
-- 
2.43.0


From 1d17a4b5d64c44151c8e9421eff2794c313451ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 35/53] fix: objects that are not vectors are rejected without
 internal errors

vec_detect_missing(environment()), vec_order(mean), vec_rep(NULL, 2),
vec_locate_matches(NULL, 1), vec_equal(NULL, NULL) and others reported an
internal error or 'Invalid type returned by vec_proxy_order()'.
---
 R/order.R        | 2 ++
 src/equal.c      | 1 +
 src/match.c      | 3 +++
 src/slice-chop.c | 2 +-
 src/slice.c      | 2 +-
 src/utils.c      | 2 +-
 6 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/R/order.R b/R/order.R
index 47c7f16..99575b2 100644
--- a/R/order.R
+++ b/R/order.R
@@ -310,6 +310,8 @@ vec_order <- function(x,
     na.last <- !na.last
   }
 
+  obj_check_vector(x)
+
   proxy <- vec_proxy_order(x)
 
   if (is.data.frame(proxy)) {
diff --git a/src/equal.c b/src/equal.c
index b664d2f..ae8bb17 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -49,6 +49,7 @@ SEXP vec_equal(SEXP x, SEXP y, bool na_equal) {
   case VCTRS_TYPE_raw: out = raw_equal(x_proxy, y_proxy, size, na_equal); break;
   case VCTRS_TYPE_list: out = list_equal(x_proxy, y_proxy, size, na_equal); break;
   case VCTRS_TYPE_dataframe: out = df_equal(x_proxy, y_proxy, size, na_equal); break;
+  case VCTRS_TYPE_null: out = r_globals.empty_lgl; break;
   case VCTRS_TYPE_scalar: Rf_errorcall(R_NilValue, "Can't compare scalars with `vec_equal()`.");
   default: stop_unimplemented_vctrs_type("vec_equal", type);
   }
diff --git a/src/match.c b/src/match.c
index 320da11..3114633 100644
--- a/src/match.c
+++ b/src/match.c
@@ -145,6 +145,9 @@ r_obj* vec_locate_matches(r_obj* needles,
                           struct r_lazy error_call) {
   int n_prot = 0;
 
+  obj_check_vector(needles, needles_arg, error_call);
+  obj_check_vector(haystack, haystack_arg, error_call);
+
   int _;
   r_obj* ptype = KEEP_N(vec_ptype2_params(
     needles,
diff --git a/src/slice-chop.c b/src/slice-chop.c
index 1def91a..7ff4a7d 100644
--- a/src/slice-chop.c
+++ b/src/slice-chop.c
@@ -214,7 +214,7 @@ r_obj* vec_chop_base(r_obj* x,
     // Fallback to `[` if the class doesn't implement a proxy. This is
     // to be maximally compatible with existing classes.
     if (info.type == VCTRS_TYPE_scalar) {
-      r_abort_lazy_call(r_lazy_null, "Can't slice a scalar");
+      stop_scalar_type(x, vec_args.empty, r_lazy_null);
     }
 
     if (has_dim(x)) {
diff --git a/src/slice.c b/src/slice.c
index acced87..0819b11 100644
--- a/src/slice.c
+++ b/src/slice.c
@@ -319,7 +319,7 @@ r_obj* vec_slice_unsafe(r_obj* x, r_obj* subscript) {
 
   switch (info.type) {
   case VCTRS_TYPE_null:
-    r_stop_internal("Unexpected `NULL`.");
+    stop_scalar_type(x, vec_args.empty, r_lazy_null);
 
   case VCTRS_TYPE_logical:
   case VCTRS_TYPE_integer:
diff --git a/src/utils.c b/src/utils.c
index e8b0810..e856655 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -617,7 +617,7 @@ SEXP s3_bare_class(SEXP x) {
   case CLOSXP:
   case SPECIALSXP:
   case BUILTINSXP: return chrs_function;
-  default: stop_unimplemented_vctrs_type("base_dispatch_class_str", vec_typeof(x));
+  default: return Rf_ScalarString(Rf_type2str(TYPEOF(x)));
   }
 }
 
-- 
2.43.0


From 7c697a702859489af4a1871123b99e01ae02a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 36/53] fix: casting between factors with equal levels always
 keeps names

Names and other attributes were kept only when both factors shared the same
vector of levels, and lost when the levels were equal but another object or
in another encoding.
---
 src/type-factor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type-factor.c b/src/type-factor.c
index 18a23ba..8cbf4c7 100644
--- a/src/type-factor.c
+++ b/src/type-factor.c
@@ -276,7 +276,7 @@ SEXP ord_as_ordered(const struct cast_opts* p_opts) {
 
 static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* lossy, bool ordered) {
   // Early exit if levels are identical
-  if (x_levels == to_levels) {
+  if (x_levels == to_levels || equal_object(x_levels, to_levels)) {
     return x;
   }
 
-- 
2.43.0


From b7b71336c83b81628e62acb980d7e18d8e213e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 37/53] fix: vec_as_location() reports a malformed `n` without
 an internal error

---
 src/subscript-loc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/subscript-loc.c b/src/subscript-loc.c
index eb76a65..1e193b1 100644
--- a/src/subscript-loc.c
+++ b/src/subscript-loc.c
@@ -535,7 +535,11 @@ r_obj* ffi_as_location(r_obj* subscript,
     KEEP(ffi_n);
 
     if (r_length(ffi_n) != 1) {
-      r_stop_internal("`n` must be a scalar number.");
+      struct r_lazy error_call = { .x = frame, .env = r_null };
+      r_abort_lazy_call(error_call,
+                        "%s must be a single number, not %s.",
+                        vec_arg_format(vec_args.n),
+                        r_obj_type_friendly_length(ffi_n));
     }
 
     n = r_int_get(ffi_n, 0);
-- 
2.43.0


From e3e8e3223dba0285a2ff84936c286c3d0077b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 38/53] fix: df_ptype2(), df_cast(), tib_ptype2() and
 tib_cast() reject other objects

They read out of bounds or failed with an internal error when an argument
was not a data frame.
---
 src/type-data-frame.c | 16 ++++++++++++++++
 src/type-data-frame.h |  1 +
 src/type-tibble.c     |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index 1e4c2d8..a46225b 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -475,6 +475,16 @@ r_obj* new_compact_rownames(r_ssize n) {
 
 // vctrs type methods ------------------------------------------------
 
+// [[ include("type-data-frame.h") ]]
+void check_data_frame(r_obj* x, const char* arg, struct r_lazy call) {
+  if (!is_data_frame(x)) {
+    r_abort_lazy_call(call,
+                      "%s must be a data frame, not %s.",
+                      r_c_str_format_error_arg(arg),
+                      r_obj_type_friendly(x));
+  }
+}
+
 // [[ register() ]]
 r_obj* ffi_df_ptype2_opts(r_obj* x, r_obj* y, r_obj* opts, r_obj* frame) {
   struct r_lazy x_arg_ = { .x = syms.x_arg, .env = frame };
@@ -485,6 +495,9 @@ r_obj* ffi_df_ptype2_opts(r_obj* x, r_obj* y, r_obj* opts, r_obj* frame) {
 
   struct r_lazy call = { .x = r_syms.call, .env = frame };
 
+  check_data_frame(x, "x", call);
+  check_data_frame(y, "y", call);
+
   const struct ptype2_opts c_opts = new_ptype2_opts(x,
                                                     y,
                                                     &x_arg,
@@ -658,6 +671,9 @@ r_obj* ffi_df_cast_opts(r_obj* x, r_obj* to, r_obj* opts, r_obj* frame) {
 
   struct r_lazy call = { .x = r_syms.call, .env = frame };
 
+  check_data_frame(x, "x", call);
+  check_data_frame(to, "to", call);
+
   struct cast_opts c_opts = new_cast_opts(x,
                                           to,
                                           &x_arg,
diff --git a/src/type-data-frame.h b/src/type-data-frame.h
index d124b71..91cb032 100644
--- a/src/type-data-frame.h
+++ b/src/type-data-frame.h
@@ -50,6 +50,7 @@ r_ssize rownames_size(r_obj* rn);
 
 
 r_obj* df_ptype2(const struct ptype2_opts* opts);
+void check_data_frame(r_obj* x, const char* arg, struct r_lazy call);
 
 static inline
 r_obj* df_ptype2_params(r_obj* x,
diff --git a/src/type-tibble.c b/src/type-tibble.c
index f4dab61..5784548 100644
--- a/src/type-tibble.c
+++ b/src/type-tibble.c
@@ -28,6 +28,9 @@ r_obj* ffi_tib_ptype2(r_obj* x,
     .call = { .x = r_syms.call, .env = frame }
   };
 
+  check_data_frame(x, "x", opts.call);
+  check_data_frame(y, "y", opts.call);
+
   return tib_ptype2(&opts);
 }
 
@@ -58,5 +61,8 @@ r_obj* ffi_tib_cast(r_obj* x,
     .call = { .x = r_syms.call, .env = frame }
   };
 
+  check_data_frame(x, "x", opts.call);
+  check_data_frame(to, "to", opts.call);
+
   return tib_cast(&opts);
 }
-- 
2.43.0


From 21fbb287f6ddc1568e2ca378ebc7b5d77473e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 39/53] fix: splicing a list array in df_list(), data_frame()
 and new_rcrd()

The dimensions of a spliced array shadowed the names of the columns, which
were then missing.
---
 src/type-data-frame.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index a46225b..2ae1d33 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -241,6 +241,18 @@ r_obj* df_list(r_obj* x,
 
   r_ssize n_cols = r_length(x);
 
+  // Spliced arrays keep their dimensions, which shadow the names
+  if (r_attrib_get(x, r_syms.dim) != r_null) {
+    r_obj* names = KEEP(r_names(x));
+    x = r_clone(x);
+    KEEP(x);
+    r_attrib_poke(x, r_syms.dim, r_null);
+    r_attrib_poke(x, r_syms.dim_names, r_null);
+    r_attrib_poke_names(x, names);
+    FREE(2);
+  }
+  KEEP(x);
+
   // Unnamed columns are auto-named with `""`
   if (r_names(x) == r_null) {
     r_obj* names = KEEP(r_new_character(n_cols));
@@ -259,7 +271,7 @@ r_obj* df_list(r_obj* x,
   names = KEEP(vec_as_names(names, p_name_repair_opts));
   r_attrib_poke_names(x, names);
 
-  FREE(5);
+  FREE(6);
   return x;
 }
 
-- 
2.43.0


From 7656512889e944b4e2dd85815b3b9429cfad6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:24 +0000
Subject: [PATCH 40/53] fix: vec_restore() never sets attributes on objects
 that are not copied

Restoring from NULL, a symbol, an environment or a primitive function set the
attributes of `to` on that object everywhere in the session.
---
 src/proxy-restore.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/proxy-restore.c b/src/proxy-restore.c
index b6cd48b..059ee42 100644
--- a/src/proxy-restore.c
+++ b/src/proxy-restore.c
@@ -68,6 +68,20 @@ r_obj* vec_restore_default(r_obj* x, r_obj* to, enum vctrs_owned owned) {
     return x;
   }
 
+  // These objects are never copied. Poking their attributes would
+  // modify them everywhere.
+  switch (r_typeof(x)) {
+  case R_TYPE_null:
+  case R_TYPE_symbol:
+  case R_TYPE_environment:
+  case R_TYPE_builtin:
+  case R_TYPE_special:
+  case R_TYPE_pointer:
+    r_abort("Can't restore attributes on %s.", r_obj_type_friendly(x));
+  default:
+    break;
+  }
+
   int n_prot = 0;
 
   attrib = KEEP(r_clone(attrib));
-- 
2.43.0


From fd180dfd7233972f89feeb0d504d0864645a5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:24 +0000
Subject: [PATCH 41/53] fix: data frames in lists are equal whether their row
 names are compact or not

vec_equal(), vec_match() and the other functions based on the equality of
list elements compared the storage of automatic row names.
---
 src/equal.c           | 15 ++++++++++++++-
 src/hash.c            | 11 ++++++++++-
 src/type-data-frame.c | 23 +++++++++++++++++++++++
 src/type-data-frame.h |  1 +
 4 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index ae8bb17..dfac662 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -1,4 +1,5 @@
 #include "vctrs.h"
+#include "type-data-frame.h"
 #include <math.h>
 
 // -----------------------------------------------------------------------------
@@ -393,6 +394,18 @@ SEXP vctrs_equal_object(SEXP x, SEXP y) {
   return Rf_ScalarLogical(equal_object(x, y));
 }
 
+// Automatic row names may be stored in compact form or not
+static inline bool equal_attrib_value(SEXP tag, SEXP x, SEXP y) {
+  if (tag == R_RowNamesSymbol) {
+    r_ssize size = rownames_automatic_size(x);
+    if (size >= 0 && size == rownames_automatic_size(y)) {
+      return true;
+    }
+  }
+
+  return equal_object_normalized(x, y);
+}
+
 // TODO: Sort attributes by tag before comparison
 
 static inline bool vec_equal_attrib(SEXP x, SEXP y) {
@@ -411,7 +424,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
       return false;
     }
 
-    if (!equal_object_normalized(CAR(x_attrs), CAR(y_attrs))) {
+    if (!equal_attrib_value(x_tag, CAR(x_attrs), CAR(y_attrs))) {
       return false;
     }
 
diff --git a/src/hash.c b/src/hash.c
index 5ec6024..e1bb139 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -1,4 +1,5 @@
 #include "vctrs.h"
+#include "type-data-frame.h"
 
 // boost::hash_combine from https://stackoverflow.com/questions/35985960
 static inline uint32_t hash_combine(uint32_t x, uint32_t y) {
@@ -215,7 +216,15 @@ static uint32_t list_hash(SEXP x) {
 
 static uint32_t node_hash(SEXP x) {
   uint32_t hash = 0;
-  hash = hash_combine(hash, hash_object(CAR(x)));
+
+  // Automatic row names may be stored in compact form or not
+  r_ssize size = (TAG(x) == R_RowNamesSymbol) ? rownames_automatic_size(CAR(x)) : -1;
+
+  if (size >= 0) {
+    hash = hash_combine(hash, hash_uint32((uint32_t) size));
+  } else {
+    hash = hash_combine(hash, hash_object(CAR(x)));
+  }
   hash = hash_combine(hash, hash_object(CDR(x)));
   return hash;
 }
diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index 2ae1d33..0532eaa 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -444,6 +444,29 @@ r_ssize rownames_size(r_obj* rn) {
   never_reached("rownames_size");
 }
 
+// Size of automatic row names, whether compact or not. Returns -1 for
+// any other row names.
+// [[ include("type-data-frame.h") ]]
+r_ssize rownames_automatic_size(r_obj* rn) {
+  if (r_typeof(rn) != R_TYPE_integer) {
+    return -1;
+  }
+  if (rownames_type(rn) == ROWNAMES_TYPE_automatic_compact) {
+    return compact_rownames_length(rn);
+  }
+
+  r_ssize n = r_length(rn);
+  const int* v_rn = r_int_cbegin(rn);
+
+  for (r_ssize i = 0; i < n; ++i) {
+    if (v_rn[i] != i + 1) {
+      return -1;
+    }
+  }
+
+  return n;
+}
+
 // [[ include("type-data-frame.h") ]]
 void init_data_frame(r_obj* x, r_ssize n) {
   r_attrib_poke(x, r_syms.class_, classes_data_frame);
diff --git a/src/type-data-frame.h b/src/type-data-frame.h
index 91cb032..c51f1c0 100644
--- a/src/type-data-frame.h
+++ b/src/type-data-frame.h
@@ -47,6 +47,7 @@ enum rownames_type {
 };
 enum rownames_type rownames_type(r_obj* rn);
 r_ssize rownames_size(r_obj* rn);
+r_ssize rownames_automatic_size(r_obj* rn);
 
 
 r_obj* df_ptype2(const struct ptype2_opts* opts);
-- 
2.43.0


From 0887146075a7a85d254d79ba214717dca9f6d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:40 +0000
Subject: [PATCH 42/53] fix: vec_rep_each() checks that `times` is a vector

---
 src/rep.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rep.c b/src/rep.c
index 268511b..e8e0704 100644
--- a/src/rep.c
+++ b/src/rep.c
@@ -78,6 +78,8 @@ r_obj* vec_rep_each(r_obj* x,
                     struct r_lazy error_call,
                     struct vctrs_arg* p_x_arg,
                     struct vctrs_arg* p_times_arg) {
+  obj_check_vector(times, p_times_arg, error_call);
+
   times = KEEP(vec_cast(times,
                         r_globals.empty_int,
                         p_times_arg,
-- 
2.43.0


From b273459f8ac045442ba3bd799eef50d0ce8597f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:10 +0000
Subject: [PATCH 43/53] fix: vec_rep() and vec_rep_each() check that `x` is a
 vector

vec_rep_each() failed with an internal error for zero repetitions of an
object that is not a vector, and both returned such objects for one repetition.
---
 src/rep.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rep.c b/src/rep.c
index e8e0704..6f26514 100644
--- a/src/rep.c
+++ b/src/rep.c
@@ -8,6 +8,9 @@ r_obj* vec_rep(r_obj* x,
                struct r_lazy error_call,
                struct vctrs_arg* p_x_arg,
                struct vctrs_arg* p_times_arg) {
+  if (x != r_null) {
+    obj_check_vector(x, p_x_arg, error_call);
+  }
   check_rep_times(times, error_call, p_times_arg);
 
   if (times == 1) {
@@ -78,6 +81,9 @@ r_obj* vec_rep_each(r_obj* x,
                     struct r_lazy error_call,
                     struct vctrs_arg* p_x_arg,
                     struct vctrs_arg* p_times_arg) {
+  if (x != r_null) {
+    obj_check_vector(x, p_x_arg, error_call);
+  }
   obj_check_vector(times, p_times_arg, error_call);
 
   times = KEEP(vec_cast(times,
@@ -111,7 +117,7 @@ r_obj* vec_rep_each(r_obj* x,
 r_obj* ffi_vec_rep_each(r_obj* x, r_obj* times, r_obj* frame) {
   struct r_lazy error_call = { .x = r_syms.error_call, .env = frame };
 
-  struct r_lazy x_arg_lazy = { .x = syms.times_arg, .env = frame };
+  struct r_lazy x_arg_lazy = { .x = syms.x_arg, .env = frame };
   struct vctrs_arg x_arg = new_lazy_arg(&x_arg_lazy);
 
   struct r_lazy times_arg_lazy = { .x = syms.times_arg, .env = frame };
-- 
2.43.0


From bc96f7877e1e6ad8a929aa6e87dfbf28f8bf1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 44/53] fix: the label of a factor does not depend on the
 encoding of its levels

---
 R/type-factor.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/type-factor.R b/R/type-factor.R
index 9d260ae..8837062 100644
--- a/R/type-factor.R
+++ b/R/type-factor.R
@@ -243,7 +243,8 @@ hash_label <- function(x, length = 5) {
   } else {
     # Can't use obj_hash() because it hashes the string pointers
     # for performance, so the values in the test change each time
-    substr(rlang::hash(x), 1, length)
+    # Levels that are equal in different encodings have the same label
+    substr(rlang::hash(vec_normalize_encoding(x)), 1, length)
   }
 }
 
-- 
2.43.0


From 5915e1e248bd6ab7021be14cb45fefc7a4042d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 45/53] fix: assigning to an array checks the shape of the cast
 value

---
 src/slice-assign-array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/slice-assign-array.c b/src/slice-assign-array.c
index 68ca411..5c4e4a6 100644
--- a/src/slice-assign-array.c
+++ b/src/slice-assign-array.c
@@ -218,6 +218,10 @@ SEXP vec_assign_shaped(SEXP proxy, SEXP index, SEXP value,
   struct strides_info info = new_strides_info(proxy, index);
   PROTECT_STRIDES_INFO(&info, &n_protect);
 
+  if (Rf_xlength(value) != (R_xlen_t) info.shape_elem_n * info.index_n) {
+    r_stop_internal("`value` should have been recycled to fit `x`.");
+  }
+
   SEXP out = vec_assign_shaped_switch(proxy, index, value, owned, &info);
 
   UNPROTECT(n_protect);
-- 
2.43.0


From c9c323d0347b454156c3d4bda8b8985986042acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 46/53] fix: casts from and to integer64 keep dimensions

---
 R/type-integer64.R | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 637668b..1112d14 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -47,21 +47,31 @@ vec_ptype2.integer64 <- function(x, y, ...) {
 
 #' @method vec_ptype2.integer64 integer64
 #' @export
-vec_ptype2.integer64.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.integer64 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 
 #' @method vec_ptype2.integer64 integer
 #' @export
-vec_ptype2.integer64.integer <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.integer <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 #' @method vec_ptype2.integer integer64
 #' @export
-vec_ptype2.integer.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer.integer64 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 
 #' @method vec_ptype2.integer64 logical
 #' @export
-vec_ptype2.integer64.logical <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.logical <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 #' @method vec_ptype2.logical integer64
 #' @export
-vec_ptype2.logical.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.logical.integer64 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 
 
 # Cast --------------------------------------------------------------------
@@ -77,13 +87,13 @@ vec_cast.integer64 <- function(x, to, ...) {
 #' @export
 #' @method vec_cast.integer64 integer64
 vec_cast.integer64.integer64 <- function(x, to, ...) {
-  x
+  shape_broadcast(x, to, ...)
 }
 
 #' @export
 #' @method vec_cast.integer64 integer
 vec_cast.integer64.integer <- function(x, to, ...) {
-  bit64::as.integer64(x)
+  integer64_reshape(bit64::as.integer64(x), x, to, ...)
 }
 
 #' @export
@@ -92,19 +102,20 @@ vec_cast.integer.integer64 <- function(x, to, ..., x_arg = "", to_arg = "", call
   # Out of range values become missing with a warning
   out <- suppressWarnings(as.integer(x))
   lossy <- is.na(out) & !is.na(x)
+  out <- integer64_reshape(out, x, to, x_arg = x_arg, to_arg = to_arg, call = call)
   maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg, call = call)
 }
 
 #' @export
 #' @method vec_cast.integer64 logical
 vec_cast.integer64.logical <- function(x, to, ...) {
-  bit64::as.integer64(x)
+  integer64_reshape(bit64::as.integer64(x), x, to, ...)
 }
 
 #' @export
 #' @method vec_cast.logical integer64
 vec_cast.logical.integer64 <- function(x, to, ...) {
-  as.logical(x)
+  integer64_reshape(as.logical(x), x, to, ...)
 }
 
 #' @export
@@ -112,6 +123,7 @@ vec_cast.logical.integer64 <- function(x, to, ...) {
 vec_cast.integer64.double <- function(x, to, ..., x_arg = "", to_arg = "", call = caller_env()) {
   out <- suppressWarnings(bit64::as.integer64(x))
   lossy <- !is.na(x) & (is.na(out) | x != trunc(x))
+  out <- integer64_reshape(out, x, to, x_arg = x_arg, to_arg = to_arg, call = call)
   maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg, call = call)
 }
 
@@ -121,9 +133,19 @@ vec_cast.double.integer64 <- function(x, to, ..., x_arg = "", to_arg = "", call
   out <- suppressWarnings(as.double(x))
   roundtrip <- suppressWarnings(bit64::as.integer64(out))
   lossy <- !is.na(x) & (is.na(roundtrip) | roundtrip != x)
+  out <- integer64_reshape(out, x, to, x_arg = x_arg, to_arg = to_arg, call = call)
   maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg, call = call)
 }
 
+# The conversions of bit64 drop the dimensions
+integer64_reshape <- function(out, x, to, ...) {
+  if (!is.null(dim(x))) {
+    dim(out) <- dim(x)
+    dimnames(out) <- dimnames(x)
+  }
+  shape_broadcast(out, to, ...)
+}
+
 # ------------------------------------------------------------------------------
 
 integer64_proxy <- function(x) {
-- 
2.43.0


From b14694e8792bdad3e727eb4d7b7f1486a4b5e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 47/53] fix: casts between list_of and list arrays respect the
 shape

---
 R/type-list-of.R | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/R/type-list-of.R b/R/type-list-of.R
index 72db01c..41f0247 100644
--- a/R/type-list-of.R
+++ b/R/type-list-of.R
@@ -194,12 +194,12 @@ vec_ptype2.vctrs_list_of.vctrs_list_of <- function(x, y, ..., x_arg = "", y_arg
 }
 
 #' @export
-vec_ptype2.list.vctrs_list_of <- function(x, y, ...) {
-  list()
+vec_ptype2.list.vctrs_list_of <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(list(), x, y, x_arg = x_arg, y_arg = y_arg)
 }
 #' @export
-vec_ptype2.vctrs_list_of.list <- function(x, y, ...) {
-  list()
+vec_ptype2.vctrs_list_of.list <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(list(), x, y, x_arg = x_arg, y_arg = y_arg)
 }
 
 #' @rdname list_of
@@ -229,12 +229,12 @@ vec_cast.vctrs_list_of.vctrs_list_of <- function(x, to, ..., call = caller_env()
 
 #' @export
 vec_cast.list.vctrs_list_of <-function(x, to, ...) {
- list_of_unstructure(x)
+ shape_broadcast(list_of_unstructure(x), to, ...)
 }
 #' @export
 vec_cast.vctrs_list_of.list <-function(x, to, ..., call = caller_env()) {
   list_as_list_of(
-    x,
+    shape_broadcast(x, to, ..., call = call),
     attr(to, "ptype"),
     error_call = call
   )
-- 
2.43.0


From 269fb1d1f442259926f1b6c9aecb2432aa8332a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:18 +0000
Subject: [PATCH 48/53] fix: slicing integer64 arrays by missing locations

---
 R/slice.R | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/R/slice.R b/R/slice.R
index c05c33e..baf737a 100644
--- a/R/slice.R
+++ b/R/slice.R
@@ -131,6 +131,11 @@ vec_slice_fallback <- function(x, i) {
 vec_slice_fallback_integer64 <- function(x, i) {
   d <- vec_dim_n(x)
 
+  # Unclass to work around the `[` method of bit64, which treats arrays
+  # as vectors when `i` has missing values
+  class <- oldClass(x)
+  x <- unclass(x)
+
   if (d == 2) {
     out <- x[i, , drop = FALSE]
   } else {
@@ -140,16 +145,21 @@ vec_slice_fallback_integer64 <- function(x, i) {
 
   is_na <- is.na(i)
 
-  if (!any(is_na)) {
-    return(out)
-  }
+  if (any(is_na)) {
+    na <- unclass(bit64::NA_integer64_)
 
-  if (d == 2) {
-    out[is_na,] <- bit64::NA_integer64_
-  } else {
-    eval_bare(expr(out[is_na, !!!miss_args] <- bit64::NA_integer64_))
+    if (d == 2) {
+      out[is_na, ] <- na
+    } else {
+      eval_bare(expr(out[is_na, !!!miss_args] <- na))
+    }
+
+    if (!is.null(dimnames(out)[[1]])) {
+      dimnames(out)[[1]][is_na] <- ""
+    }
   }
 
+  oldClass(out) <- class
   out
 }
 
-- 
2.43.0


From 522b4e71c1f143f3f4a2bf4fde7fe7ed8e4a7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:18 +0000
Subject: [PATCH 49/53] fix: comparison and order proxies of integer64 arrays

---
 NAMESPACE          |  2 ++
 R/type-integer64.R | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/NAMESPACE b/NAMESPACE
index 7ebb59e..0b533ad 100644
--- a/NAMESPACE
+++ b/NAMESPACE
@@ -315,6 +315,7 @@ S3method(vec_proxy_compare,AsIs)
 S3method(vec_proxy_compare,POSIXlt)
 S3method(vec_proxy_compare,array)
 S3method(vec_proxy_compare,default)
+S3method(vec_proxy_compare,integer64)
 S3method(vec_proxy_compare,list)
 S3method(vec_proxy_compare,raw)
 S3method(vec_proxy_equal,AsIs)
@@ -326,6 +327,7 @@ S3method(vec_proxy_equal,numeric_version)
 S3method(vec_proxy_order,AsIs)
 S3method(vec_proxy_order,array)
 S3method(vec_proxy_order,default)
+S3method(vec_proxy_order,integer64)
 S3method(vec_proxy_order,list)
 S3method(vec_proxy_order,raw)
 S3method(vec_ptype2,AsIs)
diff --git a/R/type-integer64.R b/R/type-integer64.R
index 1112d14..b9e8d46 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -11,6 +11,17 @@ vec_proxy_equal.integer64 <- function(x, ...) {
   integer64_proxy(x)
 }
 
+# Methods are needed for arrays, the default one calls `as.data.frame()`
+#' @export
+vec_proxy_compare.integer64 <- function(x, ...) {
+  vec_proxy_equal(x)
+}
+
+#' @export
+vec_proxy_order.integer64 <- function(x, ...) {
+  vec_proxy_equal(x)
+}
+
 # Print -------------------------------------------------------------------
 
 #' 64 bit integers
-- 
2.43.0


From 0efa252d5b27ff6ba9117b89471597a0343c4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:06 +0000
Subject: [PATCH 50/53] fix: base c() fallback handles empty elements next to
 unspecified ones

---
 R/c.R | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/R/c.R b/R/c.R
index 0838809..3b3e70e 100644
--- a/R/c.R
+++ b/R/c.R
@@ -118,10 +118,8 @@ fallback_is_unspecified <- function(x) {
 }
 
 c_locs <- function(xs) {
-  locs <- reduce(lengths(xs), .init = list(0), function(output, input) {
-    n <- last(last(output))
-    c(output, list(seq(n + 1, n + input)))
-  })
+  sizes <- unname(lengths(xs))
+  starts <- cumsum(sizes) - sizes
 
-  locs[-1]
+  map2(starts, sizes, function(start, size) start + seq_len(size))
 }
-- 
2.43.0


From 2730b6ebc9528bc4174ddb495023546652daf9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 51/53] fix: columns of foreign classes are combined with
 unspecified columns

---
 R/c.R             |  4 +++-
 src/c.c           | 26 +++++++++++++++++++++++++-
 src/decl/c-decl.h |  3 +++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/R/c.R b/R/c.R
index 3b3e70e..e5b6275 100644
--- a/R/c.R
+++ b/R/c.R
@@ -114,7 +114,9 @@ base_c_invoke <- function(xs) {
 # convenience) go through `vec_assign()` before falling back in
 # `vec_rbind()`.
 fallback_is_unspecified <- function(x) {
-  is_unspecified(x) || is_true(attr(x, "vctrs:::unspecified"))
+  # Inputs are never of the fallback class themselves, only the missing
+  # values which fill unspecified and missing columns are
+  is_unspecified(x) || inherits(x, "vctrs:::common_class_fallback")
 }
 
 c_locs <- function(xs) {
diff --git a/src/c.c b/src/c.c
index 8d20628..86f9816 100644
--- a/src/c.c
+++ b/src/c.c
@@ -287,6 +287,8 @@ r_obj* vec_c_fallback(r_obj* ptype,
       }
     };
 
+    xs = KEEP(fallback_as_unspecified(xs));
+
     // Should cause a common type error, unless another fallback
     // kicks in (for instance, homogeneous class with homogeneous
     // attributes)
@@ -294,7 +296,7 @@ r_obj* vec_c_fallback(r_obj* ptype,
 
     // Suboptimal: Call `vec_c()` again to combine vector with
     // homogeneous class fallback
-    return vec_c_opts(
+    r_obj* out = vec_c_opts(
       xs,
       r_null,
       name_spec,
@@ -303,7 +305,29 @@ r_obj* vec_c_fallback(r_obj* ptype,
       p_error_arg,
       error_call
     );
+
+    FREE(1);
+    return out;
+  }
+}
+
+// Unspecified columns have been cast to the fallback type. Unlike these,
+// missing columns can't be combined without a `c()` method.
+static
+r_obj* fallback_as_unspecified(r_obj* xs) {
+  r_ssize n = r_length(xs);
+  r_obj* out = KEEP(r_clone_referenced(xs));
+
+  for (r_ssize i = 0; i < n; ++i) {
+    r_obj* x = r_list_get(out, i);
+    if (vec_is_common_class_fallback(x) &&
+        r_attrib_get(x, r_sym("vctrs:::unspecified")) == r_null) {
+      r_list_poke(out, i, vec_unspecified(vec_size(x)));
+    }
   }
+
+  FREE(1);
+  return out;
 }
 
 r_obj* vec_c_fallback_invoke(r_obj* xs,
diff --git a/src/decl/c-decl.h b/src/decl/c-decl.h
index 0cde5aa..a24afac 100644
--- a/src/decl/c-decl.h
+++ b/src/decl/c-decl.h
@@ -9,3 +9,6 @@ void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call);
 
 static
 bool df_needs_fallback(r_obj* x);
+
+static
+r_obj* fallback_as_unspecified(r_obj* xs);
-- 
2.43.0


From 8a4c1454f27642aece042a92064ea01a8d20732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 52/53] fix: vec_c() matches the columns of data frames when it
 falls back to c()

---
 src/c.c | 35 +++++++++++++++++++++++++++++++++--
 src/c.h |  1 +
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/c.c b/src/c.c
index 86f9816..b171346 100644
--- a/src/c.c
+++ b/src/c.c
@@ -149,8 +149,15 @@ r_obj* vec_c_opts(r_obj* xs,
     FREE(1);
   }
 
-  if (is_data_frame(out) && fallback_opts->s3) {
-    df_c_fallback(out, ptype, xs, out_size, name_spec, name_repair, error_call);
+  if (fallback_opts->s3 && needs_df_c_fallback(out, ptype)) {
+    // The columns of the inputs must match the columns of `ptype`
+    r_obj* xs_cast = KEEP(vec_cast_common_params(xs,
+                                                 ptype,
+                                                 S3_FALLBACK_true,
+                                                 p_error_arg,
+                                                 error_call));
+    df_c_fallback(out, ptype, xs_cast, out_size, name_spec, name_repair, error_call);
+    FREE(1);
   }
   out = KEEP(vec_restore_recurse(out, ptype, VCTRS_OWNED_true));
 
@@ -449,6 +456,30 @@ void df_c_fallback(r_obj* out,
   FREE(n_prot);
 }
 
+// `proxy` is the recursive proxy of `ptype`
+bool needs_df_c_fallback(r_obj* proxy, r_obj* ptype) {
+  if (!is_data_frame(proxy)) {
+    return false;
+  }
+
+  ptype = KEEP(is_data_frame(ptype) ? ptype : vec_proxy(ptype));
+  bool out = false;
+
+  if (is_data_frame(ptype) && r_length(ptype) == r_length(proxy)) {
+    r_ssize n_cols = r_length(ptype);
+
+    for (r_ssize i = 0; i < n_cols && !out; ++i) {
+      r_obj* ptype_col = r_list_get(ptype, i);
+      out =
+        vec_is_common_class_fallback(ptype_col) ||
+        (is_data_frame(r_list_get(proxy, i)) && df_needs_fallback(ptype_col));
+    }
+  }
+
+  FREE(1);
+  return out;
+}
+
 static
 bool df_needs_fallback(r_obj* x) {
   r_ssize n_cols = r_length(x);
diff --git a/src/c.h b/src/c.h
index 91aecdb..af221d2 100644
--- a/src/c.h
+++ b/src/c.h
@@ -33,6 +33,7 @@ r_obj* vec_c_fallback(r_obj* ptype,
 
 bool needs_vec_c_fallback(r_obj* ptype);
 bool needs_vec_c_homogeneous_fallback(r_obj* xs, r_obj* ptype);
+bool needs_df_c_fallback(r_obj* proxy, r_obj* ptype);
 
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
-- 
2.43.0


From d363038b9c528081b57ec1642ea61cab99483ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:48 +0000
Subject: [PATCH 53/53] fix: list_unchop() fallback respects `indices` in data
 frame columns and next to `NULL`

---
 src/c-unchop.c           | 104 ++++++++++++++++++++++++++++++++++++---
 src/decl/c-unchop-decl.h |  15 ++++++
 2 files changed, 111 insertions(+), 8 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index d3d9f4b..9fa03aa 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -91,6 +91,20 @@ r_obj* list_unchop(r_obj* xs,
   r_keep_loc proxy_pi;
   KEEP_HERE(proxy, &proxy_pi);
 
+  if (needs_df_c_fallback(proxy, ptype)) {
+    r_obj* out = list_unchop_df_fallback(
+      xs,
+      locs,
+      out_size,
+      name_spec,
+      name_repair,
+      p_error_arg,
+      error_call
+    );
+    FREE(4);
+    return out;
+  }
+
   proxy = vec_init(proxy, out_size);
   KEEP_AT(proxy, proxy_pi);
 
@@ -166,9 +180,6 @@ r_obj* list_unchop(r_obj* xs,
     FREE(3);
   }
 
-  if (is_data_frame(proxy)) {
-    df_c_fallback(proxy, ptype, xs, out_size, name_spec, name_repair, error_call);
-  }
   r_obj* out = KEEP(vec_restore_recurse(proxy, ptype, VCTRS_OWNED_true));
 
   if (out_names != r_null) {
@@ -266,6 +277,84 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     out = KEEP(vec_c_fallback(ptype, xs, name_spec, name_repair, p_error_arg, error_call));
   }
 
+  r_obj* locations = KEEP(unchop_locations(xs, indices, out_size, error_call));
+  out = KEEP(vec_slice_fallback(out, locations));
+
+  FREE(6);
+  return out;
+}
+
+// Data frames with columns that are combined with `base::c()`: these columns
+// can't be assigned to, so the data frames are first combined in order
+static
+r_obj* list_unchop_df_fallback(r_obj* xs,
+                               r_obj* locs,
+                               r_ssize out_size,
+                               r_obj* name_spec,
+                               const struct name_repair_opts* name_repair,
+                               struct vctrs_arg* p_error_arg,
+                               struct r_lazy error_call) {
+  r_ssize xs_size = vec_size(xs);
+  r_obj* xs_names = KEEP(r_names(xs));
+  xs = KEEP(r_clone_referenced(xs));
+
+  r_ssize i = 0;
+
+  struct vctrs_arg* p_x_arg = new_subscript_arg(
+    p_error_arg,
+    xs_names,
+    xs_size,
+    &i
+  );
+  KEEP(p_x_arg->shelter);
+
+  // Recycle `xs` elements to the size of their corresponding index
+  for (; i < xs_size; ++i) {
+    r_obj* x = r_list_get(xs, i);
+
+    r_ssize loc_size = r_length(r_list_get(locs, i));
+
+    if (x == r_null) {
+      continue;
+    }
+
+    x = KEEP(vec_check_recycle(x, loc_size, p_x_arg, error_call));
+
+    // Unspecified columns of size 0 would no longer be unspecified
+    if (loc_size == 0) {
+      x = vec_ptype(r_list_get(xs, i), p_x_arg, error_call);
+    }
+
+    r_list_poke(xs, i, x);
+    FREE(1);
+  }
+
+  r_obj* out = KEEP(vec_c(xs, r_null, name_spec, name_repair, p_error_arg, error_call));
+
+  r_obj* locations = KEEP(unchop_locations(xs, locs, out_size, error_call));
+  out = vec_slice_unsafe(out, locations);
+
+  FREE(5);
+  return out;
+}
+
+// Locations of the elements of a vector combined in order in the unchopped
+// vector
+static
+r_obj* unchop_locations(r_obj* xs,
+                        r_obj* indices,
+                        r_ssize out_size,
+                        struct r_lazy error_call) {
+  indices = KEEP(r_clone_referenced(indices));
+
+  // `NULL` elements are not combined and don't use their locations
+  r_ssize xs_size = r_length(xs);
+  for (r_ssize i = 0; i < xs_size; ++i) {
+    if (r_list_get(xs, i) == r_null) {
+      r_list_poke(indices, i, r_globals.empty_int);
+    }
+  }
+
   const struct name_repair_opts name_repair_opts = {
     .type = NAME_REPAIR_none,
     .fn = r_null,
@@ -291,7 +380,8 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     p_locations[i] = r_globals.na_int;
   }
 
-  for (r_ssize i = 0; i < out_size; ++i) {
+  const r_ssize n_indices = r_length(indices);
+  for (r_ssize i = 0; i < n_indices; ++i) {
     const int index = p_indices[i];
 
     if (index == r_globals.na_int) {
@@ -301,8 +391,6 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     p_locations[index - 1] = i + 1;
   }
 
-  out = KEEP(vec_slice_fallback(out, locations));
-
-  FREE(7);
-  return out;
+  FREE(3);
+  return locations;
 }
diff --git a/src/decl/c-unchop-decl.h b/src/decl/c-unchop-decl.h
index 04ed327..5475cf0 100644
--- a/src/decl/c-unchop-decl.h
+++ b/src/decl/c-unchop-decl.h
@@ -16,3 +16,18 @@ r_obj* list_unchop_fallback(r_obj* ptype,
                             enum fallback_homogeneous homogenous,
                             struct vctrs_arg* p_error_arg,
                             struct r_lazy error_call);
+
+static
+r_obj* list_unchop_df_fallback(r_obj* xs,
+                               r_obj* locs,
+                               r_ssize out_size,
+                               r_obj* name_spec,
+                               const struct name_repair_opts* name_repair,
+                               struct vctrs_arg* p_error_arg,
+                               struct r_lazy error_call);
+
+static
+r_obj* unchop_locations(r_obj* xs,
+                        r_obj* indices,
+                        r_ssize out_size,
+                        struct r_lazy error_call);
-- 
2.43.0

