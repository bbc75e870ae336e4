#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here in a compact form)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

I = ["inputs"]
prop("C01", "Slicing selects exactly the requested elements of every vector type",
 "vec_slice(x, i) returns, for every vector x and every valid subscript i (positive, negative, zero, missing, logical, named, repeated, any order), a vector with the type, class and attributes of x whose element or row k is exactly element or row i[k] of x, and is missing where i[k] is missing, names and row names following. A data frame, record or array is sliced row by row in all its columns; an invalid subscript is an error. vec_init(x, n) is the slice of x by n missing locations.",
 I, "all vector types (bare, arrays, lists, data frames nested and with matrix columns, records, S3 classes with and without methods), all sizes, all subscript forms",
 "Unit tests slice a few literal vectors per type; nested types, repeated/missing/zero mixes, compact and materialised subscripts and dimensions above two are combinations no example list covers.",
 ["src/slice.c", "src/slice-array.c", "src/size.c", "src/subscript-loc.c", "R/slice.R", "R/type-vctr.R"],
 [("vec_slice_base and the per-type SLICE macros", "src/slice.c"), ("vec_slice_shaped", "src/slice-array.c"), ("df_slice, slice_names, slice_rownames", "src/slice.c"), ("vec_slice_fallback for S3 classes", "src/slice.c")], ["vec_slice", "vec_init"])
prop("C02", "Subscripts resolve to the documented locations under every option",
 "vec_as_location(), num_as_location(), vec_as_location2(), num_as_location2(), vec_as_subscript() and vec_as_subscript2() turn any subscript into the locations that its meaning and the options (missing, negative, oob, zero, names, n) define, in order and with nothing added or dropped, carrying the subscript's names where documented. Subscripts that the options disallow are reported as subscript errors of the documented class, never silently accepted.",
 I, "every subscript (logical, integer, double, character, factor, NULL, missing values, zeros, negatives, out-of-bounds, duplicated names) x n x names x every combination of options",
 "The option space (missing x negative x oob x zero x type x name duplication) is a product the tests touch at single points.",
 ["src/subscript-loc.c", "src/subscript.c", "R/subscript-loc.R", "R/subscript.R"],
 [("lgl_as_location, int_as_location, dbl_as_location, chr_as_location", "src/subscript-loc.c"), ("vec_as_subscript_opts", "src/subscript.c"), ("int_filter_zero, int_filter_missing, int_filter_oob, int_invert_location", "src/subscript-loc.c")], ["vec_as_location", "num_as_location", "vec_as_subscript"])
prop("C03", "Assignment changes exactly the addressed elements and nothing else",
 "After y <- vec_assign(x, i, value) (and the replacement form vec_slice(x, i) <- value), y has the type, class, names and size of x, y at location i[k] equals element k of value cast to the type of x and recycled to the size of i (the last write winning on duplicates), missing locations are ignored, and every other element of y equals that of x. A value that cannot be cast or recycled, or an invalid location, is an error and x itself never changes.",
 I, "all pairs of target and value types with a valid cast, all locations incl. duplicated, missing, negative, logical and compact ones, sizes incl. 0 and the recycled size 1",
 "Tests assign literals into bare vectors and a few classes; the product of type, nesting, location form and recycling, and that untouched elements stay untouched, is not enumerated.",
 ["src/slice-assign.c", "src/slice-assign-array.c", "R/slice.R"],
 [("vec_proxy_assign_opts and the per-type ASSIGN macros", "src/slice-assign.c"), ("vec_assign_shaped", "src/slice-assign-array.c"), ("df_assign", "src/slice-assign.c")], ["vec_assign", "vec_slice<-"])
prop("C04", "Chopping and unchopping are inverse; list_unchop places every element",
 "vec_chop(x, indices or sizes) is the list of the slices of x, and list_unchop(x, indices) puts element k of each piece at the location the indices give, in the common type of the pieces (or ptype), recycling pieces of size 1, the last write winning; so list_unchop(vec_chop(x, indices), indices) equals x for every partition of its locations. Locations no index addresses are missing, pieces whose size, type or index is unsuitable are errors, and names follow their elements.",
 I, "all vector types, all partitions and non-partitions (overlaps, gaps, empty indices, missing and negative locations), sizes, ptype, name_spec",
 "Round trips over every partition and type cannot be listed; tests use two or three literal partitions of short vectors.",
 ["src/slice-chop.c", "src/c-unchop.c", "R/slice-chop.R"],
 [("vec_chop_unsafe, chop_base, chop_shaped, chop_df, chop_fallback", "src/slice-chop.c"), ("list_unchop", "src/c-unchop.c")], ["vec_chop", "list_unchop", "vec_unchop"])
prop("C05", "vec_c concatenates all elements, in order, in the common type",
 "vec_c(...) has the common type of its inputs (or .ptype), the sum of their sizes, and as its elements the elements of each input, cast to that type, in order; NULL inputs add nothing, and the grouping of inputs does not matter: vec_c(vec_c(a, b), c) equals vec_c(a, b, c) (dates mixed with date-times apart, as a date becomes midnight in the zone it meets). Inner and outer names are combined by .name_spec as documented, and incompatible inputs are an error.",
 I, "all tuples of inputs of compatible types and sizes incl. NULL, unspecified and size 0, arrays, data frames, factors, records, named and unnamed",
 "Tests concatenate fixed short inputs; associativity and element placement across mixed types, sizes and name combinations quantify over all tuples.",
 ["src/c.c", "R/c.R", "src/names.c", "src/ptype-common.c"],
 [("vec_c_opts", "src/c.c"), ("vec_c_fallback", "src/c.c"), ("apply_name_spec", "src/names.c")], ["vec_c"])
prop("C06", "vec_rbind keeps every row, matching columns by name",
 "vec_rbind(...) is a data frame with the rows of its inputs in order, whose columns are the union of the inputs' columns in order of first appearance, each in the common type of the inputs that have it, and missing in the rows of inputs that lack it. Vectors are treated as single rows, .names_to adds a first column with the name or position of the input of each row, row names are kept and made unique, and .name_repair applies to the column names.",
 I, "all lists of data frames and vectors with overlapping, reordered, disjoint or empty columns, zero rows or columns, nested and packed columns, row names, .ptype, .names_to",
 "The alignment of columns over arbitrary column sets, orders, types and row counts is tested on a few literals.",
 ["src/bind.c", "R/bind.R", "src/type-data-frame.c"],
 [("vec_rbind", "src/bind.c"), ("as_df_row", "src/bind.c"), ("df_ptype2 and df_cast_opts", "src/type-data-frame.c")], ["vec_rbind"])
prop("C07", "Column binding and data frame construction recycle sizes and keep columns",
 "vec_cbind(...), data_frame(...), df_list(...) and new_data_frame() give columns in input order with recycled sizes equal to the common size of the inputs (or .size), unpacking unnamed data frames, packing named ones in vec_cbind and data_frame, dropping NULL, with names repaired by .name_repair. Each column has the elements of its input and the result is a valid data frame: all columns share its number of rows.",
 I, "all lists of vectors, data frames, matrices, NULLs and scalars with any naming, sizes (1, n, 0), .size, .name_repair, attributes",
 "Combinations of packing, recycling, naming, NULLs and zero sizes multiply beyond the listed examples.",
 ["src/bind.c", "src/type-data-frame.c", "R/bind.R", "R/type-data-frame.R"],
 [("vec_cbind", "src/bind.c"), ("df_list, df_list_unpack, df_list_drop_null", "src/type-data-frame.c"), ("new_data_frame", "src/type-data-frame.c")], ["vec_cbind", "data_frame", "df_list", "new_data_frame"])
prop("C08", "Casting is exact or an error: no value is lost silently",
 "vec_cast(x, to) returns a vector of the type of to with the size of x in which each element represents the same value as in x, missing staying missing (64-bit integers become logical by truth value); if any element cannot be represented exactly the cast fails with a lossy-cast error, and with an incompatible-type error if the types have no cast. allow_lossy_cast() turns lossy errors into the truncated values and changes nothing else.",
 I, "all pairs of types, all values incl. fractional, out-of-range, missing, NaN, infinite, non-level strings, sub-day times, 64-bit integers",
 "Lossiness depends on individual values anywhere in a vector; tests pick one bad value per pair.",
 ["src/cast.c", "src/cast-bare.c", "src/cast-dispatch.c", "R/cast.R", "R/type-bare.R", "R/type-factor.R", "R/type-date-time.R", "R/type-integer64.R", "src/type-date-time.c", "src/type-factor.c"],
 [("lossy checks in the bare casts", "src/cast-bare.c"), ("maybe_lossy_cast", "R/cast.R"), ("vec_cast_opts and native dispatch", "src/cast.c")], ["vec_cast"])
prop("C09", "The common type is a commutative, associative, idempotent join",
 "vec_ptype2(x, y) has the same type as vec_ptype2(y, x) (up to the documented left-to-right order of levels, columns and attributes), vec_ptype2(x, x) has the type of x, NULL and unspecified are identities, and folding pairwise compatible inputs in any grouping gives the type vec_ptype_common() gives. The result never depends on the values or sizes of the inputs, has size 0, and incompatible types fail in both orders.",
 I, "all pairs, triples and lists of vector types incl. nested data frames, records, list-ofs, arrays of compatible shape and unspecified",
 "The laws quantify over all pairs and triples of types, nested ones included; tests check a table of single pairs.",
 ["src/ptype2.c", "src/ptype-common.c", "src/ptype2-dispatch.c", "src/typeof2.c", "src/typeof2-s3.c", "R/type2.R", "src/ptype.c", "src/shape.c"],
 [("vec_ptype2_opts and native dispatch", "src/ptype2.c"), ("typeof2 tables", "src/typeof2.c"), ("reduce over arguments", "src/ptype-common.c")], ["vec_ptype2", "vec_ptype_common", "vec_ptype"])
prop("C10", "Inputs always cast to the common type; prototypes ignore the data",
 "Whenever vec_ptype_common(...) succeeds, vec_cast_common(...) succeeds and gives every input the same type, that of the common prototype, keeping sizes and values. vec_ptype(x) depends only on the type of x: slices of x have the prototype of x, the prototype has size 0, vec_ptype of a prototype is itself, and finalising only turns unspecified into logical. Casting to one's own prototype is the identity.",
 I, "all lists of compatible inputs of all types incl. empty and all-missing ones",
 "Coherence of two independent dispatch tables (ptype2 and cast) over all pairs of types and data.",
 ["src/cast.c", "src/ptype.c", "src/ptype-common.c", "src/cast-dispatch.c", "src/ptype2-dispatch.c", "R/type.R", "src/unspecified.c"],
 [("vec_cast_common_opts", "src/cast.c"), ("vec_ptype and vec_ptype_finalise", "src/ptype.c")], ["vec_cast_common", "vec_ptype", "vec_ptype_finalise"])
prop("C11", "Sizes and recycling follow the tidyverse rules for every input list",
 "vec_size_common(...) is the single size other than 1 that occurs (1 if all are 1, .absent or 0 for no inputs, NULL ignored) and is an error exactly when two different sizes other than 1 occur; vec_recycle() and vec_recycle_common() succeed exactly when each input has the target size or size 1, repeat size-1 inputs and leave others unchanged. vec_size(), list_sizes() and vec_size_common() agree with one another and with the number of elements or rows, and vec_seq_along, list_all_size, list_check_all_size and vec_check_size state the same facts.",
 I, "all lists of vectors of all types and sizes incl. 0, 1, NULL, .size given or not",
 "Quantifies over all size tuples and types.",
 ["src/size.c", "src/size-common.c", "R/size.R", "R/recycle.R", "src/assert.c"],
 [("vec_size, vec_recycle_opts", "src/size.c"), ("vec_size_common_opts, vec_recycle_common_opts", "src/size-common.c")], ["vec_size", "vec_size_common", "vec_recycle", "vec_recycle_common", "list_sizes"])
prop("C12", "Equality is an element-wise equivalence, consistent everywhere it is used",
 "vec_equal(x, y) is, element by element, an equivalence (reflexive with na_equal, symmetric, transitive): equal exactly when the values are equal, strings by text not encoding, -0 equal to 0, NA and NaN distinct from each other, rows when all columns agree, list elements when identical in type, value and attributes; without na_equal a missing operand gives NA (a row being decided by its first column that is not equal). vec_match, vec_unique, vec_group_id and hashing agree with it: equal elements always hash equally.",
 I, "all vector types and pairs of values incl. missing kinds, signed zeros, encodings, nested lists with attributes, data frames, complex, 64-bit integers",
 "An equivalence relation and its agreement with a separate hash function are statements over all pairs and triples of values.",
 ["src/equal.c", "src/equal.h", "src/hash.c", "src/poly-op.c", "src/translate.c", "R/equal.R", "src/proxy.c"],
 [("equal_object, vec_equal_attrib", "src/equal.c"), ("per-type equality kernels", "src/equal.h"), ("hash_fill, hash_object", "src/hash.c"), ("obj_encode_utf8", "src/translate.c")], ["vec_equal", "vec_match", "vec_in", "obj_equal", "vec_hash"])
prop("C13", "Comparison is a total order consistent with equality and sorting",
 "vec_compare(x, y) is -1, 0 or 1 element by element, antisymmetric and transitive, 0 exactly where vec_equal holds, lexicographic over data frame columns, by code point for strings, and NA where either side is missing unless na_equal, under which missing values sort below everything and NaN is consistent. Comparison operators of vctrs classes follow it, and it agrees with the order of the sorting functions (strings apart where these follow the locale).",
 I, "all comparable types and pairs and triples of values, data frames with missing columns included",
 "A total-order law over all triples cannot be sampled by literal tests.",
 ["src/compare.c", "src/compare.h", "R/compare.R", "R/type-vctr.R", "src/poly-op.c"],
 [("per-type compare kernels", "src/compare.h"), ("df_compare", "src/compare.c")], ["vec_compare"])
prop("C14", "Ordering is a stable sorted permutation for every size and option",
 "vec_order(), vec_sort(), the radix variants and vec_locate_sorted_groups() return a permutation of the locations that is sorted in the requested direction per column, with missing values (and NaN when distinguished) placed as requested, and ties in original order; grouped results list each distinct key once with its locations in order. Results do not depend on input size thresholds, sortedness of the input, or representation, and chr_proxy_collate orders by its output.",
 I, "all orderable types, sizes crossing every algorithm switch (insertion sort, counting sort, radix, sortedness fast path), data frames, directions, na_value, nan_distinct, chr_proxy_collate",
 "The code switches algorithm on size, range and sortedness; each has its own treatment of direction, missing values and ties, and tests stay at a handful of elements.",
 ["src/order.c", "src/order-sortedness.c", "src/order-groups.c", "src/order-truelength.c", "src/order-collate.c", "R/order.R"],
 [("int/dbl/cpl/chr order kernels and insertion, counting and radix passes", "src/order.c"), ("sortedness fast path", "src/order-sortedness.c"), ("string ranks in truelength", "src/order-truelength.c")], ["vec_order", "vec_sort", "vec_order_radix", "vec_sort_radix", "vec_locate_sorted_groups"])
prop("C15", "Ranks count what precedes, for every tie rule and missing-value rule",
 "vec_rank(x) gives each element the rank its ties rule (min, max, sequential, dense) defines from the number of elements before it in the requested direction and missing-value placement, and NA where incomplete is na and the row is incomplete. Ranks are invariant under permuting x, and sequential ranks invert the order.",
 I, "all orderable types, sizes, ties, directions, na_value, nan_distinct, incomplete, chr_proxy_collate",
 "Product of tie, missing and direction rules over all tie patterns.",
 ["src/rank.c", "R/rank.R"], [("vec_rank, vec_rank_min/max/sequential/dense", "src/rank.c")], ["vec_rank"])
prop("C16", "Unique, duplicate and count functions partition elements by equality",
 "vec_unique_loc() is the first location of each distinct element in order of appearance, vec_unique() the slice there, vec_unique_count() their number; vec_duplicate_any, vec_duplicate_detect and vec_duplicate_id mark exactly the elements with another equal element and give each the location of its first equal; vec_count() has each distinct element once with its exact number of occurrences in the requested order.",
 I, "all vector types, sizes beyond the initial hash table, collisions, missing values, encodings",
 "Correctness of the hash dictionary (probing, load factor, collisions) over arbitrary inputs and sizes.",
 ["src/dictionary.c", "src/hash.c", "R/dictionary.R"],
 [("dict_hash_scalar, dict_put, open addressing", "src/dictionary.c")], ["vec_unique", "vec_unique_loc", "vec_unique_count", "vec_duplicate_any", "vec_duplicate_detect", "vec_duplicate_id", "vec_count"])
prop("C17", "Grouping and splitting partition the rows completely and in order",
 "vec_group_loc() lists each distinct key once, in order of first appearance, with all its locations in increasing order; vec_group_id() numbers the same groups and vec_group_rle() gives their run lengths; vec_split(x, by) has the matching slices of x, so every row is in exactly one group.",
 I, "all key types and sizes, all values to split", "Partition law over all inputs.",
 ["src/group.c", "src/split.c", "R/group.R", "R/split.R"], [("vec_group_id, vec_group_rle, vec_group_loc", "src/group.c"), ("vec_split", "src/split.c")], ["vec_group_loc", "vec_group_id", "vec_group_rle", "vec_split"])
prop("C18", "vec_match and vec_in find the first match, in the common type, or none",
 "vec_match(needles, haystack) is the location of the first element of haystack equal to each needle after both are cast to their common type, NA when there is none; vec_in() says whether there is one. Missing needles match missing elements if na_equal and otherwise propagate as missing, rows being missing when any of their columns is.",
 I, "all pairs of compatible types, sizes, missing values, encodings, duplicated haystacks",
 "Quantifies over all pairs of inputs; hash-table behaviour is size and value dependent.",
 ["src/dictionary.c", "R/dictionary.R"], [("vec_match_params, vec_in", "src/dictionary.c"), ("dict_initialize_partial, dict_propagate missingness", "src/dictionary.c")], ["vec_match", "vec_in"])
prop("C19", "vec_locate_matches returns exactly the matching pairs its conditions define",
 "vec_locate_matches(needles, haystack, condition, filter, incomplete, no_match, remaining, multiple, relationship) returns, ordered by needle, exactly the pairs a nested loop over needles and haystack with the conditions per column would find, reduced by filter and multiple, with unmatched, incomplete and remaining rows handled as asked. It fails exactly when relationship, multiple, no_match, incomplete or remaining request an error and the situation occurs.",
 I, "all needle and haystack data frames (1-4 columns of all orderable types), all conditions per column and filter, and all other options",
 "The algorithm is a joint radix ordering with nested containers and binary search; options interact and tests cover literal points.",
 ["src/match.c", "src/match-joint.c", "src/match-compare.h", "R/match.R"],
 [("df_locate_matches, df_locate_matches_recurse", "src/match.c"), ("expand_compact_indices", "src/match.c"), ("compute_nesting_container_info", "src/match.c"), ("vec_joint_xtfrm", "src/match-joint.c")], ["vec_locate_matches"])
prop("C20", "Set operations are exact, ordered, duplicate-free set algebra",
 "vec_set_intersect, vec_set_difference, vec_set_union and vec_set_symmetric_difference return, in the common type of the inputs, each distinct element of the mathematical result once, in order of first appearance in x then y. They obey the set identities and treat missing values as elements.",
 I, "all pairs of compatible types incl. data frames, duplicates, missing values, encodings", "Set algebra over all pairs of inputs.",
 ["src/set.c", "R/set.R"], [("vec_set_intersect, vec_set_difference, vec_set_union, vec_set_symmetric_difference", "src/set.c")], ["vec_set_*"])
prop("C21", "Missing and complete detection agree with the definition on every row",
 "vec_detect_missing(x) is TRUE exactly where the element is missing (every column missing for rows, NULL for list elements, never for raw), vec_any_missing(x) is whether any is, vec_detect_complete(x) is TRUE exactly where no column of the row, nested or not, is missing. They agree with slicing: vec_init gives missing elements and vec_slice(x, complete) is fully complete.",
 I, "all vector types, nested data frames, records, arrays, NA and NaN, sizes", "Row-wise missingness over arbitrary nesting.",
 ["src/missing.c", "src/complete.c", "R/missing.R", "R/complete.R"], [("vec_detect_missing and the first-missing search", "src/missing.c"), ("vec_detect_complete", "src/complete.c")], ["vec_detect_missing", "vec_any_missing", "vec_detect_complete", "vec_equal_na"])
prop("C22", "Filling replaces each missing element with the nearest allowed one",
 "vec_fill_missing(x, direction, max_fill) replaces each missing element with the closest previous or following non-missing element in the direction (down, up, downup, updown), never across more than max_fill consecutive missing elements, and leaves every other element unchanged.",
 I, "all vector types, missing patterns, directions and limits", "Run patterns and limits over all inputs.",
 ["src/fill.c", "R/fill.R"], [("vec_fill_down/up/down_up/up_down with max_fill", "src/fill.c")], ["vec_fill_missing"])
prop("C23", "Run functions describe the runs exactly and can be inverted",
 "vec_identify_runs(x), vec_run_sizes(x) and vec_unrep(x) (and the run location helpers) describe exactly the maximal runs of consecutive equal elements: ids increase by one at each change, sizes sum to the size of x and vec_rep_each(key, times) of vec_unrep gives x back.",
 I, "all vector types, sizes and run patterns incl. data frames, missing values, NaN and encodings", "Round-trip law over all inputs.",
 ["src/runs.c", "src/rep.c", "R/runs.R"], [("vec_identify_runs, df_identify_runs narrowing", "src/runs.c"), ("vec_unrep", "src/rep.c")], ["vec_identify_runs", "vec_run_sizes", "vec_unrep", "vec_locate_run_bounds", "vec_detect_run_bounds"])
prop("C24", "Repeating, expanding and interleaving place every element by formula",
 "vec_rep(x, times) is x repeated as a whole, vec_rep_each(x, times) repeats each element its own number of times, vec_interleave(...) takes the k-th elements of all inputs in turn after casting and recycling, and vec_expand_grid(...) enumerates every combination once in the order .vary selects. Missing, negative or oversized times are errors.",
 I, "all vector types, sizes, times (scalar and vector, zero), numbers of inputs, .vary, name repair", "Index formulas over all sizes and times.",
 ["src/rep.c", "src/expand.c", "src/slice-interleave.c", "R/rep.R", "R/expand.R", "R/slice-interleave.R"],
 [("vec_rep, vec_rep_each", "src/rep.c"), ("vec_expand_grid", "src/expand.c"), ("vec_interleave indices", "src/slice-interleave.c")], ["vec_rep", "vec_rep_each", "vec_expand_grid", "vec_interleave"])
prop("C25", "Name repair yields names with the promised guarantees, minimally changed",
 "vec_as_names(names, repair) returns names of the same length that are, for minimal, never NA; for unique, non-empty, distinct and free of ... and ..j forms; for universal, also syntactic; unchanged where the input already complies, and idempotent (for universal: unless a number or a replaced character takes the form of a position suffix). check_unique fails exactly when the names are not unique, a function is applied and its result checked, and unique_quiet and universal_quiet differ only in messages.",
 I, "all character vectors of names: duplicates, empties, NA, dots suffixes in every position, reserved words, non-ASCII and other encodings",
 "A guarantee over all strings with an ad-hoc suffix grammar parsed in C.",
 ["src/names.c", "R/names.R"], [("as_unique_names, suffix_pos, is_unique_names", "src/names.c"), ("vec_as_universal_names", "src/names.c")], ["vec_as_names"])
prop("C26", "Names are read and written without touching anything else",
 "vec_names(x) and vec_names2(x) return the names of elements or row names of rows (dimnames of arrays, row names of data frames, NULL or empty where absent), vec_set_names(x, names) sets exactly those, so reading back gives what was set, and leaves values, type and attributes of x unchanged. Outer names combine with inner names by name_spec: a glue string, a function, inner, or an error.",
 I, "all vector types with and without names, all names, all name specs", "Round trip over all types and names.",
 ["src/names.c", "R/names.R"], [("vec_names, vec_set_names, vec_names2", "src/names.c"), ("apply_name_spec, glue_as_name_spec, r_chr_paste_prefix, r_seq_chr", "src/names.c")], ["vec_names", "vec_names2", "vec_set_names", "vec_c(.name_spec)"])
prop("C27", "Proxies and restoration round-trip every vector; record fields stay consistent",
 "vec_restore(vec_proxy(x), x) is x for every vector, vec_data() strips to the underlying data of the same size, and slicing, assigning or combining through the proxy of a class with its own vec_proxy, vec_restore, vec_proxy_equal, vec_proxy_compare or vec_proxy_order methods honours those methods at every nesting depth (data frame columns, list-ofs). fields(), n_fields(), field() and field<- read and write exactly one field of a record, and reject values that would break its size.",
 I, "all vector types, S3 classes with user-defined proxies of any shape, nested in data frames", "User-defined proxies over any shape and depth.",
 ["src/proxy.c", "src/proxy-restore.c", "src/fields.c", "R/proxy.R", "R/fields.R", "R/type-rcrd.R"],
 [("vec_proxy_opts, vec_proxy_equal/compare/order", "src/proxy.c"), ("vec_restore_opts, vec_restore_recurse", "src/proxy-restore.c"), ("vctrs_field_get, vctrs_field_set", "src/fields.c")], ["vec_proxy", "vec_restore", "vec_data", "field", "fields"])
prop("C28", "No function ever modifies its inputs or leaves global state behind",
 "Calling any vctrs function, whether it succeeds or fails, leaves every argument bit-for-bit unchanged (values, names, attributes, references shared with other variables), leaves options and the random seed alone, and leaves strings of the global cache without residue. Only the replacement forms change the variable they assign.",
 ["inputs", "histories"], "all exported functions, arguments of all types shared with other variables, successful and failing calls, sequences of calls on the same objects",
 "Copy-on-write mistakes only show when another reference survives; tests rarely keep one.",
 ["src/slice-assign.c", "src/owned.h", "src/proxy-restore.c", "src/names.c", "src/type-data-frame.c", "src/order-truelength.c", "src/fields.c", "src/utils.c"],
 [("VCTRS_OWNED and vec_clone_referenced", "src/owned.h"), ("truelength_reset", "src/order-truelength.c")], ["every exported function"])
prop("C29", "Results do not depend on when the garbage collector runs",
 "For every call and every schedule of garbage collections at allocation points inside vctrs, the result (value or error) is the same as with no collection, and memory stays valid: every object in use is protected until its last use.",
 ["schedules", "inputs"], "all exported functions and argument types x collection at any allocation made by vctrs",
 "A missing PROTECT needs a collection at one particular allocation; ordinary test runs collect at almost none of them.",
 ["src/*.c"], [("KEEP/FREE, PROTECT/UNPROTECT and growable shelters", "src/"), ("dictionary and order-group shelters", "src/dictionary.c, src/order-groups.c")], ["every exported function"])
prop("C30", "Results depend on values only, not on how R represents them",
 "Replacing an input by an equal one in another representation (compact sequence or materialised, ALTREP string or plain, native, UTF-8 or Latin-1 encoded strings, integer row names compact or explicit, shared or unshared, byte-compiled or not) never changes the result of any vctrs function beyond representation.",
 ["inputs", "configurations"], "all functions and inputs with representation changes", "Metamorphic law over representations that tests rarely vary.",
 ["src/altrep-rle.c", "src/altrep-lazy-character.c", "src/translate.c", "src/utils.c", "src/slice.c", "src/type-data-frame.c"],
 [("obj_encode_utf8", "src/translate.c"), ("compact_seq and compact_rep expansion", "src/utils.c"), ("rownames_type", "src/type-data-frame.c")], ["all functions"])
prop("C31", "Any argument is answered with a value or a clean error, never corruption",
 "For any arguments that are well-formed R objects, of right or wrong type, size, attributes or options, every exported function returns a well-formed R value or signals an ordinary R error that is not an internal one: it never crashes, reads or writes out of bounds, invokes undefined behaviour, hangs, or leaves attributes on objects shared by the session. Objects made invalid by hand (attributes that contradict their class) may also meet an internal error, but never corrupt memory where vctrs checks them; factor codes outside the levels and data frames with columns of different sizes are outside the contract.",
 ["inputs", "programs"], "all exported functions x arbitrary R objects (scalars, functions, huge numbers, odd dims), and objects with attributes that contradict their class",
 "Memory safety over all inputs; tests run without sanitizers on well-formed arguments.",
 ["src/*.c", "R/*.R"], [("argument checks at the entry points", "src/init.c, src/arg.c, src/utils.c")], ["every exported function"])
prop("C32", "An error or jump in a user callback leaves no partial effect",
 "When a user-supplied S3 method or callback (proxy, restore, ptype2, cast, name repair, name spec, collation proxy, format) signals an error, or jumps out, at any of its invocations during a call, the error reaches the caller, no argument or global state has changed, and repeating the call without the fault gives the result it would have given at first.",
 ["fault_sequences", "inputs"], "all functions that call back into R x every callback invocation as fault point", "The fault point is an index into the sequence of callbacks of a call; tests never inject errors in the middle.",
 ["src/order.c", "src/order-truelength.c", "src/dictionary.c", "src/cast-dispatch.c", "src/utils-dispatch.c", "src/proxy.c", "src/names.c", "src/c.c"],
 [("global state set after the last callback or restored on exit", "src/order-truelength.c"), ("dispatch through vctrs_dispatch_n", "src/utils.c")], ["all functions with callbacks"])
prop("C33", "Date-times convert and combine keeping the instant, day and duration",
 "Dates, POSIXct, POSIXlt and difftime vectors are combined and cast without changing the instant, calendar day or duration they denote: the common type keeps the first non-local time zone and converts units, a cast that would drop a time of day or a part fails, integer-stored values behave as double-stored ones, new_date, new_datetime and new_duration build valid vectors, and date-time arithmetic agrees with the calendar.",
 I, "all dates and instants (fractional, missing, infinite, before 1970), time zones, units, integer or double storage", "Quantifies over instants, zones and storage modes.",
 ["src/type-date-time.c", "R/type-date-time.R"], [("date_as_posixct, posixct_as_date, tzone_union", "src/type-date-time.c"), ("date_validate, datetime_validate", "src/type-date-time.c")], ["vec_cast", "vec_ptype2", "vec_c", "new_date", "new_datetime", "new_duration", "vec_arith"])
prop("C34", "Factors combine by union of levels and cast by label, never by code",
 "Combining factors unions their levels in order of appearance and every element keeps its label; casting to a factor or ordered keeps labels or fails as lossy if a label is not a level; casting to character gives labels; ordered factors combine only with identical levels; new_factor and new_ordered build valid factors.",
 I, "all factors, level sets and orders, missing values, encodings of levels, strings", "Recoding by label over all level permutations.",
 ["src/type-factor.c", "R/type-factor.R"], [("levels_union, fct_as_factor recoding", "src/type-factor.c"), ("chr_as_factor", "src/type-factor.c")], ["vec_c", "vec_cast", "vec_ptype2", "new_factor", "new_ordered"])
prop("C35", "vctrs classes obey base generics consistently with their data",
 "For a vctrs_vctr or record, base generics ([, [[, [<-, [[<-, c, rep, length<-, unique, duplicated, rev, sort, order, comparison and ==, is.na, anyNA, na.omit, min, max, range, median, quantile, xtfrm, as.list, as.character, names<-, levels, format, summary, seq-like helpers) give what the same operation on the underlying data gives, in the class of the input with its attributes kept. Operations that make no sense for the class are errors.",
 I, "all vctr classes over all base types, records, subscripts, values", "Every method times every base type and subscript form.",
 ["R/type-vctr.R", "R/type-rcrd.R", "R/compare.R"], [("vctrs_vctr S3 methods", "R/type-vctr.R"), ("vctrs_rcrd S3 methods", "R/type-rcrd.R")], ["base generics on vctrs_vctr"])
prop("C36", "A list_of stays a list of its prototype through every operation",
 "After any sequence of construction, subset, assignment, concatenation, casting, removal and renaming, every element of a list_of is NULL or has exactly its prototype's type, the prototype is unchanged or the documented common one, and the elements are those a plain list would hold. An element that cannot be cast is an error that leaves the list unchanged.",
 ["histories", "inputs"], "all operation sequences over list_ofs of all element types", "An invariant over histories of operations.",
 ["R/type-list-of.R", "src/ptype2-dispatch.c", "R/type-vctr.R"], [("list_of methods and validation casts", "R/type-list-of.R")], ["list_of", "new_list_of", "as_list_of", "[<-", "[[<-", "$<-", "vec_c"])
prop("C37", "Arithmetic and math recycle and type results by the double dispatch rules",
 "vec_arith(op, x, y) on bare vectors, dates, date-times and durations gives the value R's arithmetic defines after tidyverse recycling (an error for other size mismatches), in the documented class and unit, and the operators of vctrs classes dispatch to it; unsupported combinations are incompatible-operation errors. vec_math(fn, x) equals fn on the underlying data, in the class of x.",
 I, "all operators, operand classes, sizes, missing values, units", "Operators times classes times recycling.",
 ["R/arith.R", "R/numeric.R", "R/type-date-time.R", "R/type-vctr.R"], [("vec_arith double dispatch", "R/arith.R"), ("vec_math_base", "R/numeric.R")], ["vec_arith", "vec_math", "Ops on vctrs_vctr"])
prop("C38", "Data frame types join column-wise and keep their subclass rules",
 "The common type of data frames has the union of their columns in order of first appearance, each the common type; casting fills absent columns with missing values and fails, as lossy, if a column would be dropped; rows never change. Tibbles win over data frames, and subclasses known to vctrs (grouped, row-wise, data.table, sf, table) keep or drop their class as documented while their columns keep their values; df_ptype2, df_cast, tib_ptype2 and tib_cast agree with the generic functions.",
 I, "all pairs of data frames and subclasses, column sets and orders, nested data frames", "Column sets, orders and classes over all pairs.",
 ["src/type-data-frame.c", "src/type-tibble.c", "R/type-data-frame.R", "R/type-tibble.R", "R/type-dplyr.R", "R/type-sf.R", "R/type-data-table.R", "R/type-table.R"],
 [("df_ptype2_loop, df_cast_loop", "src/type-data-frame.c"), ("tib_ptype2, tib_cast", "src/type-tibble.c")], ["vec_ptype2", "vec_cast", "vec_c", "vec_rbind", "df_ptype2", "df_cast"])
prop("C39", "Interval functions implement interval set algebra over half-open intervals",
 "The interval helpers (minimal merge, containment, complement and groups) over any orderable start and end treat each pair as a half-open interval: merged intervals cover exactly the points the inputs cover and are sorted, disjoint and maximal (abutting ones merged or not as asked), the complement covers exactly the other points between the bounds, containers are exactly the intervals contained in no other, and missing intervals are handled as asked.",
 I, "all lists of intervals of all orderable types incl. missing, overlapping, abutting, duplicated, with bounds", "Sweep algorithms over all interval configurations.",
 ["src/interval.c", "R/interval.R"], [("vec_interval_group_info, vec_interval_complement, vec_interval_locate_containers", "src/interval.c")], ["vec_interval_groups", "vec_interval_locate_groups", "vec_interval_complement", "vec_interval_locate_containers"])
prop("C40", "Predicates and assertions classify every object consistently",
 "obj_is_vector, obj_is_list, vec_is, vec_is_list, list_all_vectors and the corresponding checks and vec_assert hold exactly for the documented objects: a check fails exactly when its predicate is FALSE, vec_assert when the prototype or size differs, and functions that need a vector reject exactly what obj_is_vector rejects with a scalar-type error. The result never depends on the contents beyond the type, and unspecified(), vec_ptype_abbr and vec_ptype_full answer for every vector.",
 I, "all R objects, vectors or not, with any class attribute", "Agreement of many separate type switches over all objects.",
 ["src/assert.c", "src/type-info.c", "src/typeof2.c", "src/vctrs-core.c", "R/assert.R", "R/type.R", "R/ptype-abbr-full.R", "src/proxy.c"],
 [("vec_type_info, class_type", "src/type-info.c"), ("obj_is_vector, obj_is_list", "src/assert.c")], ["obj_is_vector", "obj_is_list", "vec_assert", "vec_is", "list_all_vectors"])
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
