#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json (fix: commits of /repo)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = [  # (start of the subject, property, what failed)
  ("base c() fallback handles empty elements", "C05", "vec_c(NA, foo(integer()), foo(1)) with a class that has only a c() method: an empty element beside an unspecified one gave two locations, so the result was too long or in the wrong order"),
  ("columns of foreign classes are combined with unspecified", "C06", "vec_rbind() of a column of a class without vctrs methods and an all-NA column failed (no c() method) or passed an object of the internal class vctrs:::common_class_fallback to the c() method"),
  ("vec_c() matches the columns of data frames", "C05", "vec_c(data_frame(x = foo), data_frame(y = foo)) combined columns of foreign classes by position, and read out of bounds (a crash) when an input had fewer columns"),
  ("list_unchop() fallback respects `indices`", "C04", "list_unchop(list(df1, df2), indices =) ignored the indices (and recycling) in columns of foreign classes; with a NULL element the remaining elements of a foreign class went to the wrong locations"),
 ("location2 functions reject a named zero", "C02", "num_as_location2(c(a = 0)) returned integer(0) instead of failing"),
 ("list elements that differ in their attributes", "C12", "vec_equal(list(1), list(c(a = 1))) was TRUE in one direction only: an element without attributes was equal to one with attributes"),
 ("integer64 casts that lose a value", "C08", "vec_cast() of integer64 2^53 + 1 to double, and of doubles out of range to integer64, lost the value silently"),
 ("restoring an AsIs vector", "C27", "vec_restore() of an AsIs Date or factor lost the class and attributes under AsIs"),
 ("assigning to a record or POSIXlt vector", "C03", "vec_assign()/`[<-` of a record or POSIXlt vector modified other references to the same vector"),
 ("list_unchop() casts size 1 elements", "C04", "list_unchop(list(1L), indices = list(1:2), ptype = double()) with a size 1 element recycled before the cast left NA or failed"),
 ("vec_recycle() rejects a bad size", "C11", "vec_recycle(1, -1L), vec_recycle(1, NA), vec_recycle(1, 1:2): internal error or a wrong result"),
 ("vec_recycle() rejects a size", "C11", "vec_recycle(1, -1L), vec_recycle(1, NA), vec_recycle(1, 1:2): internal error or a wrong result"),
 ("calls, pairlists and functions with different argument names", "C12", "list(quote(f(a = 1))) and list(quote(f(b = 1))) were equal"),
 ("complex and raw vectors in lists can be hashed", "C12", "vec_unique(list(1i)) and vec_unique(list(raw(1))) failed"),
 ("byte-compiling a function", "C30", "list(f) was not equal to list(f) after f had been byte-compiled by R"),
 ("S4 objects in lists", "C12", "vec_equal(list(s4a), list(s4b)) of S4 objects with different slots failed with an internal error"),
 ("raw matrices are compared", "C13", "vec_compare() and vec_order() of a raw matrix used the first column only or failed"),
 ("comparing vectors stored as raw", "C31", "vec_compare(raw(1), raw(1)) of classed raw vectors was an internal error"),
 ("ordering a data frame reruns a complex", "C14", "vec_order_radix() of a data frame with a complex column after a column with ties crashed or did not end"),
 ("matching rows with a raw column", "C18", "vec_match(na_equal = FALSE) of a data frame with a raw column after a missing value did not propagate it"),
 ("vec_locate_matches() detects incomplete", "C19", "vec_locate_matches(c(NA, 1, 2), 1, incomplete = 'error') did not fail"),
 ("vec_locate_matches() filters", "C19", "filter = 'max' with two >= columns dropped real matches: needle (3, 5.5), haystack rows (1, 5) and (2, 6) gave no match"),
 ("vec_rbind() accepts an unnamed input", "C06", "vec_rbind(df, a = row, .names_to = NULL) with a df of several rows was an internal error"),
 ("vec_locate_run_bounds() no longer", "C23", "vctrs:::vec_locate_run_bounds(rep(1:2, each = 5)) wrote one integer past the end of its result, which corrupted the heap"),
 ("vec_fill_missing() leaves", "C22", "vec_fill_missing(c(NaN, NA)) returned c(NaN, NaN): elements before the first value were filled from a missing first element"),
 ("names that only start like", "C25", "vec_as_names('..1a', repair = 'unique') returned '...1', although '..1a' is a valid unique name"),
 ("universal names repair returns unique", "C25", "vec_as_names(c('', '1'), repair = 'universal') returned c('...1', '...1')"),
 ("universal names repair never", "C25", "vec_as_names(' ..', repair = 'universal') returned '...', which is banned"),
 ("field() and field<-", "C27", "field(x, NaN) and `field<-` read memory out of bounds and crashed"),
 ("difftime vectors stored as integers", "C33", "vec_assign() and list_unchop() of a difftime stored as integers failed with an internal error"),
 ("a missing duration", "C33", "vec_arith('+', date, duration) failed with 'missing value where TRUE/FALSE needed' if a duration was missing"),
 ("take every argument into account", "C35", "min(), max() and range() of several vctrs_vctr arguments ignored all but the first: max(new_vctr(1), new_vctr(5)) was 1"),
 ("honour fromLast", "C35", "unique() and duplicated() of a vctrs_vctr ignored fromLast = TRUE"),
 ("allow x[] on records", "C35", "x[] on a record vector failed with 'argument \"i\" is missing'"),
 ("finalise the common type", "C39", "vec_interval_complement() with unspecified (all NA) bounds or start and end failed or returned unspecified vectors"),
 ("apply the tidyverse recycling", "C37", "date - date with sizes such as 2 and 4 recycled like base R instead of failing as every other vec_arith() method does"),
 ("describe AsIs objects", "C40", "obj_check_vector(I(mean)) and every error about such an object failed with 'Not a vector.' instead of a scalar-type error"),
 ("ignore the row names of data frame columns", "C40", "vec_is(x, x) was FALSE for a data frame with a data frame column that has row names"),
 ("objects that are not vectors", "C40", "vec_detect_missing(environment()), vec_order(mean), vec_rep(NULL, 2), vec_locate_matches(NULL, 1), vec_equal(NULL, NULL): internal errors instead of a scalar-type error or a value"),
 ("casting between factors with equal levels", "C30", "vec_cast() of a named factor to one whose levels are equal but another object dropped its names"),
 ("vec_as_location() reports a malformed", "C31", "vec_as_location(1L, n = integer()) and n = 1:2 failed with an internal error"),
 ("df_ptype2(), df_cast(), tib_ptype2() and tib_cast() reject", "C31", "df_cast(NULL, data_frame()) failed with an internal error, tib_cast(c(a = 1L), data_frame(b = 1)) read out of bounds"),
 ("splicing a list array in df_list()", "C31", "df_list(!!!structure(list(1, 2), dim = 2L)) and new_rcrd(structure(list(1), dim = 1L)) failed in STRING_PTR()"),
 ("vec_restore() never sets attributes on objects", "C31", "vec_restore(NULL, factor('a')) and vec_restore(sum, structure(1, foo = 2)) set attributes on NULL and on the primitive for the whole session"),
 ("data frames in lists are equal", "C30", "vec_equal(list(structure(list(a = 1:2), row.names = 1:2, class = 'data.frame')), list(data_frame(a = 1:2))) was FALSE although the data frames are identical()"),
 ("vec_rep_each() checks that", "C31", "vec_rep_each(integer(), NULL) failed in INTEGER()"),
 ("vec_rep() and vec_rep_each() check", "C31", "vec_rep_each(globalenv(), 0) failed with an internal error"),
 ("the label of a factor", "C30", "vec_ptype_full() of two factors with equal levels in Latin-1 and UTF-8 differed"),
 ("assigning to an array checks", "C31", "vec_slice(array, i) <- value read past the end of a value whose cast did not have the shape of the array"),
 ("casts from and to integer64 keep", "C31", "vec_slice(array(1L, 1:2), c(1, 1, NA, 1)) <- bit64::as.integer64(1:4) read out of bounds; vec_cast(), vec_ptype2() of integer64 arrays lost their shape"),
 ("casts between list_of and list arrays", "C31", "vec_slice(array(list(1, 2), 1:2), c(1, 1, NA, 1)) <- list_of(1, 2, 3, 4) read out of bounds and crashed; vec_cast() of a list array to list_of changed its size"),
 ("slicing integer64 arrays", "C01", "vec_slice() and vec_init() of an integer64 array without columns at a missing location failed; row names at missing locations were NA"),
 ("comparison and order proxies of integer64", "C13", "vec_compare(), vec_order() and vec_rank() of an integer64 array without columns failed, those of other integer64 arrays modified the argument in place"),
 ("unique names repair", "C25", "vec_as_names('......1', repair = 'unique') returned '...', which is not a valid name"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in reversed(log):
    h, s = l.split(" ", 1); s = s.removeprefix("fix: ")
    w = [x for x in WHAT if s.startswith(x[0])]
    if not w: raise SystemExit(f"no description of: {s}")
    fixed.append(f"fixed: property={w[0][1]} {h} {w[0][2]}")
p = f"{ROOT}/known_findings.json"
k = json.load(open(p)); k["fixed"] = fixed
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
