#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one dict per property).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=None)))
I=["inputs"]
p("P01","Subscripts resolve to exactly the locations their rules prescribe",
 "vec_as_location() and num_as_location() turn every positive, negative, zero, missing, logical, double or character subscript, for every vector size and every combination of the missing/negative/oob/zero options, into exactly the locations those options prescribe, in order. A subscript that the options forbid (out of bounds, negative mixed with positive or missing, wrong-size logical, fractional, unknown name) always raises an error, and a permitted one never does.",
 I,"all subscripts, all sizes n, all option combinations, and names when the subscript is character",
 "Tests pick a few dozen subscripts; the guarantee quantifies over all integers/doubles (INT_MIN/INT_MAX edges, mixed signs, order of offending elements) crossed with every option combination.",
 ["src/subscript-loc.c","src/subscript.c","R/subscript-loc.R"],
 [("int_as_location / int_invert_location / int_filter*","src/subscript-loc.c"),("lgl_as_location","src/subscript-loc.c"),("dbl_as_location","src/subscript-loc.c"),("chr_as_location","src/subscript-loc.c"),("int_check_consecutive (oob = 'extend')","src/subscript-loc.c")],
 ["vec_as_location()","num_as_location()","vec_as_location2()"])
p("P02","vec_slice() returns exactly the selected observations",
 "For every vector (bare, data frame, matrix, named, classed) and every valid subscript, element k of vec_slice(x, i) is the i[k]-th observation of x, a missing subscript gives a missing observation, and the size of the result is the number of selected locations. Names, row names, columns and further dimensions follow the same selection; type and attributes of x are kept.",
 I,"all vectors x of the supported storage types and all valid subscripts i",
 "Each storage type, the compact sequence/repetition fast paths, names and arrays have separate loops; tests sample a few subscripts per type.",
 ["src/slice.c","src/slice-array.c","src/strides.h","R/slice.R"],
 [("*_slice macros, compact seq and rep variants","src/slice.c"),("array slicing with strides","src/slice-array.c"),("slice_names / slice_rownames","src/slice.c")],
 ["vec_slice()","vec_init()","vec_slice2()"])
p("P03","Assignment writes the selected observations and nothing else",
 "vec_assign(x, i, value) (and vec_slice<-) puts value, recycled to the number of selected locations, at exactly those locations and leaves every other observation, the size and the type of x unchanged; when a location repeats the last value wins, and a missing location in i is skipped. A value that cannot be cast without loss to the type of x, or whose size does not fit, is refused with an error and x is untouched.",
 I,"all vectors x, valid subscripts i and values",
 "Tests check a handful of positions; the frame condition and last-write-wins rule quantify over all locations, values and sizes, for each storage type, arrays, and data frames.",
 ["src/slice-assign.c","src/slice-assign-array.c","R/slice.R"],
 [("vec_proxy_assign_opts and per-type assign loops","src/slice-assign.c"),("array assignment with strides","src/slice-assign-array.c"),("df_assign","src/slice-assign.c")],
 ["vec_assign()","vec_slice<-"])
p("P04","Element equality is the documented equivalence relation",
 "vec_equal(x, y) compares observation by observation: with na_equal = TRUE it is reflexive, symmetric and transitive, treats missing as equal to missing while keeping NA and NaN distinct, and treats +0 and -0 as equal; with na_equal = FALSE any missing operand makes the result NA. Data frame rows are equal exactly when all their columns are, recursively, whatever the storage types of the columns; with na_equal = FALSE the first column, in order, that is not equal decides between FALSE and NA. Elements of lists are compared as whole objects, attributes included. Array rows are equal when all their cells are.",
 I,"all pairs of vectors of a common type, both na_equal settings, data frames with any columns",
 "All doubles (NA payload, NaN, signed zero, denormals), complex parts and column combinations must be covered; tests sample a few literals.",
 ["src/equal.c","src/equal.h","src/poly-op.c","R/equal.R"],
 [("*_equal_na_equal / *_equal_na_propagate","src/equal.h"),("df row-wise loop with early exit","src/equal.c"),("dbl_classify","src/utils.c")],
 ["vec_equal()","vec_detect_missing()","obj_equal()"])
p("P05","Comparison is a total order consistent with equality",
 "vec_compare(x, y) returns -1, 0 or 1 in agreement with the value order; it is antisymmetric, transitive, and 0 exactly where vec_equal() is TRUE; with na_equal = FALSE missing operands give NA, with na_equal = TRUE missing values sort below every other value and NaN is distinguished from NA consistently. Data frames and arrays compare lexicographically by column: the first column that is not equal decides.",
 I,"all pairs and triples of comparable vectors, both na_equal settings, data frames with any columns",
 "Order laws quantify over pairs and triples of all values including NA/NaN/signed zero and INT_MIN neighbours; tests only sample pairs.",
 ["src/compare.c","src/compare.h","src/poly-op.c","R/compare.R"],
 [("int/dbl/chr_compare_na_equal, _na_propagate","src/compare.h"),("df_compare row info with early exit","src/compare.c")],
 ["vec_compare()"])
p("P06","Missingness and completeness agree with their definitions",
 "vec_detect_missing() is TRUE for an observation exactly when it is missing (for a data frame row: when every column is missing; for a list: NULL), vec_any_missing() is TRUE exactly when some observation is, and vec_detect_complete() is TRUE exactly when no column of the row contains a missing value. These hold at every position for vectors of every type and size.",
 I,"all vectors and data frames",
 "Row-wise early-exit and any-missing short circuits depend on positions and column combinations that tests sample sparsely.",
 ["src/missing.c","src/complete.c","src/missing.h","R/missing.R","R/complete.R"],
 [("*_detect_missing, *_any_missing/first_missing","src/missing.c"),("df_missing row loop","src/missing.c"),("vec_detect_complete_switch","src/complete.c")],
 ["vec_detect_missing()","vec_any_missing()","vec_detect_complete()"])
p("P07","Ordering returns the stable sorting permutation",
 "vec_order() and vec_order_radix() return a permutation of 1..n under which the observations are sorted in the requested direction with missing values (and NaN) placed where na_value and nan_distinct ask, and equal observations keep their original relative order; vec_sort() and vec_sort_radix() return the observations in that order. For data frames the order is lexicographic with the per-column direction and na_value settings.",
 I,"all vectors and data frames of sortable columns, all direction / na_value / nan_distinct combinations, all sizes",
 "The implementation picks between sortedness detection, insertion, counting and radix passes by size and range; permutation, sortedness and stability quantify over all inputs through each.",
 ["src/order.c","src/order-sortedness.c","src/order-groups.c","R/order.R"],
 [("int/dbl/cpl/chr/df order kernels","src/order.c"),("sortedness detection and reversal of ties","src/order-sortedness.c"),("double to uint64 order mapping","src/order.c")],
 ["vec_order()","vec_order_radix()","vec_sort()","vec_sort_radix()"])
p("P08","Ranks follow the order and the requested ties rule",
 "vec_rank() gives each observation the rank implied by the sorted order: min, max, sequential or dense rank exactly as the ties option defines, ascending or descending, equal observations tied under every rule but sequential (where earlier observations come first). With incomplete = \"na\" exactly the incomplete observations get a missing rank and the others are ranked as if they were absent.",
 I,"all orderable vectors, all ties, incomplete and direction settings",
 "Group boundaries and the incomplete gaps are index arithmetic over group sizes; tests sample few tie structures.",
 ["src/rank.c","R/rank.R"],[("vec_rank_min/max/sequential/dense","src/rank.c"),("incomplete handling via vec_detect_complete","src/rank.c")],["vec_rank()"])
p("P09","Matching finds the first equal observation, and only equal ones",
 "vec_match(needles, haystack) returns for each needle the smallest location in haystack holding an equal observation, and NA when there is none; vec_in() is TRUE exactly when such a location exists. With na_equal = FALSE an incomplete needle gives NA.",
 I,"all needles and haystacks of a common type, any sizes, both na_equal settings",
 "Depends on hash/equality agreement and probing for all values, including colliding ones; tests never pick hash collisions deliberately.",
 ["src/dictionary.c","src/hash.c","R/dictionary.R"],[("dict_hash_with quadratic probing","src/dictionary.c"),("vec_match_params","src/dictionary.c"),("hash_fill","src/hash.c")],["vec_match()","vec_in()"])
p("P10","Uniqueness and duplication agree with equality",
 "vec_unique_loc() lists exactly the first occurrence of each distinct observation in order of appearance, vec_unique_count() is how many there are, vec_duplicate_id() maps every observation to its first occurrence, vec_duplicate_detect() flags exactly the observations that occur more than once, vec_duplicate_any() whether there are any; vec_count() reports every distinct observation with its true number of occurrences, in the order its sort option asks.",
 I,"all vectors of every type and size",
 "Hash table behaviour for all value combinations (collisions, NA/NaN, signed zeros, rows) is outside any finite sample.",
 ["src/dictionary.c","src/hash.c","R/dictionary.R"],[("dictionary put/probe","src/dictionary.c"),("vctrs_duplicated two-pass","src/dictionary.c"),("vctrs_count","src/dictionary.c")],
 ["vec_unique()","vec_unique_loc()","vec_unique_count()","vec_duplicate_id()","vec_duplicate_detect()","vec_duplicate_any()","vec_count()"])
p("P11","Grouping partitions the observations by equality",
 "vec_group_id(), vec_group_loc(), vec_group_rle() and vec_split() partition observations so that two share a group exactly when they are equal; groups are numbered by first appearance, every location appears in exactly one group in increasing order, keys are the group's observation, and the number of groups is reported correctly. vec_locate_sorted_groups() gives the same partition with groups ordered by key.",
 I,"all vectors of every type and size",
 "Partition laws quantify over all equality patterns and values; tests sample fixed vectors.",
 ["src/group.c","src/split.c","src/dictionary.c","src/order.c","R/group.R","R/split.R"],[("vctrs_group_id / group_rle / group_loc","src/group.c"),("vec_locate_sorted_groups","src/order.c"),("vec_split","src/split.c")],
 ["vec_group_id()","vec_group_loc()","vec_group_rle()","vec_split()","vec_locate_sorted_groups()"])
p("P12","Run detection cuts exactly where adjacent observations differ",
 "vec_identify_runs(), vec_run_sizes(), vec_detect_run_bounds(), vec_locate_run_bounds() and vec_unrep() agree on one segmentation of the vector: two adjacent observations are in the same run exactly when they are equal (missing equals missing). Run sizes are positive and sum to the size of the vector, and repeating the unrep keys by their times reproduces the vector.",
 I,"all vectors and data frames of every size",
 "Start/end bound variants and row-wise column passes depend on all adjacency patterns; tests sample few.",
 ["src/runs.c","src/rep.c","R/runs.R","R/rep.R"],[("vec_detect_run_bounds_bool, df column loop","src/runs.c"),("compute_n_runs / sizes","src/runs.c"),("vec_unrep","src/rep.c")],
 ["vec_identify_runs()","vec_run_sizes()","vec_unrep()","vec_rep_each()"])
p("P13","vec_locate_matches() returns exactly the join its options define",
 "The (needles, haystack) location pairs returned are exactly the pairs satisfying every column's condition after the filter is applied, reduced by multiple, each needle's matches in needle order then haystack order; incomplete needles, unmatched needles and remaining haystack rows are dropped, reported with the given value, or refused with an error as incomplete, no_match and remaining ask. A relationship constraint raises an error exactly when it is violated, and nothing else does.",
 I,"all needles/haystack data, conditions, filters, and incomplete / no_match / remaining / multiple / relationship settings",
 "The binary-search/nesting algorithm over several columns and options has an enormous input space; tests sample a tiny part and earlier releases had rare data-dependent bugs here.",
 ["src/match.c","src/match-joint.c","src/match-compare.h","R/match.R"],[("df_locate_matches_recurse binary search","src/match.c"),("compute_nesting_container_info","src/match.c"),("expand_compact_indices","src/match.c"),("joint ranks","src/match-joint.c")],
 ["vec_locate_matches()"])
p("P14","Interval operations preserve coverage exactly",
 "Interval groups cover exactly the points covered by the input intervals, are disjoint and sorted, and merge abutting intervals exactly when asked; locate_groups assigns each interval to the group containing it; the complement covers exactly the points of the bounds not covered by any interval; containers are exactly the intervals not contained in another, each interval being located in one that contains it. Missing intervals are grouped or dropped as asked.",
 I,"all sets of valid intervals (start < end or both missing), both abutting settings, any lower/upper bounds",
 "Coverage equality quantifies over all interval arrangements (nested, abutting, duplicated, missing) and all bounds.",
 ["src/interval.c","R/interval.R"],[("vec_interval_group_info","src/interval.c"),("vec_interval_complement","src/interval.c"),("vec_interval_locate_containers","src/interval.c")],
 ["vec_interval_groups()","vec_interval_locate_groups()","vec_interval_complement()","vec_interval_locate_containers()"])
p("P15","Set operations are exact and keep first-appearance order",
 "vec_set_intersect(), vec_set_difference(), vec_set_union() and vec_set_symmetric_difference() return exactly the observations belonging to the respective set, each once, in order of first appearance in x and then in y, treating missing as equal to missing.",
 I,"all pairs of vectors of a common type",
 "Membership in two hash tables for all value combinations; tests sample a few vectors.",
 ["src/set.c","src/dictionary.c","R/set.R"],[("vec_set_* with dictionaries","src/set.c")],["vec_set_intersect()","vec_set_difference()","vec_set_union()","vec_set_symmetric_difference()"])
p("P16","Casts preserve values or refuse",
 "vec_cast() between logical, integer, double and the other bare types either returns a vector in which every element is the same value as the input element (missing stays missing), or raises an error; it raises the lossy-cast error exactly when some element is not representable in the target type. Casting to a richer type and back returns the original vector.",
 I,"all vectors of castable types, in particular all 2^32 integers and 2^64 doubles per element",
 "Representability boundaries (INT_MAX, INT_MIN, fractional, infinities, NaN) over all doubles cannot be enumerated by tests.",
 ["src/cast-bare.c","src/cast.c","src/type-data-frame.c","R/cast.R"],[("dbl_as_integer, int_as_logical, dbl_as_logical, ...","src/cast-bare.c"),("lossy error raising","src/cast.c"),("df_cast columnwise","src/type-data-frame.c")],["vec_cast()","vec_cast_common()"])
p("P17","Sizes are recycled by one rule",
 "vec_size_common() and vec_recycle_common() accept a set of sizes exactly when all sizes other than 1 are equal, the common size then being that size (1 if all are 1, or the absent value when empty); every other combination is an error, size 0 included. vec_recycle(x, n) returns x repeated to size n when x has size n or 1, and is an error otherwise; NULL is ignored. vec_size() reports the number of observations of any vector or data frame, and list_sizes()/list_check_all_size() agree with it elementwise.",
 I,"all combinations of sizes, over the full range of data frame row counts",
 "Quantifies over all size combinations up to the largest integer sizes, incl. large row counts no test allocates.",
 ["src/size-common.c","src/size.c","R/size.R","R/recycle.R"],[("vec_size_common, vec_size2_common","src/size-common.c"),("vec_check_recycle","src/size.c"),("df_size / compact row names","src/size.c")],["vec_size()","vec_size_common()","vec_recycle()","vec_recycle_common()","list_sizes()"])
p("P18","Repetition has the requested content and never overflows silently",
 "vec_rep(x, times) is x concatenated times times, vec_rep_each(x, times) repeats observation i exactly times[i] times in place; negative, missing or non-integer times, and results longer than the maximum size, are always refused with an error rather than truncated or wrapped.",
 I,"all vectors, all times over the full integer range",
 "The size-overflow boundary and the sum of many times cover the whole integer range, which tests do not reach.",
 ["src/rep.c","R/rep.R"],[("multiply_would_overflow / plus_would_overflow","src/rep.c"),("check_rep_times / check_rep_each_times","src/rep.c")],["vec_rep()","vec_rep_each()"])
p("P19","Chopping and unchopping are exact inverses",
 "vec_chop(x, indices) (or sizes) gives one slice per index, each equal to vec_slice(x, index); list_unchop(pieces, indices) places element k of piece j at location indices[[j]][k], last write winning and unwritten locations missing, so that list_unchop(vec_chop(x, indices), indices) is x for any partition of the locations. Sizes that are negative, missing or do not add up are refused.",
 I,"all vectors and all lists of indices / sizes",
 "Quantifies over all index lists (permutations, overlaps, empties) and size partitions.",
 ["src/slice-chop.c","src/c-unchop.c","R/slice-chop.R"],[("vec_chop / chop with compact seq","src/slice-chop.c"),("list_unchop","src/slice-chop.c")],["vec_chop()","list_unchop()"])
p("P20","Combining keeps every observation in order",
 "vec_c(...) has as size the sum of the input sizes and as type the common type of the inputs, and its observations are those of the inputs, cast to that type, in argument order; NULL inputs contribute nothing; a total size beyond the maximum is refused. Combining is associative, the order of arguments does not change the type, and list_interleave/vec_interleave place observation k of input j at position (k-1)*m + j.",
 I,"all sequences of compatible vectors",
 "Quantifies over all values, sizes (incl. empties and NULLs) and type combinations.",
 ["src/c.c","src/slice-interleave.c","R/c.R","R/slice-interleave.R"],[("vec_c_opts loop with compact seq assign","src/c.c"),("ffi_interleave_indices","src/slice-interleave.c")],["vec_c()","vec_interleave()","list_unchop()"])
p("P21","Row and column binding place every cell",
 "vec_rbind(...) stacks rows: its size is the sum of the input sizes, its columns the union by first appearance, and each cell is the input cell (cast to the common column type) or missing when the input lacks that column; names_to records the input each row came from. vec_cbind(...) recycles inputs to the common size and keeps every column's observations unchanged and in order.",
 I,"all sets of data frames and vectors with compatible columns",
 "Quantifies over all column arrangements, sizes and cell values; tests use a few literal frames.",
 ["src/bind.c","src/type-data-frame.c","R/bind.R"],[("vec_rbind: df_assign per input","src/bind.c"),("vec_cbind / cbind_container","src/bind.c"),("df_ptype2_loop","src/type-data-frame.c")],["vec_rbind()","vec_cbind()"])
p("P22","Name repair yields unique names and changes nothing it need not",
 "vec_as_names(repair = \"unique\") always returns non-missing, non-empty names that are all different, keeps already-unique unsuffixed names as they are, appends only positional suffixes to the rest, and is idempotent; \"minimal\" only replaces missing names, and \"check_unique\" errors exactly when names are missing, empty, duplicated or dotted.",
 I,"all character vectors of names",
 "Quantifies over all strings and duplicate patterns, including names that already end in positional suffixes and collide after stripping.",
 ["src/names.c","R/names.R"],[("as_unique_names_impl, suffix_pos, is_dotdotint","src/names.c"),("check_unique","src/names.c")],["vec_as_names()","vec_names2()","vec_set_names()"])
p("P23","Expansion grids enumerate every combination once",
 "vec_expand_grid(...) has as size the product of the input sizes; its rows are all combinations of one observation from each input, each exactly once, varying slowest or fastest as vary asks; a product beyond the maximum size is refused with an error.",
 I,"all sets of named vectors, both vary settings, sizes over the whole integer range for the overflow rule",
 "Repetition counts are products over sizes and the overflow boundary lies far outside tested sizes.",
 ["src/expand.c","R/expand.R"],[("vec_expand_grid repetition arithmetic","src/expand.c"),("overflow check","src/expand.c")],["vec_expand_grid()"])
p("P24","Filling replaces only missing observations, by the nearest valid one",
 "vec_fill_missing() leaves non-missing observations unchanged and replaces a missing one by the closest non-missing observation in the fill direction (then, for downup/updown, the other direction for what has none), at most max_fill in a row being replaced; everything else stays missing. Data frames are filled row-wise.",
 I,"all vectors and missingness patterns, all four directions, all max_fill",
 "All missingness patterns crossed with directions and max_fill; tests sample a few.",
 ["src/fill.c","R/fill.R"],[("vec_fill_missing_{down,up}[_with_max_fill]","src/fill.c")],["vec_fill_missing()"])
p("P25","Hashes respect equality",
 "Whenever two observations are equal with missing equal to missing (vec_equal(na_equal = TRUE)), vec_hash() gives them the same hash, and whenever two objects are equal obj_hash() does too; hashing is a function of the value only (not of position, neighbours or address of the vector).",
 I,"all pairs of observations of every hashable type",
 "A violation needs two equal values with different bit patterns (signed zeros, NA/NaN payloads, normalised encodings); tests pick few.",
 ["src/hash.c","src/equal.c","src/dictionary.c"],[("dbl_hash_scalar canonicalisation","src/hash.c"),("hash_double signed zero","src/hash.c")],["vec_hash()","obj_hash()"])
p("P26","Factors combine and cast by label",
 "The common type of two factors has as levels the union of their levels in order of first appearance; casting a factor keeps every element's label (or missingness) while re-coding it to the target's levels, and is refused as lossy exactly when some used label is absent from the target; combining factors therefore keeps all labels.",
 I,"all pairs of factors (levels and codes), ordered factors and characters",
 "Quantifies over all level sets, their overlaps and all codes; tests use a few two-level factors.",
 ["src/type-factor.c","R/type-factor.R"],[("levels_union","src/type-factor.c"),("fct_as_factor, init_factor, lossy detection","src/type-factor.c"),("chr_as_factor","src/type-factor.c")],["vec_ptype2()","vec_cast()","vec_c()"])
p("P27","Date and date-time conversions preserve the instant",
 "Casting a whole-day date to a date-time gives midnight of that day in the target's time zone, never another day or a missing value, and casting that back returns the same date (UTC); casting a date-time to a date is refused as lossy exactly when it is not midnight in its time zone (beyond a billionth of a second); integer-backed and double-backed dates and date-times denoting the same instant convert to identical results; missing stays missing; seconds are never changed by a time-zone-only cast, by combination or by slicing.",
 I,"all whole-day dates and all whole-second UTC date-times representable in the storage type, missing values included (sub-second offsets and other time zones enumerated)",
 "Quantifies over all day and second counts, including negatives and large values, in both storage types.",
 ["src/type-date-time.c","R/type-date-time.R"],[("date_as_posixct, posixct_as_date, posixlt_as_date","src/type-date-time.c"),("new_date / new_datetime validation","src/type-date-time.c")],["vec_cast()","new_date()","new_datetime()"])
p("P28","64-bit integers keep value and order through their proxy",
 "The comparison/order proxy of a 64-bit integer vector is injective and order-preserving over the whole 64-bit range, with the missing value mapped to missing, and restoring a proxy returns the original integers exactly; equality, ordering and matching of 64-bit integers are therefore those of the integers.",
 I,"all 2^64 values per element",
 "Boundary values around 2^31, 2^32, 2^63 and negatives; tests sample a few integers.",
 ["src/type-integer64.c","R/type-integer64.R"],[("int64_unpack / int64_pack","src/type-integer64.c")],["vec_proxy_equal()","vec_compare()","vec_order()"])
p("P29","Operations never modify their inputs",
 "No exported operation (slicing, assigning, combining, casting, matching, ordering, filling, binding, name repair) changes the data, names or attributes of a vector passed to it: after the call, whether it returns or errors, every input has the values it had before.",
 I,"all inputs of the listed operations, both successful and failing calls",
 "In-place fast paths depend on reference counts and data; tests seldom compare inputs before and after.",
 ["src/slice-assign.c","src/owned.h","src/c.c","src/order.c","src/bind.c","src/fill.c"],[("vec_clone_referenced / ownership","src/slice-assign.c"),("sortedness/reversal on copies","src/order.c")],["vec_assign()","vec_c()","vec_order()","vec_rbind()","vec_cast()"])
p("P30","The common type does not depend on argument order",
 "vec_ptype2(x, y) and vec_ptype2(y, x) have the same class and either both succeed or both fail, NULL is the identity, unspecified vectors (all missing logicals) adopt the other type, and whenever the common type exists both inputs can be cast to it without loss of type; for arrays the common shape follows the recycling rules dimension by dimension.",
 I,"all pairs (and triples) of types and shapes",
 "The type table has hundreds of ordered pairs and shapes are unbounded; tests check a sample of pairs.",
 ["src/ptype2.c","src/typeof2.c","src/typeof2-s3.c","src/shape.c","src/ptype2-dispatch.c","R/type2.R"],[("vec_typeof2_impl / left flag","src/typeof2.c"),("class_typeof2 for s3","src/typeof2-s3.c"),("vec_shape2","src/shape.c")],["vec_ptype2()","vec_ptype_common()","vec_cast_common()"])
p("P31","Data frames stay rectangular and sized as declared",
 "new_data_frame(), data_frame() and df_list() return data frames whose columns all have the declared (or common recycled) size and whose row count equals it; slicing, assigning, combining, casting and restoring data frames keep that invariant, including for zero columns or zero rows and for row counts up to the maximum size. A negative or missing row count is refused; row names given explicitly set the row count of a frame.",
 I,"all column sets and sizes, row counts over the full integer range",
 "Zero-column frames of any size and recycling of columns quantify over all sizes.",
 ["src/type-data-frame.c","src/size.c","src/proxy-restore.c","R/type-data-frame.R"],[("new_data_frame / df_list","src/type-data-frame.c"),("init_compact_rownames, rownames parsing","src/type-data-frame.c"),("vec_bare_df_restore","src/proxy-restore.c")],["new_data_frame()","data_frame()","df_list()","vec_slice()"])
p("P32","Memory is protected from the garbage collector at every allocation",
 "Any exported operation gives the same result however often the garbage collector runs: every intermediate object is protected while it is live, and the protection stack is balanced when the operation returns.",
 ["schedules","inputs"],"all allocation points at which a collection can happen, for every input",
 "Collections happen at allocation points tests do not control.",
 ["src/utils.c","src/rlang/rlang.h","src/slice.c","src/c.c"],[("PROTECT/KEEP discipline","src/*.c")],["every .Call entry point"])
p("P33","User-defined classes dispatch to their own methods",
 "For a vector class that defines a proxy, a restore method, an equality, comparison or ordering proxy, or common-type and cast methods, slicing, assigning, combining, comparing, ordering, matching, grouping and casting its vectors, bare or inside data frames, give the same result as the operation on the data those methods return, and the result has the class. A subclass uses the methods of its parent, an ordering proxy falls back to the comparison proxy and that one to the equality proxy, and a class without methods is combined only with itself.",
 I,"a fixed family of user classes (one per kind of method, their subclasses, and classes without methods), all vectors of them",
 "Dispatch, proxying and restoring interact with every fast path and every value; tests sample a few classes and values.",
 ["R/type-vctr.R","src/proxy.c","src/proxy-restore.c","src/utils-dispatch.c","src/cast-dispatch.c","src/ptype2-dispatch.c"],[("vec_proxy_equal / compare / order","src/proxy.c"),("vctrs_dispatch, s3_find_method","src/utils-dispatch.c"),("vec_restore_4","src/proxy-restore.c")],["vec_slice()","vec_c()","vec_order()","vec_match()","vec_cast()"])
p("P34","Records are vectors of their fields",
 "Reading a field of a record by a number from 1 up to the number of fields (fractions truncated) or by its name returns that field, replacing one returns a record in which only that field differs, and every other index (missing, not a number, infinite, out of range, unknown or empty name) and every replacement of another size is an error. Slicing, assigning, combining, repeating, resizing, chopping, comparing and casting a record act on all of its fields alike and keep its class.",
 I,"records of any fields, indices over all integers, doubles and strings",
 "Indices range over all doubles, missing and infinite ones included, and fields over all vectors; tests try a few of each.",
 ["src/fields.c","R/fields.R","R/type-rcrd.R","src/proxy.c"],[("find_offset","src/fields.c"),("vctrs_field_get / vctrs_field_set","src/fields.c"),("rcrd methods","R/type-rcrd.R")],["field()","field<-","new_rcrd()","vec_slice()","rep()"])
p("P35","A vector is restored from its proxy with nothing lost",
 "Restoring the proxy of a vector to that vector returns an identical vector. Restoring any data to a target that has attributes returns that data unchanged with its own names, dimensions and row names and with every other attribute of the target, its class and S4 bit included, and none of the data's own; data frames keep the size of the data, and vec_data() strips all attributes but names, dimensions and row names. Neither the data nor the target is modified.",
 I,"all vectors and all combinations of attributes on the data and on the target",
 "The attributes present on both sides combine freely and ownership decides whether the data is copied; tests check a few combinations.",
 ["src/proxy-restore.c","src/proxy.c","R/proxy.R"],[("vec_restore_default","src/proxy-restore.c"),("vec_bare_df_restore","src/proxy-restore.c"),("vec_proxy_2, recursion","src/proxy.c")],["vec_proxy()","vec_restore()","vec_data()"])
p("P36","Assertions accept exactly what they say",
 "obj_is_vector() is true exactly for atomic vectors, bare lists, data frames and lists whose class says they are lists or defines a proxy; obj_is_list() exactly for bare lists and lists whose class ends in \"list\"; the checks for vectors, lists, sizes and prototypes, of one object or of all elements of a list, succeed exactly when the corresponding condition holds, for any required size. list_drop_empty() removes exactly the elements of size zero.",
 I,"all objects and class attributes, sizes over all integers and doubles",
 "Class attributes combine freely and sizes range over all numbers.",
 ["src/assert.c","src/type-info.c","src/empty.c","src/size.c","R/assert.R"],[("obj_is_vector, obj_is_list","src/type-info.c"),("vec_check_size, list_check_all_size","src/assert.c"),("list_drop_empty","src/empty.c")],["obj_is_vector()","obj_is_list()","list_all_vectors()","vec_check_size()","list_check_all_size()","vec_assert()","list_drop_empty()"])
p("P37","Elements of a list-of have the declared type",
 "Every element of a list-of that is not missing has its declared type, after construction from any elements, slicing, assignment of any value, combining and casting: elements are cast to the declared type, or the operation is refused when one of them cannot be. Combining list-ofs gives a list-of of the common type of their elements, or a bare list when there is none, with the elements in order.",
 I,"all lists of vectors and all declared types",
 "Whether an element can be cast depends on its values; tests use a few.",
 ["R/type-list-of.R","src/fields.c","src/cast.c","src/ptype-common.c"],[("list_as_list_of","R/type-list-of.R"),("vctrs_list_get","src/fields.c"),("vec_cast_common","src/cast.c")],["list_of()","new_list_of()","as_list_of()","vec_c()","vec_assign()","[["])
p("P38","Base functions on vctrs classes agree with vctrs on their data",
 "For every vector of a class built with new_vctr() or new_rcrd(): `==`, `!=`, `<`, `<=`, `>`, `>=` recycle, cast to the common type and compare as vec_equal() and vec_compare() do, or are refused; `[`, `[[`, rep(), `length<-`, c(), unique(), as.list(), na.omit(), sort() return exactly the selected elements with the class and attributes of the vector; `[<-`, `[[<-` and is.na<- cast the value or refuse, and change the selected elements only; is.na(), anyNA(), duplicated(), order(), xtfrm(), min(), max() and range() agree with equality, missingness and the order of the class; arithmetic and mathematical functions recycle by vctrs' rules and go through the methods of the class, or are refused. Records behave as the data frame of their fields.",
 I,"all values, sizes, names and locations of vectors of such classes",
 "A class relies on every base function working on it; whether elements are lost, missing values ordered or values cast depends on the data, of which tests use a few.",
 ["R/type-vctr.R","R/type-rcrd.R","R/arith.R","R/numeric.R","R/slice.R"],[("`[.vctrs_vctr`","R/type-vctr.R"),("xtfrm.vctrs_vctr","R/type-vctr.R"),("na_remove","R/type-vctr.R"),("`[<-.vctrs_rcrd`","R/type-rcrd.R"),("vec_arith_base","R/arith.R")],["new_vctr()","new_rcrd()","[","==","sort()","c()","rep()","min()","+"])
p("P39","Durations, versions, tables, AsIs vectors and other base classes keep their meaning",
 "Durations: the common type of equal units has these units, of different units seconds; converting and combining keeps each length of time, missing values and names; numbers, dates and durations do not mix silently. Date arithmetic: numbers and durations are added to or subtracted from dates and date-times element by element (sizes 1 recycled, other sizes refused), a missing operand gives a missing result, only a duration that is not a whole number of days is refused with a date, and the difference of two dates or date-times is the time elapsed; every other operation is refused. Version numbers compare component by component, missing components counting as zero, and an empty version is missing. An AsIs vector behaves as the vector, the result being AsIs. Tables are sliced, combined and converted as their arrays. Omitted locations combine with numbers as numbers. A partial data frame or factor type completes to the columns or levels asked for and seen. A scalar object is refused by every vector function and gives and sets exactly its own fields.",
 I,"all values, sizes, units and component counts of vectors of these classes",
 "Conversion factors, recycling and missing operands interact for each pair of classes; tests try one or two values per pair and no missing durations with dates.",
 ["R/type-date-time.R","R/type-misc.R","R/type-table.R","R/type-asis.R","R/partial-frame.R","R/partial-factor.R","R/type-sclr.R","R/arith.R","R/numeric.R","src/fields.c"],[("vec_cast.difftime.difftime","R/type-date-time.R"),("vec_arith.Date.difftime","R/type-date-time.R"),("proxy_equal_numeric_version","R/type-misc.R"),("vec_cast.table.table","R/type-table.R"),("vec_restore.AsIs","R/type-asis.R"),("vec_ptype_finalise.vctrs_partial_frame","R/partial-frame.R"),("vctrs_list_set","src/fields.c")],["vec_c()","vec_cast()","vec_arith()","vec_compare()","vec_slice()","partial_frame()","vec_math()"])
p("P40","Every entry point and every representation of the input gives the result of the operation",
 "The deprecated names vec_type(), vec_type2(), vec_type_common(), vec_repeat(), vec_as_index(), vec_unchop(), vec_equal_na(), vec_is_list() and vec_check_list(), the replacement functions vec_slice<- and field<-, and the functions offered to other packages' C code (obj_is_vector, short_vec_size, short_vec_recycle, exp_vec_cast, exp_vec_chop, exp_vec_slice_impl, exp_vec_names, exp_vec_set_names and compact sequences) return the result of the operation they stand for, and fail exactly when it fails. maybe_lossy_cast() returns its result unless something is lost, and then fails naming the locations; allow_lossy_cast() permits losses between the given types only, wherever they occur, and returns the result with everything that was not lost. The result does not depend on how a vector is stored: ALTREP vectors (sequences, deferred and lazy strings, wrappers, run lengths) give the same results as ordinary ones as data, names, subscripts, counts and columns, and strings that are equal after conversion to UTF-8 are treated alike whatever their encoding.",
 I,"all values and sizes, subscripts, positions of loss, storage representations and encodings",
 "Aliases, C entry points and alternative representations take other paths through the code than the calls tests make, and nothing compares the two.",
 ["R/vctrs-deprecated.R","R/conditions.R","src/callables.c","src/altrep-rle.c","src/altrep-lazy-character.c","src/slice.c","src/translate.c","R/slice.R","R/fields.R"],[("allow_lossy_cast","R/conditions.R"),("maybe_lossy_cast","R/conditions.R"),("exp_vec_slice_impl","src/callables.c"),("short_vec_recycle","src/callables.c"),("altrep_rle_Extract_subset","src/altrep-rle.c"),("vec_slice_base","src/slice.c"),("vec_repeat","R/vctrs-deprecated.R")],["vec_repeat()","vec_unchop()","allow_lossy_cast()","maybe_lossy_cast()","R_GetCCallable()","vec_slice<-","field<-"])
p("P41","Classes that know nothing of vctrs keep working, through their base methods",
 "A vector of a class without vctrs methods keeps its observations, class and attributes when sliced, chopped, repeated, recycled, assigned to or filled, by its own `[` and `[<-` methods when it has them. Combining such vectors, alone or as columns of data frames at any depth, calls their c() method, a parent class's for subclasses, or without one requires identical attributes and is otherwise refused; the observations of every input are there, in order or at the locations given by the indices, NULL inputs contribute nothing, and inputs or data frames of missing values, columns missing from an input, and empty inputs, wherever they stand, become missing values, with every other column unaffected (without a c() method, inputs or columns of missing values among data frames may be refused). They have no common type with other classes and base types. The same holds for matrices with a class and S4 vectors.",
 I,"all vectors of a fixed family of such classes, all combinations of inputs, sizes, columns and indices",
 "The fallbacks assemble results from locations, casts and attributes in separate code whose cases (empty, missing, NULL, nested, reordered) multiply; tests try a handful and never two at once.",
 ["R/c.R","R/slice.R","src/c.c","src/c-unchop.c","src/bind.c","src/slice.c","src/slice-chop.c","src/slice-assign.c","src/type-data-frame.c"],[("base_c_invoke, c_locs","R/c.R"),("df_c_fallback","src/c.c"),("vec_c_fallback","src/c.c"),("list_unchop_fallback","src/c-unchop.c"),("chop_fallback","src/slice-chop.c"),("vec_slice_unsafe","src/slice.c"),("vec_assign_fallback","R/slice.R"),("df_cast_match","src/type-data-frame.c")],["vec_c()","vec_rbind()","list_unchop()","vec_slice()","vec_assign()","vec_chop()"])
p("P42","Failures identify what is wrong",
 "When a call fails, its condition has the documented class and its fields and message identify the cause exactly. Lossy casts report all the locations of elements that cannot be converted and no others, with the input and the type. Errors about incompatible sizes and types name two inputs that are in conflict, the second being the first input that does not go with those before it, with their sizes or types; a required size or type names the first input that does not fit, nested columns by their path. List checks name the first offending element. Out-of-bounds subscripts list exactly the locations or names that do not exist, with the subscript and the size; subscripts of forbidden kinds list the elements forbidden; logical subscripts report both sizes. Name checks list all the empty, dotted or duplicated names with their locations. Errors about matches give the location of a value that has the problem reported. Times to repeat report the first location at fault.",
 I,"all inputs for which the calls fail: all sizes, positions and combinations of offending elements and inputs",
 "Messages are pinned by snapshots of single cases, usually with the offending element first; callers that handle the conditions rely on their fields for every input.",
 ["R/conditions.R","R/subscript.R","R/subscript-loc.R","R/assert.R","R/match.R","R/names.R","src/arg.c","src/arg-counter.c","src/ptype2.c","src/ptype-common.c","src/size-common.c","src/subscript-loc.c","src/match.c","src/cast.c","src/rep.c"],[("cnd_bullets_location_need_non_negative","R/subscript-loc.R"),("cnd_body.vctrs_error_subscript_oob","R/subscript-loc.R"),("cnd_body.vctrs_error_names_cannot_be_dot_dot","R/conditions.R"),("counters_shift, reduce","src/arg-counter.c"),("vec_ptype2_opts_impl","src/ptype2.c"),("vctrs_size2_common","src/size-common.c"),("stop_matches_nothing","src/match.c")],["vec_cast()","vec_recycle_common()","vec_ptype_common()","vec_as_location()","num_as_location()","vec_as_names()","vec_locate_matches()","list_check_all_size()","conditionMessage()"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
