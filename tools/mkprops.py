#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
CS = "src/hif/ds/CompressedStorage.hpp"
p("P01", "Sparse format conversion preserves the matrix",
  "Converting a matrix between row-compressed and column-compressed storage, or building compressed storage from coordinate triplets, yields exactly the same set of (row, column, value) entries with the same dimensions. In a converted matrix the minor indices inside every row or column come out in non-decreasing order, and the source matrix is left unchanged. This holds for any shape, including rectangular matrices, empty matrices, empty rows and empty columns.",
  ["inputs"], "every shape and every valid compressed or coordinate matrix of any size, including empty ones",
  "The tests convert a few random square-ish matrices; offsets errors that need empty rows, a rectangular shape or a particular entry order are not sampled.",
  [CS, "src/hif/utils/coo2compress.hpp"],
  [("counting-sort conversion", CS + ": internal::convert_storage"), ("converting constructors", CS + ": CRS(const CCS&), CCS(const CRS&)"), ("triplet assembly", "src/hif/utils/coo2compress.hpp: convert_coo2cs")])
p("P02", "Sparse matrix-vector products are exact",
  "Multiplying a compressed matrix with a vector (or with several vectors at once) gives, for every output entry, exactly the sum over the stored entries of that row of value times input, and the transposed product gives the sum over each column of the conjugated value times input. Every requested output entry is written, entries outside a requested range are not touched, and matrix and input are unchanged. Row/column storage, multi-vector and multi-threaded variants all agree with this definition.",
  ["inputs", "configurations"], "every valid matrix (any shape, empty rows/columns, zero dimensions), every vector, every row range, number of right-hand sides and thread count",
  "Tests compare a handful of random real matrices; conjugation, empty matrices, partial ranges and thread partitions need to hold for all inputs.",
  [CS, "src/hif/utils/mt_mv.hpp", "src/hif/utils/mv_helper.hpp", "src/hif/utils/mt.hpp"],
  [("row-wise and column-wise kernels", CS + ": multiply_nt_low, multiply_t_low, multiply_mrhs_nt_low, multiply_mrhs_t_low (CRS and CCS)"), ("threaded kernels", "src/hif/utils/mt_mv.hpp: multiply_nt, multiply_mrhs_nt"), ("row partition", "src/hif/utils/mt.hpp: uniform_partition")])
p("P03", "Triangular solves invert unit-triangular factors",
  "Given a strictly lower (or strictly upper) triangular compressed matrix T with sorted indices, the in-place solves replace b by the vector x with (I+T)x=b, and the transposed solves by the x with (I+T)^H x=b. Multi-right-hand-side solves do the same in every column. The matrix is unchanged and nothing outside the vector is written, for all sizes including zero.",
  ["inputs"], "every strictly triangular matrix in row or column storage, every right-hand side, every size including 0 and 1",
  "Tests use random factors of one size and never call the transposed multi-vector variants; a missing last row or column only shows for particular structures.",
  [CS], [("forward/backward substitution", CS + ": solve_as_strict_lower/_tran/_mrhs/_mrhs_tran, solve_as_strict_upper/_tran/_mrhs/_mrhs_tran (CRS and CCS)")])
p("P04", "Extracted blocks are exact submatrices",
  "Splitting a compressed matrix by a column or row boundary, taking a leading block, and permuting a leading block produce exactly the entries of the stated submatrix, with indices rebased and the same values, and leave the source unchanged. Row and column scaling multiply each stored value by exactly the factor of its row or column. Pruning entries keeps every entry that is not negligible and never alters a kept value.",
  ["inputs"], "every valid sorted matrix, every split position from 0 to the dimension, every permutation pair and scaling vector",
  "Tests split random matrices at one position; boundary positions (0, all, empty rows) and permutations that move entries across the cut are barely sampled.",
  [CS], [("splitting", CS + ": _split, split, split_crs, split_ccs, internal::split_dual"), ("leading block", CS + ": extract_leading, _compute_perm_leading, compute_perm_leading"), ("scaling", CS + ": _scale_diag_left/_right, scale_diag_left, scale_diag_right"), ("pruning", CS + ": _prune")])
p("P05", "Matrix validation accepts exactly the valid matrices",
  "The matrix validity check, which also guards wrapped user arrays, accepts a matrix if and only if its start array is long enough, begins at zero, is non-decreasing and does not end beyond the stored indices and values, and all indices of every row or column lie inside the matrix and are strictly increasing. An invalid matrix is reported as an error and never silently accepted. The check reads only the given arrays.",
  ["inputs"], "every start array and index array content, square and rectangular, with the fault in any position (first, middle, last row or column)",
  "Tests never feed invalid matrices to the wrappers; the fault position and the row/column dimension mix-up need all positions and rectangular shapes.",
  [CS], [("validity check", CS + ": check_validity (CRS, CCS)"), ("wrap helpers", CS + ": wrap_crs, wrap_const_crs, wrap_ccs, wrap_const_ccs")])
p("P06", "Arrays keep contents and ownership through any operations",
  "Growing, shrinking, reserving, appending to, copying, moving or swapping an array preserves exactly the elements that should survive, and size, capacity and emptiness always describe the stored data. Copies made with deep semantics are independent; shallow copies share; wrapped external buffers are never freed or resized into. Every owned buffer is released exactly once and no element outside the buffer is accessed, whatever sequence of operations was performed.",
  ["inputs", "histories"], "every size, capacity and sequence of public operations on arrays, including empty, moved-from and wrapped ones",
  "Tests cover a fixed short script; moved-from, equal-buffer and empty assignments and growth at particular size/capacity combinations are not sampled.",
  ["src/hif/ds/Array.hpp"], [("resize/reserve/push_back", "src/hif/ds/Array.hpp: Array::resize, reserve, push_back"), ("ownership", "src/hif/ds/Array.hpp: _counts reference counter, constructors, operator=, swap, destructor")],
  state=[("status", "whether the data is unset, wrapped or owned", "src/hif/ds/Array.hpp: _status"), ("reference counter", "number of arrays sharing an owned buffer", "src/hif/ds/Array.hpp: _counts")])
p("P07", "Sparse accumulators behave as sets and dropping keeps the largest",
  "Inserting an index into a sparse work vector records it once per step, keeps it in the index list exactly once, and resetting or restoring makes the vector reusable with no stale entry. Dropping by threshold keeps exactly the entries whose magnitude exceeds the threshold, and dropping by count keeps exactly the requested number of entries with none of the dropped ones larger in magnitude than a kept one, each with its value. Dropping from the off-diagonal blocks keeps, in every row of the lower or column of the upper block, the largest entries up to the limit given by the reference matrix, each with its own value, and yields a consistent matrix again.",
  ["inputs", "histories"], "every insertion sequence, vector content, threshold and count limit (including 0 and limits beyond the size)",
  "Tests drop from a few random vectors; ties, limits of zero, limits equal to the size and duplicate insertions are not sampled.",
  ["src/hif/ds/SparseVec.hpp", "src/hif/alg/thresholds.hpp", "src/hif/alg/Schur.hpp"],
  [("sparse vector", "src/hif/ds/SparseVec.hpp: push_back, reset_counter, restore_cur_state, compress_indices"), ("dropping rules", "src/hif/alg/thresholds.hpp: apply_num_dropping, apply_space_dropping"), ("block dropping", "src/hif/alg/Schur.hpp: drop_L_E, drop_U_F")])
p("P08", "Permutations and their inverses always agree",
  "After building or updating a permutation with inverse, applying the permutation and then its inverse is the identity in both directions, for every size. Interchanging two positions updates both directions consistently, and the identity constructor yields the identity. Composition used to apply a reordering to a prefix moves only the prefix and yields a permutation again.",
  ["inputs", "histories"], "every permutation of every size and every sequence of interchanges",
  "Tests check one random permutation; consistency after arbitrary interchange histories is not sampled.",
  ["src/hif/ds/PermMatrix.hpp", "src/hif/pre/driver.hpp"],
  [("inverse mapping", "src/hif/ds/PermMatrix.hpp: build_inv, make_eye, interchange, operator[] and inv"), ("prefix reordering", "src/hif/pre/driver.hpp: do_preprocessing")])
p("P09", "Multilevel solve applies the block factorization formula",
  "Applying a multilevel preconditioner to b gives exactly the vector obtained by scaling and permuting b, solving with the leading block factors, solving the Schur complement part recursively (or with the dense last level), back-substituting through the off-diagonal blocks, and undoing the permutation and scaling. The transposed application gives the conjugate-transposed operator, the multi-right-hand-side application equals the single one column by column, and the right-hand side is unchanged. Solving repeatedly, in any mix of single, multiple and transposed solves on the same object, gives the same answers as a fresh object.",
  ["inputs", "histories"], "every level structure (leading size 0..n, any number of levels, with or without off-diagonal blocks), every right-hand side, and every sequence of solve kinds",
  "Tests solve a few fixed systems with one level and never mix single and multiple right-hand sides, nor use several levels with the multi-vector path.",
  ["src/hif/alg/prec_solve.hpp", "src/hif/builder.hpp", "src/hif/alg/Prec.hpp"],
  [("level solve", "src/hif/alg/prec_solve.hpp: prec_solve_ldu*, prec_solve, prec_solve_tran, prec_solve_mrhs"), ("entry points", "src/hif/builder.hpp: HIF::solve, solve_mrhs"), ("level data", "src/hif/alg/Prec.hpp: Prec")])
p("P10", "Multiplying by the preconditioner inverts solving with it",
  "Multiplying a vector by the multilevel preconditioner operator gives the vector whose preconditioner solve returns the original, level by level, both for the operator and for its conjugate transpose. The input vector is unchanged and the result does not depend on earlier calls.",
  ["inputs", "histories"], "every level structure with non-zero pivots, every vector, plain and transposed",
  "Tests multiply with a single-level real preconditioner; recursion through several levels, empty off-diagonal blocks and complex transposition are not sampled.",
  ["src/hif/alg/prec_prod.hpp", "src/hif/builder.hpp"],
  [("level product", "src/hif/alg/prec_prod.hpp: prec_prod_ldu, prec_prod, prec_prod_tran"), ("entry point", "src/hif/builder.hpp: HIF::mmultiply")])
p("P11", "Iterative refinement returns the refined iterate and honest status",
  "Refining with N steps returns exactly the iterate x_N of x_{k+1} = x_k + M^{-1}(b - A x_k) from x_0 = 0, for the plain and the transposed system. With residual bounds the returned flag and count say truthfully whether the relative residual met the lower bound, diverged past the upper bound, or exhausted the iteration limit, with at most the requested number of iterations. Matrix and right-hand side are unchanged.",
  ["inputs", "configurations"], "every matrix, preconditioner, right-hand side, iteration count and residual bounds, including zero iterations and converged starting residuals",
  "Tests run a few refinements on one matrix; flags at the exact boundaries, zero right-hand sides and transposed refinement are not checked.",
  ["src/hif/alg/IterRefine.hpp", "src/hif/builder.hpp"],
  [("refinement loops", "src/hif/alg/IterRefine.hpp: IterRefine::iter_refine"), ("entry points", "src/hif/builder.hpp: HIF::hifir")])
p("P12", "Nullspace filtering removes exactly the stated component",
  "The constant-mode filter subtracts from every entry in its index range the mean over that range, so that the range then sums to zero, and changes nothing outside the range; it is idempotent. The default range covers the entire vector, and a range that does not fit the vector is refused with an error, never overrun.",
  ["inputs"], "every vector, every size and every start/end range",
  "Tests filter one vector with the default range; partial, ill-fitting and empty ranges are not sampled.",
  ["src/hif/NspFilter.hpp"], [("filter", "src/hif/NspFilter.hpp: NspFilter::filter, _const_filter, set_nsp_const")])
p("P13", "Parameters round-trip by name and default consistently",
  "Setting any documented parameter by name changes that parameter only and to the given value, unknown names are refused and change nothing, and reading parameters from a stream in the documented order gives every parameter the value at its own position. The defaults reported through every interface are the same.",
  ["inputs", "configurations"], "every parameter name, value, and combination of settings",
  "Tests set a few parameters; that no other parameter is disturbed and that every documented name works needs the whole table.",
  ["src/hif/Options.h", "libhifir/src/libhifir.cpp"],
  [("option table", "src/hif/Options.h: internal option byte map, set_option_attr, operator<<, operator>>"), ("C defaults", "libhifir/src/libhifir.cpp: lhfSetDefaultParams, create_params")])
p("P14", "Preprocessing yields valid permutations and positive scalings",
  "Matching, scaling and reordering of any structurally valid square matrix return row and column permutations that are bijections with consistent inverses, scaling factors that are finite and strictly positive, and a leading block size no larger than requested. The reordered leading block used afterwards is exactly the permuted and scaled matrix, and the input matrix is unchanged.",
  ["inputs", "configurations"], "every structurally valid square matrix, leading size, symmetry flag, reordering choice and pre-scaling mode",
  "Tests run preprocessing on two or three matrices; zero diagonals, structurally singular blocks and disconnected graphs are not sampled.",
  ["src/hif/pre/driver.hpp", "src/hif/pre/matching_scaling.hpp", "src/hif/pre/EqlDriver.hpp", "src/hif/pre/a_priori_scaling.hpp", "src/hif/pre/equilibrate.hpp", "src/hif/pre/rcm.hpp", "src/hif/pre/amd.hpp"],
  [("matching and deferral", "src/hif/pre/matching_scaling.hpp: do_maching, defer_dense_tail, defer_tiny_diags"), ("scaling", "src/hif/pre/a_priori_scaling.hpp: scale_eye, scale_extreme_values, iterative_scale"), ("reordering", "src/hif/pre/reordering.hpp: run_amd, run_rcm")])
p("P15", "Augmented storage stays consistent under any pushes and swaps",
  "In a matrix augmented with access along its other dimension, after any sequence of appended rows or columns and interchanges, walking the other-dimension lists visits every stored entry of that row or column exactly once and reports its true position and value. Interchanging two rows or columns yields exactly the matrix with the two swapped, with every index list still sorted.",
  ["inputs", "histories"], "every sequence of appends followed by interchanges of any pair of positions",
  "Tests swap a few random pairs on one matrix; linked-list corruption appears only for particular overlap patterns of the two swapped rows.",
  ["src/hif/ds/AugmentedStorage.hpp"], [("linked lists", "src/hif/ds/AugmentedStorage.hpp: internal::AugmentedCore, push_back_row/col"), ("interchange", "src/hif/ds/AugmentedStorage.hpp: interchange_cols, interchange_rows, rotate helpers")],
  state=[("node lists", "for each minor index the chain of entries, with position and its inverse", "src/hif/ds/AugmentedStorage.hpp: _node_start/_node_next/_node_end, _val_pos, _val_pos_inv")])
p("P16", "Crout updates compute the next row, column and pivot of the factorization",
  "At every factorization step the computed row of the upper factor, column of the lower factor and updated pivots are exactly those of an LDU factorization of the permuted and scaled matrix restricted to the stored factors, also after rows and columns were deferred. The start positions and lists used to find the contributing rows and columns always point at the first entry not yet passed. Condition estimates use the same recurrence for both factors.",
  ["inputs", "histories"], "every matrix, permutation, scaling and step, with any set of earlier deferrals",
  "The tests compare against a dense reference on a few random matrices without most deferral patterns.",
  ["src/hif/alg/Crout.hpp", "src/hif/alg/PivotCrout.hpp"],
  [("row and column updates", "src/hif/alg/Crout.hpp: compute_ut, compute_l, load_arr helpers"), ("pivot update", "src/hif/alg/Crout.hpp: scale_inv_diag, update_diag"), ("start/list maintenance", "src/hif/alg/Crout.hpp: update_compress, defer_entry"), ("condition estimate", "src/hif/alg/Crout.hpp: update_kappa")])
p("P17", "Schur complement and off-diagonal blocks are exact",
  "The Schur complement passed to the next level equals the trailing block of the scaled and permuted matrix minus the product of the lower off-diagonal factor, the diagonal and the upper off-diagonal factor, entry by entry. The off-diagonal blocks and the permuted diagonal are the exact scaled and permuted submatrices. The result does not depend on the number of threads.",
  ["inputs", "configurations"], "every matrix, permutation, scaling, leading size (including 0 and n) and thread count",
  "Tests compute one random Schur complement; empty off-diagonal rows and extreme leading sizes are not sampled.",
  ["src/hif/alg/Schur.hpp", "src/hif/alg/factor.hpp"],
  [("Schur product", "src/hif/alg/Schur.hpp: compute_Schur_simple (serial and mt)"), ("blocks", "src/hif/alg/factor.hpp: internal::extract_E, extract_F, extract_perm_diag")])
p("P18", "Factorization without dropping is an exact solver",
  "For a non-singular well-conditioned square matrix factorized with dropping disabled, solving with the preconditioner gives the true solution of A x = b up to round-off, plain and transposed, whatever symmetry, pivoting, reordering, storage order and thread options are chosen. The user's matrix arrays are unchanged, reported sizes, ranks and non-zero counts agree with the stored levels, and refactorizing replaces the previous factorization entirely.",
  ["inputs", "configurations", "histories"], "every non-singular well-conditioned matrix and every combination of options and earlier factorizations on the object",
  "Tests check residual reduction on a few matrices; an error in one deferral, pivoting or level path only degrades convergence and goes unnoticed.",
  ["src/hif/builder.hpp", "src/hif/alg/factor.hpp", "src/hif/alg/symm_factor.hpp", "src/hif/alg/pivot_factor.hpp", "src/hif/small_scale/QRCP.hpp"],
  [("driver", "src/hif/builder.hpp: HIF::factorize, _factorize_kernel"), ("level factorization", "src/hif/alg/factor.hpp: level_factorize; symm_factor.hpp: symm_level_factorize; pivot_factor.hpp: pivot_level_factorize"), ("final tail compression", "src/hif/alg/factor.hpp: internal::compress_tails")])
p("P19", "Dense last level solves and multiplies consistently with its rank",
  "The dense last-level solver returns, for a full-rank block, the solution of the dense system, and its product is the inverse operation, plain and conjugate-transposed and for several right-hand sides at once. Converting a sparse block to dense keeps every entry. For a rank-deficient block only the leading rank columns take part and the rest of the solution is zero before permutation.",
  ["inputs", "configurations"], "every dense block, requested rank and number of right-hand sides",
  "Tests solve a few random blocks with full rank; rank-limited, transposed and multi-vector paths are not all exercised.",
  ["src/hif/small_scale/QRCP.hpp", "src/hif/small_scale/LUP.hpp", "src/hif/small_scale/SYEIG.hpp", "src/hif/ds/DenseMatrix.hpp"],
  [("dense solver", "src/hif/small_scale/QRCP.hpp: _solve_nt, _solve_t, _multiply_nt, _multiply_t"), ("sparse to dense", "src/hif/ds/DenseMatrix.hpp: from_sparse, copy_sparse")])
p("P20", "C interface reports errors and leaves caller data alone",
  "Every C entry point given a null or unset handle, mismatched sizes or an internal failure returns the documented status code instead of crashing, and a failure leaves a retrievable message that is cleared once read. Each parameter slot controls exactly its own option. Wrapped matrices and right-hand sides are never modified or freed, and results equal those of the C++ interface for every value type and storage order.",
  ["inputs", "histories", "fault_sequences"], "every entry point, handle state, operation, value type and call order",
  "The C tests run one success path per type; error paths, unset handles and call orders are not sampled.",
  ["libhifir/src/libhifir.cpp", "libhifir/include/libhifir.h"],
  [("entry points", "libhifir/src/libhifir.cpp: lhf*Create/Setup/Update/Refactorize/Apply/Solve/Get*"), ("parameter mapping", "libhifir/src/libhifir.cpp: create_params, lhfSetDefaultParams")])
p("P21", "Matrix files round-trip",
  "Writing a matrix or vector to a MatrixMarket file and reading it back gives the same dimensions, pattern and values; symmetric, Hermitian and skew-symmetric files are read as the full matrix; malformed files and failed writes are reported as errors instead of being read as something else (the binary format needs HDF5, without which it is refused with an error).",
  ["inputs", "fault_sequences"], "every matrix, every supported format, and every truncated or malformed file",
  "Tests read one or two files; truncation at each point and unusual headers are not sampled.",
  ["src/hif/utils/io.hpp"], [("readers and writers", "src/hif/utils/io.hpp: read_mm_*, write_mm_*, mm_read_*; src/hif/utils/coo2compress.hpp: convert_coo2cs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
