"""Which contract tasks and bounded harnesses decide which property."""
import importlib, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ["clang-18 front end and opt passes sroa/early-cse/simplifycfg/loop-simplify (source -> LLVM IR)", "irv (the verification-condition generator in /verif/irv)", "z3 5.3",
           "model of std:: algorithms (copy, copy_n, fill, fill_n, lower_bound, find, sort, nth_element, max_element, min_element: the ISO C++ contract) and of std::vector and of operator new/delete"]
ASSUME = ["floating-point arithmetic treated as exact real arithmetic (division by a non-zero value is exact; no NaN/Inf)",
          "machine integers treated mathematically, with a no-overflow obligation on every signed/size operation that could wrap",
          "arrays passed as different arguments do not alias unless the contract says so", "operator new does not fail",
          "partial correctness: termination of loops is not proved", "OpenMP pragmas ignored in the verified IR (bounded harness runs them with threads)",
          "value type double and index type int (templates instantiated); std::complex<double> only where a contract says so"]
def _n(src, about, **kw): return dict(src=src, about=about, **kw)
PROPS = {
 "P01": dict(modules=["convert"], level="proof", native=[_n("p01.cpp", "storage conversions of any shape with shuffled sources, coordinate assembly in row, column and random order, real / complex / float, int and long indices")],
             assume=["coordinate input has no duplicate positions", "convert_coo2cs is decided by the bounded harness only", "pigeonhole: sums over keys equal the number of positions (induction steps are obligations, the induction principle is used by hand)"],
             note="counting-sort conversion proved for every shape through a ghost theory of counting (destinations, bijectivity, order)"),
 "P02": dict(modules=["matvec"], level="proof", native=[_n("p02.cpp", "mat-vec kernels, multi-vector, multi-threaded against dense oracle in exact integer arithmetic")],
             note="every mat-vec kernel is proved against a ghost prefix-sum function"),
 "P03": dict(modules=["trisolve"], level="proof", native=[_n("p03.cpp", "triangular solves against dense substitution in exact integer arithmetic, all sizes, mixed precision")],
             note="all 16 solve kernels (2 storages x lower/upper x plain/transposed x single/multi rhs) for real and complex values are proved to return the ghost solution"),
 "P04": dict(modules=["blocks"], level="proof", native=[_n("p04.cpp", "splits with and without start positions, dual splits, leading and permuted blocks, scaling, pruning, both storages, real and complex")],
             assume=["_compute_perm and _prune are decided by the bounded harness only"],
             note="splitting (both parts, both storages, same and dual storage, with and without given start positions), leading blocks and row/column scaling proved exact for every matrix and boundary"),
 "P05": dict(modules=["valid"], level="proof", native=[_n("p05.cpp", "random matrices with injected faults, owned and wrapped, in exactly sized heap arrays")],
             assume=["a matrix whose index array was never set (status DATA_UNDEF) counts as unset and is not examined"],
             note="check_validity and wrap_const_crs/ccs proved to accept exactly the valid matrices and to read only the given arrays"),
 "P06": dict(modules=["array"], level="proof", native=[_n("p06.cpp", "random histories of all Array operations on up to five handles, buffer-sharing model, instance counting")],
             note="every Array operation proved on an arbitrary owning / shared / wrapping / moved-from state; histories follow because each operation re-establishes the state description; longer sharing histories are exercised by the bounded harness",
             assume=["operations on arrays sharing one buffer: contracts cover up to three handles on one buffer"]),
 "P07": dict(modules=["spvec"], level="proof", native=[_n("p07.cpp", "accumulator histories, both dropping rules, row/column limits of drop_L_E and drop_U_F")],
             assume=["drop_offsets_kernel (drop_L_E, drop_U_F) is decided by the bounded harness only", "std::vector is replaced by a contract model (contiguous storage with a size); its allocation is not verified"],
             note="sparse accumulator and both dropping rules proved for every content"),
 "P08": dict(modules=["perm"], level="proof", native=[_n("p08.cpp", "permutations, interchanges, prefix reordering, permuted leading blocks", libs=["-llapack","-lblas"])],
             assume=["do_maching, run_amd/run_rcm are represented in the prefix-reordering task by the contract 'returns a permutation'"],
             note="permutation class and prefix composition proved for every size"),
 "P09": dict(modules=["hier"], level="proof", native=[_n("p09.cpp", "random level structures with an exact dense last level, single / transposed / multi-vector solves in any order against the dense operator", libs=["-llapack","-lblas"])],
             assume=["triangular solves, sparse products, the dense last level and the next level are represented by contracts (P03, P02, P19, this one by induction over the levels)", "prec_solve_mrhs and the work space handling of the builder class are decided by the bounded harness", "double precision real data; conjugation in the transposed solve is exercised by the bounded harness"],
             note="one level of prec_solve and prec_solve_tran proved to evaluate the block formula for every size, split, factor, permutation and scaling; by induction the whole hierarchy"),
 "P10": dict(modules=["hier"], level="proof", native=[_n("p10.cpp", "random level structures with an exact dense last level, products, products of solves and solves of products in any order", libs=["-llapack","-lblas"])],
             assume=["triangular solves, sparse products, the dense last level and the next level are represented by contracts (P03, P02, P19, this one by induction over the levels)", "that the product formula is the inverse of the solve formula is block algebra, checked by the bounded harness", "double precision real data; conjugation is exercised by the bounded harness"],
             note="one level of prec_prod and prec_prod_tran proved to evaluate the block product formula for every size, split, factor, permutation and scaling"),
 "P11": dict(modules=["refine"], level="proof", native=[_n("p11.cpp", "refinement with exact integer operators (compressed and callback products, real and complex, plain and transposed, bounds on the exact residual ratios) and through the preconditioner class", libs=["-llapack","-lblas"])],
             assume=["the preconditioner application and the matrix product are represented by contracts (P09, P02); the operator applied to the zero vector is zero", "IterRefine<double>; vectors of size n >= 1"],
             note="both refinement loops proved to return the iterate x_N / the iterate and status of the stopping rule for every N, operator and bounds; norm2 proved to be the Euclidean norm"),
 "P12": dict(modules=["nsp"], level="proof", native=[_n("p12.cpp", "constant-mode filter on every range and size, builder hook", libs=["-llapack","-lblas"])],
             note="filter proved to subtract the mean over the clipped range"),
 "P13": dict(modules=["params"], level="proof", native=[_n("p13.cpp", "every parameter name with random values (exhaustive over the 28 names), unknown names, streams, defaults through every interface", libs=["-llapack","-lblas"])],
             assume=["std::unordered_map::at is represented by its contract: a position of the table, or out_of_range", "which name has which position (28 entries) is decided by the exhaustive bounded harness", "double to int conversion truncates (values within the int range)", "the printed text form (opt_repr) is display only and not a parameter source"],
             note="set_option_attr, the stream reader, both default functions, DEFAULT_PARAMS, the C default slots and the C parameter mapping proved field by field, including the refusal of unknown names through the real exception path"),
 "P14": dict(modules=["pre"], level="proof", native=[_n("p14.cpp", "scaling functions, matching, deferral, reordering and leading block of random matrices (zero and missing diagonals, empty rows and columns, structurally singular, badly scaled, dense columns) for every option: bijections with inverses, finite positive scalings, leading size, exact permuted block, input unchanged", libs=["-llapack","-lblas"])],
             assume=["the MC64 matching kernel, AMD, RCM, their use by do_maching and compute_leading_block are decided by the bounded harness only", "permutation composition of the driver is proved under P08 with 'returns a permutation' as the contract of matching and reordering", "std::max_element, pow and sqrt by their contracts (positive arguments give positive results)", "finiteness of scaling factors is a floating-point claim: decided by the bounded harness; the proofs give positivity over the reals"],
             note="deferral of tiny diagonals (leading size, order of kept and deferred positions, the test itself), the three pre-scaling functions (general and symmetric) and fix_poor_scaling proved for every matrix and size; matching and reordering kernels bounded"),
 "P15": dict(modules=["aug"], level="proof", native=[_n("p15.cpp", "histories of pushes, interchanges, deferrals and copies on both augmented storages against a dense model, real / complex, dense and sparse pushes")],
             assume=["interchange_rows/interchange_cols and the row/column pushes themselves are decided by the bounded harness; their primitives (list append, position swap and rotations, list exchange) are under contract", "node arrays have capacity for the new nodes (the growth path is Array::resize, proved under P06)"],
             note="list append keeps every list complete and ordered; position moves keep the two position maps inverse to each other, for every size"),
 "P16": dict(modules=["crout"], level="proof", native=[_n("p16.cpp", "whole eliminations with the Crout kernels (nonsymmetric, symmetric, pivoting by hand and by threshold, deferrals) on random matrices, real and complex, against a dense elimination; lists, start positions, offsets and condition estimators re-derived from the stored factors after every step", libs=["-llapack","-lblas"])],
             assume=["SparseVector::push_back is represented by its contract, proved under P07; appending rows to the factors by P02/P03's contracts", "linked lists and start positions on entry chain the contributing steps: that update_compress, defer_entry and the interchanges of PivotCrout keep them so is decided by the bounded harness", "products are uninterpreted, sums and divisions are real arithmetic", "the row and column permutations are injective (P08)"],
             note="compute_ut, compute_l (both variants), compute_symm, update_diag, update_kappa, scale_inv_diag and symm_update_lstart proved for every matrix, step, number of deferrals and list; list maintenance and PivotCrout bounded"),
 "P17": dict(modules=["schur"], level="proof", native=[_n("p17.cpp", "permuted diagonal, off-diagonal blocks and both Schur complement variants against a dense oracle in exact integer arithmetic", libs=["-llapack","-lblas"])],
             assume=["extract_E, extract_F and the Schur complement kernels are decided by the bounded harness only", "p and q are permutations with their inverses (P08)"],
             note="permuted diagonal extraction proved for every matrix, scaling, permutation and leading size"),
 "P18": dict(modules=["exact"], level="exploration", native=[_n("p18.cpp", "whole factorizations without dropping through the public class: random and structured well-conditioned matrices (zero diagonals, permuted, block, graded), every combination of symmetry, pivoting, reordering, pre-scaling, row storage / column storage and threads, repeated factorizations on one object, plain, transposed and multi-vector solves against a dense oracle, counts against the stored levels, caller arrays bit by bit", libs=["-llapack","-lblas"])],
             technique="contract-based deductive verification of the pieces (kernels under P04/P07/P08/P14/P16/P17/P19, compression and counts here) + bounded runtime contract harness for their composition",
             assume=["that level_factorize and its symmetric and pivoting variants compose the verified pieces into an exact factorization is decided by the bounded harness only", "complex matrices with is_symm are excluded (known finding)", "sums of the per-level counts over the levels (std::list) are decided by the bounded harness"],
             note="bounded for the composed factorization; tail compression after deferrals (both variants) and the per-level non-zero and rank queries are proved for every size, the kernels it is composed of under their own properties"),
 "P19": dict(modules=["dense"], level="proof", native=[_n("p19.cpp", "LU, QR and symmetric last-level solvers on random full-rank and rank-deficient blocks, real / complex, single / double, plain / transposed / several right-hand sides, against dense oracles; sparse to dense conversion", libs=["-llapack","-lblas"])],
             assume=["LAPACK/BLAS routines are represented by contracts on their argument lists (dormqr, dtrsv, dtrmv, dgemv, dgetrs); factorizations (dgeqp3, dsyev, dgetrf), rank decision and multi-vector variants are decided by the bounded harness", "pivot vectors are permutations"],
             note="sparse-to-dense conversion and the single-vector QR, symmetric and LU solves and products proved to evaluate the stated formula with the requested rank for every size, rank and pivot order"),
 "P20": dict(modules=["capi"], level="proof", native=[_n("p20.cpp", "all C entry points for all value types and storages against the C++ interface, unset / null / mismatched / invalid input, allocation failure of the handle, malformed files; caller data compared bit by bit", libs=["-llapack","-lblas"], flags=["-std=c++14"])],
             assume=["the C++ methods behind the C functions (factorize, solve, mmultiply, hifir, query functions) are represented by contracts: they receive the stated arguments and either return or throw a std::exception with a non-empty message", "std::string is represented by a ghost value (assignment, clear, empty, c_str)", "file readers (lhfQueryMmFile, lhf*ReadSparse, lhf*ReadVector) are decided by the bounded harness only"],
             note="every entry point except the file readers proved for all four value types and both mixed-precision variants, over null / unset / set handles, success, exception and allocation failure: status, message, exact arguments passed on, ownership"),
 "P21": dict(modules=["io"], level="proof", native=[_n("p21.cpp", "round trips of sparse matrices (both storages, all index and value types), vectors and zero-size cases; hand-written files of all kinds (symmetric, Hermitian, skew-symmetric, comments, blank lines); malformed, truncated and randomly damaged files; full disk; address sanitizer", libs=["-llapack","-lblas"])],
             assume=["fscanf/sscanf/fgets and ofstream are represented by contracts: a file is a sequence of tokens or lines, each scan delivers the next ones or fails; printing a double with 17 (float: 9) significant digits and scanning it gives the value back", "parsing of the words of the first line and the coordinate-to-compressed conversion's std::sort/std::is_sorted are library contracts or decided by the bounded harness", "memory allocation succeeds in the proofs (failures are checked by the bounded harness only where a test can provoke them)", "no position occurs twice in a file (as the format demands)", "the HDF5 binary format is not part of this build: read_bin/write_bin only report an error here"],
             note="readers of the entries, of the size lines and the dispatch proved for every kind of file, and both writers for double, float and complex values: every number written or read stands for the right entry, whatever the sizes; malformed content, failed writes and out-of-range entries are refused"),
}
def tasks(pid, tier="quick"):
    out = []
    for m in PROPS[pid].get("modules", ()):
        mod = importlib.import_module("irv.tasks." + m)
        out += [t for t in mod.TASKS if (getattr(t, "prop", None) in (None, pid)) and (tier == "thorough" or not getattr(t, "thorough_only", False))]
    return out
def known(pid):
    out = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            if l.startswith("KNOWN-FINDING: property=%s " % pid): out.append(l.strip().split(" ", 2)[2])
    except OSError: pass
    return out

NOT_APPLICABLE = {}
