import os
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,
      anchors=dict(files=files,mechanism=[{"name":n,"where":w} for n,w in mech],**kw)))
I=["inputs"];IC=["inputs","configurations"]
S='src/hif/'
p("P01","Preconditioner solve applies the documented block-elimination operator",
 "For every multilevel factorization, solving with one level applies exactly T*P*[block LDU elimination with L, D, U, E, F and the Schur-complement solve]*Q^T*S: each scaling, permutation, triangular solve, diagonal division and off-diagonal product is applied exactly once, in the documented place, over its full row range. This holds whether the level is intermediate, last with a dense Schur complement (rank-revealing QR or symmetric eigen-solver), last without one, or has an empty leading block.",
 IC,"all factors, right-hand sides, level structures and scalar types",
 "a test compares residuals on a few matrices whose sizes, permutations and level counts it happens to reach; a wrong operator still converges, and the identity must hold for all factors",
 [S+'alg/prec_solve.hpp'],[("prec_solve","src/hif/alg/prec_solve.hpp: prec_solve"),("prec_solve for real and complex scalars","src/hif/alg/Prec.hpp: Prec fields")])
p("P02","Transposed solve applies the exact conjugate transpose of the solve",
 "For every factorization the operator applied by a transposed solve is the conjugate transpose of the one applied by the plain solve, level by level: same scalings and factors, each conjugated exactly once, permutations swapped with their inverses, in reversed order. The same holds for the transposed multilevel product with respect to the plain product.",
 IC,"all factors and right-hand sides, real and complex, every level structure",
 "the tests never solve transposed systems with complex values on non-symmetric permutations; a missing conjugate is invisible for real scalars",
 [S+'alg/prec_solve.hpp',S+'alg/prec_prod.hpp'],[("prec_solve_tran","src/hif/alg/prec_solve.hpp: prec_solve_tran"),("prec_prod_tran","src/hif/alg/prec_prod.hpp: prec_prod_tran")])
p("P03","Multilevel product is the inverse of the multilevel solve",
 "For every factorization, the operator applied by the matrix-vector product with the preconditioner (mmultiply) composed with the one applied by the solve is the identity, in both orders, with exact arithmetic and nonsingular diagonal blocks and Schur complement. This holds for the transposed pair as well and for every level structure.",
 IC,"all factors, vectors, level structures",
 "tests check one product on small random factors; the inverse relation is an algebraic identity over all factors",
 [S+'alg/prec_prod.hpp',S+'alg/prec_solve.hpp'],[("prec_prod","src/hif/alg/prec_prod.hpp: prec_prod"),("prec_prod_tran","src/hif/alg/prec_prod.hpp: prec_prod_tran")])
p("P04","Multiple-right-hand-side solve equals independent column solves",
 "Solving for several right-hand sides at once gives in each column what a single solve of that column gives: no column reads another column's data, nothing read is uninitialised, and the workspace handed to every level is big enough for that level and all deeper ones, whatever calls were made before. The same holds for the multi-vector sparse kernels.",
 ["inputs","histories"],"all factors, right-hand sides, column counts, and earlier calls on the same object",
 "no test calls the multi-right-hand-side solve on a multilevel factorization after another solve; workspace reuse depends on call history",
 [S+'alg/prec_solve.hpp',S+'builder.hpp',S+'ds/CompressedStorage.hpp'],
 [("prec_solve_mrhs","src/hif/alg/prec_solve.hpp: prec_solve_mrhs"),("HIF::solve_mrhs workspace","src/hif/builder.hpp: HIF::solve_mrhs"),("mrhs kernels","src/hif/ds/CompressedStorage.hpp: multiply_mrhs_*, solve_as_strict_*_mrhs*")])
p("P05","Sparse kernels compute the products and triangular solves they are named for",
 "For every compressed matrix, in row or column storage, multiply and transposed multiply compute A*x and A^H*x (every stored entry used exactly once, conjugated exactly when transposed, output fully overwritten even for empty matrices), and the strict triangular kernels perform forward or backward substitution over all rows in the required order. Single- and multi-vector versions agree.",
 I,"all sizes, sparsity patterns, values and scalar types",
 "tests sample small random square matrices with mostly real scalars; boundary rows, empty matrices and conjugation are not settled by samples",
 [S+'ds/CompressedStorage.hpp',S+'utils/mv_helper.hpp'],
 [("multiply kernels","src/hif/ds/CompressedStorage.hpp: CRS/CCS multiply_nt_low, multiply_t_low, multiply_mrhs_*"),("triangular kernels","src/hif/ds/CompressedStorage.hpp: solve_as_strict_lower/upper(_tran)"),])
p("P06","Dense last-level solvers apply factors, permutations and rank consistently",
 "The last-level dense solver applies Q and R (or L and U, or the eigen-decomposition) with the transposition, side, triangle, permutation direction and truncation rank that make the plain and transposed solve adjoint to each other and the product their inverse on the retained rank; entries beyond the rank are zeroed. For complex scalars the transposed versions use conjugate transposes.",
 IC,"all dense Schur complements, ranks, pivots and scalar types",
 "tests use real full-rank matrices; truncated rank, permutations and complex transposes differ only on rare inputs",
 [S+'small_scale/QRCP.hpp',S+'small_scale/LUP.hpp',S+'small_scale/SYEIG.hpp'],
 [("QRCP","src/hif/small_scale/QRCP.hpp: QRCP::_solve_nt,_solve_t,_multiply_nt,_multiply_t"),("LUP","src/hif/small_scale/LUP.hpp: LUP::solve"),("SYEIG","src/hif/small_scale/SYEIG.hpp: SYEIG::_solve,_multiply")])
p("P07","LAPACK wrappers forward every argument to the routine of the right precision",
 "Each precision overload of each BLAS/LAPACK wrapper calls the Fortran routine of exactly that precision and operation, forwards each of its arguments once to the parameter position of the same meaning, and returns the routine's info; no overload calls another precision, swaps arguments or drops one.",
 IC,"all wrappers, all precisions, all argument values",
 "several precisions and operations are never called by a test, and swapped arguments with equal values are not observable",
 [S+'small_scale/lapack.hpp',S+'small_scale/lapackf.hpp'],
 [("wrappers","src/hif/small_scale/lapack.hpp: Lapack<ValueType>"),("Fortran bindings","src/hif/small_scale/: internal overloads")])
p("P08","Iterative refinement iterates x += M^-1 (b - A x) with one transposition mode",
 "Refinement computes x_{k+1} = x_k + M^{-1}(b - A x_k) with exactly the requested number of inner solves, the residual always being of the current iterate and original right-hand side, and the same transposition used for A and for M throughout. The bounded variant stops with flag 0 only when the residual is within the bounds, 1 only on divergence and -1 only after the maximum count, and returns zeros for a zero right-hand side.",
 I,"all operators, right-hand sides, iteration counts and residual bounds",
 "tests run a few iterations on well-conditioned problems where an extra or missing half step is not visible",
 [S+'alg/IterRefine.hpp',S+'builder.hpp'],[("IterRefine","src/hif/alg/IterRefine.hpp: iter_refine"),("HIF::hifir","src/hif/builder.hpp: HIF::hifir")])
p("P09","Factorization never modifies the user's input matrix",
 "Whatever the options, storage format, index base and level structure, factorizing leaves the values, indices and offsets of the caller's matrix (and every array it wraps) unchanged on return, and does not free them. Scaling, reordering and symmetrization only ever write to copies or restore what they changed.",
 IC,"all matrices, options, index bases and level counts",
 "tests do not compare the input before and after for each combination of scaling, symmetry and level; aliasing arises only in some option combinations",
 [S+'builder.hpp',S+'alg/factor.hpp',S+'pre/matching_scaling.hpp'],[("HIF::factorize","src/hif/builder.hpp: HIF::factorize, factorize_raw"),("matching","src/hif/pre/matching_scaling.hpp: do_maching"),("level_factorize","src/hif/alg/factor.hpp, pivot_factor.hpp, symm_factor.hpp")])
p("P10","Dropping parameters reach the factor they are named for",
 "In every factorization kernel, L is thresholded with tau_L and limited by alpha_L and the column sizes of the input, U with tau_U, alpha_U and the row sizes, each estimated with its own condition estimate; deferral compares the pivot with kappa_d and the estimates with kappa. The off-diagonal blocks are limited by their own alpha and sizes, doubled exactly on the first level on request. Adjusting parameters per level keeps each parameter in its own role.",
 IC,"all matrices, parameters and levels, in the plain, pivoting, symmetric and threaded kernels",
 "defaults set tau_L = tau_U and alpha_L = alpha_U, so a swap is invisible to any test that uses them",
 [S+'alg/factor.hpp',S+'alg/pivot_factor.hpp',S+'alg/symm_factor.hpp',S+'alg/thresholds.hpp'],
 [("kernels","src/hif/alg/factor.hpp: level_factorize"),("siblings","src/hif/alg/pivot_factor.hpp, symm_factor.hpp"),("parameter adjustment","determine_fac_pars")])
p("P11","Each finished level is recorded with its own scalings, permutations and inverses",
 "When a level is complete, the recorded preconditioner level receives the leading size, the L, D, U, E, F factors, the row and column scalings, and the row and column permutations each with its own up-to-date inverse, in the roles the solve uses them in. The inverse recorded is always recomputed after the last change of the permutation.",
 IC,"all inputs and deferral histories, in every factorization kernel",
 "with symmetric permutations p equals q and a stale inverse goes unseen; only deferrals change the permutation after the inverse was built",
 [S+'alg/factor.hpp',S+'alg/pivot_factor.hpp',S+'alg/symm_factor.hpp',S+'alg/Prec.hpp',S+'ds/PermMatrix.hpp'],
 [("level recording","src/hif/alg/factor.hpp: precs.emplace_back"),("inverse","src/hif/ds/PermMatrix.hpp: BiPermMatrix::build_inv")])
p("P12","Refactorization leaves nothing behind from the previous factorization",
 "Calling factorize on a used object discards every level, the size-dependent workspaces and the statistics of the previous matrix before the new ones are built, so its later solves depend only on the last matrix and options. Clearing the object, or a factorization that fails, leaves it reported as empty.",
 ["histories"],"all sequences of factorize, solve, clear calls with matrices of different sizes",
 "tests factorize each object once; stale state only shows after particular call sequences",
 [S+'builder.hpp'],[("HIF::factorize","src/hif/builder.hpp: HIF::factorize_raw, clear, empty")],state=[dict(name='HIF::_precs, _prec_work, _stats',meaning='levels, solve workspace and statistics kept between calls',where='src/hif/builder.hpp')])
p("P13","Verbosity never changes results",
 "The verbose option only controls printing: no value stored in the preconditioner, no branch that decides the factorization, and no returned result depends on it, in any factorization kernel or preprocessing step.",
 ["configurations","inputs"],"all matrices and all verbosity settings",
 "tests run with one verbosity; the property compares two runs for every input",
 [S+'builder.hpp',S+'alg/factor.hpp',S+'Options.h'],[("verbosity guards","hif_verbose uses in src/hif/alg, src/hif/pre, src/hif/builder.hpp")])
p("P14","Results depend only on arguments: no hidden mutable global state",
 "Outside the process-wide switches (warning flag, introduction banner, number of threads, error buffer of the C interface), no function of the library modifies an object of static or thread storage duration, constants initialised on first use do not depend on the arguments of that first call, and no random number, clock, environment, thread identity or address value is used outside time measurement and the choice of the number of threads. Objects used by different threads therefore share no hidden data, and a result does not depend on earlier calls on other objects.",
 ["schedules","histories"],"all call histories and thread interleavings on distinct objects",
 "a data race or a history dependence needs a specific interleaving or earlier call",
 [S+'builder.hpp',S+'utils/log.hpp','libhifir/src/libhifir.cpp'],[("process-wide switches","src/hif/utils/log.hpp: internal warn flags, StdoutStruct, StderrStruct"),("global state","src/hif, libhifir/src/libhifir.cpp: static and thread_local variables"),("number of threads","src/hif/utils/mt_mv.hpp, src/hif: mt::get_nthreads"),("constants of the builder","src/hif/builder.hpp, src/hif/alg/pivot_factor.hpp: function-local static constants")])
p("P15","Threaded loops cover every row exactly once for any team size",
 "In every OpenMP-parallel routine the rows, columns or entries assigned to the threads form a partition of the whole range, whatever number of threads the runtime actually provides, and threads write only disjoint or reduced data. Threaded and serial routines apply the same rules.",
 ["schedules","configurations"],"all thread counts, team sizes smaller than requested, and schedules",
 "tests run with one team size; the runtime may deliver fewer threads than requested",
 [S+'utils/mt_mv.hpp',S+'alg/Schur.hpp',S+'alg/factor.hpp'],
 [("threaded multiply","src/hif: mt::multiply_nt"),("threaded drop","src/hif: mt::drop_L_E_and_U_F"),("threaded Schur","src/hif: mt::compute_Schur_simple")])
p("P16","Array memory is owned, shared and freed exactly once",
 "Every buffer an array allocates is freed exactly once, when its last sharing array goes away; wrapped external buffers are never freed; shallow copies share and deep copies do not; resizing or reallocating never leaves a dangling or leaked buffer; and an operation whose allocation fails raises an error or leaves the array empty with undefined status. This holds for every operation of the array class in every ownership state, exceptional exits included.",
 ["histories","fault_sequences"],"all sequences of construct, copy, move, assign, resize, destroy, and all allocation failures",
 "ownership depends on the order of operations and on allocation failures no test provokes",
 [S+'ds/Array.hpp'],[("Array","src/hif/ds/Array.hpp: Array constructors, operator=, resize, reserve, push_back, destructor")],state=[dict(name='Array::_data, _status, _counts, _size, _cap',meaning='buffer, ownership status, share count',where='src/hif/ds/Array.hpp')])
p("P17","Matrix-market files are validated when read and reproduce data when written",
 "When reading a matrix-market file, every count, index and word taken from the file is checked before it is used as a size, offset or value: text never overruns its buffer, a failed scan or a failed allocation ends the read with an error, and every element written lies inside its array. A file is accepted only with the banner, layout, type and storage scheme that fit the arrays it is read into; what is returned are exactly the file's entries (zero-based, inside the matrix) and, for symmetric, hermitian and skew-symmetric files, the mirrored, conjugated or negated twin of every off-diagonal entry. The file is closed on every exit, normal or failing. A written file has the banner, the sizes and one line per entry with one-based indices and enough digits to reproduce each value, and a write that fails raises an error.",
 ["inputs","fault_sequences"],"all file contents, including malformed ones, every failing exit, all instantiations of readers and writers",
 "tests read a few well-formed files; malformed input is an unbounded space",
 [S+'utils/io.hpp'],[("readers","src/hif/utils/io.hpp: mm_read_firstline, mm_read_sparse_size, mm_read_sparse_data, read_mm_sparse, read_mm_vector"),("writers","src/hif/utils/io.hpp: write_mm_sparse, write_mm_vector")])
p("P18","No C++ exception escapes the C interface",
 "Every function exported by the C library either cannot throw or catches every exception the C++ core can raise, turning it into the HIFIR error status (a null handle when creating) with the message saved; nor does any path of it end the process.",
 ["inputs","fault_sequences"],"all exported functions, all inputs, allocation failures",
 "exceptions arise from inputs and faults tests do not provoke; an escape terminates the caller's process",
 ['libhifir/src/libhifir.cpp','libhifir/include/libhifir.h'],[("exported functions","libhifir/src/libhifir.cpp: lhf*, lhf[dscz]*")])
p("P19","C interface rejects null handles and empty objects before touching them",
 "Every exported C function that is given a null handle or null matrix, that lacks the matrix to factorize or to refine with, or is given a matrix without entries there, returns the null-object status (getters zero, destroy functions success) without reading or writing through it, performing the operation or writing any output.",
 I,"all exported functions and argument combinations",
 "each function/argument pair would need its own test, and only a few exist",
 ['libhifir/src/libhifir.cpp','libhifir/include/libhifir.h'],[("guards","libhifir/src/libhifir.cpp: _LHF_CANNOT_ACCEPT_NULL and null tests")])
p("P20","C interface precision families behave identically and forward arguments in order",
 "The double, single, complex and mixed-precision families of the C interface are the same program up to the scalar type: each entry forwards its arguments (matrix, right-hand side, operation, iteration count, bounds, rank) to the C++ operation of the same name in the right order, with the operation code translated to the same transposition and refinement choice in all families.",
 IC,"all families, operation codes and argument values",
 "tests exercise one or two families with a single operation code",
 ['libhifir/src/libhifir.cpp'],[("families","libhifir/src/libhifir.cpp: lhfdX, lhfsX, lhfzX, lhfcX, lhfsdX, lhfczX")])
p("P21","Option tables agree with the option structure everywhere",
 "The option structure, its type table, its name-to-position table, its textual representation, its stream input and the C interface's parameter array and codes all agree on the order, type, name, codes and default of every option; setting an option by name changes that option and no other, and reading options from a stream sets all of them in declaration order.",
 IC,"all options and values",
 "tests set a few options; a shifted table entry shows only for the option concerned",
 [S+'Options.h','libhifir/src/libhifir.cpp','libhifir/include/libhifir.h'],[("option tables","src/hif/Options.h: hif_Options, option_dtypes, option_tag2pos, opt_repr, get_verbose, operator>>, get_default_options"),("C parameters","libhifir/src/libhifir.cpp: create_params, lhfSetDefaultParams; libhifir.h: LHF_* enum")])
p("P22","Solves on empty or mismatched objects are rejected before any work",
 "solve, hifir, mmultiply and solve_mrhs report an error, and touch neither output nor workspace, when the preconditioner is empty or a vector's length differs from the other's or from the factorized matrix; otherwise the workspace is allocated with the size the level recursion needs before it is used, and allocation failures are reported.",
 ["inputs","histories"],"all objects, sizes and call sequences",
 "each entry/condition pair needs its own negative test; few exist",
 [S+'builder.hpp'],[("entry checks","src/hif/builder.hpp: HIF::solve, hifir, mmultiply, solve_mrhs"),("dispatch","src/hif/builder.hpp: HIF::solve, mmultiply transposition and null-space filter")])
p("P23","Every public operation can be instantiated for every supported type",
 "Each public member of the library's templates (preconditioner, sparse matrices, arrays, dense solvers, refinement, multi-vector operations) compiles for float, double and their complex types, mixed precision of matrix and vectors, 32- and 64-bit indices, row and column storage, with and without threads, in debug mode and for each dense solver, and its alias templates honour all their parameters.",
 ["programs","configurations"],"all supported instantiations and all public members",
 "C++ templates are only checked when instantiated, and tests instantiate a few combinations",
 ['src/hifir.hpp',S+'builder.hpp',S+'ds/CompressedStorage.hpp',S+'small_scale/solver.hpp'],[("public templates","src/hif/**: class templates HIF, CRS, CCS, Array, QRCP, LUP, SYEIG, IterRefine")])
p("P24","A pivot is accepted only after the condition and magnitude tests",
 "In every factorization kernel, a row and column enter the factors only on paths where, after the final dynamic deferral of that step, the diagonal magnitude test with kappa_d the sign test of a declared definiteness and the inverse-norm tests of L and U with kappa have all passed (or deferral was impossible); a deferred row and column is moved as a pair in every array that is indexed by it, and the step then computes with the accepted row and column and their own scalings.",
 I,"all matrices and deferral histories",
 "deferral happens on particular matrices only; accepting one bad pivot still gives a working but unstable preconditioner",
 [S+'alg/factor.hpp',S+'alg/pivot_factor.hpp',S+'alg/symm_factor.hpp'],[("deferral loop","src/hif/alg/factor.hpp: level_factorize"),("siblings","src/hif/alg/pivot_factor.hpp, symm_factor.hpp")])
p("P25","Every elimination step and Schur complement computes exactly A - L D U",
 "The row and the column computed at an elimination step are the entries of the doubly scaled, permuted input behind the step minus the products entry of L times diagonal entry times entry of U over exactly the earlier columns and rows that reach the step, divided by the diagonal entry; the diagonal, the off-diagonal blocks and the inverse-norm estimates follow the same recurrences with the scaling factors of their own row and column; and the Schur complement, serial or threaded, holds at exactly the positions of either operand the scaled remainder of the input minus the product of the factors, with conjugation only where the factorization is Hermitian.",
 I,"all matrices, scalings, permutations, deferrals and scalar types",
 "a wrong product, scaling index or range changes the preconditioner only slightly or only after deferral, so iterations still converge on sampled systems",
 [S+'alg/Crout.hpp',S+'alg/PivotCrout.hpp',S+'alg/Schur.hpp',S+'alg/factor.hpp'],[("steps","src/hif/alg/Crout.hpp: compute_ut, compute_l, compute_symm, update_kappa, update_diag, scale_inv_diag"),("pivoting steps","src/hif/alg/PivotCrout.hpp: compute_ut, compute_l, compute_dk"),("Schur complement","src/hif/alg/Schur.hpp: compute_Schur_simple"),("blocks","src/hif/alg/factor.hpp: extract_perm_diag, extract_E, extract_F")])
p("P26","Dropping removes exactly the entries the thresholds name, keeping the largest",
 "Numerical dropping deletes exactly the entries of a row of U or column of L whose modulus is at most the tolerance divided by the given condition bound, and is skipped only for non-positive thresholds. Space-based dropping keeps the min(size, max(ceil(alpha * nnz), stored + 1) - stored) entries of largest modulus. Each row of L_E (column of U_F) keeps at most ceil(alpha * size of that row or column of the input) entries, those of largest modulus, each block with its own alpha and its own sizes; indices and values of kept entries stay together. Serial and threaded versions drop alike.",
 I,"all rows and columns, values, limits, thread counts and scalar types",
 "dropping the wrong entry, or one too many, leaves a slightly worse preconditioner that still converges on sampled systems",
 [S+'alg/thresholds.hpp',S+'alg/Schur.hpp'],[("thresholds","src/hif/alg/thresholds.hpp: apply_num_dropping, apply_space_dropping"),("off-diagonal blocks","src/hif/alg/Schur.hpp: internal::drop_offsets_kernel, drop_L_E, drop_U_F, mt::drop_L_E_and_U_F")])
p("P27","Input validation accepts exactly the well-formed matrices",
 "check_validity and the checking wrappers wrap_const_crs/wrap_const_ccs report an error for every matrix whose position array is too short, does not start at zero or decreases, that announces more entries than its index or value array holds, or in which any row (column) has an index that is negative, too large, repeated or out of order; they accept every other matrix, empty rows and last columns included. With validation requested, factorize computes no level before the matrix handed to the level loop is validated; it takes 0-based matrices as they are, shifts all positions and indices of 1-based ones, and rejects any other base.",
 I,"all matrices of both storages and all index and position types",
 "each defect at each row, entry and array needs its own negative test; an incomplete check shows only as a crash or silent out-of-bounds access on a malformed input",
 [S+'ds/CompressedStorage.hpp',S+'builder.hpp'],[("validation","src/hif/ds/CompressedStorage.hpp: CompressedStorage::check_validity, wrap_const_crs, wrap_const_ccs"),("use","src/hif/builder.hpp: HIF::factorize")])
p("P30","Residual of the preconditioned solve is small for well-scaled inputs",
 "The factorization approximates the matrix to within the drop tolerances, so that preconditioned iterations converge in few steps.",
 I,"all non-singular and mildly singular matrices","numerical quality varies with the matrix",
 [S+'alg/factor.hpp'],[("Crout factorization","src/hif/alg/factor.hpp: level_factorize")])
p("P31","Factorization takes near-linear time and space",
 "With fixed fill factors, the storage of every level is bounded by alpha times the input nonzeros and the time is near-linear in them.",
 I,"all sparse matrices","asymptotic over all inputs",[S+'alg/factor.hpp'],[("space-based dropping","src/hif/alg/factor.hpp, symm_factor.hpp: apply_space_dropping")])
p("P32","Rank truncation reveals the numerical rank",
 "The rank the last-level factorization reports equals the numerical rank with respect to the requested condition threshold.",
 I,"all dense Schur complements","depends on singular values of runtime data",[S+'small_scale/QRCP.hpp'],[("incremental condition estimation","src/hif/small_scale/QRCP.hpp: QRCP::factorize")])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
