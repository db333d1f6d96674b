def add(prop, b, l, NOTE):
    I = "include/tlapack/"
    CALL = "Calls are checked against the callee's contract (frame, separation, preconditions), recursive calls against the function's own contract on a strictly smaller problem. "
    prop("P07", "Cholesky factorizations multiply back and report the first bad minor",
         "For every order n (including 0), uplo, block size nb >= 1 and variant, potf2, potrf2, potrf_blocked, potrf_rl and potrf return 0 exactly when all leading minors are positive and then leave the factor L (or U) with positive diagonal and L L^H = A; otherwise the return value k is the order of the first minor that is not positive definite and the leading k-1 columns are factored. "
         "Only the uplo triangle is read or written; potrs solves A X = B with the factor. "
         "pbtrf_with_workspace (1 <= nb <= kd) and pttrf do the same for band and tridiagonal matrices.",
         "all n, nb, variants, uplo, matrix contents incl. indefinite ones, position of the first bad pivot",
         "tests use well conditioned positive definite matrices of a few sizes and never make a minor fail in a chosen position of a chosen block",
         l("potf2", "potrf2", "potrf_blocked", "potrf_blocked_right_looking", "potrf", "potrs", "pbtrf_with_workspace", "pttrf"),
         [("block loop and info offset", I + "lapack/potrf_blocked.hpp"), ("recursive split", I + "lapack/potrf2.hpp")], "proof",
         NOTE + CALL + "That the rejected pivot is not positive, pbtrf_with_workspace and pttrf are decided by the bounded evaluation (exactly representable factors, stated sizes <= 70) only.")
    prop("P08", "Triangular and Hermitian product routines compute what they document",
         "For every size including zero, every flag combination and every crossover parameter nx, lauum_recursive, mult_llh, mult_uhu, lu_mult, ul_mult, hemm2, mult_hehe, gemmtr, trmm_out and trmm_blocked_mixed return and leave exactly the documented product of the entry values, up to rounding. "
         "In-place products change only the documented triangle, never read the other one, and inputs stay unchanged.",
         "all sizes, uplo/side/trans/diag flags, nx and block sizes, scalars and contents",
         "tests take a few square sizes and one nx; recursion splits of odd or tiny sizes, empty matrices and general alpha/beta are not sampled",
         l("lauum_recursive", "mult_llh", "mult_uhu", "lu_mult", "ul_mult", "hemm2", "mult_hehe", "gemmtr", "trmm_out", "trmm_blocked_mixed"),
         [("recursive splitting", I + "lapack/mult_llh.hpp"), ("loop nests per flag", I + "lapack/gemmtr.hpp")],
         "proof", NOTE + CALL)
    prop("P09", "In-place inverses multiply with the original matrix to the identity",
         "For every order n including 0, trtri_recursive returns 0 and leaves the triangular inverse X with T X = X T = I in the designated triangle (unit or non-unit), touching nothing else. "
         "When a diagonal entry is zero, it returns the index of a zero diagonal element instead of dividing. "
         "getri_uili and getri_uxli (directly or through getri) turn an LU factorization into the inverse of L U, applying the column permutation for the given pivots, and potri turns a Hermitian positive definite matrix into its inverse in the designated triangle.",
         "all orders, uplo, diag, method and pivot vectors, all invertible contents",
         "tests invert a few well conditioned matrices at a few sizes; empty and tiny matrices, unit diagonals and unusual pivot vectors are not exercised",
         l("trtri_recursive", "getri_uili", "getri_uxli", "getri", "potri"),
         [("recursive splitting", I + "lapack/trtri_recursive.hpp"), ("column-wise in-place inversion", I + "lapack/getri_uxli.hpp")],
         "proof", NOTE + CALL + "The two-sided identity of trtri_recursive is proved by induction with lemmas that sum callee equations; getri_uxli, getri's permutation, potri and the position of the reported zero pivot are decided by the bounded evaluation only (all pivot vectors / exactly invertible matrices up to the stated sizes).")
    prop("P12", "Copies, initialisation, conjugation and transposition are exact",
         "For every shape and layout, lacpy copies exactly the selected part, laset writes alpha off and beta on the diagonal of the selected part, conjugate conjugates every entry, and transpose/conjtranspose write the exact transpose for every block parameter nx. "
         "Nothing else is read or written.",
         "all shapes including empty and rectangular ones, uplo values, nx, layouts",
         "used in tests as helpers on full-size square matrices only",
         l("lacpy", "laset", "conjugate", "transpose"),
         [("block recursion", I + "lapack/transpose.hpp"), ("triangle loops", I + "lapack/laset.hpp")], "proof", NOTE + CALL)

    prop("P10", "Householder reflectors build and apply the unitary matrix they describe",
         "larfg returns a reflector H = I - tau v v^H, unitary, that maps (alpha, x) to (beta, 0) with beta real; larf applies exactly (I - tau v v^H) to C from the requested side (both signatures), larft builds the triangular T of the block reflector, and larfb "
         "applies I - V T V^H or its conjugate transpose; unmq, unmq_level2 and every unm2r/unml2/unm2l/unmr2/unmqr/unmlq/unmql/unmrq/householder_q_mul wrapper equal the sequential product of the k reflectors in the documented order for every side, transposition, direction, storage, block size and every number of reflectors including 0. "
         "Likewise ungq, ungq_level2, ung2r/ung2l/ungl2/ungr2 and the blocked wrappers generate exactly the leading rows or columns of that product; V and tau are unchanged, entries of V that are implicit are not read.",
         "all m, n, k >= 0, side/trans/direction/storage, block sizes, arbitrary tau and v",
         "tests check orthogonality of Q from a QR of random matrices at a few sizes; arbitrary tau, k=0, non-square and block remainders are not sampled",
         l("larfg", "larf", "larft", "larfb", "unmq", "unmq_level2", "ungq", "ungq_level2", "unm2r", "ung2r", "unmqr", "ungqr"),
         [("reflector application", I + "lapack/larf.hpp"), ("block reflector", I + "lapack/larfb.hpp"), ("block loop direction", I + "lapack/unmq.hpp")], "proof",
         NOTE + CALL + "unmq_level2, ungq_level2 and their wrappers are proved against a ghost recursion whose step is larf's contract. larfg (iterated rescaling in floating point) and the blocked drivers unmq and ungq are decided by the bounded evaluation (stated sizes) only.")

    prop("P06", "LU factorization with pivoting reproduces the permuted matrix",
         "For every m, n (including 0, tall and wide), getrf_level0, getrf_recursive and getrf leave in A unit lower L and upper U with P A = L U, where P applies the recorded interchanges piv[i] in order and i <= piv[i] < m. "
         "The pivot has the largest magnitude of its column, so |L| <= 1. "
         "On a column without a nonzero pivot they return its 1-based index, with the earlier columns factored, and otherwise 0.",
         "all shapes, contents incl. rank-deficient ones, position of the first zero pivot, tie patterns",
         "tests factor random well-conditioned matrices of a few shapes; exact zero pivots at chosen positions, ties, and 1-row/1-column recursion leaves are not sampled",
         l("getrf_level0", "getrf_recursive", "getrf"),
         [("pivot search and row swap", I + "lapack/getrf_level0.hpp"), ("recursive split and pivot offset", I + "lapack/getrf_recursive.hpp")], "proof",
         NOTE + "The factorization loop of getrf_level0 is proved with a stated invariant over a ghost recursion of the recorded row interchanges. Maximality of the pivot and getrf_recursive are decided by the bounded evaluation (stated sizes) only.")
    prop("P11", "Orthogonal factorizations and reductions multiply back to the input",
         "For every m and n, geqr2/geqrf/householder_qr, gelq2/gelqf, geql2/geqlf, gerq2/gerqf (with every block size, variant and workspace interface), geqrt3 and gelqt store unitary reflectors and a triangular or trapezoidal factor whose product is the input matrix; the reflector of step s is exactly the one whose application reduces line s. "
         "gehd2/gehrd/hessenberg give A = Q H Q^H for every ilo, ihi, gebd2/gebrd/bidiag give A = Q B P^H with B real bidiagonal, hetd2 gives A = Q T Q^H with T real tridiagonal from either triangle, and unghr, unmhr, ungbr and ungtr build or apply those Q and P. "
         "Nothing outside A and tau is written, and B, T and the opposite triangle of a Hermitian input follow the documented storage.",
         "all shapes (m<n, m=n, m>n, empty, one row or column), block sizes and crossover points, ilo/ihi, already reduced or rank-deficient inputs",
         "tests factor well-conditioned random matrices at a few shapes and block sizes; last-column and block-remainder handling, ilo/ihi sub-ranges, zero columns and complex one-element reflectors are not sampled",
         l("geqr2", "geqrf", "gelq2", "gelqf", "geql2", "geqlf", "gerq2", "gerqf", "householder_qr", "geqrt3", "gelqt", "gehd2", "gehrd", "gebd2", "gebrd", "hetd2", "unghr", "ungbr", "ungtr"),
         [("loop over reflectors", I + "lapack/geqr2.hpp"), ("blocked panel update", I + "lapack/geqrf.hpp"), ("two-sided update", I + "lapack/gehd2.hpp")], "proof",
         NOTE + "geqr2, gelq2, geql2, gerq2, gehd2 and gebd2 are proved against a ghost recursion of reflector applications. larfg's contract is assumed there and decided by bounded evaluation; the blocked drivers, geqrt3, gelqt, the tridiagonal reduction and the unghr/ungbr/ungtr wrappers are decided by the bounded evaluation (stated sizes) only.")

    prop("P13", "Norms equal their definition on exactly the documented entries",
         "For every shape, norm type, uplo and diag, lange, lansy, lanhe, lantr and infnorm_colmajor, infnorm_symmetric_colmajor, infnorm_hermitian_colmajor, infnorm_triangular_colmajor return the largest magnitude, the largest column or row sum, or the Frobenius norm of the matrix that the referenced entries describe (Hermitian diagonals by their real part, unit diagonals as ones), 0 for an empty matrix, and read nothing else. "
         "lassq and nrm2 return the root of the sum of squares, and lapy2 and lapy3 the root of x^2+y^2(+z^2), without overflow or underflow in intermediate steps for inputs of any magnitude. "
         "A NaN in a referenced entry yields NaN, an infinity yields infinity.",
         "all shapes incl. rectangular and empty, all flags, entries anywhere in the exponent range, position of NaN and Inf",
         "tests compare two implementations on random square matrices of moderate size and magnitude; wide/tall triangles, extreme exponents and special values are not sampled",
         l("lange", "lansy", "lanhe", "lantr", "infnorm_colmajor", "infnorm_symmetric_colmajor", "infnorm_hermitian_colmajor", "infnorm_triangular_colmajor", "lassq", "lapy2", "lapy3") + ["blas/nrm2.hpp"],
         [("loop bounds per flag", I + "lapack/lantr.hpp"), ("three accumulators", I + "lapack/lassq.hpp")], "proof",
         NOTE + "Max, One and Inf norms and the column-major variants are proved as: the result is an upper bound of every entry (line sum) and below every such bound. lapy2 and lapy3 are proved in exact arithmetic (the scaled formula squares to the sum of squares). Frobenius norms, lassq, overflow and special values are decided by the bounded evaluation (sizes <= 12, all exponent ranges) only.")
    prop("P14", "NaN and infinity detection finds exactly the entries of the access region",
         "hasnan and hasinf return true if and only if some entry of the selected part of the matrix (any Uplo including Hessenberg and strict variants, or a band), or of the vector, is NaN or infinite; entries outside that part are not read. "
         "iamax (with and without NaN check) returns the first NaN if checked, else the first infinity, else the first index of largest |Re|+|Im|, also when that sum overflows, and 0 for an empty vector.",
         "all shapes, uplo values, bandwidths, positions of special values, complex entries with one bad component",
         "tests place a handful of NaNs in square matrices; rectangular Hessenberg or band corners and values outside the region are not sampled",
         l("hasnan", "hasinf") + ["blas/iamax.hpp"],
         [("region loops", I + "lapack/hasnan.hpp"), ("scaled comparison", I + "blas/iamax.hpp")], "proof",
         NOTE + "hasnan and hasinf are proved for every region with uninterpreted NaN/Inf predicates; iamax is decided by the bounded evaluation (sizes <= 12) only.")

    prop("P15", "Plane rotations: construction, application and sequences",
         "rotg, lartg and rotmg build rotations that map (a, b) to (r, 0) with c^2 + |s|^2 = 1, for entries of any magnitude including 0, without overflow or underflow where r is representable; rot and rotm apply exactly the documented 2x2 transformation to two vectors of any length. "
         "rot_sequence and rot_sequence3 apply the sequence of rotations to the rows or columns of A in the documented order for every side, direction and shape including empty ones, and write nothing else.",
         "all vector lengths and matrix shapes, side/direction, rotation counts and values, scalars of any magnitude",
         "tests apply sequences of random rotations to a few shapes in the middle of the size range; one-rotation, one-column and empty shapes, and extreme or zero a, b are not sampled",
         l("rot_sequence", "rot_sequence3") + ["blas/rotg.hpp", "blas/lartg.hpp", "blas/rot.hpp", "blas/rotm.hpp", "blas/rotmg.hpp"],
         [("order of application", I + "lapack/rot_sequence.hpp"), ("scaled formulas", I + "blas/rotg.hpp")], "proof",
         NOTE + "rotg, rotm, rot and rot_sequence are proved (exact arithmetic). rot_sequence3, rotmg and the absence of overflow are decided by the bounded evaluation only.")
    prop("P16", "Scaling by a ratio and complex division do not overflow on the way",
         "For every shape, storage flag, bandwidth and nonzero cto, cfrom, lascl multiplies exactly the designated entries by cto/cfrom, rscl divides a vector by a scalar, and ladiv divides two complex numbers; the result is the mathematical quotient. "
         "No intermediate step overflows or underflows when the result is representable, and no other entry is touched.",
         "all shapes, lascl flags, bandwidths, scalars anywhere in the exponent range",
         "tests use one or two scale factors on full-size matrices; extreme ratios, band storage corners and empty shapes are not sampled",
         l("lascl", "rscl", "ladiv"),
         [("repeated safe multiplication", I + "lapack/lascl.hpp"), ("component ordering", I + "lapack/ladiv.hpp")], "proof",
         NOTE + "The value of lascl (every flag), rscl and ladiv is proved in exact arithmetic; lascl's loop is proved partially correct (its termination depends on floating-point limits). Absence of overflow and underflow is decided by the bounded evaluation only.")
    prop("P17", "Schur forms, eigenvalues and eigenvectors belong to the input matrix",
         "For every upper Hessenberg matrix and sub-range, lahqr, multishift_qr and qr_iteration return 0 with a real or complex Schur form T and a unitary Z such that the input equals Z T Z^H, with the eigenvalues of T in w, and schur_swap, schur_move and hessenberg_rq reorder or factor by unitary similarity or rotations. "
         "lahqr_eig22, lahqr_schur22, lahqr_shiftcolumn, inv_house3 and lasy2 solve their small problems for entries of any magnitude; trevc and trevc3 return nonzero vectors that satisfy the eigenvector equation for every selection and side. "
         "Nothing outside the documented regions is written.",
         "all orders, ilo/ihi, want flags, shift counts and window sizes, block structures, selections, defective and repeated eigenvalues",
         "tests take random and a few structured matrices at a few orders; small orders of each branch, sub-ranges, selections of single members of pairs and repeated eigenvalues are not sampled",
         l("lahqr", "multishift_qr", "qr_iteration", "lahqr_eig22", "lahqr_schur22", "lahqr_shiftcolumn", "inv_house3", "lasy2", "schur_swap", "schur_move", "hessenberg_rq", "trevc", "trevc3", "aggressive_early_deflation", "multishift_qr_sweep", "move_bulge"),
         [("double-shift sweep", I + "lapack/lahqr.hpp"), ("small-bulge chase", I + "lapack/multishift_qr_sweep.hpp"), ("back substitution", I + "lapack/trevc.hpp")], "proof",
         NOTE + "lahqr_shiftcolumn and lahqr_eig22 are proved in exact arithmetic. Convergence of an iteration is not expressible as a contract here: the iterative drivers, the reordering and the eigenvectors are decided by the bounded evaluation (orders <= 90, residuals) only.")
    prop("P18", "Symmetric eigenvalues and singular values with their vectors",
         "steqr returns ascending eigenvalues of every symmetric tridiagonal matrix and, on request, Z times its eigenvectors, or a positive code when it did not converge; svd_qr and gesvd return nonnegative decreasing singular values and unitary U, Vt with U S Vt equal to the input for every shape, both bidiagonal forms and every selection of vectors. "
         "lae2, laev2, svd22, singularvalues22, laed4, laed5 and laed6 solve their small problems for entries of any magnitude, lasrt sorts and lamrg merges; tkhnv solves the regularized least squares problem with each variant.",
         "all orders and shapes including empty ones, graded, zero and repeated entries, uplo, want flags, scales",
         "tests use random matrices of a few orders; zero and graded diagonals, empty and 1x1 cases, reduced factors and failures to converge are not sampled",
         l("steqr", "svd_qr", "gesvd", "lae2", "laev2", "svd22", "singularvalues22", "laed4", "laed5", "laed6", "lasrt", "lamrg", "tkhnv", "tik_qr", "tik_svd", "tik_bidiag_elden"),
         [("implicit QL sweep", I + "lapack/steqr.hpp"), ("implicit zero-shift QR", I + "lapack/svd_qr.hpp"), ("2x2 formulas", I + "lapack/laev2.hpp")], "proof",
         NOTE + "lae2, laev2 and singularvalues22 are proved in exact arithmetic. The iterative drivers and the remaining kernels are decided by the bounded evaluation (orders <= 24, residuals and Sturm counts) only.")

    prop("P19", "Generalized Schur forms and eigenvalues belong to the input pencil",
         "For every pencil (A,B) and sub-range, gghrd and gghd3 return a Hessenberg-triangular pencil and unitary Q, Z with the input equal to Q (H,T) Z^H; lahqz and multishift_qz return 0 with a generalized Schur form, the eigenvalues of its diagonal blocks in alpha, beta, and the updated Q, Z, including pencils with singular B and infinite eigenvalues; generalized_schur_swap and generalized_schur_move reorder a Schur form by unitary equivalence. "
         "lahqz_eig22, lahqz_schur22 and lahqz_shiftcolumn solve their small problems for entries of any magnitude. "
         "Q, Z and the rows outside the active range are touched only when requested.",
         "all orders, ilo/ihi, want flags, block sizes, shift and window recommenders, block structures, graded and singular B",
         "tests take random pencils of a few orders; infinite eigenvalues, cyclic pencils, scaled B, unwanted factors and tiny active ranges are not sampled",
         l("gghrd", "gghd3", "lahqz", "multishift_qz", "multishift_qz_sweep", "aggressive_early_deflation_generalized", "lahqz_eig22", "lahqz_schur22", "lahqz_shiftcolumn", "inv_house3", "generalized_schur_swap", "generalized_schur_move"),
         [("infinite eigenvalue deflation", I + "lapack/lahqz.hpp"), ("bulge chase", I + "lapack/multishift_qz_sweep.hpp"), ("direct swap", I + "lapack/generalized_schur_swap.hpp")], "proof",
         NOTE + "lahqz_shiftcolumn is proved in exact arithmetic. Convergence of the iteration is not expressible as a contract here: the reductions, iterative drivers and reordering are decided by the bounded evaluation (orders <= 45, residuals) only.")

    prop("P20", "Workspace queries suffice and workspace variants equal the allocating ones",
         "For every shape, flag, option and block size, the _work variant of the factorizations, reductions, reflector applications, generators, inverses and eigenvalue drivers, run with a contiguous workspace of exactly the size that the _worksize query reports, accepts it, touches nothing outside it and returns the same code and results as the variant that allocates. "
         "WorkInfo::minMax describes room for the larger and += room for the sum of two requests, transpose keeps size and contiguity, and a combination with a nonempty contiguous request stays contiguous.",
         "all shapes including empty ones, flags, block sizes, recommenders, workspace layouts and combinations of workspace descriptions",
         "tests mostly call the allocating variants, whose allocation hides a query that is too small for another shape or option",
         ["base/workspace.hpp"] + l("geqr2", "geqrf", "gelqf", "geqlf", "gerqf", "gelqt", "gebd2", "gebrd", "bidiag", "gehd2", "gehrd", "hessenberg", "larf", "larfb", "unmq", "unmq_level2", "householder_q_mul", "ungq", "ungq_level2", "gen_householder_q", "unghr", "unmhr", "ungbr", "getri", "qr_iteration"),
         [("combination of requests", I + "base/workspace.hpp"), ("query of the level-2 application", I + "lapack/unmq_level2.hpp")], "proof",
         NOTE + "The algebra of WorkInfo, the sufficiency of the queries of the level-2 factorizations, reductions, reflector applications and generators, and larf_work are proved. The blocked variants and the drivers are decided by the bounded evaluation (orders <= 34) only.")

    lb = lambda *n: ["legacy_api/blas/%s.hpp" % x for x in n]
    ll = lambda *n: ["legacy_api/lapack/%s.hpp" % x for x in n]
    prop("P21", "The pointer (legacy) interface computes the documented BLAS and LAPACK results",
         "Every routine of tlapack::legacy, called with pointers, leading dimensions and strides, computes what its documentation states for the array those arguments denote: for column- and row-major storage (BLAS), every leading dimension >= the minimal one, every stride sign (a negative stride counts entries from the far end), every flag, shape and scalar. "
         "It writes only the documented output or triangle, never padding between columns, between strided entries or the unreferenced triangle, and does not read unreferenced entries. "
         "The LAPACK half (laset, lacpy, lange, lansy, lanhe, lantr, lascl for full, triangular and Hessenberg matrices, lassq, larnv, larfg, larf, larft, larfb, geqr2, ung2r, unm2r, unmqr, potrf, potrs) honours its size arguments, the number k of reflectors included.",
         "all shapes including empty ones, layouts, leading dimensions, strides of both signs, flags, scalars and contents",
         "the tests call no legacy routine at all; a wrapper that mixes up a layout, a triangle, a stride sign or a size argument is invisible to them",
         lb("asum", "axpy", "copy", "dot", "dotu", "gemm", "gemv", "ger", "geru", "hemm", "hemv", "her", "her2", "her2k", "herk", "iamax", "nrm2", "rot", "rotg", "rotm", "rotmg", "scal", "swap", "symm", "symv", "syr", "syr2", "syr2k", "syrk", "trmm", "trmv", "trsm", "trsv")
         + ll("geqr2", "lacpy", "lange", "lanhe", "lansy", "lantr", "larf", "larfb", "larfg", "larft", "larnv", "lascl", "laset", "lassq", "potrf", "potrs", "ung2r", "unm2r", "unmqr") + ["legacy_api/base/utils.hpp", "LegacyMatrix.hpp", "LegacyVector.hpp", "plugins/legacyArray.hpp"],
         [("row-major rewriting", I + "legacy_api/blas/gemm.hpp"), ("stride dispatch", I + "legacy_api/base/utils.hpp")], "proof",
         NOTE + "Pointers stay pointers: an address is decoded as an entry from its offset polynomial in the leading dimension (assumed >= the number of rows or columns). Proved: all 33 BLAS wrappers except rotg, rotm, rotmg, iamax and nrm2, and laset, lacpy and the max/one/inf norms; the rest is decided by the bounded evaluation (orders <= 70). The band types of legacy lascl are not covered.")
    prop("P22", "Array views denote exactly the entries they name",
         "For LegacyMatrix of either layout with any leading dimension, LegacyVector with any stride and direction, std::vector and Eigen matrices and blocks, every view operation - slice (both forms), rows, cols, row, col, diag with any offset, transpose_view, and views of views - has the documented size, and its entry (i,j) is the very entry of the array that the call names, for const and non-const arrays alike. "
         "reshape splits an array into two parts that hold each of its entries exactly once, has the requested shape, and refuses exactly the sizes it cannot represent. "
         "LegacyBandedMatrix places A(i,j) where its documentation says, Create/CreateStatic return arrays of the requested shape whose entries are distinct and inside the storage, and legacy_matrix/legacy_vector describe the same entries as the array they are given.",
         "all shapes, leading dimensions, strides, directions, layouts, ranges including empty ones, diagonal offsets, and nestings of views",
         "tests use views on well-shaped column-major matrices; backward vectors, row-major diagonals, empty ranges and strided reshapes never occur",
         ["LegacyMatrix.hpp", "LegacyVector.hpp", "LegacyBandedMatrix.hpp", "plugins/legacyArray.hpp", "plugins/stdvector.hpp", "plugins/eigen.hpp"],
         [("pointer arithmetic of slices", I + "plugins/legacyArray.hpp"), ("strides of Eigen blocks", I + "plugins/eigen.hpp")], "proof",
         NOTE + "slice, rows, cols, row, col, diag, transpose_view and nested views of LegacyMatrix and LegacyVector are proved; reshape, std::vector, Eigen, banded matrices, Create and the legacy conversions are decided by the bounded evaluation (orders <= 12).")


def NA(na):
    pass
