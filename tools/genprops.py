#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (single place where the statements live).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

M = ["array_2d_row_real_matrix.go", "block_real_matrix.go", "diagonal_matrix.go", "real_matrix.go"]
V = ["array_real_vector.go", "real_vector.go"]
API = ["exported matrix and vector API (return values, panics, later reads)"]

prop("P01", "Every constructor stores exactly the given entries, independently of its input",
 "A matrix or vector built from caller data (dense, block, diagonal, identity, by factory or by constructor, with any finite, infinite, NaN or signed-zero entries) has the given dimensions and returns exactly the given entry at every in-range position; zero-initialised constructors give all zeros. Constructors documented as copying share no storage with the caller's slices: later writes on either side are not seen by the other. Empty, ragged or non-positive dimensions are refused.",
 ["inputs"], "all entry values (all 64-bit patterns up to NaN payload); shapes including those around the block size 52 and the 4096-cell switch; all row/column counts for the refusal part",
 "tests build a few small literal matrices; block layouts with a partial last block, shapes either side of the dense/block switch and special values are never swept",
 M + V, [("dense copy-in", "array_2d_row_real_matrix.go SetSubMatrix/copyIn"), ("block layout", "block_real_matrix.go toBlocksLayout/NewBlockRealMatrixFromSlices"), ("factory switch", "real_matrix.go NewRealMatrixFromSlices")], API)

prop("P02", "Writing an entry, row, column or submatrix changes exactly the addressed cells",
 "After setting, adding to or multiplying one entry, or setting a row, a column (from a slice, matrix or vector) or a rectangular submatrix of a dense or block matrix, every addressed cell holds exactly the new value (new, old+increment, old*factor) and every other cell holds exactly its old value. This holds whatever matrix or vector representation the source has.",
 ["inputs"], "all positions of the matrix, all entry and source values, shapes up to several blocks",
 "tests set one or two cells of small matrices and rarely look at all the other cells, and almost never at cells in a second block",
 M, [("entry update", "SetEntry/AddToEntry/MultiplyEntry of the three matrix types"), ("row/column update", "SetRow*/SetColumn* of the three matrix types"), ("submatrix update", "SetSubMatrix of the three matrix types")], API)

prop("P03", "Out-of-range indices and mismatched shapes are refused without side effects",
 "Any matrix or vector access, update, extraction or bounded walk whose index lies outside the valid range, whose bounds are reversed, or whose operand has an incompatible shape panics or returns an error, and afterwards the receiver holds exactly the entries it had before; with in-range arguments it never panics. (Writing outside the diagonal of a diagonal matrix is covered by the diagonal-matrix property.)",
 ["inputs"], "every machine integer as row, column, start and end index; every operand shape within the bounds",
 "tests try -1 and n; they do not try every integer, every representation, every operation, nor look for partial writes",
 M + V, [("index checks", "array_2d_row_real_matrix.go checkRowIndex/checkColumnIndex/checkSubMatrixIndex"), ("vector index checks", "array_real_vector.go checkIndex/checkIndices/checkDimensions")], API)

prop("P04", "Extracted rows, columns and submatrices are exact, independent copies",
 "Rows and columns (as slice, matrix or vector), contiguous submatrices, submatrices given by index lists, and submatrices copied into a caller's array contain exactly the addressed entries in order, with the right shape, for every representation. Writing to the extracted object never changes the source and writing to the source never changes the extracted object.",
 ["inputs"], "all entry values, all valid start/end bounds and index lists (with repeats, any order), shapes across block boundaries",
 "the block submatrix copy has four alignment cases per block; tests exercise one or two with literal data",
 M, [("block extraction", "block_real_matrix.go SubMatrix/copyBlockPart"), ("row/column extraction", "RowAt/ColumnAt/RowMatrixAt/ColumnMatrixAt/RowVectorAt/ColumnVectorAt"), ("index-list extraction", "real_matrix.go SubMatrix/CopySubMatrix/CopySubMatrixFromIndices")], API)

prop("P05", "Transpose and copy are exact and independent of the source",
 "The transpose of an m by n matrix is the n by m matrix with entry (j,i) equal to entry (i,j) of the source, and a copy has the same shape and entries, exactly, for every representation and every value including NaN, infinities and signed zeros. Neither shares storage with the source.",
 ["inputs"], "all entry values; shapes around and across the block size", 
 "tests transpose literals, mostly within one block",
 M, [("transpose", "Transpose of the three matrix types"), ("copy", "Copy/Data of the three matrix types")], API)

prop("P06", "Element-wise matrix arithmetic is exact per entry and leaves operands untouched",
 "Sum, difference, scalar sum and scalar product of matrices of equal shape have in every cell exactly the floating-point result of the operation on the corresponding entries, whatever combination of dense, block and diagonal representations is used. The operands keep their entries and the result shares no storage with them.",
 ["inputs"], "all entry values including NaN, infinities and signed zeros; all pairs of representations; shapes across block boundaries",
 "mixed-representation and multi-block code paths are separate code; tests use a few literals per path",
 M, [("element-wise operations", "Add/Subtract/ScalarAdd/ScalarMultiply of the three matrix types"), ("block fast paths", "block_real_matrix.go AddBlockRealMatrix/SubtractBlockRealMatrix")], API)

prop("P07", "Matrix products equal the sum-of-products definition in every representation",
 "Multiplying, pre-multiplying and raising matrices to a power, and applying a matrix to a vector or slice from either side, give in every cell the sum of products of the definition (up to floating-point rounding), for every combination of dense, block and diagonal operands and any vector implementation, including inner and outer dimensions that are not multiples of the block size; an infinity or NaN in a dense or block operand shows in every cell whose sum contains it. Operands are not changed.",
 ["inputs"], "all real entry values; all representation pairs; shapes within one block and across two; exponents 0..7",
 "block multiplication has an unrolled-by-4 inner loop with a remainder loop and partial last blocks; tests compare a few literal products",
 M, [("multiply", "Multiply/MultiplyBlockRealMatrix of the three matrix types"), ("operate", "Operate/OperateVector/PreMultiply/PreMultiplyVector"), ("power", "real_matrix.go Power")], API)

prop("P08", "Walkers visit each addressed entry exactly once, in the documented order",
 "Every walk (row, column, optimized; whole or bounded; preserving or updating) announces the matrix dimensions and bounds, visits each addressed entry exactly once with its own row, column and current value, in strict row or column order for the row and column walks, and returns the visitor's final value. An updating walk stores the returned value in that entry and nothing else changes; a preserving walk changes nothing.",
 ["inputs"], "all entry values and all values returned by the visitor; all valid bounds; shapes across block boundaries",
 "block walkers iterate over blocks, rows and columns with six nested index ranges; tests check totals, not order, coverage and coordinates",
 M + V + ["real_matrix_visitor.go", "real_vector_visitor.go"], [("walkers", "WalkIn* of the three matrix types"), ("vector walkers", "array_real_vector.go WalkIn*")], API)

prop("P09", "Equality is exact entry-wise comparison in every representation",
 "Two matrices compare equal exactly when they have the same dimensions and equal entries, irrespective of which side is dense, block or diagonal, and comparing with a non-matrix is false; two vectors compare equal exactly when they have the same dimension and equal entries, or both contain a NaN. Comparison is reflexive for values without NaN, symmetric, and changes neither operand.",
 ["inputs"], "all entry values for both operands, all positions of a difference, all representation pairs",
 "tests compare a handful of pairs that differ in the first cell or in shape",
 M + V, [("matrix equality", "Equals of the three matrix types"), ("vector equality", "array_real_vector.go Equals")], API)

prop("P10", "A diagonal matrix stays diagonal and behaves as its dense equivalent",
 "Every operation that a diagonal matrix supports gives the result of the same operation on the dense matrix with the same entries, and an operation whose result could not be held in a diagonal matrix is refused; entries off the diagonal always read zero. Storing a nonzero off-diagonal value is refused and leaves the matrix unchanged, storing a zero of either sign (or one smallest subnormal) there is accepted. It is singular exactly when a diagonal entry has magnitude not above the threshold, then inversion is refused, and otherwise its inverse holds the exact reciprocals.",
 ["inputs"], "all diagonal values, all written values and positions, all thresholds",
 "the guard compares bit patterns of floats; tests use a few literals and no negative zero or tiny values",
 ["diagonal_matrix.go", "utils.go"], [("off-diagonal guard", "diagonal_matrix.go SetEntry/AddToEntry/ensureZero"), ("inverse", "diagonal_matrix.go Inverse/InverseThreshold/IsSingular"), ("diagonal product", "diagonal_matrix.go Multiply*/Operate*")], API)

prop("P11", "Vector arithmetic, concatenation and sub-vector operations are exact per entry",
 "Sum, difference, element-wise product and quotient, scalar maps, function maps and linear combination of vectors give in each entry exactly the floating-point result of the operation; appending and concatenation keep all entries in order; sub-vector reads and writes touch exactly the addressed range; iteration yields each index and value once in order, in entries that keep them while it goes on. Operations documented to return a new vector leave the operands unchanged and share no storage with them, for any vector implementation as operand.",
 ["inputs"], "all entry values including NaN, infinities and signed zeros; all dimensions up to the bound; all ranges",
 "tests use fixed three- to seven-element vectors and only the library's own vector type",
 V, [("vector arithmetic", "array_real_vector.go Add/Subtract/EBE*/Map*/Combine"), ("concatenation", "array_real_vector.go Append/AppendVector/NewArrayRealVectorFromTwo*"), ("sub-vectors", "array_real_vector.go SubVector/SetSubVector")], API)

prop("P12", "Vector norms, distances, extrema and projections match their definitions",
 "Euclidean, sum and maximum norms and distances, inner product and cosine equal their mathematical definitions (up to rounding), and the minimum/maximum index designates an entry that no non-NaN entry beats. Unit vectors have norm one and the argument's direction, and the projection of one vector onto another is parallel to the second with the residual orthogonal to it; neither function changes its arguments, and a zero vector is refused where a direction is needed.",
 ["inputs"], "all real vectors up to the bound on dimension",
 "tests evaluate a few literals; wrong handling of signs, ties, NaN or argument mutation shows only on other values",
 ["real_vector.go", "array_real_vector.go"], [("norms and distances", "real_vector.go Vec*"), ("extrema", "real_vector.go MinIndex/MaxIndex"), ("projection", "real_vector.go Projection/UnitVector")], API)

prop("P13", "LU decomposition factors the row-permuted matrix and gives its determinant",
 "For every square matrix that is not reported singular, L is unit lower triangular, U upper triangular, P a permutation matrix agreeing with the pivot array, and P*A = L*U (up to rounding), with every multiplier in L at most one in magnitude; the determinant equals the determinant of A. A matrix is reported singular when some pivot column has no candidate at or above the threshold, in which case the determinant is reported zero, no factors are given and solving is refused; it is not reported singular otherwise.",
 ["inputs"], "all real matrices of the bounded sizes, every pivoting pattern, including rank-deficient ones",
 "each pivoting pattern is a different path; tests use a few literal matrices, whose pivots all go the same way",
 ["lu_decomposition.go"], [("Crout elimination with partial pivoting", "lu_decomposition.go NewLUDecompositionWithThreshold"), ("factors", "lu_decomposition.go L/U/P/Pivot/Determinant")], API)

prop("P14", "LU solve and inverse satisfy A*X = B for every right-hand side",
 "For every non-singular matrix the LU solver returns for a vector (any implementation) or matrix right-hand side (any representation) the X with A*X = B, up to rounding, and its inverse times A is the identity. A right-hand side of the wrong dimension, or a singular matrix, is refused with an error.",
 ["inputs"], "all real right-hand sides for every real matrix of the bounded sizes and pivoting pattern",
 "a wrong permutation or substitution index only shows for particular pivot orders",
 ["lu_decomposition.go", "decomposition_solver.go"], [("substitution", "lu_decomposition.go SolveVector/SolveMatrix/Inverse")], API)

prop("P15", "Cholesky factors exactly the symmetric positive definite matrices",
 "For a symmetric positive definite matrix the decomposition gives a lower triangular L with positive diagonal, LT its transpose, L*LT = A, the determinant of A, and a solver and inverse with A*X = B, up to rounding. A matrix that is not square, not symmetric within the relative tolerance, or has a pivot at or below the positivity threshold is refused with the matching error status, and no symmetric positive definite matrix with pivots above the threshold is refused.",
 ["inputs"], "all real symmetric matrices of the bounded sizes (both outcomes), all right-hand sides",
 "acceptance and refusal partition the input space along a curved boundary; tests sample two or three points of it",
 ["cholesky_decomposition.go"], [("factorisation and tests", "cholesky_decomposition.go NewCholeskyDecompositionWithThreshold"), ("solver", "cholesky_decomposition.go SolveVector/SolveMatrix/Inverse/Determinant")], API)

prop("P16", "Rectangular Cholesky root reproduces a semidefinite matrix and its rank",
 "For a symmetric positive semidefinite matrix the rectangular root B has as many columns as the reported rank and B*BT = A within the drop-off threshold, and the rank equals that of A. A matrix with no diagonal entry above the threshold, or whose remaining diagonal holds an entry below minus the threshold when no entry above it is left, is refused as not positive semidefinite.",
 ["inputs"], "all real positive semidefinite matrices of the bounded sizes, of every rank and pivot order",
 "the pivot permutation and the early exit on rank deficiency are separate paths; tests use one 5x5 full rank matrix and two 4x4 samples",
 ["rectangular_cholesky_decomposition.go"], [("pivoted Cholesky", "rectangular_cholesky_decomposition.go NewRectangularCholeskyDecomposition*")], API)

prop("P17", "QR decomposition gives orthogonal Q and upper triangular R with Q*R = A",
 "For every matrix of any shape (tall, wide or square, full rank or not) R is upper triangular (trapezoidal), Q is square and orthogonal, QT is its transpose and Q*R = A, up to rounding (while sums of squares of entries stay within the floating-point range). H is the lower trapezoidal matrix of the scaled vectors of the reflections whose product is Q, with a zero column where none was needed.",
 ["inputs"], "all real matrices of the bounded shapes, including zero and dependent columns and both signs of every pivot",
 "sign choices, zero sub-columns and rectangular shapes are distinct paths; tests use six literals",
 ["qr_decomposition.go"], [("Householder reflections", "qr_decomposition.go decompose/performHouseholderReflection"), ("factors", "qr_decomposition.go Q/QT/R/H")], API)

prop("P18", "QR solver returns the exact or least-squares solution for every right-hand side",
 "For a matrix with full column rank the QR solver returns, for a vector or a matrix right-hand side with any number of columns, the X minimising the residual: AT*(A*X - B) = 0, hence A*X = B when A is square, up to rounding; for a wide matrix accepted as non-singular it returns a solution of A*X = B (sums of squares of the entries staying within the floating-point range). A right-hand side with the wrong number of rows is refused, and a matrix whose R has a diagonal entry not above the threshold is reported singular and refused.",
 ["inputs"], "all real right-hand sides (more columns than one block included), all real matrices of the bounded shapes",
 "the matrix solver works block-column by block-column; tests use a few small right-hand sides",
 ["qr_decomposition.go", "decomposition_solver.go"], [("solver", "qr_decomposition.go SolveVector/SolveMatrix/Inverse/IsNonSingular")], API)

prop("P19", "Rank-revealing QR gives Q*R = A*P, its solver works and its rank is right",
 "For every matrix Q is orthogonal, R is upper triangular with diagonal magnitudes that do not increase, P is a permutation and Q*R = A*P, up to rounding (while sums of squares of entries stay within the floating-point range); for a nonzero matrix the reported rank is the number of independent columns when the drop threshold separates them. The solver returns the X with A*X = B for square non-singular A and the least-squares X for tall full-column-rank A, for every vector and matrix right-hand side.",
 ["inputs"], "all real matrices of the bounded shapes and every pivoting order, all right-hand sides",
 "column exchanges follow remaining column norms, each order is a path; tests use literals",
 ["rrqr_decomposition.go", "qr_decomposition.go"], [("column pivoting", "rrqr_decomposition.go performHouseholderReflection"), ("rank", "rrqr_decomposition.go Rank"), ("solver", "rrqr_decomposition.go SolveVector/SolveMatrix")], API)

prop("P20", "Tridiagonal and Hessenberg reductions are orthogonal similarity transforms",
 "The tridiagonal reduction of a symmetric matrix gives an orthogonal Q and a symmetric tridiagonal T with Q*T*QT = A, and the Hessenberg reduction of a square matrix gives an orthogonal P and an upper Hessenberg H with P*H*PT = A, up to rounding (while sums of squares of entries stay within the floating-point range).",
 ["inputs"], "all real symmetric, respectively square, matrices of the bounded sizes, including ones with zero sub-columns",
 "zero sub-columns, sign choices and scaling are separate paths",
 ["eigen_decomposition.go", "tridiagonal_transformer.go", "hessenberg_transformer.go"], [("tridiagonal", "tridiagonal_transformer.go transform"), ("Hessenberg", "hessenberg_transformer.go transform")], API)

prop("P21", "Bidiagonal reduction gives orthogonal U and V with U*B*VT = A",
 "For every matrix, tall, wide or square, the bidiagonal reduction gives U and V orthogonal and B with nonzero entries only on the main diagonal and on the neighbouring one (upper when there are at least as many rows as columns, lower otherwise), of the shape of the input, with U*B*VT = A, up to rounding (while sums of squares of entries stay within the floating-point range).",
 ["inputs"], "all real matrices of the bounded shapes, including ones with zero rows, columns or sub-columns",
 "upper and lower reductions are separate code and each has zero-norm shortcuts; tests use three literals",
 ["bidiagonal_transformer.go", "singular_value_decomposition.go"], [("upper/lower reduction", "bidiagonal_transformer.go transformToUpperBiDiagonal/transformToLowerBiDiagonal"), ("factors", "bidiagonal_transformer.go U/B/V")], API)

prop("P22", "Schur form is an orthogonal similarity to a quasi-upper-triangular matrix",
 "For every square matrix the Schur decomposition gives an orthogonal P and a T with P*T*PT = A, up to rounding (while sums of squares of entries stay within the floating-point range), where T is zero below the first subdiagonal, no two neighbouring subdiagonal entries are nonzero, and every 2 by 2 diagonal block with a nonzero subdiagonal has complex eigenvalues.",
 ["inputs"], "all real 2 by 2 matrices; parametrised families of larger ones with real, complex, repeated and mixed spectra",
 "shifts, deflation and double-step paths depend on the values; tests use five literals",
 ["schur_transformer.go", "hessenberg_transformer.go", "eigen_decomposition.go"], [("implicit double shift", "schur_transformer.go transform/computeShift/initQRStep/performDoubleQRStep")], API)

prop("P23", "Symmetric eigendecomposition gives sorted values and orthonormal vectors",
 "For every symmetric matrix, or main and secondary diagonals of a tridiagonal one, the eigendecomposition gives real eigenvalues in decreasing order, orthonormal eigenvectors, VT the transpose of V, D diagonal with these eigenvalues, V*D*VT = A up to rounding (while sums of squares of entries stay within the floating-point range), each reported eigenvector belonging to the eigenvalue of the same index, and no complex eigenvalues.",
 ["inputs"], "all symmetric 2 by 2 matrices and parametrised families of larger ones, including repeated, zero and negative eigenvalues",
 "the sorting, deflation and vector accumulation depend on the spectrum; tests use literals",
 ["eigen_decomposition.go", "tridiagonal_transformer.go"], [("QL iteration and sorting", "eigen_decomposition.go findEigenVectors"), ("accessors", "eigen_decomposition.go V/D/VT/EigenvectorAt")], API)

prop("P24", "Eigen-based determinant, square root and solver agree with the matrix",
 "The determinant reported by an eigendecomposition equals that of the matrix; for a symmetric positive definite matrix the square root S is symmetric positive definite with S*S = A, and it is refused when some eigenvalue is not positive. For a symmetric non-singular matrix the solver returns the X with A*X = B for every vector or matrix right-hand side and its inverse times A is the identity, up to rounding (while sums of squares of entries stay within the floating-point range); a singular matrix and a right-hand side of the wrong dimension are refused.",
 ["inputs"], "all symmetric 2 by 2 matrices and parametrised families of larger ones; all right-hand sides",
 "tests use one or two literals",
 ["eigen_decomposition.go"], [("determinant and root", "eigen_decomposition.go Determinant/SquareRoot"), ("solver", "eigen_decomposition.go eigenDecompositionSolver")], API)

prop("P25", "General eigendecomposition satisfies A*V = V*D with the right spectrum",
 "For a square non-symmetric matrix of norm above 1e-12 the real and imaginary eigenvalues are those of the matrix, complex ones come in conjugate pairs, D is block diagonal with the corresponding 1 by 1 and 2 by 2 blocks, A*V = V*D up to rounding (while sums of squares of entries stay within the floating-point range) relative to the norms of A and V, and the columns of V are nonzero; complex eigenvalues are reported exactly when some imaginary part exceeds 1e-12 in magnitude.",
 ["inputs"], "all real 2 by 2 matrices; parametrised families of larger ones with real, complex and mixed spectra",
 "back-substitution has separate code for real and complex pairs with several special cases; tests use few literals",
 ["eigen_decomposition.go", "schur_transformer.go"], [("spectrum", "eigen_decomposition.go transformToSchur"), ("back-substitution", "eigen_decomposition.go findEigenVectorsFromSchur")], API)

prop("P26", "SVD gives orthonormal factors, sorted values and U*S*VT = A",
 "For every matrix, tall, wide or square, the singular values are non-negative and in decreasing order, S is diagonal with these values, U and V have orthonormal columns, UT and VT are their transposes and U*S*VT = A, up to rounding (while sums of squares of entries stay within the floating-point range).",
 ["inputs"], "all real matrices of the smallest shapes and parametrised families of larger ones, including rank-deficient, repeated and negative cases",
 "the iteration has four cases plus convergence sorting; which one runs depends on the values; tests use a few literals",
 ["singular_value_decomposition.go"], [("Golub-Kahan iteration", "singular_value_decomposition.go NewSingularValueDecomposition"), ("accessors", "singular_value_decomposition.go U/S/V/UT/VT/SingularValues")], API)

prop("P27", "SVD-derived rank, norms, covariance and solver match their definitions",
 "Norm is the largest singular value, the condition number is the largest over the smallest and its inverse the converse, the rank counts the singular values above the tolerance, and the covariance is V*diag(1/s^2)*VT over the singular values not below the given bound, refused when there is none. The solver returns the minimum-norm least-squares solution and its inverse is the pseudo-inverse, for every vector or matrix right-hand side and any shape or rank; it reports non-singular exactly when the matrix is square of full rank.",
 ["inputs"], "all right-hand sides; matrices of the smallest shapes and parametrised families of larger ones, rank-deficient ones included",
 "tests use a few literals of full rank",
 ["singular_value_decomposition.go"], [("derived quantities", "singular_value_decomposition.go Norm/ConditionNumber/InverseConditionNumber/Rank/Covariance"), ("solver", "singular_value_decomposition.go svDecompositionSolver")], API)

prop("P28", "Refusals carry the documented error status and matching details",
 "When a matrix, vector, constructor, decomposition or solver call is refused for an out-of-range index, reversed bounds, mismatched vector or matrix dimensions, a non-square, non-symmetric, not positive definite or singular matrix, missing data, a non-positive dimension, a negative exponent or a zero norm, what is returned or panicked with is an error value of the library whose status names that cause, one of the causes that actually apply when there are several. Where it carries details (index and bounds, the two dimensions, the offending number and its limit) they are those of the refused call.",
 ["inputs"], "every refused machine-integer index and operand shape within the bounds",
 "tests only check that something panicked",
 ["error.go"] + M + V, [("statuses", "error.go Status methods"), ("details", "error.go constructors")], API)

prop("P29", "Decompositions and queries change neither their input nor earlier results",
 "Computing a decomposition, solving with it and every operation documented as returning a new object leave the matrix, right-hand side and vector arguments exactly as they were; later changes to the decomposed matrix or to a right-hand side do not change the decomposition, its factors or an earlier solution. Calling an accessor or solver twice gives the same values, also after the caller changed an array or vector documented as a copy, the array of pivots of an LU decomposition, or a solution returned earlier. (Factor matrices and the pseudo-inverse of the SVD solver are cached objects, shared with the caller, which must not be written.)",
 ["inputs", "histories"], "all entries of the argument (within each path), every decomposition and accessor",
 "tests rebuild their inputs and read each factor once",
 ["lu_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "cholesky_decomposition.go", "eigen_decomposition.go", "singular_value_decomposition.go", "schur_transformer.go", "hessenberg_transformer.go", "tridiagonal_transformer.go", "bidiagonal_transformer.go"], [("working copies", "constructors of the decompositions"), ("cached factors", "accessors of the decompositions")], API)

prop("P30", "Trace, matrix norms, shape test and outer product match their definitions",
 "The trace is the sum of the diagonal and is refused for a non-square matrix, the Frobenius norm is the root of the sum of squares, the maximum-column-sum norm is the largest sum of magnitudes over a column, the square test is true exactly for equal dimensions, and the outer product of two vectors has entry (i,j) equal to the product of their entries, for every representation and up to rounding.",
 ["inputs"], "all real entries; shapes within one block and across two",
 "tests evaluate one literal matrix per function, inside one block",
 ["real_matrix.go"] + M[:3], [("scalar functions", "real_matrix.go MatLInfNorm/MatFrobeniusNorm/IsSquare/OuterProduct; Trace of the matrix types")], API)

prop("P31", "All linear solvers agree with one another on the same system",
 "For a square system whose matrix each decomposition accepts as non-singular, the LU, QR, rank-revealing QR, SVD and, where applicable, Cholesky and eigen solvers give the same solution for every right-hand side, vector or matrix, up to rounding (sums of squares of the entries staying within the floating-point range). They also give the same verdict on singularity for well-conditioned matrices and for matrices with a zero column. The eigen solver is compared for symmetric matrices only, the Cholesky one for positive definite ones.",
 ["inputs"], "all right-hand sides; all real matrices of the smallest sizes and families of larger ones",
 "each solver has its own test literals; agreement is never tested",
 ["lu_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "cholesky_decomposition.go", "eigen_decomposition.go", "singular_value_decomposition.go"], [("solvers", "Solver() of the decompositions")], API)

prop("P32", "Every decomposition ends for every matrix, with a result or a library error",
 "Computing any decomposition of any matrix, whatever its shape and entries (NaN, infinite, overflowing, subnormal and zero ones included), comes to an end within the iteration limit it states: it either gives a result, whose factors, rank, determinant and solver can then be asked for, or it is refused (returned or panicked) with an error value of the library, such as the one for too many iterations. It never runs for ever and never fails with an index out of range, a nil dereference or another run-time error; likewise for reading the factors, asking the solver whether the matrix is singular, and solving.",
 ["inputs"], "one or two entries of any kind at any position in matrices of the smallest sizes; the others any float64 where the algorithm does not iterate on them",
 "tests use finite literals, for which the iterations converge and every comparison has one of two outcomes; with NaN both < and > fail",
 ["singular_value_decomposition.go", "schur_transformer.go", "eigen_decomposition.go", "rrqr_decomposition.go", "qr_decomposition.go", "lu_decomposition.go", "cholesky_decomposition.go", "rectangular_cholesky_decomposition.go", "tridiagonal_transformer.go", "hessenberg_transformer.go", "bidiagonal_transformer.go"], [("iteration limits and comparisons that hold for NaN", "singular_value_decomposition.go NewSingularValueDecomposition; schur_transformer.go transform; eigen_decomposition.go findEigenVectors"), ("pivot searches", "rrqr_decomposition.go; lu_decomposition.go; rectangular_cholesky_decomposition.go")], API)

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
