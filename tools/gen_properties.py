#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the wording has one source)."""
import json, os
P = []
MAT = ["array_2d_row_real_matrix.go", "block_real_matrix.go", "diagonal_matrix.go", "real_matrix.go"]
VEC = ["array_real_vector.go", "real_vector.go"]
def p(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "A matrix behaves as a plain table under any history of mutations",
  "For every matrix representation, after any sequence of entry, row, column, submatrix and in-place visitor updates, every way of reading the matrix reports exactly the table obtained by applying the same updates to a plain two-dimensional array. Each update changes exactly the addressed cells, and the matrix keeps its dimensions.",
  ["histories", "inputs"], "all sequences of mutators, all shapes (also across storage-block boundaries), all stored values including NaN, infinities and negative zero",
  "The tests apply single mutators to a handful of fixed shapes; composition of mutators, and every position relative to block boundaries, is never enumerated.",
  MAT, [("block addressing iBlock/jBlock/blockWidth", "block_real_matrix.go SetEntry, SetSubMatrix, SetRow, SetColumn"), ("slice copies per row", "array_2d_row_real_matrix.go SetRow, SetSubMatrix")],
  ["At", "Data", "RowAt/ColumnAt", "walks"])
p("C02", "Extraction returns exactly the addressed part, for every shape and position",
  "Rows, columns, submatrices (by range or by index selection), transposes, copies and whole-table dumps contain exactly the addressed entries in the right order with the right dimensions, for every matrix representation, every shape and every valid position. The source is left unchanged.",
  ["inputs"], "all representations, shapes around and across storage-block boundaries, all valid ranges/index selections, all stored values",
  "The tests extract a few rectangles from a few fixed sizes; the corner combinations of source and destination blocks are not enumerated.",
  MAT, [("piecewise block copy", "block_real_matrix.go SubMatrix, copyBlockPart, Transpose, RowMatrixAt, ColumnMatrixAt"), ("index-selected copy", "real_matrix.go SubMatrix, CopySubMatrix, CopySubMatrixFromIndices")],
  ["SubMatrix", "RowAt", "ColumnAt", "RowMatrixAt", "ColumnMatrixAt", "RowVectorAt", "ColumnVectorAt", "Transpose", "Copy", "Data"])
p("C03", "Matrix arithmetic is right for every pairing of representations",
  "Sums, differences, scalar operations, products (matrix by matrix on either side, matrix by vector on either side, outer products) and non-negative powers, up to the largest exponent and with a number of products logarithmic in it, have exactly the mathematical value whenever all intermediate values are exactly representable, for every combination of operand representations and every compatible shape; infinite and not-a-number entries of non-diagonal operands take effect by the usual floating point rules. In particular the result never depends on how the operands are stored.",
  ["inputs", "configurations"], "all pairs of matrix/vector representations (including caller-supplied ones), all compatible shapes around storage-block boundaries, integer-valued contents",
  "Each representation has specialised fast paths per operand type; the tests try few pairings and few sizes.",
  MAT, [("type-switched fast paths", "Add/Subtract/Multiply/Operate*/PreMultiply* of each representation"), ("binary powering", "real_matrix.go Power")],
  ["Add", "Subtract", "ScalarAdd", "ScalarMultiply", "Multiply", "PreMultiplyMatrix", "Operate", "PreMultiply", "OuterProduct", "Power"])
p("C04", "Invalid matrix accesses are rejected cleanly and valid ones never are",
  "A matrix operation whose index, range, selection, data shape or operand dimension is invalid is rejected (by a returned error or a panic carrying the library's error type) and leaves the receiver and all arguments unchanged. An operation whose arguments are valid is never rejected.",
  ["inputs"], "all operations, all argument tuples over every shape, with indexes ranging from below zero to beyond the dimension, inverted ranges, empty and ragged data, mismatched operands",
  "The tests probe a few out-of-range values per method on one shape; combinations, and absence of partial effects, are not covered.",
  MAT + ["error.go"], [("argument checks before the first write", "check*Index, check*Compatible helpers in array_2d_row_real_matrix.go")],
  ["every exported matrix operation"])
p("C05", "Matrix walks visit exactly the requested cells in the promised order",
  "A matrix walk announces the matrix dimensions and the requested bounds once, then visits every cell of the requested region exactly once with its current value (in row order or column order when so requested), then finishes once and returns what the visitor returned. An updating walk stores exactly what the visitor returned for each visited cell and touches nothing else. A walk started from within a visit of another one keeps the same promises.",
  ["inputs", "histories"], "all representations, shapes, regions, the eight walk flavours in bounded and unbounded form, and all visitor behaviours, including visitors that walk the same matrix themselves",
  "Tests use a couple of visitors over fixed matrices; block-clipped regions have many boundary cases.",
  MAT + ["real_matrix_visitor.go"], [("block-clipped nested loops", "block_real_matrix.go WalkIn*"), ("row/column loops", "array_2d_row_real_matrix.go, diagonal_matrix.go WalkIn*")],
  ["visitor call sequence", "matrix contents afterwards"])
p("C06", "Copies and results share no storage, except where sharing is promised",
  "Mutating a matrix, vector, slice or result after an operation never changes any other matrix, vector, slice or result, in either direction: copies, extracted parts, dumped arrays, arithmetic results and objects built from caller data are independent. The only exceptions are the documented by-reference constructors and reference accessors, and these really do share.",
  ["histories"], "every operation that creates an object from others, every later mutation of either side, in every order",
  "Tests check values right after an operation and hardly ever mutate one side afterwards and re-read the other.",
  MAT + VEC, [("defensive copies", "Copy, Data, ToArray, copyIn/copyOut, constructors' copyArray flag"), ("documented sharing", "DataRef, copyArray=false, AsDiagonal-style constructors")],
  ["contents of every live object after every mutation"])
p("C07", "Operations that are not mutators leave receiver and arguments untouched",
  "Queries, arithmetic, norms, distances, comparisons, decompositions and solves leave their receiver and all their arguments (matrices, vectors and slices) bit for bit unchanged. Repeating the same call gives the same answer.",
  ["inputs", "histories"], "every non-mutating operation, on every representation, on all argument values of a bounded domain, and repeated in any order",
  "Tests look at results, hardly at operands after the call, and rarely call twice.",
  MAT + VEC + ["decomposition_solver.go", "lu_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go"],
  [("working copies", "Data()/ToArray()/Copy() before in-place algorithms")], ["operand contents before and after each call"])
p("C08", "Concurrent reads and computations on shared objects are safe",
  "Goroutines that concurrently apply non-mutating operations to the same matrices, vectors and already-read decompositions get, in every interleaving, the results they would get alone, without data races.",
  ["schedules"], "all interleavings (up to a preemption bound) of pairs of non-mutating operations over shared operands, and all operation pairs under the race detector",
  "The test suite is purely sequential.",
  MAT + VEC, [("no hidden mutable state in read paths", "matrix, vector and solver query methods")], ["results per goroutine", "race reports"])
p("C09", "A vector behaves as a plain array under any history of operations",
  "After any sequence of vector updates (entry, range, whole-vector, map, scalar, combination, copy-in, visitor) every way of reading the vector agrees with the same updates applied to a plain array, also when an operand is a view of the receiver's own storage that is copied in. Vectors produced by appending, slicing, element-wise arithmetic or copying contain exactly the mathematically expected entries, for both built-in and caller-supplied operand vectors.",
  ["histories", "inputs"], "all sequences of vector operations, all lengths and positions, all operand kinds",
  "Tests apply each operation once to one or two fixed vectors, nearly always of the built-in kind.",
  VEC, [("per-operand-kind fast paths", "array_real_vector.go Add/Subtract/EBE*/SetSubVector/AppendVector/Combine")], ["At", "ToArray", "Iterator", "walks"])
p("C10", "Vector norms, distances, products, projection and extrema are right",
  "Dot product, L1/L2/Linf norms and distances, cosine, projection, unit vector and minimum/maximum value and index agree with their mathematical definitions for every vector (index results identify an entry holding the extreme value, NaN entries aside), independent of how the vectors are implemented. Undefined cases (zero vectors for cosine, projection and normalisation, unequal lengths) are rejected.",
  ["inputs"], "all vectors and vector pairs over bounded lengths and alphabets, both vector implementations",
  "Tests evaluate each metric on one or two vectors.",
  VEC, [("metric loops", "real_vector.go VecNorm..VecLInfDistance, MinIndex, MaxIndex, Projection, UnitVector")], ["returned scalar or vector"])
p("C11", "Vector walks and iteration visit exactly the requested entries in order",
  "A vector walk announces length and bounds once, visits exactly the requested entries in increasing order (any order for optimised walks) with their current values, then finishes once and returns the visitor's result; an updating walk stores exactly the returned values. Iteration yields every entry once in index order with its current value and then ends, and an entry once yielded stays what it was; invalid bounds are rejected before any visit.",
  ["inputs", "histories"], "all lengths, all bounds (valid and invalid), all eight walk flavours, mutation between iterator steps, interleaved iterators and walks started within walks",
  "Tests walk two fixed vectors.",
  VEC + ["real_vector_visitor.go"], [("bounded loops", "array_real_vector.go WalkIn*"), ("index cursor", "real_vector.go entryIteratorImpl")], ["visitor call sequence", "vector contents"])
p("C12", "Equality holds exactly when dimensions and entries agree, however stored",
  "Two matrices (or two vectors) compare equal exactly when they have the same dimensions and equal entries, independent of their representations and of the side on which the comparison is asked; comparing with anything else reports false. A vector containing NaN equals another vector exactly when both contain a NaN and have the same length.",
  ["inputs"], "all pairs of contents over a small alphabet including signed zeros and near-equal values, all pairs of representations and shapes",
  "Tests compare a few fixed objects, mostly of the same representation.",
  MAT + VEC, [("entrywise comparison", "Equals of each representation")], ["Equals"])
p("C13", "A diagonal matrix always stays diagonal, and its inverse is right",
  "Whatever sequence of operations is applied, the off-diagonal entries of a diagonal matrix read as zero: writing a zero of either sign off the diagonal is accepted without effect and writing a clearly non-zero value there is rejected and leaves it zero. The inverse of a non-singular diagonal matrix is the diagonal matrix of reciprocals, it is rejected exactly when some diagonal entry is zero within the given threshold, and the singularity query agrees.",
  ["histories", "inputs"], "all update sequences with zero and non-zero values on and off the diagonal, all threshold/entry combinations of a bounded alphabet",
  "Tests set a couple of entries; signed zeros, mixed accept/reject sequences and thresholds at the boundary are not enumerated.",
  ["diagonal_matrix.go", "utils.go"], [("off-diagonal guard", "diagonal_matrix.go ensureZero"), ("ULP comparison", "utils.go equalsWithULP"), ("threshold test", "diagonal_matrix.go IsSingular, InverseWithThreshold")], ["At", "Data", "Inverse", "IsSingular"])
p("C14", "Matrix norms and trace match their definitions for every storage",
  "The trace, the Frobenius norm and the maximum absolute column-sum norm of a matrix equal their definitions for every shape and representation. The trace of a non-square matrix is rejected.",
  ["inputs"], "all representations, shapes around block boundaries, integer contents",
  "Tests compute each on two or three small matrices.",
  MAT, [("visitor accumulation", "real_matrix.go normPreservingVisitorImpl, frobeniusNormPreservingVisitorImpl"), ("diagonal sums", "Trace of each representation")], ["MatLInfNorm", "MatFrobeniusNorm", "Trace"])
p("C15", "LU: permuted input equals L times U, with right determinant and singularity",
  "For every non-singular square matrix the LU decomposition yields a permutation matrix matching the pivot list, a unit lower triangular and an upper triangular factor whose product is the permuted matrix, with partial pivoting (no multiplier above one in magnitude), and the determinant is that of the matrix. A singular matrix (some pivot below the given threshold) is reported singular, has determinant zero, offers no factors and refuses to solve.",
  ["inputs"], "all square integer matrices of bounded order and entry size, scaled variants, thresholds around the pivots, larger structured matrices",
  "Tests decompose three fixed matrices.",
  ["lu_decomposition.go"], [("row pivoting and parity", "lu_decomposition.go NewLUDecompositionWithThreshold"), ("factor extraction", "lu_decomposition.go L, U, P")], ["L", "U", "P", "Pivot", "Determinant", "Solver.IsNonSingular"])
p("C16", "Cholesky accepts exactly symmetric positive definite input and factors it",
  "A symmetric positive definite matrix is accepted and factored as a lower triangular matrix with positive diagonal times its transpose, with the right determinant. A non-square, non-symmetric (beyond the given relative threshold) or not positive definite (some pivot at or below the given absolute threshold) matrix is rejected with the corresponding error.",
  ["inputs"], "all symmetric and near-symmetric integer matrices of bounded order, thresholds on both sides of the decision",
  "Tests factor one matrix and reject three.",
  ["cholesky_decomposition.go"], [("symmetry and positivity checks", "cholesky_decomposition.go NewCholeskyDecomposition")], ["L", "LT", "Determinant", "returned error"])
p("C17", "Rectangular Cholesky reproduces every positive semidefinite matrix",
  "For every non-zero symmetric positive semidefinite matrix the rectangular Cholesky root has as many rows as the matrix and as many columns as its rank, and the root times its transpose reproduces the matrix within the given threshold. A matrix with a diagonal entry that is clearly negative is rejected.",
  ["inputs"], "all integer Gram matrices of bounded order and rank (including permuted and rank-deficient ones), bounded symmetric indefinite matrices, several thresholds",
  "Tests use three fixed matrices.",
  ["rectangular_cholesky_decomposition.go"], [("diagonal pivoting with index permutation", "rectangular_cholesky_decomposition.go NewRectangularCholeskyDecompositionWithThreshold")], ["RootMatrix", "Rank", "returned error"])
p("C18", "QR: orthogonal Q, upper-trapezoidal R, and Q times R is the input",
  "For every matrix of any shape (entries whose squares neither overflow nor underflow) the QR decomposition yields a square orthogonal factor (with its transpose consistent), an upper trapezoidal factor of the input's shape and a lower trapezoidal matrix of Householder vectors, and the product of the two factors is the input up to rounding.",
  ["inputs"], "all integer matrices of bounded shape (square, tall, wide, rank deficient), scaled variants, shapes past the storage threshold",
  "Tests decompose a few fixed or random full-rank matrices.",
  ["qr_decomposition.go"], [("Householder reflections on transposed storage", "qr_decomposition.go performHouseholderReflection, QT, R, H")], ["Q", "QT", "R", "H"])
p("C19", "Rank-revealing QR: pivoted factorisation and numerical rank are right",
  "For every matrix (entries whose squares neither overflow nor underflow) the rank-revealing QR yields an orthogonal factor, an upper trapezoidal factor with non-increasing diagonal magnitudes and a permutation such that the permuted input equals their product. The reported rank is the matrix rank whenever the drop threshold separates the non-zero part from rounding noise; in general it is where the norms of the trailing blocks of the triangular factor first fall, relative to the one before, below the threshold.",
  ["inputs"], "all integer matrices of bounded shape and every rank, thresholds well inside the gap",
  "Tests use four fixed matrices and one rank query.",
  ["rrqr_decomposition.go", "qr_decomposition.go"], [("column pivoting", "rrqr_decomposition.go performHouseholderReflection, P"), ("norm-drop rank", "rrqr_decomposition.go Rank")], ["Q", "R", "P", "Rank"])
p("C20", "SVD: orthonormal factors, ordered singular values, right rank and norms",
  "For every matrix of any shape and scale the singular value decomposition yields column-orthonormal factors and non-negative, non-increasing singular values (the square roots of the eigenvalues of the Gram matrix) whose product is the input up to rounding; norm, condition numbers and covariance follow from them. The reported rank is the true rank when the non-zero singular values are well above rounding level; the level is max(rows, columns) units in the last place of the largest singular value.",
  ["inputs"], "all integer matrices of bounded shape and every rank, scalings over many orders of magnitude, larger structured shapes",
  "Tests decompose a few well-conditioned fixed matrices.",
  ["singular_value_decomposition.go"], [("Golub-Kahan iteration", "singular_value_decomposition.go NewSingularValueDecomposition"), ("tolerance", "singular_value_decomposition.go tol")], ["U", "UT", "S", "V", "VT", "SingularValues", "Rank", "Norm", "ConditionNumber", "Covariance"])
p("C21", "Symmetric eigendecomposition: real ordered spectrum, orthonormal vectors",
  "For every symmetric matrix (entries whose squares neither overflow nor underflow), or tridiagonal matrix given by its two diagonals, the eigenvalues are real, non-increasing and are the roots of the characteristic polynomial, the eigenvectors are orthonormal, and vectors times eigenvalue matrix times transposed vectors reproduces the input. The determinant is the product of eigenvalues, and the square root (defined exactly when all eigenvalues are positive) squares to the input.",
  ["inputs"], "all symmetric integer matrices of bounded order (including repeated and zero eigenvalues), tridiagonal inputs, scaled variants, larger structured matrices",
  "Tests use a few fixed spectra.",
  ["eigen_decomposition.go", "tridiagonal_transformer.go"], [("implicit QL with sorting", "eigen_decomposition.go findEigenVectors"), ("tridiagonal reduction", "tridiagonal_transformer.go transform")], ["RealEigenvalues", "ImagEigenvalues", "V", "VT", "D", "EigenvectorAt", "Determinant", "SquareRoot"])
p("C22", "General eigendecomposition satisfies A V = V D with the true spectrum",
  "For every real square matrix (entries away from overflow and underflow) the decomposition yields the full spectrum (complex eigenvalues in conjugate pairs), finite non-zero eigenvectors and a block diagonal matrix of eigenvalues such that the input times the vectors equals the vectors times that matrix. The complex-eigenvalue query and the determinant agree with the spectrum.",
  ["inputs"], "all integer matrices of bounded order including defective, nilpotent, permutation and repeated-eigenvalue matrices",
  "Tests use a few fixed matrices; the many deflation/shift branches of the iteration are reached by specific spectra only.",
  ["eigen_decomposition.go", "schur_transformer.go", "hessenberg_transformer.go"], [("back-substitution", "eigen_decomposition.go findEigenVectorsFromSchur"), ("spectrum extraction", "eigen_decomposition.go transformToSchur")], ["RealEigenvalues", "ImagEigenvalues", "V", "D", "HasComplexEigenvalues", "Determinant"])
p("C23", "Orthogonal reductions keep the matrix and reach the promised form",
  "The Schur, Hessenberg, tridiagonal (for symmetric input) and bidiagonal reductions of every matrix (entries away from overflow and underflow) give orthogonal factors and a reduced matrix that is respectively quasi-triangular, upper Hessenberg, symmetric tridiagonal, or bidiagonal (upper for tall or square, lower for wide input), and multiplying the factors back gives the input up to rounding. Non-square input is rejected by the three square-only reductions.",
  ["inputs"], "all integer matrices of bounded shape, including degenerate ones (zero, nilpotent, permutation), and larger structured matrices",
  "Tests reduce three to five fixed matrices each.",
  ["schur_transformer.go", "hessenberg_transformer.go", "tridiagonal_transformer.go", "bidiagonal_transformer.go"], [("Householder sweeps and double-shift QR", "transform functions")], ["P", "PT", "T", "H", "Q", "QT", "U", "B", "V"])
p("C24", "Every solver solves, agrees with the others, or refuses singular systems",
  "For a non-singular system every applicable solver (LU, QR, rank-revealing QR, SVD, and for symmetric or positive definite matrices also eigen and Cholesky) returns the solution for vector and matrix right-hand sides of any implementation, and the inverse; for full-rank tall systems the QR-family and SVD solvers return the least-squares solution, and the SVD inverse is the pseudo-inverse of any matrix (at the rank the decomposition reports), in whatever unit the entries are given. Singular systems are reported as singular and rejected by the solvers that need non-singularity, and right-hand sides of the wrong height are rejected, leaving inputs unchanged.",
  ["inputs", "configurations"], "all bounded integer systems times all solvers times vector/matrix right-hand sides (one column to several storage blocks wide) times operand implementations",
  "Tests solve one system per solver.",
  ["lu_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "cholesky_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go", "decomposition_solver.go"],
  [("substitution loops", "SolveVector/SolveMatrix of each solver"), ("singularity checks", "IsNonSingular, checkSingular")], ["SolveVector", "SolveMatrix", "Inverse", "IsNonSingular"])
p("C25", "Decomposition accessors are independent of call order and of later input edits",
  "What a decomposition, reduction or solver reports does not depend on the order in which, or how often, its accessors and solves have been called, nor on changes made to the input matrix after construction. Returned value arrays (pivots, eigenvalues, singular values) are copies whose modification has no effect on the decomposition.",
  ["histories"], "all orders and repetitions of accessor calls up to a bounded depth, with input and result mutations interleaved",
  "Tests read each factor once, in one order.",
  ["lu_decomposition.go", "cholesky_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go", "schur_transformer.go", "hessenberg_transformer.go", "tridiagonal_transformer.go", "bidiagonal_transformer.go"],
  [("lazy caches", "cachedL/U/P/Q/QT/R/H/V/D/VT/B fields")], ["all accessors"])
p("C26", "Rejections carry the error kind that matches the cause",
  "When an operation rejects its input, the returned or raised error identifies the cause: out-of-range index, dimension mismatch, non-square, non-symmetric, singular, not positive definite, missing data, missing argument, non-positive size or zero norm. Errors always have a non-empty, properly formatted message, and no constructor returns an unusable object together with an absent error.",
  ["inputs", "configurations"], "all rejecting calls of a bounded catalogue over all operations, representations and invalid arguments",
  "Tests mostly check that some rejection happened.",
  ["error.go"] + MAT + VEC, [("typed error constructors", "error.go"), ("guards", "check* helpers and constructors")], ["error Status and message"])
p("C27", "Decompositions and solves do not depend on how the input is stored",
  "The same matrix contents give the same decomposition results and the same solutions whichever matrix implementation holds them, and right-hand sides give the same answers whichever implementation holds them, at every size, including sizes at which results switch to another storage scheme.",
  ["configurations", "inputs"], "all representations of each input, all decompositions and solvers, sizes on both sides of every storage threshold",
  "Tests feed one representation and small sizes.",
  ["real_matrix.go", "block_real_matrix.go", "lu_decomposition.go", "qr_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go", "cholesky_decomposition.go", "rrqr_decomposition.go"],
  [("storage choice by size", "real_matrix.go NewRealMatrixWithDimension, NewRealMatrixFromSlices"), ("generic access", "Data, Transpose, SetEntry")], ["all factors and solutions"])
p("C28", "Factories and constructors build exactly the described matrix or vector",
  "Every constructor and factory (zero, identity, diagonal, from rows, from a column, from blocks, sized, preset, copied, concatenated) produces an object with exactly the described dimensions and contents for every size, whichever storage it selects, or rejects unusable input (absent, empty, ragged or non-positive sizes). A row matrix that was only declared is empty until its first table is set.",
  ["inputs"], "all sizes on both sides of the storage threshold, all constructors, valid and invalid data",
  "Tests construct a few small objects.",
  MAT + VEC, [("storage choice by size", "real_matrix.go New*"), ("layout checks", "block_real_matrix.go NewBlockRealMatrixFromBlockData, toBlocksLayout")], ["dimensions and contents"])
p("C29", "Every decomposition ends, whatever numbers the matrix holds",
  "For every matrix, including one holding infinities, not-a-numbers or entries at the limits of the number range, every decomposition and reduction, every accessor and every solve terminates. It ends either with results of the promised dimensions or with a rejection of the library's error type, and leaves the matrix unchanged.",
  ["inputs"], "all matrices of bounded shape over alphabets of non-finite, huge, tiny, subnormal and ordinary values; one such value at every position of larger matrices; all tridiagonal inputs of bounded order",
  "The tests use finite, moderate matrices (one NaN case for one decomposition); whether an iteration can cycle or run out of its arrays depends on the rare comparison outcomes of extreme values.",
  ["singular_value_decomposition.go", "schur_transformer.go", "eigen_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "lu_decomposition.go", "cholesky_decomposition.go", "rectangular_cholesky_decomposition.go", "bidiagonal_transformer.go", "tridiagonal_transformer.go", "hessenberg_transformer.go"],
  [("negated comparisons that stop on not-a-number", "singular_value_decomposition.go NewSingularValueDecomposition"), ("iteration limits", "schur_transformer.go transform, eigen_decomposition.go findEigenVectors"), ("pivot checks", "lu_decomposition.go, cholesky_decomposition.go")], ["return or rejection of every constructor, accessor and solve", "dimensions of the results"])
p("C30", "A failure inside caller-supplied code leaves every object whole and usable",
  "Code supplied by the caller (a visitor, a mapping function, or a matrix or vector implementation used as an operand) may fail at any point by raising a panic. The failure then reaches the caller instead of a result, and every object keeps its dimensions: an operation that is not a mutator leaves everything unchanged; an interrupted update walk has stored the visitor's values for exactly the entries visited before; an interrupted map or copying update leaves every entry with its old or its new value and touches nothing outside its target. Every object, decomposition and solver stays usable: the same operation repeated without the failure gives the ordinary result.",
  ["crash_points", "histories"], "every point at which any operation enters caller-supplied code, for every operation, representation and bounded shape",
  "No test lets a visitor or an operand fail.",
  MAT + VEC + ["lu_decomposition.go", "qr_decomposition.go", "rrqr_decomposition.go", "cholesky_decomposition.go", "singular_value_decomposition.go", "eigen_decomposition.go"],
  [("general branches that read a foreign operand entry by entry", "Set*Matrix, Set*Vector, CopyFrom, Combine, SetSubVector"), ("visitor loops", "WalkInUpdate*"), ("right-hand sides read into local storage", "SolveVector, SolveMatrix of each solver")], ["contents and dimensions after the failure", "results of repeated operations"])
p("C31", "How an object came to be is not observable",
  "Every matrix and vector behaves according to its representation and its current entries alone. An object handed out by any operation, constructor or decomposition, and an object that has been used and then changed by any update, gives in every later operation, as receiver or as operand, and under every later update exactly the result that an object of the same representation built directly from the same entries gives: no entry silently shares storage with another one, no remembered value outlives an update, and no internal layout left by one operation disturbs the next.",
  ["histories", "inputs"], "every operation as producer, every operation and update as consumer, every role, for every representation, ordinary and special contents, and shapes across storage blocks; use, update, use for every combination",
  "Tests look at the entries of a result and drop it; they do not go on computing with it or change it.",
  MAT + VEC,
  [("results of block operations carry rows, columns, blockRows, blockColumns and blocks", "NewBlockRealMatrix, Transpose, SubMatrix, RowMatrixAt, ColumnMatrixAt, Copy"), ("row slices of array results", "ScalarMultiply, Multiply, SubMatrix, Copy"), ("results of diagonal operations", "Multiply, Inverse, Power")], ["results of operations on results", "contents after updates of results"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
