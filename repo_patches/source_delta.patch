From 076136ab67013d40358cba5288c45c78c20d9311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 01/46] fix: Array2DRowRealMatrix.SetRow copies exactly the
 row's columns

The destination slice was data[row][0:row+nCols], which panics for every
row after the first (or spills into the next row when rows share storage).
---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 6d636dbb552bfd672c8d2f683a93a79d2459e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 02/46] fix: BlockRealMatrix.SetRowVector/SetColumnVector
 accept any RealVector

The type assertion shadowed vec, so the branch for vectors that are not
*ArrayRealVector dereferenced a nil pointer.
---
 block_real_matrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..b9c2500 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -743,8 +743,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -784,8 +784,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
-- 
2.43.0


From f03a683ac11566db8d8ae8ef4a6af5b58ef5cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/46] fix: OperateVector/PreMultiplyVector accept any
 RealVector

The branch for vectors that are not *ArrayRealVector used the nil result
of the failed type assertion; the block version of PreMultiplyVector also
shadowed its result.
---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..0c2e37b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index b9c2500..dc9dd0c 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From 18cb02b7fe6860583a0fa3532441cb616398570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 04/46] fix: compare floating point numbers in ULPs with the
 right sign and distance

The sign mask had only bit 31 set and the distance was computed with
unsigned arithmetic, so zeros of opposite signs were different (a diagonal
matrix could not even be multiplied by -1) and neighbouring numbers were
equal in one order of the arguments only.
---
 utils.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..59d675a 100644
--- a/utils.go
+++ b/utils.go
@@ -22,14 +22,12 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float uint64 = 1 << 63
 )
 
 var (
-	positive_zero_float64      float64 = 0.0
-	negative_zero_float64      float64 = -positive_zero_float64
-	positive_zero_float64_bits         = math.Float64bits(positive_zero_float64)
-	negative_zero_float64_bits         = math.Float64bits(negative_zero_float64)
+	positive_zero_float64_bits = int64(math.Float64bits(0.0))
+	negative_zero_float64_bits = int64(math.Float64bits(math.Copysign(0.0, -1)))
 )
 
 func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException bool) bool {
@@ -81,16 +79,21 @@ func equalsWithError(x, y, eps float64) bool {
 
 func equalsWithULP(x, y float64, maxUlps int) bool {
 
-	xInt := math.Float64bits(x)
-	yInt := math.Float64bits(y)
+	// signed integers, so that the distance between two numbers does not wrap around
+	xInt := int64(math.Float64bits(x))
+	yInt := int64(math.Float64bits(y))
 
 	var isEqual bool
-	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
+	if (uint64(xInt^yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		delta := xInt - yInt
+		if delta < 0 {
+			delta = -delta
+		}
+		isEqual = delta <= int64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
-		var deltaPlus, deltaMinus uint64
+		var deltaPlus, deltaMinus int64
 		if xInt < yInt {
 			deltaPlus = yInt - positive_zero_float64_bits
 			deltaMinus = xInt - negative_zero_float64_bits
@@ -99,10 +102,10 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 			deltaMinus = yInt - negative_zero_float64_bits
 		}
 
-		if deltaPlus > uint64(maxUlps) {
+		if deltaPlus > int64(maxUlps) {
 			isEqual = false
 		} else {
-			isEqual = deltaMinus <= (uint64(maxUlps) - deltaPlus)
+			isEqual = deltaMinus <= (int64(maxUlps) - deltaPlus)
 		}
 
 	}
-- 
2.43.0


From 30fd5a1902fdbf37bc9f8b2639624917886b9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 05/46] fix: sums of a diagonal matrix with non-diagonal
 operands are dense

DiagonalMatrix.Add, Subtract and ScalarAdd stored the result in a diagonal
matrix and panicked on its first non-zero off-diagonal entry.
---
 diagonal_matrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..054a24f 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -83,7 +83,7 @@ func (dm *DiagonalMatrix) Add(mat RealMatrix) RealMatrix {
 			panic(dimensionsMismatchSimpleErrorf(rowCount, columnCount))
 		}
 
-		out, err := NewDiagonalMatrixWithDimension(rowCount)
+		out, err := NewRealMatrixWithDimension(rowCount, columnCount)
 		if err != nil {
 			panic(err)
 		}
@@ -122,7 +122,7 @@ func (dm *DiagonalMatrix) Subtract(mat RealMatrix) RealMatrix {
 			panic(dimensionsMismatchSimpleErrorf(rowCount, columnCount))
 		}
 
-		out, err := NewDiagonalMatrixWithDimension(rowCount)
+		out, err := NewRealMatrixWithDimension(rowCount, columnCount)
 		if err != nil {
 			panic(err)
 		}
@@ -468,7 +468,7 @@ func (dm *DiagonalMatrix) ScalarAdd(d float64) RealMatrix {
 	if rowCount != columnCount {
 		panic(dimensionsMismatchSimpleErrorf(rowCount, columnCount))
 	}
-	out, err := NewDiagonalMatrixWithDimension(rowCount)
+	out, err := NewRealMatrixWithDimension(rowCount, columnCount)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 1c994ae9f3e404c650e5d0fa1f39c791403353e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 06/46] fix: rows, columns and submatrices of a diagonal matrix
 can be extracted

DiagonalMatrix.RowMatrixAt, ColumnMatrixAt and SubMatrix tried to store the
extracted part in a diagonal matrix and panicked unless it was square and
diagonal itself.
---
 diagonal_matrix.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 054a24f..f8f059c 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -354,10 +354,7 @@ func (dm *DiagonalMatrix) ColumnMatrixAt(column int) RealMatrix {
 		panic(err)
 	}
 	nRows := dm.RowDimension()
-	if 1 != nRows {
-		panic(dimensionsMismatchSimpleErrorf(1, nRows))
-	}
-	out, err := NewDiagonalMatrixWithDimension(1)
+	out, err := NewRealMatrixWithDimension(nRows, 1)
 	if err != nil {
 		panic(err)
 	}
@@ -442,10 +439,7 @@ func (dm *DiagonalMatrix) RowMatrixAt(row int) RealMatrix {
 		panic(err)
 	}
 	nCols := dm.ColumnDimension()
-	if 1 != nCols {
-		panic(dimensionsMismatchSimpleErrorf(1, nCols))
-	}
-	out, err := NewDiagonalMatrixWithDimension(1)
+	out, err := NewRealMatrixWithDimension(1, nCols)
 	if err != nil {
 		panic(err)
 	}
@@ -589,11 +583,15 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
 	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
-	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
-		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
+
+	if startRow == startColumn && endRow == endColumn {
+		// a window on the diagonal is diagonal itself
+		subMatrix := new(DiagonalMatrix)
+		subMatrix.data = append([]float64{}, dm.data[startRow:endRow+1]...)
+		return subMatrix
 	}
 
-	subMatrix, err := NewDiagonalMatrixWithDimension(endRow - startRow + 1)
+	subMatrix, err := NewRealMatrixWithDimension(endRow-startRow+1, endColumn-startColumn+1)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From c8e8cc2875259670afc1d44f8cab6a3879ef7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 07/46] fix: DiagonalMatrix rejects invalid submatrix bounds

SetSubMatrix, SubMatrix and the bounded walks computed the bounds check but
ignored its result.
---
 diagonal_matrix.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index f8f059c..e25c192 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -569,10 +569,18 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkRowIndex(dm, row); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, column); err != nil {
+		panic(err)
+	}
+	if err := checkRowIndex(dm, nRows+row-1); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -582,7 +590,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 
 	if startRow == startColumn && endRow == endColumn {
 		// a window on the diagonal is diagonal itself
@@ -674,7 +684,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -697,7 +709,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -732,7 +746,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -743,7 +759,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From 685ee57bb4b062b3044cb5550c58df1af5eac88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 08/46] fix: DiagonalMatrix entry updates check off-diagonal
 indexes too

SetEntry, AddToEntry and MultiplyEntry silently accepted an out-of-range
cell off the diagonal.
---
 diagonal_matrix.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index e25c192..c9201c9 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -206,6 +206,9 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 		}
 		dm.data[row] = value
 	} else {
+		if err := checkMatrixIndex(dm, row, column); err != nil {
+			panic(err)
+		}
 		if err := dm.ensureZero(value); err != nil {
 			panic(err)
 		}
@@ -219,6 +222,9 @@ func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
 		}
 		dm.data[row] += increment
 	} else {
+		if err := checkMatrixIndex(dm, row, column); err != nil {
+			panic(err)
+		}
 		if err := dm.ensureZero(increment); err != nil {
 			panic(err)
 		}
@@ -240,6 +246,8 @@ func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
 			panic(err)
 		}
 		dm.data[row] *= factor
+	} else if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
 	}
 }
 
-- 
2.43.0


From 08cebc9bfad7de222e6e9e8048ae1e64837cc0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 09/46] fix: Array2DRowRealMatrix.SetColumnVector rejects
 invalid column indexes

---
 array_2d_row_real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 0c2e37b..a66c21b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,7 +795,9 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
-- 
2.43.0


From 72fe46bc5a59e1fcc3552d01521e6728f735ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 10/46] fix: SubMatrix rejects invalid row and column
 selections

---
 real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..8a0f825 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -460,7 +460,9 @@ func (drmcv realMatrixChangingVisitorImpl) End() float64 { return 0 }
  * Gets a submatrix. Rows and columns are indicated counting from 0 to n-1.
  */
 func SubMatrix(m RealMatrix, selectedRows, selectedColumns []int) RealMatrix {
-	checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns)
+	if err := checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns); err != nil {
+		panic(err)
+	}
 
 	subMatrix, err := NewRealMatrixWithDimension(len(selectedRows), len(selectedColumns))
 	if err != nil {
-- 
2.43.0


From 7ddbc436e35544716040a9310e227c6715b54900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 11/46] fix: CopySubMatrix checks the whole destination before
 copying

---
 real_matrix.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/real_matrix.go b/real_matrix.go
index 8a0f825..23b059f 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -402,7 +402,10 @@ func CopySubMatrix(m RealMatrix, startRow, endRow, startColumn, endColumn int, d
 
 	rowsCount := endRow + 1 - startRow
 	columnsCount := endColumn + 1 - startColumn
-	if (len(destination) < rowsCount) || (len(destination[0]) < columnsCount) {
+	if len(destination) < rowsCount {
+		panic(matrixDimensionMismatchErrorf(len(destination), columnsCount, rowsCount, columnsCount))
+	}
+	if len(destination[0]) < columnsCount {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), rowsCount, columnsCount))
 	}
 
@@ -428,15 +431,17 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	}
 
 	nCols := len(selectedColumns)
-	if (len(destination) < len(selectedRows)) || (len(destination[0]) < nCols) {
-		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
+	if len(destination) < len(selectedRows) {
+		panic(matrixDimensionMismatchErrorf(len(destination), nCols, len(selectedRows), nCols))
+	}
+	for i := 0; i < len(selectedRows); i++ {
+		if len(destination[i]) < nCols {
+			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[i]), len(selectedRows), nCols))
+		}
 	}
 
 	for i := 0; i < len(selectedRows); i++ {
 		destinationI := destination[i]
-		if len(destinationI) < nCols {
-			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
-		}
 		for j := 0; j < len(selectedColumns); j++ {
 			destinationI[j] = m.At(selectedRows[i], selectedColumns[j])
 		}
-- 
2.43.0


From 3017c2fbbf49aed44e7d8f1a6bf33743f602b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 12/46] fix: BlockRealMatrix.SetSubMatrix rejects a table
 without rows

---
 block_real_matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index dc9dd0c..8dfdad5 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -545,6 +545,9 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 		panic(invalidArgumentSimpleErrorf())
 	}
 
+	if len(subMatrix) == 0 {
+		panic(noDataErrorf(at_least_one_row))
+	}
 	refLength := len(subMatrix[0])
 	if refLength == 0 {
 		panic(noDataErrorf(at_least_one_column))
-- 
2.43.0


From 2cf02e4a810546ddbf48cbe34e1eeef823b3166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 13/46] fix: Projection leaves the vector projected onto
 unchanged

---
 real_vector.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..31ab39a 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,12 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	res, err := NewArrayRealVectorCopy(dest)
+	if err != nil {
+		panic(err)
+	}
+	res.MapMultiply(VecDotProduct(src, dest) / norm2)
+	return res
 }
 
 /**
-- 
2.43.0


From 274b5103c9bc90d468e9145b5f6ebc94911719b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 14/46] fix: concatenating two RealVectors copies the second
 one

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 00bf85dd352983b2039bda9b956d54b31a23e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 15/46] fix: sized vector constructors reject a negative size

---
 array_real_vector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..5ab13cd 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -30,6 +30,9 @@ type ArrayRealVector struct {
  * @param size Size of the vector.
  */
 func NewSizedArrayRealVector(size int) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
     return &ArrayRealVector{data: make([]float64, size)}, nil
 }
 
@@ -100,6 +103,9 @@ func NewArrayRealVector(d []float64, copyArray bool) (*ArrayRealVector, error) {
  * @param preset All entries will be set with this value.
  */
 func NewSizedArrayRealVectorWithPreset(size int, preset float64) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
     ans := &ArrayRealVector{data: make([]float64, size)}
     for i := 0; i < size; i++ {
         ans.data[i] = preset
-- 
2.43.0


From a28a71d27dd57dd47ca07db0ad77be2a8d891617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 16/46] fix: building a matrix from a table without rows is
 rejected

---
 block_real_matrix.go |  6 ++++++
 real_matrix.go       | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 8dfdad5..9ba7f24 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -79,6 +79,12 @@ func NewBlockRealMatrix(rowDimension, columnDimension int) (*BlockRealMatrix, er
 }
 
 func NewBlockRealMatrixFromSlices(rawData [][]float64) (*BlockRealMatrix, error) {
+	if rawData == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(rawData) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 	return NewBlockRealMatrixFromBlockData(len(rawData), len(rawData[0]), toBlocksLayout(rawData))
 }
 
diff --git a/real_matrix.go b/real_matrix.go
index 23b059f..abfbb7e 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -333,7 +333,15 @@ func NewRealMatrixWithDimension(rows, columns int) (RealMatrix, error) {
 }
 
 func NewRealMatrixFromSlices(data [][]float64) (RealMatrix, error) {
-	if data == nil || data[0] == nil {
+	if data == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+
+	if data[0] == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-- 
2.43.0


From 6b94a907b8affe4758ff8e6dbb439197e6dd388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 17/46] fix: building a block matrix from too few blocks is
 rejected

---
 block_real_matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9ba7f24..cb97798 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -104,6 +104,9 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockRows = (rows + BLOCK_SIZE - 1) / BLOCK_SIZE
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
+	if len(blockData) < ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
 	ans.blocks = blockData
 
 	var index int
-- 
2.43.0


From 4150d36dba59ce1d2de8f517be13ed8b85a506ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 18/46] fix: a column matrix without entries is rejected

---
 array_2d_row_real_matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index a66c21b..70f75b3 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -71,6 +71,9 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 
 	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
+	if nRows == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 	ans.data = make([][]float64, nRows)
 
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From e235c853a61f33ed1ee3501ea2284bec020b9b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 19/46] fix: a diagonal matrix without entries is rejected

---
 diagonal_matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index c9201c9..f8b1396 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -43,6 +43,9 @@ func NewDiagonalMatrix(data []float64, copyArray bool) (*DiagonalMatrix, error)
 	if data == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 
 	ans := new(DiagonalMatrix)
 	if copyArray {
-- 
2.43.0


From e252efe39aa96cfedb24f2ff386ef6e56c61b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 20/46] fix: SubVector checks its range before allocating

---
 array_real_vector.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 5ab13cd..051979a 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -410,17 +410,17 @@ func (arv *ArrayRealVector) SubVector(index, n int) RealVector {
         panic(notPositiveErrorf(number_of_elements_should_be_positive, float64(n)))
     }
 
-    out, err := NewSizedArrayRealVector(n)
+    err := checkIndex(arv, index)
     if err != nil {
         panic(err)
     }
 
-    err = checkIndex(arv, index)
+    err = checkIndex(arv, index+n-1)
     if err != nil {
         panic(err)
     }
 
-    err = checkIndex(arv, index+n-1)
+    out, err := NewSizedArrayRealVector(n)
     if err != nil {
         panic(err)
     }
-- 
2.43.0


From beed515bb629adbf84d8d2cb8b86bf7be977c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 21/46] fix: QR.H has a zero vector, not NaN, where no
 reflection was needed

---
 qr_decomposition.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qr_decomposition.go b/qr_decomposition.go
index 51a6236..8ac6a10 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -251,7 +251,10 @@ func (qrd *QRDecomposition) H() RealMatrix {
 		for i := 0; i < m; i++ {
 			ha[i] = make([]float64, n)
 			for j := 0; j < int(math.Min(float64(i+1), float64(n))); j++ {
-				ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				// a zero column needs no reflection, its vector is zero
+				if qrd.rDiag[j] != 0 {
+					ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				}
 			}
 		}
 		var err error
-- 
2.43.0


From c7893ff975528f02bc61373d11080381196ac8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 22/46] fix: the rank of a zero matrix is 0 in
 RRQRDecomposition.Rank

---
 rrqr_decomposition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..86ff918 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -135,6 +135,9 @@ func (rrqrd *RRQRDecomposition) Rank(dropThreshold float64) int {
 	rank := 1
 	lastNorm := MatFrobeniusNorm(r)
 	rNorm := lastNorm
+	if rNorm == 0 {
+		return 0
+	}
 	for rank < int(math.Min(float64(rows), float64(columns))) {
 		thisNorm := MatFrobeniusNorm(r.SubMatrix(rank, rows-1, rank, columns-1))
 		if thisNorm == 0 || (thisNorm/lastNorm)*rNorm < dropThreshold {
-- 
2.43.0


From 47dfe268a599a8ab29a0f31f486eb5ed607b3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 23/46] fix: the covariance of a wide matrix has one row per
 column of the matrix

---
 singular_value_decomposition.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 14ce2cb..2f6e47f 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -555,6 +555,7 @@ func (t svdPreservingVisitor) End() float64
 func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) RealMatrix {
 	// get the number of singular values to consider
 	p := len(svd.singularValues)
+	n := svd.VT().ColumnDimension()
 	var dimension int
 	for dimension < p && svd.singularValues[dimension] >= minSingularValue {
 		dimension++
@@ -566,7 +567,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 
 	data := make([][]float64, dimension)
 	for i := 0; i < dimension; i++ {
-		data[i] = make([]float64, p)
+		data[i] = make([]float64, n)
 	}
 
 	t := struct{ svdPreservingVisitor }{}
@@ -575,7 +576,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		data[row][column] = value / svd.singularValues[row]
 	}
 
-	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, p-1)
+	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, n-1)
 
 	jv, err := NewArray2DRowRealMatrixFromSlices(data, true)
 	if err != nil {
-- 
2.43.0


From 6a8a68107e7cce4a3bcfcfe91600d895d10f8e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 24/46] fix: SVD rank tolerance is relative to the matrix, not
 an absolute 1e-8

---
 singular_value_decomposition.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 2f6e47f..1de0d83 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -23,6 +23,8 @@ import (
 const (
 	eps_svd  = 2.220446049250313e-16
 	tiny_svd = 1.6033346880071782e-291
+	// smallest normalized number
+	safemin_svd = 2.2250738585072014e-308
 )
 
 /**
@@ -444,7 +446,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 	}
 
 	// Set the small value tolerance used to calculate rank and pseudo-inverse
-	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(doubleeps))
+	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(safemin_svd))
 
 	if !ans.transposed {
 		ans.cachedU, err = NewRealMatrixFromSlices(U)
-- 
2.43.0


From 6fd19b1e917dd45cb2bfdd87eb51aeb32098d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 25/46] fix: EigenDecomposition.Determinant takes complex
 eigenvalues into account

---
 eigen_decomposition.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..f3cdd62 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -261,8 +261,13 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  */
 func (ed *EigenDecomposition) Determinant() float64 {
 	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	for i, lambda := range ed.realEigenvalues {
+		if mu := ed.imagEigenvalues[i]; mu > 0 {
+			// the product of a complex eigenvalue and its conjugate, which follows it
+			determinant *= lambda*lambda + mu*mu
+		} else if mu == 0 {
+			determinant *= lambda
+		}
 	}
 	return determinant
 }
-- 
2.43.0


From fdc98ee7e70656b9543f8d4979a547f39b4ed1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 26/46] fix: the Schur form of a zero matrix is the zero matrix

---
 schur_transformer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..cad7bb7 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -115,6 +115,10 @@ func (st *SchurTransformer) transform() {
 
 	// compute matrix norm
 	norm := st.norm()
+	if norm == 0 {
+		// a zero matrix is already in Schur form
+		return
+	}
 
 	// shift information
 	shift := new(ShiftInfo)
-- 
2.43.0


From d45420705b2063b0a21e92584ae1a602a5155256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 27/46] fix: the Schur iteration skips a reflection only where
 nothing is left to eliminate

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index cad7bb7..186b428 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -333,7 +333,7 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0 {
 				continue
 			}
 			p /= shift.x
-- 
2.43.0


From 26a9ec130539e685989c0f60137642366024373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 28/46] fix: eigenvectors treat both rows of a complex pair
 alike, however small its imaginary part

---
 eigen_decomposition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index f3cdd62..fba2eed 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -565,7 +565,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				for j := l; j <= idx; j++ {
 					r += matrixT[i][j] * matrixT[j][idx]
 				}
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					s = r
 				} else {
@@ -625,7 +625,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				}
 				w := matrixT[i][i] - p
 
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					r = ra
 					s = sa
-- 
2.43.0


From 9b91fb33642053e045d17f4a4a7d9613e65e8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 29/46] fix: the Hessenberg transform treats columns of
 subnormal size as zero

---
 hessenberg_transformer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hessenberg_transformer.go b/hessenberg_transformer.go
index 811c201..749cb57 100644
--- a/hessenberg_transformer.go
+++ b/hessenberg_transformer.go
@@ -20,6 +20,10 @@ import (
 	"math"
 )
 
+// scale under which the entries of a column count as zero, for their products
+// with a relative round-off (2^-53) to stay out of the subnormal range
+const safemin_hs = 0x1p-969
+
 /**
  * Class transforming a general real matrix to Hessenberg form.
  * A m &times; m matrix A can be written as the product of three matrices: A = P
@@ -181,7 +185,12 @@ func (hs *HessenbergTransformer) transform() {
 			scale += math.Abs(hs.householderVectors[i][m-1])
 		}
 
-		if !equals(scale, 0) {
+		if scale < safemin_hs {
+			// the reflection would underflow: the column is negligible
+			for i := m; i <= high; i++ {
+				hs.householderVectors[i][m-1] = 0
+			}
+		} else {
 			// Compute Householder transformation.
 			h := 0.
 			for i := high; i >= m; i-- {
-- 
2.43.0


From 897af65f6e09a4a84ee0120b67dd9c8e7f8a7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 30/46] fix: the Schur iteration deflates sub-diagonal elements
 whose products underflow

---
 schur_transformer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 186b428..858fdd9 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -20,6 +20,10 @@ import (
 	"math"
 )
 
+// sub-diagonal elements smaller than this, relative to the norm of the matrix,
+// are negligible: the products of two of them underflow
+const small_st = 0x1p-511
+
 var (
 	max_iter_st = 100
 )
@@ -225,7 +229,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) < doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) < math.Max(doubleeps*s, small_st*norm) {
 			break
 		}
 		l--
-- 
2.43.0


From 01c928c7fb7422733e6d28636100006d0879083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 31/46] fix: SVD treats columns and rows of negligible size as
 zero when reducing to bidiagonal form

---
 singular_value_decomposition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 1de0d83..c07b02e 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -86,6 +86,10 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k; i < m; i++ {
 				ans.singularValues[k] = math.Hypot(ans.singularValues[k], A[i][k])
 			}
+			if ans.singularValues[k] <= tiny_svd {
+				// a column this small is negligible, and can not be normalized
+				ans.singularValues[k] = 0
+			}
 			if ans.singularValues[k] != 0 {
 				if A[k][k] < 0 {
 					ans.singularValues[k] = -ans.singularValues[k]
@@ -128,6 +132,9 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k + 1; i < n; i++ {
 				e[k] = math.Hypot(e[k], e[i])
 			}
+			if e[k] <= tiny_svd {
+				e[k] = 0
+			}
 			if e[k] != 0 {
 				if e[k+1] < 0 {
 					e[k] = -e[k]
-- 
2.43.0


From 21df102567ad1769bff07df824e21a2e9d66430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 32/46] fix: the bidiagonal transform treats columns and rows
 of negligible size as zero

---
 bidiagonal_transformer.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/bidiagonal_transformer.go b/bidiagonal_transformer.go
index e6e31cf..ec8f8a5 100644
--- a/bidiagonal_transformer.go
+++ b/bidiagonal_transformer.go
@@ -4,6 +4,10 @@ import (
 	"math"
 )
 
+// squared norm under which the rest of a column or row counts as zero, as the
+// products of its entries are not accurate any more
+const safemin_bdt = 0x1p-969
+
 type BiDiagonalTransformer struct {
 	householderVectors        [][]float64
 	main, secondary           []float64
@@ -197,6 +201,12 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 			c := bdt.householderVectors[i][k]
 			xNormSqr += c * c
 		}
+		if xNormSqr < safemin_bdt {
+			xNormSqr = 0
+			for i := k; i < m; i++ {
+				bdt.householderVectors[i][k] = 0
+			}
+		}
 		hK := bdt.householderVectors[k]
 		var a float64
 		if hK[k] > 0 {
@@ -229,6 +239,12 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 				c := hK[j]
 				xNormSqr += c * c
 			}
+			if xNormSqr < safemin_bdt {
+				xNormSqr = 0
+				for j := k + 1; j < n; j++ {
+					hK[j] = 0
+				}
+			}
 			var b float64
 			if hK[k+1] > 0 {
 				b = -math.Sqrt(xNormSqr)
@@ -265,6 +281,12 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 			c := hK[j]
 			xNormSqr += c * c
 		}
+		if xNormSqr < safemin_bdt {
+			xNormSqr = 0
+			for j := k; j < n; j++ {
+				hK[j] = 0
+			}
+		}
 		var a float64
 		if hK[k] > 0 {
 			a = -math.Sqrt(xNormSqr)
@@ -295,6 +317,12 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 				c := bdt.householderVectors[i][k]
 				xNormSqr += c * c
 			}
+			if xNormSqr < safemin_bdt {
+				xNormSqr = 0
+				for i := k + 1; i < m; i++ {
+					bdt.householderVectors[i][k] = 0
+				}
+			}
 			var b float64
 			if hKp1[k] > 0 {
 				b = -math.Sqrt(xNormSqr)
-- 
2.43.0


From 1bbc89bcae5e22abaefb099409bf38a73f2a596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 33/46] fix: RRQR pseudo-inverse of a tall matrix

---
 rrqr_decomposition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 86ff918..58eb9f3 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -184,7 +184,8 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	// one column per row of the decomposed matrix, which may be tall
+	m, err := NewRealIdentityMatrix(len(rrqrds.qrds.qrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From f3d49f3017ea738e960c9340baafd41d55bf056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 34/46] fix: error messages show their arguments

---
 error.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/error.go b/error.go
index 760939f..f4f3ded 100644
--- a/error.go
+++ b/error.go
@@ -2,6 +2,7 @@ package linear
 
 import (
 	"fmt"
+	"strings"
 )
 
 type LinearMathError interface {
@@ -43,8 +44,8 @@ const (
 	out_of_range_simple                   = "%v out of [%v, %v] range"
 	index                                 = "index (%v)"
 	number_of_elements_should_be_positive = "number of elements should be positive (%v)"
-	initial_row_after_final_row           = "initial row %v after final row %v"
-	initial_column_after_final_column     = "initial column %v after final column %v"
+	initial_row_after_final_row           = "initial row %[2]v after final row %[1]v"
+	initial_column_after_final_column     = "initial column %[2]v after final column %[1]v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
 	number_too_small_bound_excluded       = "%v is smaller than, or equal to, the minimum (%v)"
 	number_too_large                      = "%v is larger than the maximum (%v)"
@@ -52,7 +53,7 @@ const (
 	empty_selected_column_index_array     = "empty selected column index array"
 	empty_selected_row_index_array        = "empty selected row index array"
 	row_index                             = "row index (%v)"
-	column_index                          = "column index ((%v)"
+	column_index                          = "column index (%v)"
 	illegal_state                         = "illegal state"
 	first_rows_not_initialized_yet        = "first %v rows are not initialized yet"
 	first_columns_not_initialized_yet     = "first %v columns are not initialized yet"
@@ -68,7 +69,7 @@ const (
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
 	max_count_exceeded                    = "maximal count (%d) exceeded"
-	too_large_cutoff_singular_value       = "cutoff singular value is {0}, should be at most {1}"
+	too_large_cutoff_singular_value       = "cutoff singular value is %v, should be at most %v"
 )
 
 type maxIterationError struct {
@@ -85,7 +86,7 @@ func (e maxIterationError) Status() int {
 }
 
 func maxIterationSimpleErrorf(max int) maxIterationError {
-	return maxIterationErrorf(max_count_exceeded, max)
+	return maxIterationErrorf(max_count_exceeded, max, max)
 }
 
 func maxIterationErrorf(pattern string, max int, arguments ...interface{}) maxIterationError {
@@ -491,7 +492,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
@@ -539,10 +540,14 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
 func mathErrorf(pattern string, arguments ...interface{}) mathError {
+	// arguments that the pattern does not show are left out of the message
+	if n := strings.Count(pattern, "%"); n < len(arguments) {
+		arguments = arguments[:n]
+	}
 	return mathError{msg: fmt.Sprintf("Math Error: "+pattern, arguments...)}
 }
-- 
2.43.0


From ed4e3540390cd1a85c27362a2ab97c56e49316c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 35/46] fix: rectangular Cholesky rejects a non-square matrix

---
 rectangular_cholesky_decomposition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..5d4d8c5 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -32,6 +32,10 @@ func NewRectangularCholeskyDecomposition(matrix RealMatrix) (*RectangularCholesk
 }
 
 func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small float64) (*RectangularCholeskyDecomposition, error) {
+	if !IsSquare(matrix) {
+		return nil, nonSquareMatrixSimpleErrorf(matrix.RowDimension(), matrix.ColumnDimension())
+	}
+
 	ans := new(RectangularCholeskyDecomposition)
 	order := matrix.RowDimension()
 	c := matrix.Data()
-- 
2.43.0


From 522ef3562a599f9bb7db3fbba420209260e4e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 36/46] fix: the eigendecomposition of a tridiagonal matrix
 rejects unusable diagonals

---
 eigen_decomposition.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index fba2eed..a4102f0 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -102,6 +102,16 @@ func NewEigenDecomposition(matrix RealMatrix) (*EigenDecomposition, error) {
  * matrix.  The Householder matrix is assumed to be the identity matrix.
  */
 func NewEigenDecompositionFromTridiagonal(main, secondary []float64) (*EigenDecomposition, error) {
+	if main == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(main) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	if len(secondary) < len(main)-1 {
+		return nil, dimensionsMismatchSimpleErrorf(len(secondary), len(main)-1)
+	}
+
 	ans := new(EigenDecomposition)
 	ans.isSymmetric = true
 	ans.main = append([]float64{}, main...)
-- 
2.43.0


From c034f75523ba1d53e2049d0eb63a3a9215cec9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 37/46] fix: the error for a size that must be strictly
 positive says that zero is excluded

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index f4f3ded..46ff3f0 100644
--- a/error.go
+++ b/error.go
@@ -320,7 +320,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From 218e8f32af0323deaa2faa8897a3c7b09fbff023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 38/46] fix: the Schur form has exact zeros where the iteration
 deflated

---
 schur_transformer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index 858fdd9..15b91ac 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -139,6 +139,10 @@ func (st *SchurTransformer) transform() {
 		if il == iu {
 			// One root found
 			st.matrixT[iu][iu] += shift.exShift
+			if il > 0 {
+				// the sub-diagonal element was found negligible
+				st.matrixT[il][il-1] = 0
+			}
 			iu--
 			iteration = 0
 		} else if il == iu-1 {
@@ -147,6 +151,10 @@ func (st *SchurTransformer) transform() {
 			q := p*p + st.matrixT[iu][iu-1]*st.matrixT[iu-1][iu]
 			st.matrixT[iu][iu] += shift.exShift
 			st.matrixT[iu-1][iu-1] += shift.exShift
+			if il > 0 {
+				// the sub-diagonal element was found negligible
+				st.matrixT[il][il-1] = 0
+			}
 
 			if q >= 0 {
 				z := math.Sqrt(math.Abs(q))
@@ -183,6 +191,9 @@ func (st *SchurTransformer) transform() {
 					st.matrixP[i][iu-1] = q*z + p*st.matrixP[i][iu]
 					st.matrixP[i][iu] = q*st.matrixP[i][iu] - p*z
 				}
+
+				// the rotation made the block triangular
+				st.matrixT[iu][iu-1] = 0
 			}
 			iu -= 2
 			iteration = 0
-- 
2.43.0


From 71bc79e202eed9f3411c83ccbf2f46d6324f1eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 39/46] fix: keep complex eigenvalues of matrices with small
 entries

The general eigendecomposition compared the sub-diagonal of the Schur form,
its norm and the imaginary parts of the eigenvalues with an absolute 1e-12,
so that for a matrix with small entries rotations were silently read as two
real eigenvalues, D lost its complex blocks, or the matrix was rejected as
zero. The Schur form has exact zeros where it deflated, and rounding noise in
the imaginary parts is relative to the norm of the matrix.
---
 eigen_decomposition.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index a4102f0..08e3dbd 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -66,6 +66,8 @@ type EigenDecomposition struct {
 	eigenvectors                     []*ArrayRealVector
 	cachedV, cachedD, cachedVt       RealMatrix
 	isSymmetric                      bool
+	// the largest imaginary part considered to be zero
+	imagTolerance float64
 }
 
 /**
@@ -177,9 +179,9 @@ func (ed *EigenDecomposition) D() RealMatrix {
 		}
 
 		for i := 0; i < len(ed.imagEigenvalues); i++ {
-			if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) > 0 {
+			if compareTo(ed.imagEigenvalues[i], 0.0, ed.imagTolerance) > 0 {
 				ed.cachedD.SetEntry(i, i+1, ed.imagEigenvalues[i])
-			} else if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+			} else if compareTo(ed.imagEigenvalues[i], 0.0, ed.imagTolerance) < 0 {
 				ed.cachedD.SetEntry(i, i-1, ed.imagEigenvalues[i])
 			}
 		}
@@ -221,7 +223,7 @@ func (ed *EigenDecomposition) VT() RealMatrix {
  */
 func (ed *EigenDecomposition) HasComplexEigenvalues() bool {
 	for i := 0; i < len(ed.imagEigenvalues); i++ {
-		if !equalsWithError(ed.imagEigenvalues[i], 0.0, eps_ed) {
+		if !equalsWithError(ed.imagEigenvalues[i], 0.0, ed.imagTolerance) {
 			return true
 		}
 	}
@@ -518,8 +520,17 @@ func (ed *EigenDecomposition) transformToSchur(matrix RealMatrix) (*SchurTransfo
 	ed.realEigenvalues = make([]float64, len(matT))
 	ed.imagEigenvalues = make([]float64, len(matT))
 
+	var norm float64
+	for i := range matT {
+		for j := range matT[i] {
+			norm += math.Abs(matT[i][j])
+		}
+	}
+	// do not hide the imaginary parts of the eigenvalues of a small matrix
+	ed.imagTolerance = eps_ed * math.Min(1, norm)
+
 	for i := 0; i < len(ed.realEigenvalues); i++ {
-		if i == (len(ed.realEigenvalues)-1) || equalsWithError(matT[i+1][i], 0.0, eps_ed) {
+		if i == (len(ed.realEigenvalues)-1) || matT[i+1][i] == 0 {
 			ed.realEigenvalues[i] = matT[i][i]
 		} else {
 			x := matT[i+1][i+1]
@@ -553,7 +564,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 	}
 
 	// we can not handle a matrix with zero norm
-	if equalsWithError(norm, 0.0, eps_ed) {
+	if norm == 0 {
 		return mathArithmeticErrorf(zero_norm)
 	}
 
-- 
2.43.0


From f42907e765dfc0f22008236b53680bddf2ccafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 40/46] fix: SetSubVector copies an ArrayRealVector operand
 once

After the bulk copy the entries were set a second time one by one, from an
operand which the copy may have changed when it shares storage with the
receiver, so that its first entries were repeated.
---
 array_real_vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 051979a..bb19f93 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -461,6 +461,7 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
 
     if v, ok := vec.(*ArrayRealVector); ok {
         arv.SetSubVectorWithSlice(index, v.data)
+        return
     }
 
     for i := index; i < index+vec.Dimension(); i++ {
-- 
2.43.0


From e53c90a572fb2a4599285871deb2e6859792f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 41/46] fix: the Schur iteration applies its exceptional shift
 each time it is stuck

The shift was applied once, after 10 iterations, followed by one with an
absolute constant after 30; small integer matrices such as a lower
triangular 4x4 with a repeated eigenvalue cycled after that and were
rejected with a convergence failure.
---
 schur_transformer.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 15b91ac..419ba9d 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -25,7 +25,7 @@ import (
 const small_st = 0x1p-511
 
 var (
-	max_iter_st = 100
+	max_iter_st = 300
 )
 
 /**
@@ -261,37 +261,21 @@ func (st *SchurTransformer) computeShift(l, idx, iteration int, shift *ShiftInfo
 		shift.w = st.matrixT[idx][idx-1] * st.matrixT[idx-1][idx]
 	}
 
-	// Wilkinson's original ad hoc shift
-	if iteration == 10 {
+	// Wilkinson's original ad hoc shift, each time the iteration is stuck;
+	// every second one is halved, in case the full one repeats the cycle
+	if iteration > 0 && iteration%10 == 0 {
 		shift.exShift += shift.x
 		for i := 0; i <= idx; i++ {
 			st.matrixT[i][i] -= shift.x
 		}
 		s := math.Abs(st.matrixT[idx][idx-1]) + math.Abs(st.matrixT[idx-1][idx-2])
+		if iteration%20 == 0 {
+			s /= 2
+		}
 		shift.x = 0.75 * s
 		shift.y = 0.75 * s
 		shift.w = -0.4375 * s * s
 	}
-
-	// MATLAB's new ad hoc shift
-	if iteration == 30 {
-		s := (shift.y - shift.x) / 2.0
-		s = s*s + shift.w
-		if s > 0.0 {
-			s = math.Sqrt(s)
-			if shift.y < shift.x {
-				s = -s
-			}
-			s = shift.x - shift.w/((shift.y-shift.x)/2.0+s)
-			for i := 0; i <= idx; i++ {
-				st.matrixT[i][i] -= s
-			}
-			shift.exShift += s
-			shift.x = 0.964
-			shift.y = 0.964
-			shift.w = 0.964
-		}
-	}
 }
 
 /**
-- 
2.43.0


From fb8f6af7f7819fbcd7078d0d71b0ea6220c4a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 42/46] fix: SetSubMatrix with empty rows names the missing
 column

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 70f75b3..ad8715c 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -290,7 +290,7 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 
 	nCols := len(subMatrix[0])
 	if nCols == 0 {
-		panic(noDataErrorf(at_least_one_row))
+		panic(noDataErrorf(at_least_one_column))
 	}
 
 	if a2drrm.data == nil {
-- 
2.43.0


From 1d178aa09c9f778206fa1d5e7bf2d6236c4ed551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 43/46] fix: SetSubMatrix on an uninitialized array matrix
 validates before it allocates

---
 array_2d_row_real_matrix.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index ad8715c..1a930f4 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -302,6 +302,20 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 			panic(mathIllegalStateErrorf(first_columns_not_initialized_yet, column))
 		}
 
+		if row < 0 {
+			panic(outOfRangeErrorf(row_index, float64(row), 0, 0))
+		}
+
+		if column < 0 {
+			panic(outOfRangeErrorf(column_index, float64(column), 0, 0))
+		}
+
+		for r := 1; r < nRows; r++ {
+			if len(subMatrix[r]) != nCols {
+				panic(dimensionsMismatchSimpleErrorf(nCols, len(subMatrix[r])))
+			}
+		}
+
 		a2drrm.data = make([][]float64, len(subMatrix))
 
 		for i := 0; i < nRows; i++ {
-- 
2.43.0


From 173312010d00d371db80d9ba2a0202f88edbb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 44/46] fix: the rectangular Cholesky error names the row of
 the negative diagonal entry

---
 rectangular_cholesky_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 5d4d8c5..85c1b3b 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -81,7 +81,7 @@ func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small f
 				if c[index[i]][index[i]] < -small {
 					// there is at least one sufficiently negative diagonal element,
 					// the symmetric positive semidefinite matrix is wrong
-					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], i, small)
+					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], index[i], small)
 				}
 			}
 
-- 
2.43.0


From 383dd1ba7ab41e909a929efd75f6f5b566450acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:58 +0000
Subject: [PATCH 45/46] fix: NewBlockRealMatrixFromBlockData rejects surplus
 blocks, on which Copy would fail

---
 block_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index cb97798..945ef26 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -104,7 +104,7 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockRows = (rows + BLOCK_SIZE - 1) / BLOCK_SIZE
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
-	if len(blockData) < ans.blockRows*ans.blockColumns {
+	if len(blockData) != ans.blockRows*ans.blockColumns {
 		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
 	}
 	ans.blocks = blockData
-- 
2.43.0


From 9350aec77ef4a1e3df29f6e9ca7b8bf11d910b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:00 +0000
Subject: [PATCH 46/46] fix: the eigen solver judges singularity in any unit,
 without squaring the eigenvalues

---
 eigen_decomposition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 08e3dbd..1de65d4 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -859,5 +859,6 @@ func (s *eigenDecompositionSolver) Inverse() RealMatrix {
 func (s *eigenDecompositionSolver) eigenvalueNormAt(i int) float64 {
 	re := s.ed.realEigenvalues[i]
 	im := s.ed.imagEigenvalues[i]
-	return math.Sqrt(re*re + im*im)
+	// the squares of large or small parts overflow or underflow
+	return math.Hypot(re, im)
 }
-- 
2.43.0

