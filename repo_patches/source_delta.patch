From aa495639ba7f3b64a9a95d8bd939cfd61af1dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 01/30] fix: compare floats of opposite sign by ULP correctly

equalsWithULP masked bit 31 instead of the sign bit, subtracted the bit
patterns as unsigned numbers and mixed up the two operands, so that 0 and -0
were different and equality was not symmetric. A diagonal matrix refused -0
off the diagonal, e.g. when it was multiplied by a negative scalar.
---
 utils.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..2d33073 100644
--- a/utils.go
+++ b/utils.go
@@ -22,7 +22,7 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float = 0x8000000000000000
 )
 
 var (
@@ -87,16 +87,20 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 	var isEqual bool
 	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		delta := int64(xInt - yInt)
+		if delta < 0 {
+			delta = -delta
+		}
+		isEqual = uint64(delta) <= uint64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
 		var deltaPlus, deltaMinus uint64
 		if xInt < yInt {
-			deltaPlus = yInt - positive_zero_float64_bits
-			deltaMinus = xInt - negative_zero_float64_bits
-		} else {
 			deltaPlus = xInt - positive_zero_float64_bits
 			deltaMinus = yInt - negative_zero_float64_bits
+		} else {
+			deltaPlus = yInt - positive_zero_float64_bits
+			deltaMinus = xInt - negative_zero_float64_bits
 		}
 
 		if deltaPlus > uint64(maxUlps) {
-- 
2.43.0


From 2f7f5d2cba7e1df34fafd432367c28cdf9ca8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 02/30] fix: dense SetRow no longer slices the row beyond its
 length

The bound row+nCols made every call for a row other than the first panic.
---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 6a764c1198087d8a2b87fe5e92d5361da22806b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 03/30] fix: concatenating vectors copies every entry of the
 second one

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 21551f325bd6ac9224d0f521f69cbf5fd450cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 04/30] fix: SubVector checks its range before it allocates the
 result

A length beyond the vector exhausted memory or panicked in make instead of
being refused as out of range.
---
 array_real_vector.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..fd5bb7e 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -404,17 +404,17 @@ func (arv *ArrayRealVector) SubVector(index, n int) RealVector {
         panic(notPositiveErrorf(number_of_elements_should_be_positive, float64(n)))
     }
 
-    out, err := NewSizedArrayRealVector(n)
+    err := checkIndex(arv, index)
     if err != nil {
         panic(err)
     }
 
-    err = checkIndex(arv, index)
+    err = checkIndex(arv, index+n-1)
     if err != nil {
         panic(err)
     }
 
-    err = checkIndex(arv, index+n-1)
+    out, err := NewSizedArrayRealVector(n)
     if err != nil {
         panic(err)
     }
-- 
2.43.0


From 7af4e6e4fd1471cef479a6f90823bf61c14d9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 05/30] fix: Projection no longer overwrites the vector
 projected onto

---
 real_vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..3643198 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,9 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	out := dest.Copy()
+	out.MapMultiply(VecDotProduct(src, dest) / norm2)
+	return out
 }
 
 /**
-- 
2.43.0


From 15b1e84752a6b8495ca4b77009c696157a94ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 06/30] fix: matrix-vector products accept any RealVector
 implementation

---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..0c2e37b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..505fd24 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From be4e0ff59dd60e73b9dff6a002f685dc2fc76b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 07/30] fix: dense SetColumnVector refuses an out-of-range
 column

---
 array_2d_row_real_matrix.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 0c2e37b..4480ef0 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,10 +795,12 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
-		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
+		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From 35ba74fe54c6525167c78c3c20b89524ed2aced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 08/30] fix: error messages show their arguments and details

---
 error.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 760939f..9e312f9 100644
--- a/error.go
+++ b/error.go
@@ -491,7 +491,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
@@ -539,7 +539,7 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
-- 
2.43.0


From ea63b5d3d11eb7dda6c808c492cea7540f16711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 09/30] fix: diagonal matrix refuses out-of-range indices in
 every update and walk

---
 diagonal_matrix.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..fd3b06f 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -200,10 +200,10 @@ func (dm *DiagonalMatrix) At(row, column int) float64 {
 }
 
 func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] = value
 	} else {
 		if err := dm.ensureZero(value); err != nil {
@@ -213,10 +213,10 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 }
 
 func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] += increment
 	} else {
 		if err := dm.ensureZero(increment); err != nil {
@@ -234,11 +234,11 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 }
 
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	// we don't care about non-diagonal elements for multiplication
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] *= factor
 	}
 }
@@ -575,10 +575,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkSubMatrixIndex(dm, row, nRows+row-1, column, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -588,7 +587,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -676,7 +677,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -699,7 +702,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -734,7 +739,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -745,7 +752,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From 63607944051aa85f61ef264b2334a9b56ff2f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 10/30] fix: diagonal matrix refuses off-diagonal values before
 changing anything

---
 diagonal_matrix.go | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index fd3b06f..e602d1e 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -376,9 +376,7 @@ func (dm *DiagonalMatrix) SetColumnMatrix(column int, matrix RealMatrix) {
 	if (matrix.RowDimension() != nRows) || (matrix.ColumnDimension() != 1) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), nRows, 1))
 	}
-	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, matrix.At(i, 0))
-	}
+	dm.SetColumn(column, matrix.ColumnAt(0))
 }
 
 func (dm *DiagonalMatrix) ColumnVectorAt(column int) RealVector {
@@ -395,9 +393,7 @@ func (dm *DiagonalMatrix) SetColumnVector(column int, vec RealVector) {
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 	}
-	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, vec.At(i))
-	}
+	dm.SetColumn(column, vec.ToArray())
 }
 
 func (dm *DiagonalMatrix) Equals(object interface{}) bool {
@@ -510,6 +506,14 @@ func (dm *DiagonalMatrix) SetColumn(column int, array []float64) {
 		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
 
 	}
+	// refuse off-diagonal values before changing anything
+	for i := 0; i < nRows; i++ {
+		if i != column {
+			if err := dm.ensureZero(array[i]); err != nil {
+				panic(err)
+			}
+		}
+	}
 	for i := 0; i < nRows; i++ {
 		dm.SetEntry(i, column, array[i])
 	}
@@ -523,6 +527,14 @@ func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
+	// refuse off-diagonal values before changing anything
+	for i := 0; i < nCols; i++ {
+		if i != row {
+			if err := dm.ensureZero(array[i]); err != nil {
+				panic(err)
+			}
+		}
+	}
 	for i := 0; i < nCols; i++ {
 		dm.SetEntry(row, i, array[i])
 	}
@@ -536,9 +548,7 @@ func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
 	if (matrix.RowDimension() != 1) || (matrix.ColumnDimension() != nCols) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), 1, nCols))
 	}
-	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, matrix.At(0, i))
-	}
+	dm.SetRow(row, matrix.RowAt(0))
 }
 
 func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
@@ -549,10 +559,7 @@ func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
 	if vec.Dimension() != nCols {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), 1, nCols))
 	}
-
-	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, vec.At(i))
-	}
+	dm.SetRow(row, vec.ToArray())
 }
 
 func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
@@ -579,6 +586,16 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		panic(err)
 	}
 
+	// refuse off-diagonal values before changing anything
+	for i := 0; i < nRows; i++ {
+		for j := 0; j < nCols; j++ {
+			if row+i != column+j {
+				if err := dm.ensureZero(subMatrix[i][j]); err != nil {
+					panic(err)
+				}
+			}
+		}
+	}
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
 			dm.SetEntry(row+i, column+j, subMatrix[i][j])
-- 
2.43.0


From 5e6ebf17f8c168883ef42ab7a433e7eac91ea4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 11/30] fix: rank-revealing QR pseudo-inverse of a rectangular
 matrix

---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..8f41325 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -181,7 +181,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.rrqrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From b5c8e38d3beb2477703d416f53c740a994d5b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 12/30] fix: building or updating a matrix from no rows is
 refused with an error

---
 block_real_matrix.go | 6 ++++++
 real_matrix.go       | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 505fd24..ae5f7c1 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -79,6 +79,9 @@ func NewBlockRealMatrix(rowDimension, columnDimension int) (*BlockRealMatrix, er
 }
 
 func NewBlockRealMatrixFromSlices(rawData [][]float64) (*BlockRealMatrix, error) {
+	if len(rawData) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 	return NewBlockRealMatrixFromBlockData(len(rawData), len(rawData[0]), toBlocksLayout(rawData))
 }
 
@@ -545,6 +548,9 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 		panic(invalidArgumentSimpleErrorf())
 	}
 
+	if len(subMatrix) == 0 {
+		panic(noDataErrorf(at_least_one_row))
+	}
 	refLength := len(subMatrix[0])
 	if refLength == 0 {
 		panic(noDataErrorf(at_least_one_column))
diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..c1907b8 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -333,7 +333,13 @@ func NewRealMatrixWithDimension(rows, columns int) (RealMatrix, error) {
 }
 
 func NewRealMatrixFromSlices(data [][]float64) (RealMatrix, error) {
-	if data == nil || data[0] == nil {
+	if data == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	if data[0] == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-- 
2.43.0


From 9ce867151411f9735dcb5317c93028b9d1efeafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 13/30] fix: block row and column updates accept any RealVector
 implementation

---
 block_real_matrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index ae5f7c1..715b04b 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -749,8 +749,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -790,8 +790,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
-- 
2.43.0


From d19e058e9affbc20165a89fbef7a59d8f8dcee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 14/30] fix: Schur decomposition of a zero matrix gave NaN or
 did not converge

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..94b837b 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -221,7 +221,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) < doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
 			break
 		}
 		l--
-- 
2.43.0


From 97bdf20d238968d668518eeed588120d0a078d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 15/30] fix: Schur step skipped reflections of matrices with
 small entries

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 94b837b..a691af1 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -329,7 +329,7 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0.0 {
 				continue
 			}
 			p /= shift.x
-- 
2.43.0


From fa353375b61a527805952103fd5c934e8c05e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 16/30] fix: Schur form kept rounding residue below the
 diagonal, read as complex eigenvalues

---
 schur_transformer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index a691af1..76269aa 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -126,6 +126,10 @@ func (st *SchurTransformer) transform() {
 
 		// Look for single small sub-diagonal element
 		il := st.findSmallSubDiagonalElement(iu, norm)
+		if il > 0 {
+			// the element is negligible, the blocks are decoupled
+			st.matrixT[il][il-1] = 0.0
+		}
 
 		// Check for convergence
 		if il == iu {
@@ -175,6 +179,9 @@ func (st *SchurTransformer) transform() {
 					st.matrixP[i][iu-1] = q*z + p*st.matrixP[i][iu]
 					st.matrixP[i][iu] = q*st.matrixP[i][iu] - p*z
 				}
+
+				// what is left below the diagonal is rounding error
+				st.matrixT[iu][iu-1] = 0.0
 			}
 			iu -= 2
 			iteration = 0
-- 
2.43.0


From ba2646efb19bde7d232e49292adb7415fc5d4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 17/30] fix: eigenvectors mixed tolerances for small imaginary
 parts

---
 eigen_decomposition.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..7da0abd 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -167,9 +167,9 @@ func (ed *EigenDecomposition) D() RealMatrix {
 		}
 
 		for i := 0; i < len(ed.imagEigenvalues); i++ {
-			if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) > 0 {
+			if ed.imagEigenvalues[i] > 0.0 {
 				ed.cachedD.SetEntry(i, i+1, ed.imagEigenvalues[i])
-			} else if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+			} else if ed.imagEigenvalues[i] < 0.0 {
 				ed.cachedD.SetEntry(i, i-1, ed.imagEigenvalues[i])
 			}
 		}
@@ -504,7 +504,7 @@ func (ed *EigenDecomposition) transformToSchur(matrix RealMatrix) (*SchurTransfo
 	ed.imagEigenvalues = make([]float64, len(matT))
 
 	for i := 0; i < len(ed.realEigenvalues); i++ {
-		if i == (len(ed.realEigenvalues)-1) || equalsWithError(matT[i+1][i], 0.0, eps_ed) {
+		if i == (len(ed.realEigenvalues)-1) || matT[i+1][i] == 0.0 {
 			ed.realEigenvalues[i] = matT[i][i]
 		} else {
 			x := matT[i+1][i+1]
@@ -560,7 +560,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				for j := l; j <= idx; j++ {
 					r += matrixT[i][j] * matrixT[j][idx]
 				}
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0.0 {
 					z = w
 					s = r
 				} else {
@@ -620,7 +620,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				}
 				w := matrixT[i][i] - p
 
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0.0 {
 					z = w
 					r = ra
 					s = sa
-- 
2.43.0


From 618536c4196a485eb286b777981dbf2a6ffb9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 18/30] fix: eigen determinant ignored the imaginary parts of
 complex eigenvalues

---
 eigen_decomposition.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 7da0abd..a9a7994 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -261,8 +261,13 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  */
 func (ed *EigenDecomposition) Determinant() float64 {
 	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	for i, lambda := range ed.realEigenvalues {
+		if mu := ed.imagEigenvalues[i]; mu == 0.0 {
+			determinant *= lambda
+		} else if mu > 0.0 {
+			// a pair of conjugate eigenvalues
+			determinant *= lambda*lambda + mu*mu
+		}
 	}
 	return determinant
 }
-- 
2.43.0


From 82d3fdc36805f626e56707c423218b6cff91d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 19/30] fix: SVD rank tolerance was 1e-8 in absolute terms
 instead of relative to the largest singular value

---
 singular_value_decomposition.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 14ce2cb..8d10c6c 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -23,6 +23,8 @@ import (
 const (
 	eps_svd  = 2.220446049250313e-16
 	tiny_svd = 1.6033346880071782e-291
+	// smallest normal number
+	safemin_svd = 0x1p-1022
 )
 
 /**
@@ -444,7 +446,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 	}
 
 	// Set the small value tolerance used to calculate rank and pseudo-inverse
-	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(doubleeps))
+	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(safemin_svd))
 
 	if !ans.transposed {
 		ans.cachedU, err = NewRealMatrixFromSlices(U)
-- 
2.43.0


From 64df6277a6260c1a5ea903bc0a9405d4c5f11ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 20/30] fix: covariance of a wide matrix left out the last rows
 and columns

---
 singular_value_decomposition.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 8d10c6c..2b181ed 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -566,9 +566,11 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		panic(numberIsTooLargeErrorf(too_large_cutoff_singular_value, minSingularValue, svd.singularValues[0], true))
 	}
 
+	vt := svd.VT()
+	n := vt.ColumnDimension()
 	data := make([][]float64, dimension)
 	for i := 0; i < dimension; i++ {
-		data[i] = make([]float64, p)
+		data[i] = make([]float64, n)
 	}
 
 	t := struct{ svdPreservingVisitor }{}
@@ -577,7 +579,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		data[row][column] = value / svd.singularValues[row]
 	}
 
-	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, p-1)
+	vt.WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, n-1)
 
 	jv, err := NewArray2DRowRealMatrixFromSlices(data, true)
 	if err != nil {
-- 
2.43.0


From 98e3dcd439bea1e887009b87b8ce1a79af43f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 21/30] fix: SubMatrix reports why its index lists are refused

---
 real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/real_matrix.go b/real_matrix.go
index c1907b8..4b95f59 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -466,7 +466,9 @@ func (drmcv realMatrixChangingVisitorImpl) End() float64 { return 0 }
  * Gets a submatrix. Rows and columns are indicated counting from 0 to n-1.
  */
 func SubMatrix(m RealMatrix, selectedRows, selectedColumns []int) RealMatrix {
-	checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns)
+	if err := checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns); err != nil {
+		panic(err)
+	}
 
 	subMatrix, err := NewRealMatrixWithDimension(len(selectedRows), len(selectedColumns))
 	if err != nil {
-- 
2.43.0


From d21cf6a7d98ba6c0febc40ff206b2c118af39f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:50 +0000
Subject: [PATCH 22/30] fix: a dimension that is not strictly positive excludes
 zero itself

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 9e312f9..7bbf1ab 100644
--- a/error.go
+++ b/error.go
@@ -319,7 +319,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From f1c72a26a16f52a5dd761786509fc35f7bc2f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 23/30] fix: QR factor Q was NaN when a column's sum of squares
 underflows

The reflection is skipped when the norm is zero (rDiag), not when the diagonal
entry is zero: a nonzero entry whose square vanishes was divided by zero.
---
 qr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qr_decomposition.go b/qr_decomposition.go
index 51a6236..ce72a1c 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -211,7 +211,7 @@ func (qrd *QRDecomposition) QT() RealMatrix {
 		for minor := int(math.Min(float64(m), float64(n))) - 1; minor >= 0; minor-- {
 			qrtMinor := qrd.qrt[minor]
 			qta[minor][minor] = 1.0
-			if qrtMinor[minor] != 0.0 {
+			if qrd.rDiag[minor] != 0.0 {
 				for col := minor; col < m; col++ {
 					var alpha float64
 					for row := minor; row < m; row++ {
-- 
2.43.0


From 77146e4132fb2bf12a823a1a57422812e43df339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 24/30] fix: bidiagonal factors U and V were NaN when a sum of
 squares underflows

---
 bidiagonal_transformer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidiagonal_transformer.go b/bidiagonal_transformer.go
index e6e31cf..b48d2d8 100644
--- a/bidiagonal_transformer.go
+++ b/bidiagonal_transformer.go
@@ -54,7 +54,7 @@ func (bdt *BiDiagonalTransformer) U() RealMatrix {
 		for k := p - 1; k >= diagOffset; k-- {
 			hK := bdt.householderVectors[k]
 			ua[k][k] = 1
-			if hK[k-diagOffset] != 0.0 {
+			if diagonal[k-diagOffset] != 0.0 {
 				for j := k; j < m; j++ {
 					var alpha float64
 					for i := k; i < m; i++ {
@@ -142,7 +142,7 @@ func (bdt *BiDiagonalTransformer) V() RealMatrix {
 		for k := p - 1; k >= diagOffset; k-- {
 			hK := bdt.householderVectors[k-diagOffset]
 			va[k][k] = 1
-			if hK[k] != 0.0 {
+			if diagonal[k-diagOffset] != 0.0 {
 				for j := k; j < n; j++ {
 					var beta float64
 					for i := k; i < n; i++ {
-- 
2.43.0


From 2fa89b42337a81805b39d28069de0c10dbb26697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 25/30] fix: tridiagonal factor Q was NaN when a sum of squares
 underflows

A symmetric matrix with a tiny off-diagonal entry (a Gaussian kernel matrix,
say) had no usable eigenvectors.
---
 tridiagonal_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tridiagonal_transformer.go b/tridiagonal_transformer.go
index 706164e..8dfb960 100644
--- a/tridiagonal_transformer.go
+++ b/tridiagonal_transformer.go
@@ -87,7 +87,7 @@ func (tdf *TriDiagonalTransformer) QT() RealMatrix {
 		for k := m - 1; k >= 1; k-- {
 			hK := tdf.householderVectors[k-1]
 			qta[k][k] = 1
-			if hK[k] != 0.0 {
+			if tdf.secondary[k-1] != 0.0 {
 				inv := 1.0 / (tdf.secondary[k-1] * hK[k])
 				beta := 1.0 / tdf.secondary[k-1]
 				qta[k][k] = 1 + beta*hK[k]
-- 
2.43.0


From a9e3b8b99f4eb8313e3a9004795835136603dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 26/30] fix: copying a submatrix to an empty destination
 crashed with an index error

---
 real_matrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/real_matrix.go b/real_matrix.go
index 4b95f59..42575bd 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -408,6 +408,9 @@ func CopySubMatrix(m RealMatrix, startRow, endRow, startColumn, endColumn int, d
 
 	rowsCount := endRow + 1 - startRow
 	columnsCount := endColumn + 1 - startColumn
+	if len(destination) == 0 {
+		panic(matrixDimensionMismatchErrorf(0, 0, rowsCount, columnsCount))
+	}
 	if (len(destination) < rowsCount) || (len(destination[0]) < columnsCount) {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), rowsCount, columnsCount))
 	}
@@ -434,6 +437,9 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	}
 
 	nCols := len(selectedColumns)
+	if len(destination) == 0 {
+		panic(matrixDimensionMismatchErrorf(0, 0, len(selectedRows), nCols))
+	}
 	if (len(destination) < len(selectedRows)) || (len(destination[0]) < nCols) {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
 	}
-- 
2.43.0


From 02a103b909a2a4d4ebbbeff0f92e21d0b0917e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:00 +0000
Subject: [PATCH 27/30] fix: block data with a wrong number of blocks crashed
 or was accepted

---
 block_real_matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 715b04b..b02194e 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -103,6 +103,10 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 
 	ans.blocks = blockData
 
+	if len(blockData) != ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
+
 	var index int
 	for iBlock := 0; iBlock < ans.blockRows; iBlock++ {
 		iHeight := ans.blockHeight(iBlock)
-- 
2.43.0


From a17b2a005a0bc6c9ea60b3d008ad1756afe5708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:46 +0000
Subject: [PATCH 28/30] fix: set a sub-vector once, so that a view on the same
 array is copied right

---
 array_real_vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index fd5bb7e..7017aba 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -455,6 +455,7 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
 
     if v, ok := vec.(*ArrayRealVector); ok {
         arv.SetSubVectorWithSlice(index, v.data)
+        return
     }
 
     for i := index; i < index+vec.Dimension(); i++ {
-- 
2.43.0


From 49d0401b856f2c91862187329177b5b1ddd0c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:47 +0000
Subject: [PATCH 29/30] fix: leave the Householder matrix zero where a column
 needed no reflection, not NaN

---
 qr_decomposition.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qr_decomposition.go b/qr_decomposition.go
index ce72a1c..a825f50 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -251,7 +251,10 @@ func (qrd *QRDecomposition) H() RealMatrix {
 		for i := 0; i < m; i++ {
 			ha[i] = make([]float64, n)
 			for j := 0; j < int(math.Min(float64(i+1), float64(n))); j++ {
-				ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				// there is no reflection along a zero column
+				if qrd.rDiag[j] != 0.0 {
+					ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				}
 			}
 		}
 		var err error
-- 
2.43.0


From 98b254b6fed9784cd5a8c24403feb5719e5abc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:42 +0000
Subject: [PATCH 30/30] fix: rectangular Cholesky crashed on a tall matrix and
 accepted a wide one

---
 rectangular_cholesky_decomposition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..5d4d8c5 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -32,6 +32,10 @@ func NewRectangularCholeskyDecomposition(matrix RealMatrix) (*RectangularCholesk
 }
 
 func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small float64) (*RectangularCholeskyDecomposition, error) {
+	if !IsSquare(matrix) {
+		return nil, nonSquareMatrixSimpleErrorf(matrix.RowDimension(), matrix.ColumnDimension())
+	}
+
 	ans := new(RectangularCholeskyDecomposition)
 	order := matrix.RowDimension()
 	c := matrix.Data()
-- 
2.43.0

