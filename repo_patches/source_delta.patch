From 6b4c6b7c45fb1f225636612e20fe654103f7e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 01/62] fix: compound scalar assignment reads its operand
 before it is overwritten (M /= M(0,0))

---
 mml/base/Matrix/Matrix.h   | 4 ++--
 mml/base/Matrix/Matrix3D.h | 6 +++---
 mml/base/Matrix/MatrixNM.h | 2 +-
 mml/base/Vector/VectorN.h  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..b5a2336 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1005,7 +1005,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar multiplication
-		Matrix& operator*=(const Type& scalar)
+		Matrix& operator*=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem *= scalar;
@@ -1022,7 +1022,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar division
-		Matrix& operator/=(const Type& scalar)
+		Matrix& operator/=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem /= scalar;
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..9c09178 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -356,19 +356,19 @@ namespace MML {
 		/// @{ */
 
 		/// @brief In-place scalar multiplication.
-		Matrix3D& operator*=(const Type& scalar) {
+		Matrix3D& operator*=(Type scalar) {
 			for (auto& elem : _data) elem *= scalar;
 			return *this;
 		}
 
 		/// @brief In-place scalar division.
-		Matrix3D& operator/=(const Type& scalar) {
+		Matrix3D& operator/=(Type scalar) {
 			for (auto& elem : _data) elem /= scalar;
 			return *this;
 		}
 
 		/// @brief In-place scalar addition.
-		Matrix3D& operator+=(const Type& scalar) {
+		Matrix3D& operator+=(Type scalar) {
 			for (auto& elem : _data) elem += scalar;
 			return *this;
 		}
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index ca41849..18e5d6e 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -478,7 +478,7 @@ namespace MML {
 		}
 
 		/// @brief In-place scalar multiplication (A *= b).
-		MatrixNM& operator*=(const Type& b) {
+		MatrixNM& operator*=(Type b) {
 			int i, j;
 
 			for (i = 0; i < rows(); i++)
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 0e01755..175175a 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -249,7 +249,7 @@ namespace MML
 		}
 		/// @brief In-place scalar multiplication.
 		/// @param b Scalar multiplier
-		VectorN& operator*=(const Type& b)
+		VectorN& operator*=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] *= b;
@@ -266,7 +266,7 @@ namespace MML
 		}		
 		/// @brief In-place scalar division.
 		/// @param b Scalar divisor
-		VectorN& operator/=(const Type& b)
+		VectorN& operator/=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] /= b;
-- 
2.43.0


From b27c6a6fb26a033aad3dd151bf0d6fe28dfa3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 02/62] fix: Matrix::isAntiSymmetric checks the diagonal

---
 mml/base/Matrix/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index b5a2336..330c6ae 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -707,7 +707,7 @@ namespace MML
 			if (_rows != _cols) return false;
 			
 			for (int i = 0; i < _rows; ++i) {
-				for (int j = i + 1; j < _cols; ++j) {
+				for (int j = i; j < _cols; ++j) {
 					if (IsMatrixTypeComplex()) {
 						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
 							return false;
-- 
2.43.0


From 6fc3e1caa13c3cc0a65ed121e94c23f1f6a59643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 03/62] fix: IsHermitian rejects a complex diagonal

---
 mml/base/BaseUtils/MatrixOps.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 2a12a54..69e867e 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -424,7 +424,7 @@ namespace MML
 				throw MatrixDimensionError("IsHermitian - matrix must be square", mat.rows(), mat.cols(), -1, -1);
 
 			for (int i = 0; i < mat.rows(); i++)
-				for (int j = i + 1; j < mat.cols(); j++)
+				for (int j = i; j < mat.cols(); j++)
 					if (mat[i][j] != std::conj(mat[j][i]))
 						return false;
 			return true;
-- 
2.43.0


From a1909077fc86d00d9de23f3c8057621fba9801ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 04/62] fix: no out-of-bounds diagonal access on non-square
 matrices

---
 mml/base/Matrix/Matrix.h   | 3 ++-
 mml/base/Matrix/MatrixNM.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 330c6ae..bb93bc5 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -679,7 +679,8 @@ namespace MML
 				for (int j = 0; j < _cols; ++j)
 					if (i != j)
 						sum += Abs((*this)(i, j));
-				if (Abs((*this)(i, i)) < sum)
+				Real diag = (i < _cols) ? static_cast<Real>(Abs((*this)(i, i))) : Real{0};
+				if (diag < sum)
 					return false;
 			}
 			return true;
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 18e5d6e..cfa42cf 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -187,7 +187,7 @@ namespace MML {
 		/// @endcode
 
 		MatrixNM(const Type& m) {
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < (N < M ? N : M); i++)
 				_vals[i][i] = Type{m};
 		}
 		/// /** @} */
@@ -215,7 +215,7 @@ namespace MML {
 		static MatrixNM Identity() {
 			MatrixNM unitMat;
 
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < (N < M ? N : M); i++)
 				unitMat._vals[i][i] = 1.0;
 
 			return unitMat;
-- 
2.43.0


From 63f7cc31cb4a45e6d2f2f08fbc9ceabfc2bf4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 05/62] fix: Invert reports all-zero and non-finite matrices as
 singular

---
 mml/base/Matrix/Matrix.h   | 2 +-
 mml/base/Matrix/MatrixNM.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index bb93bc5..3f59888 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1136,7 +1136,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 				
-				if (Abs(a(icol, icol)) < singularity_threshold)
+				if (!(Abs(a(icol, icol)) > singularity_threshold))
 					throw SingularMatrixError("Matrix::Invert - Singular Matrix", Abs(a(icol, icol)));
 				
 				Type pivinv = Type{1} / a(icol, icol);
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index cfa42cf..a82ddbc 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -618,7 +618,7 @@ namespace MML {
 
 			b(0, 0) = 1.0;
 
-			int i, icol, irow, j, k, l, ll;
+			int i, icol = 0, irow = 0, j, k, l, ll;
 			Type big, dum, pivinv;
 
 			int n = rows();
@@ -659,7 +659,7 @@ namespace MML {
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (std::abs(a._vals[icol][icol]) < singularity_threshold)
+				if (!(std::abs(a._vals[icol][icol]) > singularity_threshold))
 					throw SingularMatrixError("MatrixNM::Invert, gaussj: Singular Matrix", std::abs(a._vals[icol][icol]));
 
 				pivinv = 1.0 / a._vals[icol][icol];
-- 
2.43.0


From 5f6c5030fadc0798df6fff42424f8992b21bf4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 06/62] fix: sub-matrix and block bounds checks cannot overflow

---
 mml/base/Matrix/Matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 3f59888..c5bb3bd 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -304,8 +304,8 @@ namespace MML
 				throw MatrixDimensionError("Matrix submatrix - invalid start indices", m._rows, m._cols, ind_row, ind_col);
 			if (row_num <= 0 || col_num <= 0)
 				throw MatrixDimensionError("Matrix submatrix - dimensions must be positive", row_num, col_num, -1, -1);
-			if (ind_row + row_num > m._rows || ind_col + col_num > m._cols)
-				throw MatrixDimensionError("Matrix submatrix - out of bounds", m._rows, m._cols, ind_row + row_num, ind_col + col_num);
+			if (row_num > m._rows - ind_row || col_num > m._cols - ind_col)
+				throw MatrixDimensionError("Matrix submatrix - out of bounds", m._rows, m._cols, row_num, col_num);
 			
 			_rows = row_num;
 			_cols = col_num;
@@ -622,7 +622,7 @@ namespace MML
 		MatrixViewNew<Type> block(int startRow, int startCol, int numRows, int numCols)
 		{
 			if (startRow < 0 || startCol < 0 || numRows <= 0 || numCols <= 0 ||
-			    startRow + numRows > _rows || startCol + numCols > _cols)
+			    startRow > _rows - numRows || startCol > _cols - numCols)
 				throw MatrixDimensionError("Matrix::block - invalid parameters", _rows, _cols, startRow, startCol);
 			return MatrixViewNew<Type>(&_data[idx(startRow, startCol)], numRows, numCols, _cols);
 		}
@@ -632,7 +632,7 @@ namespace MML
 		MatrixViewNew<const Type> block(int startRow, int startCol, int numRows, int numCols) const
 		{
 			if (startRow < 0 || startCol < 0 || numRows <= 0 || numCols <= 0 ||
-			    startRow + numRows > _rows || startCol + numCols > _cols)
+			    startRow > _rows - numRows || startCol > _cols - numCols)
 				throw MatrixDimensionError("Matrix::block - invalid parameters", _rows, _cols, startRow, startCol);
 			return MatrixViewNew<const Type>(&_data[idx(startRow, startCol)], numRows, numCols, _cols);
 		}
-- 
2.43.0


From f2bce7d38a244ae4657b5edf4f1a366a02a84ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 07/62] fix: Vector::erase(value) also works when the value is
 an element of the vector

---
 mml/base/Vector/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 99e669f..d5d3120 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -152,7 +152,7 @@ namespace MML
 		
 		void erase(int pos)							{ _elems.erase(_elems.begin() + pos); }
 		void erase(int start, int end)	{ _elems.erase(_elems.begin() + start, _elems.begin() + end); }
-		void erase(const Type& val)			{ _elems.erase(std::remove(_elems.begin(), _elems.end(), val), _elems.end()); }
+		void erase(const Type& val)			{ const Type target(val); _elems.erase(std::remove(_elems.begin(), _elems.end(), target), _elems.end()); }
 
 		/// @brief Remove all elements
 		void Clear()	{ _elems.clear(); }
-- 
2.43.0


From eebbaa07bbe97d1233d7aed0d3fb4adf5b74883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 08/62] fix: structured matrices validate element indices,
 sizes and right-hand sides

---
 mml/base/Matrix/Matrix3D.h       | 12 ++++++++----
 mml/base/Matrix/MatrixBandDiag.h | 11 +++++++++--
 mml/base/Matrix/MatrixTriDiag.h  | 13 ++++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index 9c09178..54d6bbc 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -65,6 +65,7 @@
 #include <functional>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -106,10 +107,13 @@ namespace MML {
 
 		/// @brief Validates dimensions and returns total element count.
 		/// @throws ArgumentError If any dimension ≤ 0.
-		static int ValidateDims(int d1, int d2, int d3) {
+		static size_t ValidateDims(int d1, int d2, int d3) {
 			if (d1 <= 0 || d2 <= 0 || d3 <= 0)
 				throw ArgumentError("Matrix3D dimensions must be positive");
-			return d1 * d2 * d3;
+			const long long maxSize = std::numeric_limits<int>::max();
+			if (static_cast<long long>(d1) * d2 > maxSize || static_cast<long long>(d1) * d2 * d3 > maxSize)
+				throw ArgumentError("Matrix3D dimensions too large");
+			return static_cast<size_t>(d1) * d2 * d3;
 		}
 
 	public:
@@ -306,8 +310,8 @@ namespace MML {
 			if (d1 == _dim1 && d2 == _dim2 && d3 == _dim3)
 				return;
 			if (d1 > 0 && d2 > 0 && d3 > 0) {
+				_data.assign(ValidateDims(d1, d2, d3), Type{});
 				_dim1 = d1; _dim2 = d2; _dim3 = d3;
-				_data.assign(d1 * d2 * d3, Type{});
 				BuildPointers();
 			} else {
 				_dim1 = _dim2 = _dim3 = 0;
@@ -324,8 +328,8 @@ namespace MML {
 		/// @param initVal Value to initialize all elements.
 		void Resize(int d1, int d2, int d3, const Type& initVal) {
 			if (d1 > 0 && d2 > 0 && d3 > 0) {
+				_data.assign(ValidateDims(d1, d2, d3), initVal);
 				_dim1 = d1; _dim2 = d2; _dim3 = d3;
-				_data.assign(d1 * d2 * d3, initVal);
 				BuildPointers();
 			} else {
 				_dim1 = _dim2 = _dim3 = 0;
diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index 0bdff9f..c59faa2 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -135,6 +135,8 @@ namespace MML {
 		Real operator()(int i, int j) const {
 			if (i > j + _m1 || j > i + _m2)
 				return 0.0;
+			else if (i < 0 || i >= _dim || j < 0 || j >= _dim)
+				throw MatrixAccessBoundsError("BandDiagonalMatrix::operator()", i, j, _dim, _dim);
 			else
 				return _data[i][j - i + _m1];
 		}
@@ -146,7 +148,7 @@ namespace MML {
 		/// @throws MatrixAccessBoundsError If (i,j) is outside the band.
 
 		Real& operator()(int i, int j) {
-			if (i > j + _m1 || j > i + _m2)
+			if (i < 0 || i >= _dim || j < 0 || j >= _dim || i > j + _m1 || j > i + _m2)
 				throw MatrixAccessBoundsError("BandDiagonalMatrix::operator()", i, j, _dim, _dim);
 			else
 				return _data[i][j - i + _m1];
@@ -401,7 +403,12 @@ namespace MML {
 			if (_dim != other._dim || _m1 != other._m1 || _m2 != other._m2)
 				return false;
 
-			return _data.IsEqualTo(other._data, tolerance);
+			// storage slots that lie outside the matrix are not elements
+			for (int i = 0; i < _dim; i++)
+				for (int j = std::max(0, i - _m1); j <= std::min(_dim - 1, i + _m2); j++)
+					if (std::abs((*this)(i, j) - other(i, j)) > tolerance)
+						return false;
+			return true;
 		}
 		/// /** @} */
 
diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 83209b0..5d17765 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -48,7 +48,7 @@ namespace MML
 
 		TridiagonalMatrix(int dim, std::initializer_list<Type> values) : _dim(dim), _belowDiag(dim), _diag(dim), _aboveDiag(dim)
 		{
-			if (values.size() != dim * 3 - 2)
+			if (dim < 2 || values.size() != static_cast<size_t>(dim) * 3 - 2)
 				throw MatrixDimensionError("TridiagonalMatrix constructor: initializer list size must be 3*dim-2");
 
 			auto val = values.begin();
@@ -70,6 +70,8 @@ namespace MML
 		int cols() const noexcept { return _dim; }
 
 		Type  operator()(int i, int j) const {
+			if (i < 0 || i >= _dim || j < 0 || j >= _dim)
+				throw MatrixAccessBoundsError("TridiagonalMatrix::operator()", i, j, _dim, _dim);
 			if (i == j)
 				return _diag[i];
 			else if (i == j - 1)
@@ -80,6 +82,8 @@ namespace MML
 				return 0.0;
 		}
 		Type& operator()(int i, int j) {
+			if (i < 0 || i >= _dim || j < 0 || j >= _dim)
+				throw MatrixAccessBoundsError("TridiagonalMatrix::operator()", i, j, _dim, _dim);
 			if (i == j)
 				return _diag[i];
 			else if (i == j - 1)
@@ -98,9 +102,10 @@ namespace MML
 			for (int i = 0; i < _dim; i++) {
 				if (std::abs(_diag[i] - b._diag[i]) > eps)
 					return false;
-				if (std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
+				// belowDiag[0] and aboveDiag[dim-1] lie outside the matrix
+				if (i > 0 && std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
 					return false;
-				if (std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
+				if (i < _dim - 1 && std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
 					return false;
 			}
 			return true;
@@ -212,6 +217,8 @@ namespace MML
 		void Solve(const Vector<Type>& rhs, Vector<Type>& sol)
 		{
 			int j, n = _belowDiag.size();
+			if (rhs.size() != n || sol.size() != n)
+				throw VectorDimensionError("TridiagonalMatrix::Solve - rhs and solution must have the matrix dimension", n, rhs.size() != n ? rhs.size() : sol.size());
 			Type bet;  // Must be Type to work with complex matrices
 			Vector<Type> gam(n);
 
-- 
2.43.0


From 866b3d4f52458c1a60085bc2bdba813d6453951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 09/62] fix: direct solvers report zero and NaN matrices, wide
 bands and empty input, and judge pivots relative to scale

---
 mml/base/Matrix/MatrixTriDiag.h         |  6 ++----
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 16 ++++++++++------
 mml/core/LinAlgEqSolvers/LinAlgQR.h     |  9 ++++++++-
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 5d17765..51c6b73 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -229,10 +229,8 @@ namespace MML
 				if (mag > maxDiag) maxDiag = mag;
 			}
 			Real tol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (tol < std::numeric_limits<Real>::epsilon())
-				tol = std::numeric_limits<Real>::epsilon();
 
-			if (std::abs(_diag[0]) < tol)
+			if (!(std::abs(_diag[0]) > tol))
 				throw SingularMatrixError("TridiagonalMatrix::Solve - zero pivot at element 0", 0, 0);
 
 			sol[0] = rhs[0] / (bet = _diag[0]);
@@ -241,7 +239,7 @@ namespace MML
 				gam[j] = _aboveDiag[j - 1] / bet;
 				bet = _diag[j] - _belowDiag[j] * gam[j];
 
-				if (std::abs(bet) < tol)
+				if (!(std::abs(bet) > tol))
 					throw SingularMatrixError("TridiagonalMatrix::Solve - zero pivot during elimination", j, j);
 
 				sol[j] = (rhs[j] - _belowDiag[j] * sol[j - 1]) / bet;
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..29a5dc9 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -138,6 +138,7 @@ namespace MML
 			for (j = 0; j < n; j++) ipiv[j] = 0;
 			for (i = 0; i < n; i++) {
 				big = 0.0;
+				irow = icol = -1;
 				for (j = 0; j < n; j++)
 					if (ipiv[j] != 1)
 						for (k = 0; k < n; k++) {
@@ -149,6 +150,9 @@ namespace MML
 								}
 							}
 						}
+				// no comparable element left: matrix contains NaN
+				if (icol < 0)
+					throw MatrixNumericalError("Non-finite values detected in Gauss-Jordan elimination");
 				++(ipiv[icol]);
 				if (irow != icol) {
 					for (l = 0; l < n; l++) std::swap(a[irow][l], a[icol][l]);
@@ -157,7 +161,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (Abs(a[icol][icol]) < singularity_threshold)
+				if (big == 0.0 || Abs(a[icol][icol]) < singularity_threshold)
 					throw SingularMatrixError("GaussJordanSolver::SolveInPlace - Singular Matrix", Abs(a[icol][icol]));
 
 				pivinv = Real{ 1.0 } / a[icol][icol];
@@ -299,7 +303,7 @@ namespace MML
 			{
 				big = 0.0;
 				for (j = 0; j < _n; j++)
-					if ((temp = Abs(_lu[i][j])) > big) 
+					if ((temp = Abs(_lu[i][j])) > big || std::isnan(temp)) 
 						big = temp;
 				
 				// Check for non-finite values in matrix (Real types only)
@@ -677,8 +681,8 @@ namespace MML
 		 */
 		BandDiagonalSolver(const BandDiagonalMatrix& a)
 			: _n(a.GetDimension()), 
-			  _m1(a.GetLowerBandwidth()), 
-			  _m2(a.GetUpperBandwidth()),
+			  _m1(std::min(a.GetLowerBandwidth(), _n - 1)),   // diagonals further out hold no elements
+			  _m2(std::min(a.GetUpperBandwidth(), _n - 1)),
 			  _au(_n, _m1 + _m2 + 1),
 			  _al(_n, _m1),
 			  _indx(_n)
@@ -738,7 +742,7 @@ namespace MML
 				
 				_indx[k] = i + 1;  // Store 1-based index for compatibility
 				
-				if (Abs(dum) < singularity_threshold)
+				if (dum == 0.0 || !(Abs(dum) >= singularity_threshold))
 					throw SingularMatrixError("BandDiagonalSolver::ctor - Singular Matrix", Abs(dum));
 				
 				// Interchange rows if necessary
@@ -922,7 +926,7 @@ namespace MML
 					if (i == j)
 					{
 						// Diagonal element
-						if (sum <= 0.0)
+						if (!(sum > 0.0))
 							throw SingularMatrixError("CholeskySolver: Matrix is not positive definite");
 						
 						el[i][i] = std::sqrt(sum);
diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 66bd518..44b1848 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -53,6 +53,8 @@ namespace MML
 		{
 			if (_m < _n)
 				throw MatrixDimensionError("QRSolver: Matrix must have m >= n (rows >= columns)", _m, _n, _m, _n);
+			if (_n == 0)
+				throw MatrixDimensionError("QRSolver: Matrix must be non-empty", _m, _n, -1, -1);
 
 			int i, j, k;
 			Type scale, sigma, sum, tau;
@@ -69,7 +71,12 @@ namespace MML
 				for (i = k; i < _m; i++)
 					scale = std::max(scale, Abs(_QR[i][k]));
 
-				if (scale < std::numeric_limits<Real>::epsilon())
+				// Singular if nothing but roundoff is left of the column (relative to its original size)
+				Real colmax = 0.0;
+				for (i = 0; i < _m; i++)
+					colmax = std::max<Real>(colmax, Abs(a(i, k)));
+
+				if (scale <= std::numeric_limits<Real>::epsilon() * colmax)
 				{
 					// Singular case: column below diagonal is effectively zero
 					_sing = true;
-- 
2.43.0


From a822297286b110ef89cd1bf6ca4ab5147c91c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 10/62] fix: QRSolver flags a 1x1 zero matrix as singular

---
 mml/core/LinAlgEqSolvers/LinAlgQR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 44b1848..6958a3d 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -127,7 +127,7 @@ namespace MML
 						if (Abs(a(ii, jj)) > norm_a)
 							norm_a = Abs(a(ii, jj));
 				Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _n;
-				if (Abs(_d[_n - 1]) < threshold)
+				if (_d[_n - 1] == Type(0) || Abs(_d[_n - 1]) < threshold)
 					_sing = true;
 			}
 		}
-- 
2.43.0


From c0785d8950f881085069d62b89a1dd8a26485642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 11/62] fix: iterative solvers report performed iterations and
 initial residual, and accept any scale

---
 .../LinAlgEqSolvers_iterative.h               | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index 8b748d2..e127374 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -150,10 +150,9 @@ namespace MML
 			Real maxDiag = Real{0};
 			for (int i = 0; i < n; i++) { Real mag = std::abs(A(i, i)); if (mag > maxDiag) maxDiag = mag; }
 			Real diagTol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (diagTol < std::numeric_limits<Real>::epsilon()) diagTol = std::numeric_limits<Real>::epsilon();
 			for (int i = 0; i < n; i++)
 			{
-				if (std::abs(A(i, i)) < diagTol)
+				if (std::abs(A(i, i)) <= diagTol)
 					throw SingularMatrixError("JacobiSolver::Solve - near-zero diagonal element at row " + std::to_string(i));
 			}
 			
@@ -169,7 +168,8 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;  // Avoid division by zero
 			
 			int iter = 0;
-			Real residual = 0.0;
+			const Real initialResidual = (A * x - b).NormL2() / b_norm;
+			Real residual = initialResidual;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -202,7 +202,9 @@ namespace MML
 				x = x_new;
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			IterativeSolverResult result(x, std::max(0, std::min(iter, maxIter)), residual, converged);
+			result.initial_residual = initialResidual;
+			return result;
 		}
 		
 		/**
@@ -304,10 +306,9 @@ namespace MML
 			Real maxDiag = Real{0};
 			for (int i = 0; i < n; i++) { Real mag = std::abs(A(i, i)); if (mag > maxDiag) maxDiag = mag; }
 			Real diagTol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (diagTol < std::numeric_limits<Real>::epsilon()) diagTol = std::numeric_limits<Real>::epsilon();
 			for (int i = 0; i < n; i++)
 			{
-				if (std::abs(A(i, i)) < diagTol)
+				if (std::abs(A(i, i)) <= diagTol)
 					throw SingularMatrixError("GaussSeidelSolver::Solve - near-zero diagonal element at row " + std::to_string(i));
 			}
 			
@@ -322,7 +323,8 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;
 			
 			int iter = 0;
-			Real residual = 0.0;
+			const Real initialResidual = (A * x - b).NormL2() / b_norm;
+			Real residual = initialResidual;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -353,7 +355,9 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			IterativeSolverResult result(x, std::max(0, std::min(iter, maxIter)), residual, converged);
+			result.initial_residual = initialResidual;
+			return result;
 		}
 		
 		/**
@@ -472,10 +476,9 @@ namespace MML
 			Real maxDiag = Real{0};
 			for (int i = 0; i < n; i++) { Real mag = std::abs(A(i, i)); if (mag > maxDiag) maxDiag = mag; }
 			Real diagTol = maxDiag * std::numeric_limits<Real>::epsilon();
-			if (diagTol < std::numeric_limits<Real>::epsilon()) diagTol = std::numeric_limits<Real>::epsilon();
 			for (int i = 0; i < n; i++)
 			{
-				if (std::abs(A(i, i)) < diagTol)
+				if (std::abs(A(i, i)) <= diagTol)
 					throw SingularMatrixError("SORSolver::Solve - near-zero diagonal element at row " + std::to_string(i));
 			}
 			
@@ -490,7 +493,8 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;
 			
 			int iter = 0;
-			Real residual = 0.0;
+			const Real initialResidual = (A * x - b).NormL2() / b_norm;
+			Real residual = initialResidual;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -525,7 +529,9 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			IterativeSolverResult result(x, std::max(0, std::min(iter, maxIter)), residual, converged);
+			result.initial_residual = initialResidual;
+			return result;
 		}
 		
 		/**
@@ -542,7 +548,7 @@ namespace MML
 		                                           int maxIter = 1000)
 		{
 			int n = A.rows();
-			Real omega = 2.0 / (1.0 + std::sin(Constants::PI / n));
+			Real omega = n > 1 ? 2.0 / (1.0 + std::sin(Constants::PI / n)) : Real{1.0};
 			return Solve(A, b, omega, x0, tol, maxIter);
 		}
 		
-- 
2.43.0


From 3cc8f4ff61e085d7b733ecbd0cc6a70a30e6c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 12/62] fix: matrix predicates handle rectangular, 1x1 and zero
 matrices, Hessenberg reduction any scale

---
 mml/algorithms/EigenSolverHelpers.h |  7 +++++--
 mml/algorithms/MatrixAlg.h          |  8 +++-----
 mml/core/MatrixUtils.h              | 13 +++++++------
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index d921ef6..d9ebb7b 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -80,6 +80,9 @@ namespace MML {
 			// Temporary storage for Householder vector
 			Vector<Real> v(n);
 
+			// Negligible columns are judged relative to the size of A
+			const Real normA = Utils::FrobeniusNorm(A);
+
 			// For each column k, zero out elements below the subdiagonal
 			for (int k = 0; k < n - 2; k++) {
 				// Compute the norm of the column below the diagonal
@@ -88,7 +91,7 @@ namespace MML {
 					sigma += result.H(i, k) * result.H(i, k);
 				sigma = std::sqrt(sigma);
 
-				if (sigma < PrecisionValues<Real>::DivisionSafetyThreshold)
+				if (sigma <= PrecisionValues<Real>::DivisionSafetyThreshold * normA)
 					continue; // Column already zero below subdiagonal
 
 				// Choose sign to avoid cancellation: sign opposite to H(k+1, k)
@@ -104,7 +107,7 @@ namespace MML {
 				for (int i = k + 2; i < n; i++)
 					vNormSq += result.H(i, k) * result.H(i, k);
 
-				if (vNormSq < PrecisionValues<Real>::DivisionSafetyThreshold)
+				if (vNormSq == 0.0)
 					continue;
 
 				// beta = 2 / ||v||^2
diff --git a/mml/algorithms/MatrixAlg.h b/mml/algorithms/MatrixAlg.h
index a247f17..ec99a94 100644
--- a/mml/algorithms/MatrixAlg.h
+++ b/mml/algorithms/MatrixAlg.h
@@ -137,7 +137,7 @@ namespace MML {
 
 			if (numNegative == 0 && numZero == 0)
 				return Definiteness::PositiveDefinite;
-			else if (numNegative == 0 && numPositive > 0)
+			else if (numNegative == 0)		// includes the zero matrix
 				return Definiteness::PositiveSemiDefinite;
 			else if (numPositive == 0 && numZero == 0)
 				return Definiteness::NegativeDefinite;
@@ -219,13 +219,11 @@ namespace MML {
 		/// @param tol Tolerance for eigenvalue comparison
 		/// @return true if A is negative semi-definite (includes negative definite)
 		inline bool IsNegativeSemiDefinite(const MatrixSym<Real>& A, Real tol = 1e-10) {
-			auto def = ClassifyDefiniteness(A, tol);
-			return def == Definiteness::NegativeDefinite || def == Definiteness::NegativeSemiDefinite;
+			return IsPositiveSemiDefinite(-A, tol);
 		}
 
 		inline bool IsNegativeSemiDefinite(const Matrix<Real>& A, Real tol = 1e-10) {
-			auto def = ClassifyDefiniteness(A, tol);
-			return def == Definiteness::NegativeDefinite || def == Definiteness::NegativeSemiDefinite;
+			return IsPositiveSemiDefinite(-A, tol);
 		}
 
 		/// Check if matrix is indefinite (has both positive and negative eigenvalues).
diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index bf90333..d61a186 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -22,6 +22,7 @@
 
 #include "core/LinAlgEqSolvers.h"
 
+#include <algorithm>
 #include <limits>
 
 namespace MML
@@ -47,7 +48,7 @@ namespace MML
 		{
 			int n = H.rows();
 			for (int i = 2; i < n; i++)
-				for (int j = 0; j < i - 1; j++)
+				for (int j = 0; j < std::min(i - 1, H.cols()); j++)
 					if (std::abs(H(i, j)) > tol)
 						return false;
 			return true;
@@ -65,7 +66,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 1; i < n; i++)
-				for (int j = 0; j < i; j++)
+				for (int j = 0; j < std::min(i, A.cols()); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -83,7 +84,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = i + 1; j < n; j++)
+				for (int j = i + 1; j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -101,7 +102,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = 0; j < n; j++)
+				for (int j = 0; j < A.cols(); j++)
 					if (i != j && std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -303,11 +304,11 @@ namespace MML
 			Matrix<Type> M = A;
 			for (int k = 1; k < N; k++)
 			{
-				M = A * M;
 				if (M.isZero())
 					return true;
+				M = A * M;
 			}
-			return false;
+			return M.isZero();
 		}
 
 		/**
-- 
2.43.0


From 7761bafc96d76baebb01eb466af0abfc4b871bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 13/62] fix: general eigensolver finishes every diagonal block
 and returns genuine eigenvectors for mixed spectra

---
 mml/algorithms/EigenSolverHelpers.h | 182 ++++++++++++++++++----------
 mml/algorithms/EigenSystemSolvers.h | 169 +++++++++++++-------------
 2 files changed, 200 insertions(+), 151 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index d9ebb7b..c24a470 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -25,6 +25,7 @@
 #include <cmath>
 #include <algorithm>
 #include <complex>
+#include <limits>
 
 namespace MML {
 	/// @class EigenSolverHelpers
@@ -801,6 +802,39 @@ namespace MML {
 			return result;
 		}
 
+		/// Split a 2x2 diagonal block at rows k, k+1 that has real eigenvalues:
+		/// rotates H (and accumulates Q) so that H(k+1, k) becomes zero.
+		static void SplitRealBlock(Matrix<Real>& H, Matrix<Real>& Q, int k) {
+			int n = H.rows();
+			auto eig = Eigenvalues2x2(H(k, k), H(k, k + 1), H(k + 1, k), H(k + 1, k + 1));
+
+			// Eigenvector of the eigenvalue farther from H(k+1, k+1), as it has no cancellation
+			Real lambda = (std::abs(eig.real1 - H(k + 1, k + 1)) >= std::abs(eig.real2 - H(k + 1, k + 1))) ? eig.real1 : eig.real2;
+			Real x = lambda - H(k + 1, k + 1);
+			Real y = H(k + 1, k);
+			Real r = std::hypot(x, y);
+			if (r == 0.0)
+				return;
+			Real c = x / r, s = y / r;
+
+			for (int j = k; j < n; j++) {
+				Real t1 = H(k, j), t2 = H(k + 1, j);
+				H(k, j) = c * t1 + s * t2;
+				H(k + 1, j) = -s * t1 + c * t2;
+			}
+			for (int j = 0; j <= k + 1; j++) {
+				Real t1 = H(j, k), t2 = H(j, k + 1);
+				H(j, k) = c * t1 + s * t2;
+				H(j, k + 1) = -s * t1 + c * t2;
+			}
+			for (int j = 0; j < n; j++) {
+				Real t1 = Q(j, k), t2 = Q(j, k + 1);
+				Q(j, k) = c * t1 + s * t2;
+				Q(j, k + 1) = -s * t1 + c * t2;
+			}
+			H(k + 1, k) = 0.0;
+		}
+
 		/// Force deflation at a specific index by zeroing the subdiagonal element.
 		/// Call this after CheckDeflation returns canDeflate = true.
 		///
@@ -829,6 +863,61 @@ namespace MML {
 			std::vector<bool> isComplexPair; // isComplexPair[i] = true if columns i,i+1 form complex pair
 		};
 
+		/// Back-substitution of (T - λI) x = 0 for rows first-1 down to 0 of a quasi-upper-triangular T,
+		/// with x[first..last] given. Rows coupled by a 2x2 diagonal block are solved together.
+		static void BackSubstituteSchur(const Matrix<Real>& T, int first, int last, Real lambdaRe, Real lambdaIm,
+										Vector<Real>& xr, Vector<Real>& xi) {
+			const std::complex<Real> lambda(lambdaRe, lambdaIm);
+			const Real smallest = std::max(std::numeric_limits<Real>::epsilon() * Utils::FrobeniusNorm(T),
+										   std::numeric_limits<Real>::min());
+
+			auto rhs = [&](int row, int from) {
+				std::complex<Real> sum(0.0, 0.0);
+				for (int j = from; j <= last; j++)
+					sum -= T(row, j) * std::complex<Real>(xr[j], xi[j]);
+				return sum;
+			};
+			auto store = [&](int row, const std::complex<Real>& value) {
+				xr[row] = value.real();
+				xi[row] = value.imag();
+			};
+
+			for (int i = first - 1; i >= 0; i--) {
+				std::complex<Real> d = T(i, i) - lambda;
+				if (i > 0 && std::abs(T(i, i - 1)) > smallest) {
+					// 2x2 block in rows i-1, i: elimination with pivoting
+					std::complex<Real> a = T(i - 1, i - 1) - lambda, b = T(i - 1, i), c = T(i, i - 1);
+					std::complex<Real> r0 = rhs(i - 1, i + 1), r1 = rhs(i, i + 1);
+					if (std::abs(c) > std::abs(a)) {
+						std::swap(a, c);
+						std::swap(b, d);
+						std::swap(r0, r1);
+					}
+					const std::complex<Real> factor = c / a;
+					d -= factor * b;
+					if (std::abs(d) < smallest)
+						d = smallest;
+					const std::complex<Real> x1 = (r1 - factor * r0) / d;
+					store(i, x1);
+					store(i - 1, (r0 - b * x1) / a);
+					i--;
+				} else {
+					if (std::abs(d) < smallest)
+						d = smallest; // Near-singular: use small perturbation to avoid division by zero
+					store(i, rhs(i, i + 1) / d);
+				}
+
+				// Only the direction matters: rescale before a chain of near-singular rows overflows
+				const Real big = std::max(std::hypot(xr[i], xi[i]), std::hypot(xr[i + 1], xi[i + 1]));
+				if (big > 1.0 / (smallest * smallest)) {
+					for (int j = i; j <= last; j++) {
+						xr[j] /= big;
+						xi[j] /= big;
+					}
+				}
+			}
+		}
+
 		/// Compute eigenvector for a real eigenvalue using back-substitution.
 		///
 		/// Given upper triangular T with eigenvalue λ = T[k,k], solve (T - λI)x = 0
@@ -847,21 +936,8 @@ namespace MML {
 
 			// Back-substitute: for i = k-1 down to 0
 			// (T[i,i] - λ) * x[i] + sum_{j=i+1}^{k} T[i,j] * x[j] = 0
-			// x[i] = -sum_{j=i+1}^{k} T[i,j] * x[j] / (T[i,i] - λ)
-
-			for (int i = k - 1; i >= 0; i--) {
-				Real sum = 0.0;
-				for (int j = i + 1; j <= k; j++)
-					sum += T(i, j) * x[j];
-
-				Real denom = T(i, i) - lambda;
-				if (std::abs(denom) > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					x[i] = -sum / denom;
-				} else {
-					// Near-singular: use small perturbation to avoid division by zero
-					x[i] = -sum / PrecisionValues<Real>::DivisionSafetyThreshold;
-				}
-			}
+			Vector<Real> xi(n, 0.0);
+			BackSubstituteSchur(T, k, k, lambda, 0.0, x, xi);
 
 			// Normalize
 			Real norm = 0.0;
@@ -909,53 +985,26 @@ namespace MML {
 
 			// For the 2x2 block, the eigenvector of [[a,b],[c,d]] for α+iβ is:
 			// v = [b, α+iβ-a] or [α+iβ-d, c] (up to scaling)
-			// We use [b, (α-a)+iβ] which gives:
-			//   real: [b, α-a]
-			//   imag: [0, β]
+			// The one built on the larger off-diagonal element is used:
+			//   |b| >= |c|: real [b, α-a], imag [0, β]
+			//   otherwise:  real [α-d, c], imag [β, 0]
 
 			// Initialize at the 2x2 block
-			xr[k] = b;
-			xr[k + 1] = alpha - a;
-			xi[k] = 0.0;
-			xi[k + 1] = beta;
-
-			// Back-substitute for rows k-1 down to 0
-			// We need to solve (T - (α+iβ)I) * (xr + i*xi) = 0
-			// This gives two coupled real equations:
-			// (T - αI) * xr + βI * xi = 0  =>  (T-αI)*xr = -β*xi
-			// (T - αI) * xi - βI * xr = 0  =>  (T-αI)*xi = β*xr
-			for (int i = k - 1; i >= 0; i--) {
-				// sum_r = sum of T[i,j]*xr[j] for j > i
-				// sum_i = sum of T[i,j]*xi[j] for j > i
-				Real sum_r = 0.0;
-				Real sum_i = 0.0;
-				for (int j = i + 1; j <= k + 1; j++) {
-					sum_r += T(i, j) * xr[j];
-					sum_i += T(i, j) * xi[j];
-				}
-
-				// (T[i,i] - α) * xr[i] + β * xi[i] = -sum_r
-				// (T[i,i] - α) * xi[i] - β * xr[i] = -sum_i
-				// Let p = T[i,i] - α
-				// p * xr[i] + β * xi[i] = -sum_r
-				// p * xi[i] - β * xr[i] = -sum_i
-				// Solve 2x2 system:
-				// |p   β | |xr[i]|   |-sum_r|
-				// |-β  p | |xi[i]| = |-sum_i|
-				// det = p² + β²
-
-				Real p = T(i, i) - alpha;
-				Real det = p * p + beta * beta;
-
-				if (det > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					xr[i] = (-sum_r * p - sum_i * beta) / det;
-					xi[i] = (-sum_i * p + sum_r * beta) / det;
-				} else {
-					xr[i] = 0.0;
-					xi[i] = 0.0;
-				}
+			if (std::abs(b) >= std::abs(c)) {
+				xr[k] = b;
+				xr[k + 1] = alpha - a;
+				xi[k] = 0.0;
+				xi[k + 1] = beta;
+			} else {
+				xr[k] = alpha - d;
+				xr[k + 1] = c;
+				xi[k] = beta;
+				xi[k + 1] = 0.0;
 			}
 
+			// Back-substitute for rows k-1 down to 0: (T - (α+iβ)I) * (xr + i*xi) = 0
+			BackSubstituteSchur(T, k, k + 1, alpha, beta, xr, xi);
+
 			// Normalize: ||xr||² + ||xi||² = 1 for each eigenvector
 			Real norm_sq = 0.0;
 			for (int i = 0; i < n; i++)
@@ -1027,16 +1076,23 @@ namespace MML {
 					result.vectors(row, col) = sum;
 				}
 
-				// Re-normalize after transformation
+			}
+
+			// Re-normalize after transformation; the two columns of a complex pair share one factor
+			for (int col = 0; col < n; col++) {
+				int last = (result.isComplexPair[col] && col + 1 < n) ? col + 1 : col;
 				Real norm = 0.0;
-				for (int row = 0; row < n; row++)
-					norm += result.vectors(row, col) * result.vectors(row, col);
+				for (int c = col; c <= last; c++)
+					for (int row = 0; row < n; row++)
+						norm += result.vectors(row, c) * result.vectors(row, c);
 				norm = std::sqrt(norm);
 
 				if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					for (int row = 0; row < n; row++)
-						result.vectors(row, col) /= norm;
+					for (int c = col; c <= last; c++)
+						for (int row = 0; row < n; row++)
+							result.vectors(row, c) /= norm;
 				}
+				col = last;
 			}
 
 			return result;
diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..4889cf6 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -202,6 +202,8 @@ namespace MML {
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 100) {
 			// Convert to symmetric matrix (average A and A^T)
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -234,6 +236,8 @@ namespace MML {
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -444,6 +448,8 @@ namespace MML {
 		// Overload for regular Matrix (will symmetrize)
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -476,6 +482,8 @@ namespace MML {
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -496,13 +504,16 @@ namespace MML {
 		///
 		/// Based on Golub & Van Loan, "Matrix Computations", Algorithm 8.3.1
 		static void TridiagonalReduction(Matrix<Real>& T, Matrix<Real>& Q, int n) {
+			// Negligible columns are judged relative to the size of T
+			const Real normT = Utils::FrobeniusNorm(T);
+
 			for (int k = 0; k < n - 2; k++) {
 				// Compute ||x||^2 where x = T(k+1:n-1, k)
 				Real sigma = 0.0;
 				for (int i = k + 1; i < n; i++)
 					sigma += T(i, k) * T(i, k);
 
-				if (sigma < PrecisionValues<Real>::DivisionSafetyThreshold) // Column already zeroed
+				if (sigma <= PrecisionValues<Real>::DivisionSafetyThreshold * normT * normT) // Column already zeroed
 					continue;
 
 				Real xNorm = std::sqrt(sigma);
@@ -518,7 +529,7 @@ namespace MML {
 				Real uNormSq = sigma + alpha * alpha - 2.0 * alpha * T(k + 1, k);
 				Real uNorm = std::sqrt(uNormSq);
 
-				if (uNorm < PrecisionValues<Real>::DivisionSafetyThreshold)
+				if (uNorm == 0.0)
 					continue;
 
 				// Build normalized Householder vector v
@@ -867,6 +878,8 @@ namespace MML {
 		/// - eigenvectors.Column(k) = vr, Column(k+1) = vi
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			Result result(n);
 
 			if (n == 0) {
@@ -882,103 +895,78 @@ namespace MML {
 				return result;
 			}
 
+			// Work on a matrix scaled (exactly, by a power of two) to norm of order one,
+			// so that the tolerance is relative to the size of A
+			Real scale = 1.0;
+			Real normA = Utils::FrobeniusNorm(A);
+			if (std::isfinite(normA) && normA > std::numeric_limits<Real>::min())
+				scale = std::ldexp(Real(1.0), std::ilogb(normA));
+			Matrix<Real> S = A;
+			for (int i = 0; i < n; i++)
+				for (int j = 0; j < n; j++)
+					S(i, j) = A(i, j) / scale;
+
 			// Step 1: Reduce to Hessenberg form
-			auto hess = EigenSolverHelpers::ReduceToHessenberg(A);
+			auto hess = EigenSolverHelpers::ReduceToHessenberg(S);
 			Matrix<Real> H = hess.H;
 			Matrix<Real> Q = hess.Q; // Accumulated transformation
 
+			// Accumulate Q = Q * stepQ
+			auto accumulate = [&Q, n](const Matrix<Real>& stepQ) {
+				Matrix<Real> newQ(n, n);
+				for (int i = 0; i < n; i++)
+					for (int j = 0; j < n; j++) {
+						newQ(i, j) = 0.0;
+						for (int k = 0; k < n; k++)
+							newQ(i, j) += Q(i, k) * stepQ(k, j);
+					}
+				Q = newQ;
+			};
+
 			// Step 2: QR iteration with deflation
-			int iLo = 0;	 // Start of active region
 			int iHi = n - 1; // End of active region
 			int totalIter = 0;
+			int stepsOnBlock = 0;
 
-			while (iHi > iLo && totalIter < maxIter) {
-				// Check for deflation at bottom of active region
-				auto defl = EigenSolverHelpers::CheckDeflation(H, iLo, iHi, tol);
-
+			while (iHi > 0 && totalIter < maxIter) {
+				// Find the start of the unreduced block that ends at iHi
+				int iLo = 0;
+				auto defl = EigenSolverHelpers::CheckDeflation(H, 0, iHi, tol);
 				if (defl.canDeflate) {
-					// Apply deflation
 					EigenSolverHelpers::ApplyDeflation(H, defl.deflationIndex);
-
-					// Shrink active region
-					if (defl.deflationIndex == iHi) {
-						iHi--;
-					} else if (defl.deflationIndex == iHi - 1 && defl.blockSize == 2) {
-						iHi -= 2; // 2x2 block deflated
-					} else {
-						// Middle deflation - just continue
-						iHi = defl.deflationIndex - 1;
-					}
-					continue;
+					iLo = defl.deflationIndex;
 				}
 
-				// Determine if we should use single or double shift
-				// Check if bottom 2x2 has complex eigenvalues
-				bool useDoubleShift = false;
-				if (iHi >= iLo + 1) {
-					Real a = H(iHi - 1, iHi - 1);
-					Real b = H(iHi - 1, iHi);
-					Real c = H(iHi, iHi - 1);
-					Real d = H(iHi, iHi);
-					auto eig = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d);
-					useDoubleShift = eig.isComplex;
-
-					// Special case: if we have only a 2x2 block with complex eigenvalues,
-					// it's already in final form - we're done with this block
-					if (useDoubleShift && iHi == iLo + 1) {
-						// 2x2 block with complex eigenvalues is irreducible - accept it
-						break;
-					}
+				if (iLo == iHi) {
+					// 1x1 block: real eigenvalue
+					iHi--;
+					stepsOnBlock = 0;
+					continue;
 				}
-
-				if (useDoubleShift && iHi >= iLo + 2) {
-					// Apply Francis double-shift
-					auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true);
-					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter += 2; // Double shift counts as 2 iterations
-				} else {
-					// Apply single Wilkinson shift
-					auto step = EigenSolverHelpers::SingleQRStep(H, true);
-					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
+				if (iLo == iHi - 1) {
+					// 2x2 block: a complex pair is in its final form, a real pair is split
+					auto eig = EigenSolverHelpers::Eigenvalues2x2(H(iLo, iLo), H(iLo, iHi), H(iHi, iLo), H(iHi, iHi));
+					if (!eig.isComplex)
+						EigenSolverHelpers::SplitRealBlock(H, Q, iLo);
+					iHi -= 2;
+					stepsOnBlock = 0;
 					totalIter++;
+					continue;
 				}
 
-				// Apply exceptional shift if stuck (every 30 iterations without progress)
-				if (totalIter % 30 == 29 && iHi >= 2) {
+				if (++stepsOnBlock % 10 == 0) {
 					// Exceptional shift to break cycles
 					Real exceptionalShift = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
 					auto step = EigenSolverHelpers::SingleQRStep(H, true, &exceptionalShift);
 					H = step.H;
-
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
+					accumulate(step.Q);
 					totalIter++;
+				} else {
+					// Francis double-shift on the active block (real or complex pair of shifts)
+					auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true);
+					H = step.H;
+					accumulate(step.Q);
+					totalIter += 2; // Double shift counts as 2 iterations
 				}
 			}
 
@@ -987,7 +975,7 @@ namespace MML {
 
 			// Convert to our ComplexEigenvalue format
 			for (const auto& e : eigResult.eigenvalues)
-				result.eigenvalues.push_back(ComplexEigenvalue(e.real, e.imag));
+				result.eigenvalues.push_back(ComplexEigenvalue(e.real * scale, e.imag * scale));
 
 			// Step 4: Compute eigenvectors
 			auto vecResult = EigenSolverHelpers::ComputeEigenvectorsFromSchur(H, Q, tol);
@@ -997,18 +985,23 @@ namespace MML {
 			// Step 5: Compute residuals and check convergence
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
-			result.converged = (totalIter < maxIter);
+			result.converged = (iHi <= 0);
 
-			// Verify eigenvector quality
-			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-				if (!result.isComplexPair[i] || (i > 0 && result.isComplexPair[i - 1])) {
-					Vector<Real> v(n);
+			// Verify eigenvector quality (for a complex pair the eigenvector is column i + I * column i+1)
+			for (int i = 0; i < n; i++) {
+				const bool pair = result.isComplexPair[i] && i + 1 < n;
+				const std::complex<Real> lambda(result.eigenvalues[i].real, result.eigenvalues[i].imag);
+				Real residual = 0.0;
+				for (int row = 0; row < n; row++) {
+					std::complex<Real> diff(0.0, 0.0);
 					for (int j = 0; j < n; j++)
-						v[j] = result.eigenvectors(j, static_cast<int>(i));
-
-					Real residual = EigenSolverHelpers::EigenvectorResidual(A, v, result.eigenvalues[i].real, result.eigenvalues[i].imag);
-					result.maxResidual = std::max(result.maxResidual, residual);
+						diff += A(row, j) * std::complex<Real>(result.eigenvectors(j, i), pair ? result.eigenvectors(j, i + 1) : 0.0);
+					diff -= lambda * std::complex<Real>(result.eigenvectors(row, i), pair ? result.eigenvectors(row, i + 1) : 0.0);
+					residual += std::norm(diff);
 				}
+				result.maxResidual = std::max(result.maxResidual, std::sqrt(residual));
+				if (pair)
+					i++;
 			}
 
 			return result;
-- 
2.43.0


From c5564a5775caf5f5d90d8a9fa3c09dd1be76bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 14/62] fix: polynomial division, product and Taylor expansion
 of short and empty polynomials

---
 mml/base/Polynom.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index f114c3c..12fc315 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -317,6 +317,9 @@ namespace MML
 		{
 			Polynom result;
 
+			if (_vecCoef.empty() || b._vecCoef.empty())
+				return result;
+
 			int n = (int)(_vecCoef.size() + b._vecCoef.size() - 1);
 			result._vecCoef.resize(n);
 			for (int i = 0; i < _vecCoef.size(); i++)
@@ -420,7 +423,7 @@ namespace MML
 			// setting exact size for remainder
 			rout.SetDegree(nv - 1);
 			for (j = 0; j < nv; j++)
-				rout[j] = r[j];
+				rout[j] = (j <= n) ? r[j] : CoefT(0);
 		}
 
 		///////////////////////////           Operations              ///////////////////////////
@@ -434,7 +437,10 @@ namespace MML
 			int  nd = pd.size() - 1;
 			Real cnst = 1.0;
 
-			pd[0] = (*this)[nc];
+			if (nd < 0)
+				return;
+
+			pd[0] = (nc >= 0) ? (*this)[nc] : Real(0);
 			for (j = 1; j < nd + 1; j++)
 				pd[j] = 0.0;
 
-- 
2.43.0


From 1ff3a2a63d4c7931ffed7745222662d8f72c289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 15/62] fix: root finders set a failure status, test brackets
 by sign and no longer accept steps or estimates away from a root

---
 mml/algorithms/RootFinding/RootFindingBase.h  |  13 +++
 .../RootFinding/RootFindingBracketing.h       |  29 ++---
 .../RootFinding/RootFindingMethods.h          | 100 +++++++++++-------
 3 files changed, 90 insertions(+), 52 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingBase.h b/mml/algorithms/RootFinding/RootFindingBase.h
index ec9b31b..6d3a5d1 100644
--- a/mml/algorithms/RootFinding/RootFindingBase.h
+++ b/mml/algorithms/RootFinding/RootFindingBase.h
@@ -89,8 +89,21 @@ namespace MML {
 			
 			/// Elapsed wall-clock time in milliseconds
 			double elapsed_time_ms = 0.0;
+
+			/// Record an unsuccessful termination (status and message stay consistent)
+			void SetFailure(AlgorithmStatus failureStatus, const std::string& message) {
+				converged = false;
+				status = failureStatus;
+				error_message = message;
+			}
 		};
 
+		/// True if one value is strictly positive and the other strictly negative.
+		/// Unlike f1 * f2 < 0 this cannot underflow (or overflow) for tiny (huge) values.
+		inline bool HaveOppositeSigns(Real f1, Real f2) {
+			return (f1 < 0.0 && f2 > 0.0) || (f1 > 0.0 && f2 < 0.0);
+		}
+
 	} // namespace RootFinding
 } // namespace MML
 
diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..a803bff 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -82,7 +82,7 @@ namespace MML {
 			Real f2 = func(x2);
 
 			for (int j = 0; j < MaxTry; j++) {
-				if (f1 * f2 < 0.0)
+				if (HaveOppositeSigns(f1, f2))
 					return true;
 
 				if (std::abs(f1) < std::abs(f2))
@@ -152,11 +152,12 @@ namespace MML {
 			Real fp = func(x1);
 
 			for (int i = 0; i < numPoints; i++) {
+				Real xPrev = x;
 				x += dx;
 				Real fc = func(x);
 
-				if (fc * fp <= 0.0) {
-					xb1[numRoots] = x - dx;
+				if (fc == 0.0 || fp == 0.0 || HaveOppositeSigns(fc, fp)) {
+					xb1[numRoots] = xPrev;
 					xb2[numRoots++] = x;
 					if (numRoots == numBrackets) {
 						xb1.Resize(numBrackets * 2, true);
@@ -166,6 +167,8 @@ namespace MML {
 				}
 				fp = fc;
 			}
+			xb1.Resize(numRoots, true);
+			xb2.Resize(numRoots, true);
 			return numRoots;
 		}
 
@@ -267,12 +270,12 @@ namespace MML {
 
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
-				result.error_message = "Non-finite function values in FindRootBisection";
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Non-finite function values in FindRootBisection");
 				return result;
 			}
 
-			if (f * fmid >= 0.0) {
-				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
+			if (!HaveOppositeSigns(f, fmid)) {
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Root must be bracketed for bisection in FindRootBisection");
 				return result;
 			}
 
@@ -297,7 +300,7 @@ namespace MML {
 					result.function_value = fmid;
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
-					result.error_message = "Non-finite function value in FindRootBisection iteration";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite function value in FindRootBisection iteration");
 					return result;
 				}
 
@@ -323,7 +326,7 @@ namespace MML {
 			result.function_value = func(rtb);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
-			result.error_message = "Too many bisections in FindRootBisection";
+			result.SetFailure(AlgorithmStatus::MaxIterationsExceeded, "Too many bisections in FindRootBisection");
 			return result;
 		}
 
@@ -404,11 +407,11 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
-				result.error_message = "Non-finite function values in FindRootFalsePosition";
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Non-finite function values in FindRootFalsePosition");
 				return result;
 			}
-			if (f1 * f2 >= 0.0) {
-				result.error_message = "Root must be bracketed for false position";
+			if (!HaveOppositeSigns(f1, f2)) {
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Root must be bracketed for false position");
 				return result;
 			}
 
@@ -429,7 +432,7 @@ namespace MML {
 					result.root = rtf;
 					result.function_value = f;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite function value in FindRootFalsePosition";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite function value in FindRootFalsePosition");
 					return result;
 				}
 
@@ -460,7 +463,7 @@ namespace MML {
 			result.function_value = func(rtf);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
-			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
+			result.SetFailure(AlgorithmStatus::MaxIterationsExceeded, "Maximum number of iterations exceeded in FindRootFalsePosition");
 			return result;
 		}
 
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..59e5aa4 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -145,8 +145,8 @@ namespace MML {
 
 			Real f1 = func(x1);
 			Real f2 = func(x2);
-			if (f1 * f2 > 0.0) {
-				result.error_message = "Root must be bracketed for Newton-Raphson method";
+			if ((f1 > 0.0 && f2 > 0.0) || (f1 < 0.0 && f2 < 0.0)) {
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Root must be bracketed for Newton-Raphson method");
 				return result;
 			}
 
@@ -163,7 +163,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite derivative in FindRootNewton";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite derivative in FindRootNewton");
 					return result;
 				}
 				Real dfThreshold = std::sqrt(Real(Constants::Eps));
@@ -171,7 +171,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
-					result.error_message = "Zero or near-zero derivative in FindRootNewton";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Zero or near-zero derivative in FindRootNewton");
 					return result;
 				}
 
@@ -182,7 +182,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite step in FindRootNewton";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite step in FindRootNewton");
 					return result;
 				}
 
@@ -198,7 +198,7 @@ namespace MML {
 					result.function_value = func(rtn);
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
-					result.error_message = "Jumped out of brackets in FindRootNewton";
+					result.SetFailure(AlgorithmStatus::AlgorithmSpecificFailure, "Jumped out of brackets in FindRootNewton");
 					return result;
 				}
 
@@ -216,7 +216,7 @@ namespace MML {
 			result.function_value = func(rtn);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
-			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
+			result.SetFailure(AlgorithmStatus::MaxIterationsExceeded, "Maximum number of iterations exceeded in FindRootNewton");
 			return result;
 		}
 
@@ -301,12 +301,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
-				result.error_message = "Non-finite function values in FindRootSecant";
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Non-finite function values in FindRootSecant");
 				return result;
 			}
 
-			if (f1 * f2 > 0.0) {
-				result.error_message = "Root must be bracketed for Secant method";
+			if ((f1 > 0.0 && f2 > 0.0) || (f1 < 0.0 && f2 < 0.0)) {
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Root must be bracketed for Secant method");
 				return result;
 			}
 
@@ -325,7 +325,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite step in FindRootSecant";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite step in FindRootSecant");
 					return result;
 				}
 
@@ -338,7 +338,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite function value in FindRootSecant";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite function value in FindRootSecant");
 					return result;
 				}
 
@@ -347,7 +347,18 @@ namespace MML {
 							  << ", f(x)=" << f2 << ", dx=" << dx << std::endl;
 				}
 
+				// A small step only indicates a root if it also reduced the function value (with one huge
+				// function value the secant is nearly vertical and the step is tiny anywhere), or if the
+				// function changes sign around the new point.
+				bool accepted = false;
 				if (std::abs(dx) < config.tolerance) {
+					accepted = std::abs(f2) <= 0.5 * std::abs(f1);
+					if (!accepted) {
+						Real h = std::max(config.tolerance, Real(8.0) * Constants::Eps * std::abs(x2));
+						accepted = HaveOppositeSigns(func(x2 - h), func(x2 + h));
+					}
+				}
+				if (accepted) {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
@@ -361,7 +372,7 @@ namespace MML {
 			result.function_value = f2;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
-			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
+			result.SetFailure(AlgorithmStatus::MaxIterationsExceeded, "Maximum number of iterations exceeded in FindRootSecant");
 			return result;
 		}
 
@@ -454,16 +465,17 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
-				result.error_message = "Non-finite function values in FindRootRidders";
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Non-finite function values in FindRootRidders");
 				return result;
 			}
-			if (f1 * f2 >= 0.0) {
-				result.error_message = "Root must be bracketed for Ridders method";
+			if (!HaveOppositeSigns(f1, f2)) {
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Root must be bracketed for Ridders method");
 				return result;
 			}
 
 			int maxIter = (config.max_iterations > 0) ? config.max_iterations : Defaults::BisectionMaxSteps;
-			Real ans = -1.0e99;
+			Real ans = 0.5 * (x1 + x2);
+			bool haveEstimate = false;
 
 			for (int j = 0; j < maxIter; j++) {
 				Real xm = 0.5 * (x1 + x2);
@@ -473,31 +485,41 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fm;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite function value in FindRootRidders";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite function value in FindRootRidders");
 					return result;
 				}
 
-				Real s = std::sqrt(fm * fm - f1 * f2);
-				if (s == 0.0) {
-					result.root = ans;
-					result.function_value = func(ans);
+				if (fm == 0.0) {
+					result.root = xm;
+					result.function_value = fm;
 					result.iterations_used = j + 1;
 					result.converged = true;
-					result.achieved_tolerance = std::abs(x2 - x1);
+					result.achieved_tolerance = 0.0;
 					return result;
 				}
 
-				Real xnew = xm + (xm - x1) * ((f1 >= f2 ? 1.0 : -1.0) * fm / s);
-
-				if (std::abs(xnew - ans) <= config.tolerance) {
-					result.root = ans;
-					result.function_value = func(ans);
-					result.iterations_used = j + 1;
-					result.converged = true;
-					result.achieved_tolerance = std::abs(xnew - ans);
-					return result;
+				// s = sqrt(fm^2 - f1*f2), scaled so that the products neither underflow nor overflow
+				Real fscale = std::max(std::abs(fm), std::max(std::abs(f1), std::abs(f2)));
+				Real s = fscale * std::sqrt((fm / fscale) * (fm / fscale) - (f1 / fscale) * (f2 / fscale));
+
+				Real xnew = (s > 0.0) ? xm + (xm - x1) * ((f1 >= f2 ? 1.0 : -1.0) * fm / s) : xm;
+
+				// Two agreeing estimates are accepted only if the function really changes sign around them
+				if (haveEstimate && std::abs(xnew - ans) <= config.tolerance) {
+					Real h = std::max(config.tolerance, Real(4.0) * Constants::Eps * std::abs(ans));
+					Real flo = func(std::max(ans - h, std::min(x1, x2)));
+					Real fhi = func(std::min(ans + h, std::max(x1, x2)));
+					if (flo == 0.0 || fhi == 0.0 || HaveOppositeSigns(flo, fhi)) {
+						result.root = ans;
+						result.function_value = func(ans);
+						result.iterations_used = j + 1;
+						result.converged = true;
+						result.achieved_tolerance = std::abs(xnew - ans);
+						return result;
+					}
 				}
 
+				haveEstimate = true;
 				ans = xnew;
 				Real fnew = func(ans);
 
@@ -505,7 +527,7 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
-					result.error_message = "Non-finite function value in FindRootRidders";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite function value in FindRootRidders");
 					return result;
 				}
 
@@ -551,7 +573,7 @@ namespace MML {
 			result.function_value = func(ans);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
-			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
+			result.SetFailure(AlgorithmStatus::MaxIterationsExceeded, "Maximum number of iterations exceeded in FindRootRidders");
 			return result;
 		}
 
@@ -660,11 +682,11 @@ namespace MML {
 			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
-				result.error_message = "Non-finite function values in FindRootBrent";
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Non-finite function values in FindRootBrent");
 				return result;
 			}
-			if (fa * fb >= 0.0) {
-				result.error_message = "Root must be bracketed for Brent method";
+			if (!HaveOppositeSigns(fa, fb)) {
+				result.SetFailure(AlgorithmStatus::InvalidInput, "Root must be bracketed for Brent method");
 				return result;
 			}
 
@@ -745,7 +767,7 @@ namespace MML {
 					result.root = b;
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
-					result.error_message = "Non-finite function value in FindRootBrent";
+					result.SetFailure(AlgorithmStatus::NumericalInstability, "Non-finite function value in FindRootBrent");
 					return result;
 				}
 			}
@@ -754,7 +776,7 @@ namespace MML {
 			result.function_value = fb;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
-			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
+			result.SetFailure(AlgorithmStatus::MaxIterationsExceeded, "Maximum number of iterations exceeded in FindRootBrent");
 			return result;
 		}
 
-- 
2.43.0


From 686f87955a1a06c572caf234853c5fb9c80a6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 16/62] fix: polynomial root solvers handle double zero roots,
 any coefficient and root scale, and Cardano cancellation

---
 .../RootFinding/RootFindingPolynoms.h         | 148 ++++++++++++++----
 1 file changed, 120 insertions(+), 28 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingPolynoms.h b/mml/algorithms/RootFinding/RootFindingPolynoms.h
index 2a6b7e7..ec22c04 100644
--- a/mml/algorithms/RootFinding/RootFindingPolynoms.h
+++ b/mml/algorithms/RootFinding/RootFindingPolynoms.h
@@ -33,12 +33,31 @@ namespace MML {
    * Complexity: O(1) for all three — direct computation, no iteration.
    ***************************************************************************************************/
 
+  /// Magnitude scale of the roots of the monic polynomial x^n + c[n-1] x^(n-1) + ... + c[0]:
+  /// the power of two next to max |c[n-k]|^(1/k) (1 if all coefficients are zero). Substituting
+  /// x = scale * y makes all coefficients of order one or less.
+  inline Real PolynomialRootScale(const std::vector<Real>& c) {
+    Real m = 0;
+    for (size_t k = 1; k <= c.size(); k++)
+      m = std::max(m, std::pow(std::abs(c[c.size() - k]), Real(1.0) / Real(k)));
+    return (m > 0 && std::isfinite(m)) ? std::scalbn(Real(1.0), std::ilogb(m)) : Real(1.0);
+  }
+
   /// Solve quadratic equation: a*x^2 + b*x + c = 0
   /// @return Number of real roots (0 or 2); complex roots returned via x1, x2
   inline int SolveQuadratic(Real a, Real b, Real c, Complex &x1, Complex &x2) {
+    // Common power-of-two factor does not change the roots, but keeps the discriminant in range
+    Real maxCoef = std::max(std::abs(a), std::max(std::abs(b), std::abs(c)));
+    if (maxCoef > 0 && std::isfinite(maxCoef)) {
+      int e = std::ilogb(maxCoef);
+      a = std::scalbn(a, -e);
+      b = std::scalbn(b, -e);
+      c = std::scalbn(c, -e);
+    }
+
     // Degenerate: a=0 reduces to linear equation b*x + c = 0
-    if (std::abs(a) < Constants::Eps) {
-      if (std::abs(b) < Constants::Eps) {
+    if (a == 0) {
+      if (b == 0) {
         x1 = x2 = Complex(0);
         return 0;
       }
@@ -54,7 +73,7 @@ namespace MML {
       Real sqrtD = std::sqrt(D);
       Real q = Real(-0.5) * (b + std::copysign(sqrtD, b));
       x1 = q / a;
-      x2 = c / q;
+      x2 = (q == 0) ? Real(0) : c / q; // q = 0 only for b = c = 0 (double root at zero)
       return 2;
     } else {
       Complex sqrtD = std::sqrt(Complex(D));
@@ -68,16 +87,24 @@ namespace MML {
   inline void SolveQuadratic(const Complex &a, const Complex &b, const Complex &c,
                              Complex &x1, Complex &x2) {
     // Degenerate: a=0 reduces to linear equation b*x + c = 0
-    if (std::abs(a) < Constants::Eps) {
-      x1 = (std::abs(b) < Constants::Eps) ? Complex(0) : -c / b;
+    if (a == Complex(0)) {
+      x1 = (b == Complex(0)) ? Complex(0) : -c / b;
       x2 = Complex(0);
       return;
     }
 
     Complex D = b * b - Real(4.0) * a * c;
     Complex sqrtD = std::sqrt(D);
-    x1 = (-b + sqrtD) / (Real(2.0) * a);
-    x2 = (-b - sqrtD) / (Real(2.0) * a);
+    // Numerically stable: the root with the larger |b +- sqrtD| first, the other one from x1*x2 = c/a
+    if (std::real(std::conj(b) * sqrtD) < 0) {
+      Complex q = Real(-0.5) * (b - sqrtD);
+      x1 = q / a;
+      x2 = c / q;
+    } else {
+      Complex q = Real(-0.5) * (b + sqrtD);
+      x2 = q / a;
+      x1 = (q == Complex(0)) ? Complex(0) : c / q;
+    }
   }
 
   /// Solve cubic equation: a*x^3 + b*x^2 + c*x + d = 0 (Cardano's formula)
@@ -85,17 +112,29 @@ namespace MML {
   inline int SolveCubic(Real a, Real b, Real c, Real d, Complex &x1, Complex &x2,
                         Complex &x3) {
     // Degenerate: a=0 reduces to quadratic b*x^2 + c*x + d = 0
-    if (std::abs(a) < Constants::Eps) {
+    if (a == 0) {
       int n = SolveQuadratic(b, c, d, x1, x2);
       x3 = Complex(0);
       return n;
     }
+    // Cubic term negligible at the roots of the quadratic: the third root is far away, at -b/a
+    if (b != 0 && std::abs(a) * (1 + std::max(std::abs(c / b), std::sqrt(std::abs(d / b)))) <= Constants::Eps * std::abs(b)) {
+      int n = SolveQuadratic(b, c, d, x1, x2);
+      x3 = Complex(-b / a);
+      return n + 1;
+    }
 
     // Normalize the coefficients
     Real A = b / a;
     Real B = c / a;
     Real C = d / a;
 
+    // Scale the variable (x = scale * y) so that all coefficients are of order one or less
+    Real scale = PolynomialRootScale({C, B, A});
+    A /= scale;
+    B = B / scale / scale;
+    C = C / scale / scale / scale;
+
     // Calculate the discriminant
     Real Q = (Real(3.0) * B - POW2(A)) / Real(9.0);
     Real R =
@@ -104,8 +143,12 @@ namespace MML {
 
     if (D >= 0) // Complex or duplicate roots
     {
-      Real S = std::cbrt(R + std::sqrt(D));
-      Real T = std::cbrt(R - std::sqrt(D));
+      // The larger of the two cube roots is computed directly, the other one from S * T = -Q
+      // (no cancellation in R -+ sqrt(D))
+      Real S = std::cbrt(R + std::copysign(std::sqrt(D), R));
+      Real T = (S == 0) ? Real(0) : -Q / S;
+      if (R < 0)
+        std::swap(S, T);
 
       x1 = -A / Real(3.0) + (S + T); // Real root
       x2 = -A / Real(3.0) - (S + T) / Real(2.0) +
@@ -113,10 +156,13 @@ namespace MML {
       x3 = -A / Real(3.0) - (S + T) / Real(2.0) -
            Complex(0, std::sqrt(Real(3.0)) * (S - T) / Real(2.0)); // Complex root
 
+      x1 *= scale;
+      x2 *= scale;
+      x3 *= scale;
       return 1;
     } else // Three real roots
     {
-      Real theta = std::acos(R / std::sqrt(-POW3(Q)));
+      Real theta = std::acos(std::max(Real(-1.0), std::min(Real(1.0), R / std::sqrt(-POW3(Q)))));
       x1 =
           Real(2.0) * std::sqrt(-Q) * std::cos(theta / Real(3.0)) - A / Real(3.0);
       x2 = Real(2.0) * std::sqrt(-Q) *
@@ -126,6 +172,9 @@ namespace MML {
                std::cos((theta + Real(4.0) * Constants::PI) / Real(3.0)) -
            A / Real(3.0);
 
+      x1 *= scale;
+      x2 *= scale;
+      x3 *= scale;
       return 3;
     }
   }
@@ -135,11 +184,17 @@ namespace MML {
   inline void SolveQuartic(Real a, Real b, Real c, Real d, Real e, Complex &x1,
                            Complex &x2, Complex &x3, Complex &x4) {
     // Degenerate: reduce to cubic
-    if (std::abs(a) < Constants::Eps) {
+    if (a == 0) {
       SolveCubic(b, c, d, e, x1, x2, x3);
       x4 = Complex(0);
       return;
     }
+    // Quartic term negligible at the roots of the cubic: the fourth root is far away, at -b/a
+    if (b != 0 && std::abs(a) * (1 + std::max(std::abs(c / b), std::max(std::sqrt(std::abs(d / b)), std::cbrt(std::abs(e / b))))) <= Constants::Eps * std::abs(b)) {
+      SolveCubic(b, c, d, e, x1, x2, x3);
+      x4 = Complex(-b / a);
+      return;
+    }
 
     // Normalize coefficients
     Real A = b / a;
@@ -147,6 +202,14 @@ namespace MML {
     Real C = d / a;
     Real D = e / a;
 
+    // Scale the variable (x = scale * y) so that all coefficients are of order one or less
+    Real scale = PolynomialRootScale({D, C, B, A});
+    A /= scale;
+    B = B / scale / scale;
+    C = C / scale / scale / scale;
+    D = D / scale / scale / scale / scale;
+    auto rescale = [&]() { x1 *= scale; x2 *= scale; x3 *= scale; x4 *= scale; };
+
     // Depressed quartic y = x + A/4: y^4 + P y^2 + Q y + R = 0
     Real AA = A * A;
     Real P = B - Real(3.0) * AA / Real(8.0);
@@ -163,6 +226,7 @@ namespace MML {
       x2 = -std::sqrt(t1) - A / Real(4.0);
       x3 = std::sqrt(t2) - A / Real(4.0);
       x4 = -std::sqrt(t2) - A / Real(4.0);
+      rescale();
       return;
     }
 
@@ -199,9 +263,30 @@ namespace MML {
     x2 = y2 - A / Real(4.0);
     x3 = y3 - A / Real(4.0);
     x4 = y4 - A / Real(4.0);
+    rescale();
   }
 
 	namespace RootFinding {
+		/// Coefficients c[0..n] of the monic polynomial in y with poly(scale * y) = poly[n] * scale^n * (c[0] + ... + y^n).
+		/// Roots and convergence criteria of the iterative methods do not depend on the scale of poly or of its roots then.
+		/// @throws RootFindingError if the leading coefficient is zero
+		static std::vector<Real> ScaledMonicCoefficients(const PolynomReal& poly, Real& scale) {
+			int degree = poly.degree();
+			if (poly[degree] == 0.0)
+				throw RootFindingError("Polynomial leading coefficient is zero");
+
+			std::vector<Real> coef(degree);
+			for (int i = 0; i < degree; i++)
+				coef[i] = poly[i] / poly[degree];
+
+			scale = PolynomialRootScale(coef);
+			for (int i = 0; i < degree; i++)
+				for (int k = i; k < degree; k++)
+					coef[i] /= scale;
+			coef.push_back(Real(1.0));
+			return coef;
+		}
+
 		/***************************************************************************************************
     * POLYNOMIAL ROOT FINDING METHODS (General Degree)
     ***************************************************************************************************/
@@ -224,9 +309,12 @@ namespace MML {
 				return roots;
 
 			// Work with coefficient array (not Polynom object due to operator[] template issues)
+			// Monic and scaled, so that the tolerance is relative to the magnitude of the roots
+			Real scale;
+			std::vector<Real> coef = ScaledMonicCoefficients(poly, scale);
 			Vector<Complex> workCoeffs(degree + 1);
 			for (int i = 0; i <= degree; i++)
-				workCoeffs[i] = std::complex<Real>(poly[i], 0.0);
+				workCoeffs[i] = std::complex<Real>(coef[i], 0.0);
 
 			// Find roots one by one with deflation
 			for (int currentDegree = degree; currentDegree >= 1; currentDegree--) {
@@ -289,7 +377,7 @@ namespace MML {
 						x -= p / dp;
 				}
 
-				roots.push_back(x);
+				roots.push_back(x * scale);
 
 				// Deflate polynomial
 				if (currentDegree > 1) {
@@ -319,6 +407,8 @@ namespace MML {
 				return roots;
 
 			if (degree == 1) {
+				if (poly[1] == 0.0)
+					throw RootFindingError("Polynomial leading coefficient is zero");
 				roots.push_back(std::complex<Real>(-poly[0] / poly[1], 0.0));
 				return roots;
 			}
@@ -333,13 +423,12 @@ namespace MML {
 			for (int i = 0; i < degree - 1; i++)
 				companion[i][i + 1] = 1.0;
 
-			// Last row: -a_0/a_n, -a_1/a_n, ..., -a_{n-1}/a_n
-			Real leadingCoef = poly[degree];
-			if (std::abs(leadingCoef) < PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
-				throw RootFindingError("Polynomial leading coefficient is zero");
+			// Last row: -c_0, -c_1, ..., -c_{n-1} of the scaled monic polynomial
+			Real scale;
+			std::vector<Real> coef = ScaledMonicCoefficients(poly, scale);
 
 			for (int i = 0; i < degree; i++)
-				companion[degree - 1][i] = -poly[i] / leadingCoef;
+				companion[degree - 1][i] = -coef[i];
 
 			// Solve eigenvalue problem
 			auto eigenResult = EigenSolver::Solve(companion, 1e-10, 1000);
@@ -349,7 +438,7 @@ namespace MML {
 
 			// Extract eigenvalues as roots
 			for (const auto& eval : eigenResult.eigenvalues)
-				roots.push_back(std::complex<Real>(eval.real, eval.imag));
+				roots.push_back(std::complex<Real>(eval.real * scale, eval.imag * scale));
 
 			return roots;
 		}
@@ -372,9 +461,12 @@ namespace MML {
 				return roots;
 
 			// Work with coefficient array a[0..n] where poly = a[0] + a[1]x + ... + a[n]x^n
+			// (monic and scaled, so that the tolerance is relative to the magnitude of the roots)
+			Real scale;
+			std::vector<Real> coef = ScaledMonicCoefficients(poly, scale);
 			Vector<Real> a(n + 1);
 			for (int i = 0; i <= n; i++)
-				a[i] = poly[i];
+				a[i] = coef[i];
 
 			while (n >= 2) {
 				// Initial guess for quadratic factor x² + u*x + v
@@ -386,8 +478,8 @@ namespace MML {
 				if (initialRoots.size() >= 2 && n == poly.degree()) {
 					Complex r1 = initialRoots[roots.size()];
 					Complex r2 = (roots.size() + 1 < initialRoots.size()) ? initialRoots[roots.size() + 1] : std::conj(r1);
-					u = -(r1 + r2).real();
-					v = (r1 * r2).real();
+					u = -(r1 + r2).real() / scale;
+					v = (r1 * r2).real() / scale / scale;
 				}
 
 				// Bairstow's method iteration
@@ -461,12 +553,12 @@ namespace MML {
 				Real discriminant = u * u - Real(4.0) * v;
 				if (discriminant >= 0) {
 					Real sqrtDisc = std::sqrt(discriminant);
-					roots.push_back(std::complex<Real>((-u + sqrtDisc) / Real(2.0), 0.0));
-					roots.push_back(std::complex<Real>((-u - sqrtDisc) / Real(2.0), 0.0));
+					roots.push_back(std::complex<Real>(scale * (-u + sqrtDisc) / Real(2.0), 0.0));
+					roots.push_back(std::complex<Real>(scale * (-u - sqrtDisc) / Real(2.0), 0.0));
 				} else {
 					Real sqrtDisc = std::sqrt(-discriminant);
-					roots.push_back(std::complex<Real>(-u / Real(2.0), sqrtDisc / Real(2.0)));
-					roots.push_back(std::complex<Real>(-u / Real(2.0), -sqrtDisc / Real(2.0)));
+					roots.push_back(std::complex<Real>(-scale * u / Real(2.0), scale * sqrtDisc / Real(2.0)));
+					roots.push_back(std::complex<Real>(-scale * u / Real(2.0), -scale * sqrtDisc / Real(2.0)));
 				}
 
 				// Deflate: new polynomial is Q(x) with coefficients b[0], b[1], ..., b[n-2]
@@ -482,7 +574,7 @@ namespace MML {
 			// Handle remaining linear term: a[0] + a[1]*x = 0
 			if (n == 1) {
 				if (std::abs(a[1]) > PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
-					roots.push_back(std::complex<Real>(-a[0] / a[1], 0.0));
+					roots.push_back(std::complex<Real>(-scale * a[0] / a[1], 0.0));
 			}
 
 			return roots;
-- 
2.43.0


From bfe173a931e2434460645de4f80c0139b35db149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:45 +0000
Subject: [PATCH 17/62] fix: interpolants validate table sizes, support
 descending tables, closed curves and copying

---
 .../InterpolatedRealFunction.h                | 26 ++++++++++---
 .../Interpolation2DFunction.h                 |  4 ++
 .../InterpolationParametricCurve.h            | 39 ++++++++++++++-----
 3 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..85cdc3a 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -66,6 +66,8 @@ namespace MML {
 			, _y(y)
 			, _numPoints(x.size())
 			, _usedPoints(usedPointsInInterpolation) {
+			if (_x.size() != _y.size())
+				throw RealFuncInterpInitError("RealFunctionInterpolated: x and y must have the same size");
 			// throw if not enough points
 			if (_numPoints < 2 || _usedPoints < 2 || _usedPoints > _numPoints)
 				throw RealFuncInterpInitError("RealFunctionInterpolated size error");
@@ -92,11 +94,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value in the data. */
 
-		inline Real MinX() const { return X(0); }
+		inline Real MinX() const { return std::min(X(0), X(_numPoints - 1)); }
 
 		/// /** @brief Get the maximum x-value in the data. */
 
-		inline Real MaxX() const { return X(_numPoints - 1); }
+		inline Real MaxX() const { return std::max(X(0), X(_numPoints - 1)); }
 
 		/// @}
 
@@ -487,6 +489,11 @@ namespace MML {
 			if (a < MinX() || b > MaxX())
 				throw DomainError("Spline integration: bounds exceed data domain");
 
+			// Segments are visited in index order: for descending tables that is from b down to a
+			bool descending = X(0) > X(getNumPoints() - 1);
+			if (descending)
+				std::swap(a, b);
+
 			Real integral = 0.0;
 			int iLow = locate(a);
 			int iHigh = locate(b);
@@ -536,7 +543,7 @@ namespace MML {
 				integral += integrateSegment(iHigh, X(iHigh), b);
 			}
 
-			return integral;
+			return descending ? -integral : integral;
 		}
 
 		/// @}
@@ -721,10 +728,16 @@ namespace MML {
 			, _x(xv)
 			, _y(yv)
 			, _w(_n) {
+			if (_x.size() != _y.size())
+				throw RealFuncInterpInitError("BarycentricRationalInterp: x and y must have the same size");
 			if (_n <= _d)
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d too large for number of points");
 			if (_d < 0)
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d must be non-negative");
+			for (int i = 0; i < _n; i++)
+				for (int j = i + 1; j < _n; j++)
+					if (_x[i] == _x[j])
+						throw RealFuncInterpInitError("BarycentricRationalInterp: duplicate x-value at indices " + std::to_string(i) + " and " + std::to_string(j));
 			computeWeights();
 		}
 
@@ -733,11 +746,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value. */
 
-		Real MinX() const { return _x[0]; }
+		Real MinX() const { return std::min(_x[0], _x[_n - 1]); }
 
 		/// /** @brief Get the maximum x-value. */
 
-		Real MaxX() const { return _x[_n - 1]; }
+		Real MaxX() const { return std::max(_x[0], _x[_n - 1]); }
 
 		/// /** @brief Get the number of data points. */
 
@@ -761,6 +774,9 @@ namespace MML {
 					return _y[i]; // Exact hit on a data point
 				}
 				Real temp = _w[i] / h;
+				if (std::isinf(temp) || std::isinf(temp * _y[i])) {
+					return _y[i]; // So close to the data point that the quotient overflows
+				}
 				num += temp * _y[i];
 				den += temp;
 			}
diff --git a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
index e56e6bc..b8d85e5 100644
--- a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
+++ b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
@@ -92,6 +92,8 @@ namespace MML {
 			, _z(zm) {
 			if (zm.rows() != _m || zm.cols() != _n)
 				throw RealFuncInterpInitError("BilinearInterp2D: matrix dimensions don't match grid");
+			if (_m < 2 || _n < 2)
+				throw RealFuncInterpInitError("BilinearInterp2D: at least two grid points are needed in each direction");
 		}
 
 		/// @brief Evaluate the bilinear interpolation at (x1, x2).
@@ -197,6 +199,8 @@ namespace MML {
 			, _rowSplines(_m) {
 			if (zm.rows() != _m || zm.cols() != _n)
 				throw RealFuncInterpInitError("BicubicSplineInterp2D: matrix dimensions don't match grid");
+			if (_m < 2 || _n < 2)
+				throw RealFuncInterpInitError("BicubicSplineInterp2D: at least two grid points are needed in each direction");
 
 			// Create a spline along x2 for each row (fixed x1[i])
 			for (int i = 0; i < _m; i++) {
diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..6f23a61 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -23,6 +23,7 @@
 #define MML_INTERPOLATION_PARAMETRIC_CURVE_H
 
 #include <cmath>
+#include <memory>
 #include <vector>
 
 #include "MMLBase.h"
@@ -74,6 +75,27 @@ namespace MML {
 			, _curvePoints(ptsin)
 			, _arcLen(_numPoints)
 			, _isCurveClosed(close) {
+			if (_curvePoints.cols() != N)
+				throw MatrixDimensionError("LinInterpParametricCurve: template dimension N must match point matrix column count");
+			if (_numPoints < 2)
+				throw RealFuncInterpInitError("LinInterpParametricCurve: at least two points are needed");
+
+			// A closed curve also has the segment from the last point back to the first one
+			if (_isCurveClosed) {
+				bool alreadyClosed = true;
+				for (int j = 0; j < N; ++j)
+					alreadyClosed = alreadyClosed && _curvePoints[_numPoints - 1][j] == _curvePoints[0][j];
+
+				if (!alreadyClosed) {
+					_curvePoints = Matrix<Real>(_numPoints + 1, N);
+					for (int i = 0; i <= _numPoints; ++i)
+						for (int j = 0; j < N; ++j)
+							_curvePoints[i][j] = ptsin[i % _numPoints][j];
+					_numPoints++;
+					_arcLen = Vector<Real>(_numPoints);
+				}
+			}
+
 			// Compute normalized arc length parameterization
 			_arcLen[0] = 0.0;
 			Real totalLen = 0.0;
@@ -160,7 +182,7 @@ namespace MML {
 		Vector<Real> s;			   ///< Arc-length parameters
 		Vector<Real> ans;		   ///< Temporary result storage
 
-		std::vector<SplineInterpRealFunc*> srp; ///< Spline for each coordinate
+		std::vector<std::shared_ptr<SplineInterpRealFunc>> srp; ///< Spline for each coordinate (shared by copies)
 
 	public:
 		/// @brief Construct a spline-interpolated parametric curve.
@@ -186,6 +208,9 @@ namespace MML {
 			if (N != _dim)
 				throw MatrixDimensionError("SplineInterpParametricCurve: template dimension N must match point matrix column count");
 
+			if (_numPoints < 2)
+				throw RealFuncInterpInitError("SplineInterpParametricCurve: at least two points are needed");
+
 			int i, ii, im, j, ofs;
 			Real ss, soff, db, de;
 
@@ -219,7 +244,7 @@ namespace MML {
 
 				Vector<Real> vec = _curvePoints.VectorFromRow(j);
 
-				srp[j] = new SplineInterpRealFunc(s, vec, db, de);
+				srp[j] = std::make_shared<SplineInterpRealFunc>(s, vec, db, de);
 			}
 		}
 
@@ -230,11 +255,6 @@ namespace MML {
 		SplineInterpParametricCurve(const Matrix<Real>& ptsin, bool close = 0)
 			: SplineInterpParametricCurve(0.0, 1.0, ptsin, close) {}
 
-		~SplineInterpParametricCurve() {
-			for (int j = 0; j < _dim; j++)
-				delete srp[j];
-		}
-
 		/// /** @brief Get the minimum parameter value. */
 
 		Real getMinT() const { return _minT; }
@@ -256,11 +276,12 @@ namespace MML {
 
 			VectorN<Real, N> ans;
 
+			// we have to map t from [minT, maxT] to [0, 1]
+			t = (t - _minT) / (_maxT - _minT);
+
 			if (_isCurveClosed)
 				t = t - floor(t);
 
-			// we have to map t from [minT, maxT] to [0, 1]
-			t = (t - _minT) / (_maxT - _minT);
 			for (int j = 0; j < _dim; j++)
 				ans[j] = (*srp[j])(t);
 
-- 
2.43.0


From 6f8d642ea85db329d5e2a5aed705fda29b4a7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 18/62] fix: derivative error estimates, right-sided
 difference, rectangular Jacobian and tensor-field derivatives

---
 .../Derivation/DerivationParametricCurve.h    | 14 ++++-----
 mml/core/Derivation/DerivationRealFunction.h  | 29 ++++++++++++------
 .../Derivation/DerivationScalarFunction.h     |  4 +--
 mml/core/Derivation/DerivationTensorField.h   | 30 +++++++++++++++----
 mml/core/Derivation/ForwardAD.h               |  4 +++
 mml/core/Derivation/Jacobians.h               |  5 +++-
 6 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/mml/core/Derivation/DerivationParametricCurve.h b/mml/core/Derivation/DerivationParametricCurve.h
index fcf6a99..f4d7c4f 100644
--- a/mml/core/Derivation/DerivationParametricCurve.h
+++ b/mml/core/Derivation/DerivationParametricCurve.h
@@ -96,7 +96,7 @@ namespace MML
 				VectorN<Real, N> y3h = f(t + 3 * h);
 				VectorN<Real, N> ym3h = f(t - 3 * h);
 
-				*error = std::abs((y3h - ym3h).NormL2() / 2 + 2 * (ym2h - y2h).NormL2() + 5 * (yh - ymh).NormL2() / 2) / (30 * h);
+				*error = ((y3h - ym3h) / 2 + 2 * (ym2h - y2h) + 5 * (yh - ymh) / 2).NormL2() / (30 * h);
 				*error += Constants::Eps * (y2h.NormL2() + ym2h.NormL2() + 8 * (ymh.NormL2() + yh.NormL2())) / (12 * h);
 			}
 			return (y2 + 8 * y1) / (12 * h);
@@ -191,7 +191,7 @@ namespace MML
 				VectorN<Real, N> ym2h = f(t - 2*h);
 				Real f4_approx = (ym2h - 4.0*ymh + 6.0*y0 - 4.0*yh + y2h).NormL2() / h2;
 				
-				*error = f4_approx * h2 / 12.0 + 
+				*error = f4_approx / 12.0 + 
 				         Constants::Eps * (ymh.NormL2() + 2*y0.NormL2() + yh.NormL2()) / h2;
 			}
 			
@@ -224,7 +224,7 @@ namespace MML
 				VectorN<Real, N> ym3h = f(t - 3*h);
 				Real f6_approx = (ym3h - 6.0*ym2h + 15.0*ymh - 20.0*y0 + 15.0*yh - 6.0*y2h + y3h).NormL2() / h2;
 				
-				*error = f6_approx * h2 * h2 / 90.0 + 
+				*error = f6_approx / 90.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 16*ymh.NormL2() + 30*y0.NormL2() + 
 				                           16*yh.NormL2() + y2h.NormL2()) / (12.0 * h2);
 			}
@@ -262,9 +262,9 @@ namespace MML
 				// Error estimate using 5th derivative approximation
 				VectorN<Real, N> y3h = f(t + 3*h);
 				VectorN<Real, N> ym3h = f(t - 3*h);
-				Real f5_approx = (ym3h - 3.0*ym2h + 5.0*ymh - 5.0*yh + 3.0*y2h - y3h).NormL2() / h3;
+				Real f5_approx = (ym3h - 4.0*ym2h + 5.0*ymh - 5.0*yh + 4.0*y2h - y3h).NormL2() / h3;
 				
-				*error = f5_approx * h * h / 4.0 + 
+				*error = f5_approx / 8.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 2*ymh.NormL2() + 2*yh.NormL2() + y2h.NormL2()) / (2.0 * h3);
 			}
 			
@@ -297,9 +297,9 @@ namespace MML
 				// Error estimate using 7th derivative approximation
 				VectorN<Real, N> y4h = f(t + 4*h);
 				VectorN<Real, N> ym4h = f(t - 4*h);
-				Real f7_approx = (ym4h - 4.0*ym3h + 9.0*ym2h - 13.0*ymh + 13.0*yh - 9.0*y2h + 4.0*y3h - y4h).NormL2() / h3;
+				Real f7_approx = (ym4h - 6.0*ym3h + 14.0*ym2h - 14.0*ymh + 14.0*yh - 14.0*y2h + 6.0*y3h - y4h).NormL2() / h3;
 				
-				*error = f7_approx * h * h * h * h / 120.0 + 
+				*error = 7.0 * f7_approx / 240.0 + 
 				         Constants::Eps * (ym3h.NormL2() + 8*ym2h.NormL2() + 13*ymh.NormL2() + 
 				                           13*yh.NormL2() + 8*y2h.NormL2() + y3h.NormL2()) / (8.0 * h3);
 			}
diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 75c32ad..5d1d549 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -135,12 +135,23 @@ namespace MML
 		
 		static Real NDer1Left(const IRealFunction& f, Real x, Real* error = nullptr) 
 		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x - h, h, error); }
-		static Real NDer1Right(const IRealFunction& f, Real x, Real* error = nullptr) 
-		{ Real h = ScaleStep(NDer1_h, x); return NDer1(f, x, h, error); }
 		static Real NDer1Left(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
 		{ return NDer1(f, x - h, h, error); }
 		static Real NDer1Right(const IRealFunction& f, Real x, Real h, Real* error = nullptr) 
-		{ return NDer1(f, x, h, error); }
+		{
+			Real result = NDer1(f, x, h);
+			if (error)
+			{
+				// error estimate, too, may only use points on the right side
+				Real y0 = f(x);
+				Real yh = f(x + h);
+				Real y2h = f(x + 2 * h);
+				*error = std::abs(y2h - 2 * yh + y0) / (2 * h) + (std::abs(yh) + std::abs(y0)) * Constants::Eps / h;
+			}
+			return result;
+		}
+		static Real NDer1Right(const IRealFunction& f, Real x, Real* error = nullptr) 
+		{ Real h = ScaleStep(NDer1_h, x); return NDer1Right(f, x, h, error); }
 
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
@@ -382,7 +393,7 @@ namespace MML
 						Real y2h = f(x + 2 * h);
 						Real ym2h = f(x - 2 * h);
 						Real f4_approx = std::abs(ym2h - 4 * ymh + 6 * y0 - 4 * yh + y2h) / h2;
-						*error = f4_approx * h2 / 12.0 +
+						*error = f4_approx / 12.0 +
 						         Constants::Eps * (std::abs(ymh) + 2 * std::abs(y0) + std::abs(yh)) / h2;
 					}
 
@@ -429,7 +440,7 @@ namespace MML
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
 						Real f6_approx = std::abs(ym3h - 6 * ym2h + 15 * ymh - 20 * y0 + 15 * yh - 6 * y2h + y3h) / h2;
-						*error = f6_approx * h2 * h2 / 90.0 +
+						*error = f6_approx / 90.0 +
 						         Constants::Eps * (std::abs(ym2h) + 16 * std::abs(ymh) + 30 * std::abs(y0) +
 						                           16 * std::abs(yh) + std::abs(y2h)) / (12.0 * h2);
 					}
@@ -482,8 +493,8 @@ namespace MML
 					{
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
-						Real f5_approx = std::abs(ym3h - 3 * ym2h + 5 * ymh - 5 * yh + 3 * y2h - y3h) / h3;
-						*error = f5_approx * h * h / 4.0 +
+						Real f5_approx = std::abs(ym3h - 4 * ym2h + 5 * ymh - 5 * yh + 4 * y2h - y3h) / h3;
+						*error = f5_approx / 8.0 +
 						         Constants::Eps * (std::abs(ym2h) + 2 * std::abs(ymh) + 2 * std::abs(yh) + std::abs(y2h)) / (2.0 * h3);
 					}
 
@@ -530,8 +541,8 @@ namespace MML
 					{
 						Real y4h = f(x + 4 * h);
 						Real ym4h = f(x - 4 * h);
-						Real f7_approx = std::abs(ym4h - 4 * ym3h + 9 * ym2h - 13 * ymh + 13 * yh - 9 * y2h + 4 * y3h - y4h) / h3;
-						*error = f7_approx * h * h * h * h / 120.0 +
+						Real f7_approx = std::abs(ym4h - 6 * ym3h + 14 * ym2h - 14 * ymh + 14 * yh - 14 * y2h + 6 * y3h - y4h) / h3;
+						*error = 7.0 * f7_approx / 240.0 +
 						         Constants::Eps * (std::abs(ym3h) + 8 * std::abs(ym2h) + 13 * std::abs(ymh) +
 						                           13 * std::abs(yh) + 8 * std::abs(y2h) + std::abs(y3h)) / (8.0 * h3);
 					}
diff --git a/mml/core/Derivation/DerivationScalarFunction.h b/mml/core/Derivation/DerivationScalarFunction.h
index 81181b1..072dbee 100644
--- a/mml/core/Derivation/DerivationScalarFunction.h
+++ b/mml/core/Derivation/DerivationScalarFunction.h
@@ -449,7 +449,7 @@ namespace MML
 					x_2minus[der_ind1] = point[der_ind1] - 2*h;
 					
 					Real f4_approx = std::abs(f(x_2minus) - 4.0*fmh + 6.0*f0 - 4.0*fh + f(x_2plus)) / h2;
-					*error = f4_approx * h2 / 12.0 + 
+					*error = f4_approx / 12.0 + 
 					         Constants::Eps * (std::abs(fmh) + 2*std::abs(f0) + std::abs(fh)) / h2;
 				}
 				
@@ -542,7 +542,7 @@ namespace MML
 					Real fm3h = f(x);
 					
 					Real f6_approx = std::abs(fm3h - 6.0*fm2h + 15.0*fmh - 20.0*f0 + 15.0*fh - 6.0*f2h + f3h) / h2;
-					*error = f6_approx * h2 * h2 / 90.0 + 
+					*error = f6_approx / 90.0 + 
 					         Constants::Eps * (std::abs(fm2h) + 16*std::abs(fmh) + 30*std::abs(f0) + 
 					                           16*std::abs(fh) + std::abs(f2h)) / (12.0 * h2);
 				}
diff --git a/mml/core/Derivation/DerivationTensorField.h b/mml/core/Derivation/DerivationTensorField.h
index 59d5fad..e713ea9 100644
--- a/mml/core/Derivation/DerivationTensorField.h
+++ b/mml/core/Derivation/DerivationTensorField.h
@@ -29,6 +29,12 @@ namespace MML
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of FIRST order                                 ********/
 		/********************************************************************************************************************/
+		template <int N>
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+
+		template <int N>
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error);
+
 		template <int N>
 		static Real NDer1Partial(const ITensorField2<N>& f, int i, int j, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -64,7 +70,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			auto x = point;
 
@@ -92,7 +98,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			auto x = point;
 
@@ -116,6 +122,12 @@ namespace MML
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
 		/********************************************************************************************************************/
+		template <int N>
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+
+		template <int N>
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error);
+
 		template <int N>
 		static Real NDer2Partial(const ITensorField2<N>& f, int i, int j, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -157,7 +169,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
@@ -191,7 +203,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
@@ -221,6 +233,12 @@ namespace MML
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of FOURTH order                                ********/
 		/********************************************************************************************************************/
+		template <int N>
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr);
+
+		template <int N>
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error);
+
 		template <int N>
 		static Real NDer4Partial(const ITensorField2<N>& f, int i, int j, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -269,7 +287,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
@@ -311,7 +329,7 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error)
 		{
 			Real     orig_x = point[deriv_index];
 
diff --git a/mml/core/Derivation/ForwardAD.h b/mml/core/Derivation/ForwardAD.h
index 5772a61..7c928f9 100644
--- a/mml/core/Derivation/ForwardAD.h
+++ b/mml/core/Derivation/ForwardAD.h
@@ -189,6 +189,8 @@ namespace MML::Symbolic
         if (exp.deriv == T(0)) {
             // Constant exponent: d/dx(f^n) = n*f^(n-1)*f'
             T p = std::pow(base.value, exp.value);
+            if (exp.value == T(0))
+                return Dual<T>(p, T(0));	// f^0 is constant, also where f = 0
             return Dual<T>(p, exp.value * std::pow(base.value, exp.value - T(1)) * base.deriv);
         } else if (base.deriv == T(0)) {
             // Constant base: d/dx(a^g) = a^g * ln(a) * g'
@@ -205,6 +207,8 @@ namespace MML::Symbolic
     template<typename T, typename S, typename = std::enable_if_t<std::is_arithmetic_v<S>>>
     Dual<T> pow(const Dual<T>& base, S exp) {
         T p = std::pow(base.value, static_cast<T>(exp));
+        if (static_cast<T>(exp) == T(0))
+            return Dual<T>(p, T(0));	// f^0 is constant, also where f = 0
         return Dual<T>(p, static_cast<T>(exp) * std::pow(base.value, static_cast<T>(exp) - T(1)) * base.deriv);
     }
 
diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index bf6c4a0..6cdaa08 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -71,7 +71,10 @@ namespace MML
 			for (int i = 0; i < M; ++i)
 				for (int j = 0; j < N; ++j)
 				{
-					jac(i, j) = Derivation::NDer4Partial(func, i, j, pos);
+					Real h = ScaleStep(NDer4_h, pos[j]);
+					auto f_at = [&](Real x_j) { VectorN<Real, N> x = pos; x[j] = x_j; return func(x)[i]; };
+
+					jac(i, j) = (-f_at(pos[j] + 2 * h) + 8 * f_at(pos[j] + h) - 8 * f_at(pos[j] - h) + f_at(pos[j] - 2 * h)) / (12 * h);
 				}
 
 			return jac;
-- 
2.43.0


From d0be494c868fe3a90349a7a38a2ce59b54b6f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 19/62] fix: 1-D integration reports honest error estimates,
 evaluation counts and non-finite integrands

---
 mml/core/Integration/GaussKronrod.h  | 16 ++++++++++------
 mml/core/Integration/Integration1D.h | 14 ++++++--------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 059364f..7783a41 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -354,10 +354,12 @@ namespace MML {
 		/// @param tol_rel Relative error tolerance (default 1e-10)
 		/// @param max_depth Maximum recursion depth (default 50)
 		/// @param rule Which Gauss-Kronrod rule to use (default GK15)
+		/// @param parent_finite False if the estimate of the enclosing interval was not finite (used internally):
+		///        subdividing once can step around a singular point, but not around a non-finite region
 		/// @return GKResult with integral and accumulated error estimate
 		template<typename Func>
 		static GKResult IntegrateGKAdaptive(Func f, Real a, Real b, Real tol_abs = 1e-10, Real tol_rel = 1e-10, int max_depth = 50,
-																				GKRule rule = GKRule::GK15) {
+																				GKRule rule = GKRule::GK15, bool parent_finite = true) {
 			// Apply basic rule first
 			GKResult local = (rule == GKRule::GK15)		? IntegrateGK15(f, a, b)
 											 : (rule == GKRule::GK21) ? IntegrateGK21(f, a, b)
@@ -366,17 +368,19 @@ namespace MML {
 			Real tolerance = std::max(tol_abs, tol_rel * std::abs(local.value));
 
 			// Check if we meet tolerance or hit max depth
-			if (local.error_estimate <= tolerance || max_depth <= 0) {
-				local.converged = (local.error_estimate <= tolerance);
+			const bool finite = std::isfinite(local.error_estimate);
+			if (!finite ? (!parent_finite || max_depth <= 0) : (local.error_estimate <= tolerance || max_depth <= 0)) {
+				local.converged = finite && (local.error_estimate <= tolerance);
 				return local;
 			}
 
 			// Subdivide and recurse
 			Real mid = 0.5 * (a + b);
-			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
-			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
+			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
+			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
 
-			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
+			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate,
+											local.function_evals + left.function_evals + right.function_evals,
 											left.converged && right.converged);
 		}
 
diff --git a/mml/core/Integration/Integration1D.h b/mml/core/Integration/Integration1D.h
index e86984d..5b230c0 100644
--- a/mml/core/Integration/Integration1D.h
+++ b/mml/core/Integration/Integration1D.h
@@ -95,7 +95,7 @@ namespace MML
 	static IntegrationResult IntegrateTrap(const IRealFunction& func, Real a, Real b,
 																		 const Real eps = Defaults::TrapezoidIntegrationEPS)	{
 		int		j;
-		Real	currSum, oldSum = 0.0;
+		Real	currSum = 0.0, oldSum = 0.0, error = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
@@ -105,8 +105,8 @@ namespace MML
 		{
 			currSum = t.next();
 
+			error = std::abs(currSum - oldSum);
 			if (j > 5) {
-				Real error = std::abs(currSum - oldSum);
 				if ( error < eps * std::abs(oldSum) + abs_tol )
 				{
 					return IntegrationResult(currSum, error, j, true);
@@ -116,8 +116,7 @@ namespace MML
 			oldSum = currSum;
 		}
 		// Did not converge within max iterations
-		Real final_error = std::abs(currSum - oldSum);
-		return IntegrationResult(currSum, final_error, j, false);
+		return IntegrationResult(currSum, error, j, false);
 	}
 
 	/// @brief Simpson's rule with adaptive refinement
@@ -134,7 +133,7 @@ namespace MML
 																			 const Real eps = Defaults::SimpsonIntegrationEPS)
 	{
 		int j;
-		Real currSum, st, ost = 0.0, oldSum = 0.0;
+		Real currSum = 0.0, st, ost = 0.0, oldSum = 0.0, error = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
@@ -146,8 +145,8 @@ namespace MML
 
 			currSum = (4.0 * st - ost) / 3.0;
 
+			error = std::abs(currSum - oldSum);
 			if (j > 5) {
-				Real error = std::abs(currSum - oldSum);
 				if (error < eps * std::abs(oldSum) + abs_tol)
 				{
 					return IntegrationResult(currSum, error, j, true);
@@ -158,8 +157,7 @@ namespace MML
 			ost = st;
 		}
 		// Did not converge within max iterations
-		Real final_error = std::abs(currSum - oldSum);
-		return IntegrationResult(currSum, final_error, j, false);
+		return IntegrationResult(currSum, error, j, false);
 	}
 
 
-- 
2.43.0


From d8a68c3e454035d9d8a9f8af08cac63a3f2ef42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 20/62] fix: adaptive 2D/3D integration never converged after a
 subdivision and lost evaluations; Monte Carlo NaN/negative errors; sphere and
 pyramid face orientation and position

---
 .../Geometry3DSpherePyramid.h                 | 38 +++++++++----------
 mml/core/Integration/Integration2DAdaptive.h  |  2 +
 mml/core/Integration/Integration3DAdaptive.h  |  2 +
 mml/core/Integration/MonteCarloIntegration.h  | 11 +++---
 4 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index b9c41a2..ffd77c2 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -104,11 +104,11 @@ namespace MML {
 						_surfaces.emplace_back(p1, p4, p3);
 					} else if (i == _numLatitude - 1) {
 						// Bottom pole: single triangle
-						_surfaces.emplace_back(p1, p2, p3);
+						_surfaces.emplace_back(p1, p3, p2);
 					} else {
 						// Regular patch: two triangles
-						_surfaces.emplace_back(p1, p2, p3);
-						_surfaces.emplace_back(p1, p3, p4);
+						_surfaces.emplace_back(p1, p3, p2);
+						_surfaces.emplace_back(p1, p4, p3);
 					}
 				}
 			}
@@ -198,14 +198,24 @@ namespace MML {
 		/// @param h Height (apex at z = h)
 
 		Pyramid3D(Real a, Real h)
+			: Pyramid3D(a, h, Vec3Cart(0, 0, 0)) {
+		}
+
+		/// @brief Construct pyramid with base centered at specified point.
+		/// @param a Base side length
+		/// @param h Height
+		/// @param center Base center point
+
+		Pyramid3D(Real a, Real h, const Vec3Cart& center)
 			: _a(a)
 			, _h(h)
-			, _center(0, 0, 0) {
-			Pnt3Cart pnt1(a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt2(a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt3(-a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt4(-a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt5(0, 0, h); // apex
+			, _center(center) {
+			Real x = center.X(), y = center.Y(), z = center.Z();
+			Pnt3Cart pnt1(x + a / 2, y - a / 2, z);
+			Pnt3Cart pnt2(x + a / 2, y + a / 2, z);
+			Pnt3Cart pnt3(x - a / 2, y + a / 2, z);
+			Pnt3Cart pnt4(x - a / 2, y - a / 2, z);
+			Pnt3Cart pnt5(x, y, z + h); // apex
 
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt4, pnt3)); // base triangle 1
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt3, pnt2)); // base triangle 2
@@ -214,16 +224,6 @@ namespace MML {
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt3, pnt4)); // back face
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt4, pnt1)); // left face
 		}
-
-		/// @brief Construct pyramid with base centered at specified point.
-		/// @param a Base side length
-		/// @param h Height
-		/// @param center Base center point
-
-		Pyramid3D(Real a, Real h, const Vec3Cart& center)
-			: Pyramid3D(a, h) {
-			_center = center;
-		}
 		/// @}
 
 		/// @name Containment Test
diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index 5e3a4e5..d3a35ab 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -273,6 +273,8 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
     Real my = 0.5 * (y1 + y2);
 
     AdaptiveResult2D result;
+    result.converged = true;      // operator+= and-combines the sub-cells
+    result.function_evaluations = cell_result.function_evals;
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 4 children
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index d2754cd..71be828 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -284,6 +284,8 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
     Real mz = 0.5 * (z1 + z2);
 
     AdaptiveResult3D result;
+    result.converged = true;      // operator+= and-combines the sub-cells
+    result.function_evaluations = cell_result.function_evals;
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 8 children (2×2×2 = 8 octants)
diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 4ba2623..d0f43f0 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -18,6 +18,7 @@
 #include "interfaces/IFunction.h"
 #include "base/Vector/VectorN.h"
 
+#include <algorithm>
 #include <random>
 #include <numeric>
 #include <cmath>
@@ -171,14 +172,14 @@ namespace MML
 			// Compute statistics
 			Real mean = sum / n;
 			Real mean_sq = sum_sq / n;
-			Real variance = mean_sq - mean * mean;
+			Real variance = std::max(mean_sq - mean * mean, Real(0)); // rounding can make it negative
 
 			// Standard error of the mean
 			Real std_error = std::sqrt(variance / n);
 
 			// Integral estimate = volume * mean
 			Real integral = volume * mean;
-			Real error = volume * std_error;
+			Real error = std::abs(volume) * std_error;
 
 			// Check convergence against target
 			bool converged =
@@ -344,11 +345,11 @@ namespace MML
 			// Compute result
 			Real mean = sum / total_strata;
 			Real mean_sq = sum_sq / total_strata;
-			Real variance = (mean_sq - mean * mean) / total_strata;
+			Real variance = std::max(mean_sq - mean * mean, Real(0)) / total_strata; // rounding can make it negative
 			Real std_error = std::sqrt(variance);
 
 			Real integral = volume * mean;
-			Real error = volume * std_error;
+			Real error = std::abs(volume) * std_error;
 
 			bool converged = (std::abs(integral) < PrecisionValues<Real>::DivisionSafetyThreshold) ||
 											 (error / std::abs(integral) < PrecisionValues<Real>::DefaultToleranceStrict);
@@ -429,7 +430,7 @@ namespace MML
 			// Binomial standard error
 			Real variance = p * (1.0 - p);
 			Real std_error = std::sqrt(variance / num_samples);
-			Real error = bounding_volume * std_error;
+			Real error = std::abs(bounding_volume) * std_error;
 
 			MonteCarloResult result;
 			result.value = volume;
-- 
2.43.0


From 9ba7b86eb3d4652b9704c77f2546370e309a8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:56 +0000
Subject: [PATCH 21/62] fix: ODESystemSolution wrote out of bounds when an
 index skipped past the grown capacity

---
 mml/base/ODESystemSolution.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..f28dd7f 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -12,6 +12,8 @@
 #if !defined  MML_ODE_SYSTEM_SOLUTON_H
 #define MML_ODE_SYSTEM_SOLUTON_H
 
+#include <algorithm>
+
 #include "MMLBase.h"
 #include "MMLExceptions.h"
 
@@ -37,9 +39,9 @@ namespace MML
 		Matrix<Real> _xval;
 	
 		/// @brief Extend storage capacity using exponential growth (1.5x)
-		void ExtendSavedSteps()
+		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = static_cast<int>(_totalSavedSteps * 1.5) + 1;
+			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
 			// resizing the storage while preserving old values
 			_tval.Resize(_totalSavedSteps, true);
@@ -163,7 +165,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = x;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -182,7 +184,7 @@ namespace MML
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_xval[component][ind] = x;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -203,7 +205,7 @@ namespace MML
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
 			if(ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = x;
 			for (int i = 0; i < _sysDim; i++)
-- 
2.43.0


From c4b2ed0eceaf8709e31fe059d3ae85124acae574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 22/62] fix: adaptive ODE integration accepted NaN steps,
 ignored step limits, lost output points and reported wrong work;
 Dormand-Prince 8 reused a stage that is not the derivative at the new state

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 215 ++++++++++--------
 mml/algorithms/ODESolvers/ODESteppers.h       |  80 +++----
 2 files changed, 156 insertions(+), 139 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index ddf0f42..3fb4b83 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -128,6 +128,7 @@ namespace MML {
 			} else {
 				rejectedSteps++;
 			}
+			rejectedSteps += result.rejectedTries;
 			totalFuncEvals += result.funcEvals;
 		}
 
@@ -213,85 +214,120 @@ namespace MML {
 			return std::min({100 * h0, h1, std::abs(tEnd - t0)});
 		}
 
-		/// @brief Integrate ODE system with dense output at fixed intervals
-		/// @param x0 Initial conditions
-		/// @param t0 Initial time
-		/// @param tEnd Final time
-		/// @param outputInterval Spacing between output points (dense output)
-		/// @param eps Error tolerance (default 1e-10)
-		/// @param h0 Initial step size (0 = auto-estimate)
-		/// @param minStepSize Minimum allowed step size (default 1e-15)
-		/// @return Solution with points at regular intervals
-		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
-			int n = _sys.getDim();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+	private:
+		/// Advance by one attempted step that does not pass tStop. On return t, x, dxdt and h are
+		/// updated. Reaching tStop cuts the step short; the step size in use before that is kept.
+		/// @return true if the step was accepted
+		bool advance(Real& t, Vector<Real>& x, Vector<Real>& dxdt, Real& h, Real tStop, Real eps,
+		             Real minStepSize, Real maxStepSize) {
+			h = std::min(h, maxStepSize);
+			bool clipped = (t + h >= tStop);
+			Real hTry = clipped ? tStop - t : h;
+
+			StepResult result = _stepper.doStep(t, x, dxdt, hTry, eps);
+			_stats.recordStep(result);
+
+			if (result.accepted) {
+				bool reached = clipped && result.hDone == hTry;
+				t = reached ? tStop : t + result.hDone;
+				h = reached ? std::max(h, result.hNext) : result.hNext;
+			} else {
+				h = result.hNext;
+			}
 
-			ODESystemSolution sol(t0, tEnd, n, numOutputPoints - 1);
+			if (!(h >= minStepSize) || !(h > 0) || (!result.accepted && t + h == t))
+				throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
+
+			return result.accepted;
+		}
+
+		/// Initial step size: the user's, or an automatic estimate
+		Real initialStep(const Vector<Real>& x0, Real t0, Real tEnd, Real eps, Real h0) {
+			Real h = h0;
+			if (!(h0 > 0)) {
+				h = estimateInitialStep(t0, x0, tEnd, eps);
+				_stats.totalFuncEvals += 2;
+			}
+			return (h > 0 && h <= tEnd - t0) ? h : tEnd - t0;
+		}
+
+		ODESystemSolution integrateOnGrid(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps,
+		                                  Real h0, Real minStepSize, Real maxStepSize, int maxSteps) {
+			if (!(tEnd >= t0) || !std::isfinite(t0) || !std::isfinite(tEnd))
+				throw ODESolverError("ODEAdaptiveIntegrator: end time must not precede start time");
+			if (!(outputInterval > 0) && tEnd > t0)
+				throw ODESolverError("ODEAdaptiveIntegrator: output interval must be positive");
+			if (!(maxStepSize > 0))
+				throw ODESolverError("ODEAdaptiveIntegrator: maximum step size must be positive");
+
+			int n = _sys.getDim();
+			if (x0.size() != n)
+				throw ODESolverError("ODEAdaptiveIntegrator: initial state has wrong dimension");
+
+			// Output times are t0 + k*outputInterval, the last one being tEnd
+			Real ratio = (tEnd > t0) ? (tEnd - t0) / outputInterval : Real(0);
+			if (!(ratio < Real(std::numeric_limits<int>::max() - 1)))
+				throw ODESolverError("ODEAdaptiveIntegrator: too many output points");
+			Real nearest = std::round(ratio);
+			bool whole = nearest >= 1 && std::abs(ratio - nearest) <= 1e-10 * nearest;
+			int numIntervals = static_cast<int>(whole ? nearest : std::ceil(ratio));
+
+			ODESystemSolution sol(t0, tEnd, n, numIntervals);
 			_stats.reset();
 			_stepper.resetFSAL();
 
-			// Initialize
 			Vector<Real> x = x0;
 			Vector<Real> dxdt(n);
 			Real t = t0;
-
-			_sys.derivs(t, x, dxdt);
-
-			// Initial step size
-			Real h = (h0 > 0) ? h0 : estimateInitialStep(t0, x0, tEnd, eps);
-			h = std::min(h, tEnd - t0);
-
-			// Store initial point
-			Real tNextOutput = t0;
 			int outputIdx = 0;
 			sol.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
-
-			// Main integration loop
-			while (t < tEnd - Constants::Eps) {
-				// Don't step past end
-				if (t + h > tEnd) {
-					h = tEnd - t;
-				}
 
-				StepResult result = _stepper.doStep(t, x, dxdt, h, eps);
-				_stats.recordStep(result);
+			if (tEnd > t0) {
+				_sys.derivs(t, x, dxdt);
+				_stats.totalFuncEvals++;
+				Real h = initialStep(x0, t0, tEnd, eps, h0);
+
+				while (t < tEnd) {
+					if (_stats.totalSteps() >= maxSteps) {
+						_stats.status = AlgorithmStatus::MaxIterationsExceeded;
+						_stats.error_message = "Maximum steps (" + std::to_string(maxSteps) + ") exceeded";
+						sol.setFinalSize(outputIdx - 1);
+						break;
+					}
 
-				if (result.accepted) {
-					Real tNew = t + result.hDone;
+					if (!advance(t, x, dxdt, h, tEnd, eps, minStepSize, maxStepSize))
+						continue;
 
 					// Dense output: interpolate at all output points within this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
-							sol.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
+					while (outputIdx < numIntervals && t0 + outputIdx * outputInterval <= t) {
+						Real tOut = t0 + outputIdx * outputInterval;
+						sol.fillValues(outputIdx++, tOut, tOut < t ? _stepper.interpolate(tOut) : x);
 					}
-
-					t = tNew;
-					h = result.hNext;
-
-					// FSAL: derivative already updated in x and dxdt by doStep
-				} else {
-					// Step rejected, try again with smaller step
-					h = result.hNext;
-				}
-
-				// Safety check
-				if (h < minStepSize) {
-					throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
+					if (t >= tEnd)
+						sol.fillValues(outputIdx++, tEnd, x);
 				}
 			}
-
-			// Ensure final point is captured
-			if (outputIdx < numOutputPoints) {
-				sol.fillValues(outputIdx++, tEnd, x);
-			}
+			if (_stats.acceptedSteps == 0)
+				_stats.minStepSize = 0;
 
 			return sol;
 		}
 
+	public:
+		/// @brief Integrate ODE system with dense output at fixed intervals
+		/// @param x0 Initial conditions
+		/// @param t0 Initial time
+		/// @param tEnd Final time
+		/// @param outputInterval Spacing between output points (dense output)
+		/// @param eps Error tolerance (default 1e-10)
+		/// @param h0 Initial step size (0 = auto-estimate)
+		/// @param minStepSize Minimum allowed step size (default 1e-15)
+		/// @return Solution with points at regular intervals
+		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+			return integrateOnGrid(x0, t0, tEnd, outputInterval, eps, h0, minStepSize,
+				std::numeric_limits<Real>::infinity(), std::numeric_limits<int>::max());
+		}
+
 		/// @brief Integrate and return solution at specified times
 		/// @param x0 Initial conditions
 		/// @param times Vector of output times (must be sorted ascending)
@@ -303,9 +339,17 @@ namespace MML {
 			}
 
 			int n = _sys.getDim();
+			if (x0.size() != n)
+				throw ODESolverError("ODEAdaptiveIntegrator: initial state has wrong dimension");
 			int numPoints = static_cast<int>(times.size());
+			for (int i = 1; i < numPoints; i++)
+				if (!(times[i] > times[i - 1]))
+					throw ODESolverError("Output times must be strictly increasing");
+
 			Real t0 = times[0];
 			Real tEnd = times[numPoints - 1];
+			if (!std::isfinite(t0) || !std::isfinite(tEnd))
+				throw ODESolverError("Output times must be finite");
 
 			ODESystemSolution sol(t0, tEnd, n, numPoints - 1);
 			_stats.reset();
@@ -316,47 +360,19 @@ namespace MML {
 			Real t = t0;
 
 			_sys.derivs(t, x, dxdt);
+			_stats.totalFuncEvals++;
 
-			Real h = (h0 > 0) ? h0 : estimateInitialStep(t0, x0, tEnd, eps);
+			Real h = initialStep(x0, t0, tEnd, eps, h0);
 
 			// Store initial point
 			int outputIdx = 0;
 			sol.fillValues(outputIdx++, t0, x0);
 
-			// Integration loop
+			// Integration loop: every output time is the end of a step
 			while (outputIdx < numPoints) {
-				Real tTarget = times[outputIdx];
-
-				if (t + h > tTarget) {
-					h = tTarget - t;
-				}
-
-				StepResult result = _stepper.doStep(t, x, dxdt, h, eps);
-				_stats.recordStep(result);
-
-				if (result.accepted) {
-					Real tNew = t + result.hDone;
-
-					// Output at any times within this step
-					while (outputIdx < numPoints && times[outputIdx] <= tNew + Constants::Eps) {
-						Real tOut = times[outputIdx];
-						if (std::abs(tOut - tNew) < Constants::Eps) {
-							sol.fillValues(outputIdx++, tNew, x);
-						} else {
-							Vector<Real> xInterp = _stepper.interpolate(tOut);
-							sol.fillValues(outputIdx++, tOut, xInterp);
-						}
-					}
-
-					t = tNew;
-					h = result.hNext;
-				} else {
-					h = result.hNext;
-				}
-
-				if (h < minStepSize && t < tEnd - Constants::Eps) {
-					throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
-				}
+				Real tOut = times[outputIdx];
+				if (advance(t, x, dxdt, h, tOut, eps, minStepSize, std::numeric_limits<Real>::infinity()) && t >= tOut)
+					sol.fillValues(outputIdx++, tOut, x);
 			}
 
 			return sol;
@@ -376,17 +392,12 @@ namespace MML {
 				? config.output_interval 
 				: (tEnd - t0) / 100.0;  // Default: 100 output points
 
-			ODESystemSolution sol = integrate(x0, t0, tEnd, outputInterval, 
-				config.tolerance, config.initial_step_size, config.min_step_size);
+			ODESystemSolution sol = integrateOnGrid(x0, t0, tEnd, outputInterval,
+				config.tolerance, config.initial_step_size, config.min_step_size,
+				config.max_step_size, config.max_steps);
 
 			// Populate diagnostic fields in statistics
 			_stats.elapsed_time_ms = timer.elapsed_ms();
-			
-			// Check for max steps exceeded (if we tracked it)
-			if (_stats.acceptedSteps >= config.max_steps) {
-				_stats.status = AlgorithmStatus::MaxIterationsExceeded;
-				_stats.error_message = "Maximum steps (" + std::to_string(config.max_steps) + ") exceeded";
-			}
 
 			return sol;
 		}
@@ -477,6 +488,8 @@ namespace MML {
 				result.solution = integrator.integrate(x0, t0, tEnd, config.integrator);
 
 				const auto& stats = integrator.getStatistics();
+				result.status          = stats.status;
+				result.error_message   = stats.error_message;
 				result.accepted_steps   = stats.acceptedSteps;
 				result.rejected_steps   = stats.rejectedSteps;
 				result.total_func_evals = stats.totalFuncEvals;
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..7a48197 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -32,6 +32,7 @@ namespace MML {
 		// === Error Information ===
 		Real errMax = 0.0;	   ///< Maximum error ratio (for diagnostics)
 		int funcEvals = 0;	   ///< Number of function evaluations used
+		int rejectedTries = 0; ///< Attempts rejected inside the call before hDone was accepted
 
 		// === Diagnostics (for single-step analysis) ===
 		AlgorithmStatus status = AlgorithmStatus::Success;  ///< Step status
@@ -182,7 +183,6 @@ namespace MML {
 					_k1 = _k7; // Reuse last stage
 				} else {
 					_k1 = dxdt;
-					result.funcEvals++;
 				}
 
 				// Stage 2
@@ -228,7 +228,9 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (e1 * _k1[i] + e3 * _k3[i] + e4 * _k4[i] + e5 * _k5[i] + e6 * _k6[i] + e7 * _k7[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * _k1[i]) + Precision::DivisionSafetyThreshold; // Avoid division by zero
-					errMax = std::max(errMax, std::abs(err) / scale);
+					Real ratio = std::abs(err) / scale;
+					if (!(ratio <= errMax)) // a NaN error must not pass as a small one
+						errMax = std::isnan(ratio) ? std::numeric_limits<Real>::infinity() : ratio;
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -259,12 +261,13 @@ namespace MML {
 				}
 
 				// Step rejected - reduce h and try again
+				result.rejectedTries++;
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
 				_haveFSAL = false;
 
-				if (std::abs(h) < Constants::Eps) {
+				if (!(std::abs(h) >= Constants::Eps)) {
 					throw ODESolverError("Step size underflow in DormandPrince5_Stepper");
 				}
 			}
@@ -424,7 +427,7 @@ namespace MML {
 					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);
 				_sys.derivs(t + a6 * h, _xtemp, _k6);
 
-				result.funcEvals = 6;
+				result.funcEvals += 5;
 
 				// 5th order solution
 				for (int i = 0; i < _n; i++)
@@ -435,7 +438,9 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (dc1 * _k1[i] + dc3 * _k3[i] + dc4 * _k4[i] + dc5 * _k5[i] + dc6 * _k6[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * dxdt[i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					Real ratio = std::abs(err) / scale;
+					if (!(ratio <= errMax)) // a NaN error must not pass as a small one
+						errMax = std::isnan(ratio) ? std::numeric_limits<Real>::infinity() : ratio;
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -466,10 +471,11 @@ namespace MML {
 				}
 
 				// Reduce step size
+				result.rejectedTries++;
 				Real htemp = SAFETY * h * std::pow(errMax, PSHRINK);
 				h = (h >= 0) ? std::max<Real>(htemp, Real(0.1) * h) : std::min<Real>(htemp, Real(0.1) * h);
 
-				if (std::abs(h) < Constants::Eps)
+				if (!(std::abs(h) >= Constants::Eps))
 					throw ODESolverError("Step size underflow in CashKarp_Stepper");
 			}
 
@@ -523,7 +529,7 @@ namespace MML {
 	/// High-order method for problems requiring very high accuracy.
 	/// Features:
 	/// - 8th order accurate solution with 7th order error estimate
-	/// - 13 stages (FSAL optimization applies)
+	/// - 13 stages (not FSAL: the last stage is not evaluated at the new state)
 	/// - Excellent for smooth problems, astronomical trajectories
 	/// - Higher cost per step but much larger accurate step sizes
 	class DormandPrince8_Stepper : public IAdaptiveStepper {
@@ -539,9 +545,8 @@ namespace MML {
 		Real _tOld;
 		Real _hDone;
 		Vector<Real> _xOld;
+		Vector<Real> _dxNew; // Derivative at the new state
 		bool _stepReady;
-		bool _haveFSAL;
-		Real _errOld;
 
 		// Dormand-Prince 8(7) coefficients from centralized header
 		using DP8 = RKCoeff::DormandPrince8;
@@ -575,14 +580,13 @@ namespace MML {
 			, _n(sys.getDim())
 			, _tOld(0)
 			, _hDone(0)
-			, _stepReady(false)
-			, _haveFSAL(false)
-			, _errOld(1.0) {
+			, _stepReady(false) {
 			_k.resize(NSTAGES);
 			for (int i = 0; i < NSTAGES; ++i)
 				_k[i].Resize(_n);
 			_xNew.Resize(_n);
 			_xOld.Resize(_n);
+			_dxNew.Resize(_n);
 		}
 
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
@@ -593,12 +597,7 @@ namespace MML {
 			Real h = htry;
 
 			while (true) {
-				// Use FSAL if available
-				if (_haveFSAL) {
-					_k[0] = _k[12];
-				} else {
-					_k[0] = dxdt;
-				}
+				_k[0] = dxdt;
 
 				// Stage 2
 				for (int i = 0; i < _n; i++)
@@ -655,12 +654,12 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a12[0] * _k[0][i] + a12[3] * _k[3][i] + a12[4] * _k[4][i] + a12[5] * _k[5][i] + a12[6] * _k[6][i] + a12[7] * _k[7][i] + a12[8] * _k[8][i] + a12[9] * _k[9][i] + a12[10] * _k[10][i]);
 				_sys.derivs(t + c[11] * h, _xNew, _k[11]);
 
-				// Stage 13 (final, also FSAL)
+				// Stage 13 (final)
 				for (int i = 0; i < _n; i++)
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
 
-				result.funcEvals = 13;
+				result.funcEvals += 12;
 
 				// 8th order solution
 				for (int i = 0; i < _n; i++) {
@@ -677,7 +676,9 @@ namespace MML {
 						err += (b8[j] - b7[j]) * _k[j][i];
 					err *= h;
 					Real scale = std::abs(x[i]) + std::abs(h * _k[0][i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					Real ratio = std::abs(err) / scale;
+					if (!(ratio <= errMax)) // a NaN error must not pass as a small one
+						errMax = std::isnan(ratio) ? std::numeric_limits<Real>::infinity() : ratio;
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -694,25 +695,24 @@ namespace MML {
 
 					// Update state
 					x = _xNew;
-					dxdt = _k[12];
-					_haveFSAL = true;
+					_sys.derivs(t + h, x, dxdt);
+					_dxNew = dxdt; // Store for interpolation
+					result.funcEvals++;
 
 					// Step size control for next step
 					Real factor = SAFETY * std::pow(errMax, -ALPHA);
 					factor = std::max<Real>(MIN_FACTOR, std::min<Real>(MAX_FACTOR, factor));
 					result.hNext = h * factor;
-
-					_errOld = std::max<Real>(errMax, Real(1e-4));
 					break;
 				}
 
 				// Reduce step size
+				result.rejectedTries++;
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
-				_haveFSAL = false;
 
-				if (std::abs(h) < Constants::Eps)
+				if (!(std::abs(h) >= Constants::Eps))
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
 			}
 
@@ -737,25 +737,23 @@ namespace MML {
 
 			for (int i = 0; i < _n; i++) {
 				Real hf0 = _hDone * _k[0][i];
-				Real hf1 = _hDone * _k[12][i];
+				Real hf1 = _hDone * _dxNew[i];
 				result[i] = h00 * _xOld[i] + h10 * hf0 + h01 * _xNew[i] + h11 * hf1;
 			}
 
 			return result;
 		}
 
-		bool isFSAL() const override { return true; }
+		bool isFSAL() const override { return false; }
 
-		const Vector<Real>& getFinalDeriv() const override { return _k[12]; }
+		const Vector<Real>& getFinalDeriv() const override { return _dxNew; }
 
 		int stageCount() const override { return NSTAGES; }
 
 		int order() const override { return 8; }
 
 		void resetFSAL() override {
-			_haveFSAL = false;
 			_stepReady = false;
-			_errOld = 1.0;
 		}
 	};
 
@@ -886,7 +884,7 @@ namespace MML {
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
 			StepResult result;
 			result.accepted = false;
-			result.funcEvals = 1; // We already have dxdt
+			result.funcEvals = 0; // We already have dxdt
 
 			_tOld = t;
 			_xOld = x;
@@ -914,7 +912,8 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						if (!(errRatio <= errMax)) // a NaN error must not pass as a small one
+							errMax = std::isnan(errRatio) ? std::numeric_limits<Real>::infinity() : errRatio;
 					}
 
 					result.errMax = errMax;
@@ -952,6 +951,8 @@ namespace MML {
 		}
 
 		Vector<Real> interpolate(Real t) const override {
+			if (_hDone == 0)
+				throw ODESolverError("No valid step data for interpolation");
 			// Hermite cubic interpolation using function values and derivatives at both endpoints
 			Real theta = (t - _tOld) / _hDone;
 			Real theta2 = theta * theta;
@@ -983,7 +984,7 @@ namespace MML {
 
 		int order() const override { return 2 * KMAXX; }
 
-		void resetFSAL() override {}
+		void resetFSAL() override { _hDone = 0; }
 	};
 
 	//===================================================================================
@@ -1113,7 +1114,7 @@ namespace MML {
 		StepResult doStep(Real t, Vector<Real>& x, Vector<Real>& dxdt, Real htry, Real eps) override {
 			StepResult result;
 			result.accepted = false;
-			result.funcEvals = 1; // We already have dxdt
+			result.funcEvals = 0; // We already have dxdt
 
 			_tOld = t;
 			_xOld = x;
@@ -1141,7 +1142,8 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						if (!(errRatio <= errMax)) // a NaN error must not pass as a small one
+							errMax = std::isnan(errRatio) ? std::numeric_limits<Real>::infinity() : errRatio;
 					}
 
 					result.errMax = errMax;
@@ -1179,6 +1181,8 @@ namespace MML {
 		}
 
 		Vector<Real> interpolate(Real t) const override {
+			if (_hDone == 0)
+				throw ODESolverError("No valid step data for interpolation");
 			// Hermite cubic interpolation using function values and derivatives at both endpoints
 			Real theta = (t - _tOld) / _hDone;
 			Real theta2 = theta * theta;
@@ -1210,7 +1214,7 @@ namespace MML {
 
 		int order() const override { return 2 * KMAXX; }
 
-		void resetFSAL() override {}
+		void resetFSAL() override { _hDone = 0; }
 	};
 
 } // namespace MML
-- 
2.43.0


From 8162ef8de53b8a59257c09e376d52534d3631f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 23/62] fix: stiff solvers stopped short of the end time, used
 equal-step BDF2 coefficients on a short last step, accepted NaN steps and
 ignored limits; event detection lost crossings and output points

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h |  25 +-
 .../ODESolvers/ODESolverEventDetection.h      | 292 ++++++++----------
 mml/algorithms/ODESolvers/ODESolverStiff.h    | 100 ++++--
 3 files changed, 209 insertions(+), 208 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 3fb4b83..ccab9e2 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -214,7 +214,7 @@ namespace MML {
 			return std::min({100 * h0, h1, std::abs(tEnd - t0)});
 		}
 
-	private:
+	protected:
 		/// Advance by one attempted step that does not pass tStop. On return t, x, dxdt and h are
 		/// updated. Reaching tStop cuts the step short; the step size in use before that is kept.
 		/// @return true if the step was accepted
@@ -251,18 +251,12 @@ namespace MML {
 			return (h > 0 && h <= tEnd - t0) ? h : tEnd - t0;
 		}
 
-		ODESystemSolution integrateOnGrid(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps,
-		                                  Real h0, Real minStepSize, Real maxStepSize, int maxSteps) {
+		/// Validate the time range and count the output intervals.
+		static int outputIntervals(Real t0, Real tEnd, Real outputInterval) {
 			if (!(tEnd >= t0) || !std::isfinite(t0) || !std::isfinite(tEnd))
 				throw ODESolverError("ODEAdaptiveIntegrator: end time must not precede start time");
 			if (!(outputInterval > 0) && tEnd > t0)
 				throw ODESolverError("ODEAdaptiveIntegrator: output interval must be positive");
-			if (!(maxStepSize > 0))
-				throw ODESolverError("ODEAdaptiveIntegrator: maximum step size must be positive");
-
-			int n = _sys.getDim();
-			if (x0.size() != n)
-				throw ODESolverError("ODEAdaptiveIntegrator: initial state has wrong dimension");
 
 			// Output times are t0 + k*outputInterval, the last one being tEnd
 			Real ratio = (tEnd > t0) ? (tEnd - t0) / outputInterval : Real(0);
@@ -270,8 +264,19 @@ namespace MML {
 				throw ODESolverError("ODEAdaptiveIntegrator: too many output points");
 			Real nearest = std::round(ratio);
 			bool whole = nearest >= 1 && std::abs(ratio - nearest) <= 1e-10 * nearest;
-			int numIntervals = static_cast<int>(whole ? nearest : std::ceil(ratio));
+			return static_cast<int>(whole ? nearest : std::ceil(ratio));
+		}
+
+		ODESystemSolution integrateOnGrid(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps,
+		                                  Real h0, Real minStepSize, Real maxStepSize, int maxSteps) {
+			if (!(maxStepSize > 0))
+				throw ODESolverError("ODEAdaptiveIntegrator: maximum step size must be positive");
+
+			int n = _sys.getDim();
+			if (x0.size() != n)
+				throw ODESolverError("ODEAdaptiveIntegrator: initial state has wrong dimension");
 
+			int numIntervals = outputIntervals(t0, tEnd, outputInterval);
 			ODESystemSolution sol(t0, tEnd, n, numIntervals);
 			_stats.reset();
 			_stepper.resetFSAL();
diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ee5d0d8..6d63523 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -90,200 +90,156 @@ namespace MML {
 																		Real eps = 1e-10, Real eventTol = 1e-12, Real h0 = 0) {
 			int n = sys.getDim();
 			int numEvents = sys.getNumEvents();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			if (x0.size() != n)
+				throw ODESolverError("integrateWithEvents: initial state has wrong dimension");
 
-			EventResult result(t0, tEnd, n, numOutputPoints - 1);
+			// Output times are t0 + k*outputInterval, the last one being tEnd
+			int numIntervals = this->outputIntervals(t0, tEnd, outputInterval);
+			EventResult result(t0, tEnd, n, numIntervals);
 			this->_stats.reset();
 			this->_stepper.resetFSAL();
 
-			// Current state
+			// Initialize
 			Vector<Real> x = x0;
 			Vector<Real> dxdt(n);
 			Real t = t0;
-			sys.derivs(t, x, dxdt);
+			Real h = 0;
 
-			// Event function values at current time
-			Vector<Real> gPrev(numEvents);
+			// Evaluate event functions at start
+			Vector<Real> gPrev(numEvents), gNew(numEvents);
 			sys.eventFunctions(t, x, gPrev);
 
-			// Initial step size
-			Real h = (h0 > 0) ? h0 : this->estimateInitialStep(t0, x0, tEnd, eps);
-			h = std::min(h, tEnd - t0);
-
-			// Output management
-			Real tNextOutput = t0;
+			// Store initial point
 			int outputIdx = 0;
 			result.solution.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
-
-			const int maxEventIterations = 100; // Safety limit for root finding
 
-			// Main integration loop
-			while (t < tEnd - Constants::Eps) {
-				if (t + h > tEnd) {
-					h = tEnd - t;
+			// Dense output at all output points of the last step up to tLimit
+			auto fillOutput = [&](Real tLimit) {
+				while (outputIdx < numIntervals && t0 + outputIdx * outputInterval <= tLimit) {
+					Real tOut = t0 + outputIdx * outputInterval;
+					result.solution.fillValues(outputIdx++, tOut, this->_stepper.interpolate(tOut));
 				}
+			};
+			auto finish = [&](Real tFinal, const Vector<Real>& xFinal) {
+				if (outputIdx <= numIntervals)
+					result.solution.setFinalSize(outputIdx - 1);
+				result.finalTime = tFinal;
+				result.finalState = xFinal;
+			};
+
+			if (tEnd > t0) {
+				sys.derivs(t, x, dxdt);
+				this->_stats.totalFuncEvals++;
+				h = this->initialStep(x0, t0, tEnd, eps, h0);
+			}
 
-				StepResult stepResult = this->_stepper.doStep(t, x, dxdt, h, eps);
-				this->_stats.recordStep(stepResult);
-
-				if (stepResult.accepted) {
-					Real tNew = t + stepResult.hDone;
-
-					// Evaluate event functions at new time
-					Vector<Real> gNew(numEvents);
-					sys.eventFunctions(tNew, x, gNew);
-
-					// Check for zero crossings
-					bool eventDetected = false;
-					int eventIndex = -1;
-					Real eventTime = tNew;
-
-					for (int i = 0; i < numEvents; ++i) {
-						bool crossing = false;
-						EventDirection actualDir = EventDirection::Both;
-
-						// Check sign change
-						if (gPrev[i] * gNew[i] < 0) {
-							// Determine crossing direction
-							if (gPrev[i] < 0 && gNew[i] > 0) {
-								actualDir = EventDirection::Increasing;
-							} else {
-								actualDir = EventDirection::Decreasing;
-							}
-
-							// Check if this direction should trigger
-							EventDirection wantDir = sys.getEventDirection(i);
-							if (wantDir == EventDirection::Both || wantDir == actualDir) {
-								crossing = true;
-							}
-						}
-
-						if (crossing) {
-							// Find exact crossing time using bisection with dense output
-							Real tLo = t;
-							Real tHi = tNew;
-							Real gLo = gPrev[i];
-							Real gHi = gNew[i];
-
-							for (int iter = 0; iter < maxEventIterations; ++iter) {
-								if (tHi - tLo < eventTol)
-									break;
-
-								// Illinois method (modified regula falsi)
-								Real tMid = tLo - gLo * (tHi - tLo) / (gHi - gLo);
-								// Clamp to interval
-								tMid = std::max<Real>(tLo + Real(0.1) * (tHi - tLo), std::min<Real>(tHi - Real(0.1) * (tHi - tLo), tMid));
-
-								Vector<Real> xMid = this->_stepper.interpolate(tMid);
-								Real gMid = sys.eventFunction(i, tMid, xMid);
-
-								if (std::abs(gMid) < eventTol) {
-									tLo = tMid;
-									break;
-								}
-
-								if (gLo * gMid < 0) {
-									tHi = tMid;
-									gHi = gMid;
-								} else {
-									tLo = tMid;
-									gLo = gMid;
-								}
-							}
-
-							Real tEvent = tLo;
-							if (tEvent < eventTime) {
-								eventTime = tEvent;
-								eventIndex = i;
-								eventDetected = true;
-							}
-						}
-					}
-
-					if (eventDetected && eventIndex >= 0) {
-						// Get precise state at event
-						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
-						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
-
-						EventDirection actualDir;
-						if (gPrev[eventIndex] < gNew[eventIndex]) {
-							actualDir = EventDirection::Increasing;
-						} else {
-							actualDir = EventDirection::Decreasing;
-						}
-
-						// Record event
-						EventInfo evt(eventIndex, eventTime, xEvent, actualDir, gEvent);
-						result.events.push_back(evt);
-
-						// Dense output up to event time
-						while (tNextOutput <= eventTime + Constants::Eps && outputIdx < numOutputPoints) {
-							if (tNextOutput <= eventTime) {
-								Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-								result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-							}
-							tNextOutput += outputInterval;
-						}
-
-						// Determine action
-						EventAction action = sys.getEventAction(eventIndex);
-
-						if (action == EventAction::Stop) {
-							result.terminatedByEvent = true;
-							result.finalTime = eventTime;
-							result.finalState = xEvent;
-							return result;
-						} else if (action == EventAction::Restart) {
-							// Apply state update
-							sys.handleEvent(eventIndex, eventTime, xEvent);
-
-							// Reset integration from event point
-							t = eventTime;
-							x = xEvent;
-							sys.derivs(t, x, dxdt);
-							sys.eventFunctions(t, x, gPrev);
-							this->_stepper.resetFSAL();
-
-							// Re-estimate step size
-							h = this->estimateInitialStep(t, x, tEnd, eps);
-							h = std::min(h, tEnd - t);
-							continue; // Skip normal update
-						}
-						// EventAction::Continue: fall through to normal update
-					}
+			const int maxStalledRestarts = 1000; // Restarts that do not advance time
+			int stalledRestarts = 0;
 
-					// Dense output for this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
+			// Main integration loop
+			while (t < tEnd) {
+				Real tOld = t;
+				if (!this->advance(t, x, dxdt, h, tEnd, eps, Constants::Eps, std::numeric_limits<Real>::infinity()))
+					continue;
+
+				// Locate every crossing of the step, then handle them in the order of time
+				sys.eventFunctions(t, x, gNew);
+				std::vector<std::pair<Real, int>> crossings;
+				for (int i = 0; i < numEvents; ++i) {
+					bool increasing = gPrev[i] < 0 && gNew[i] >= 0;
+					bool decreasing = gPrev[i] > 0 && gNew[i] <= 0;
+					EventDirection wantDir = sys.getEventDirection(i);
+					if ((increasing && wantDir != EventDirection::Decreasing) || (decreasing && wantDir != EventDirection::Increasing))
+						crossings.emplace_back(locateEvent(sys, i, tOld, t, gPrev[i], gNew[i], eventTol), i);
+				}
+				std::stable_sort(crossings.begin(), crossings.end(),
+					[](const std::pair<Real, int>& a, const std::pair<Real, int>& b) { return a.first < b.first; });
+
+				bool restarted = false;
+				for (const auto& crossing : crossings) {
+					Real eventTime = crossing.first;
+					int eventIndex = crossing.second;
+
+					Vector<Real> xEvent = (eventTime == t) ? x : this->_stepper.interpolate(eventTime);
+					Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
+					EventDirection actualDir = gPrev[eventIndex] < 0 ? EventDirection::Increasing : EventDirection::Decreasing;
+					result.events.push_back(EventInfo(eventIndex, eventTime, xEvent, actualDir, gEvent));
+
+					EventAction action = sys.getEventAction(eventIndex);
+					if (action == EventAction::Continue)
+						continue;
+
+					// Fill output points up to the event
+					fillOutput(eventTime);
+
+					if (action == EventAction::Stop) {
+						result.terminatedByEvent = true;
+						finish(eventTime, xEvent);
+						return result;
 					}
 
-					// Update for next step
-					t = tNew;
-					h = stepResult.hNext;
-					gPrev = gNew;
-				} else {
-					h = stepResult.hNext;
+					// Restart from the event with the state modified by the user
+					stalledRestarts = (eventTime > tOld) ? 0 : stalledRestarts + 1;
+					if (stalledRestarts > maxStalledRestarts)
+						throw ODESolverError("Events accumulate without advancing time in integrateWithEvents");
+
+					sys.handleEvent(eventIndex, eventTime, xEvent);
+					t = eventTime;
+					x = xEvent;
+					sys.derivs(t, x, dxdt);
+					this->_stats.totalFuncEvals++;
+					sys.eventFunctions(t, x, gPrev);
+					// The event just handled is at its zero: its residual must not trigger it again
+					if (std::abs(gPrev[eventIndex]) <= std::max(eventTol, 2 * std::abs(gEvent)))
+						gPrev[eventIndex] = 0;
+					this->_stepper.resetFSAL();
+					if (t < tEnd)
+						h = this->initialStep(x, t, tEnd, eps, 0);
+					restarted = true;
+					break;
 				}
+				if (restarted)
+					continue;
 
-				if (h < Constants::Eps) {
-					throw ODESolverError("Step size too small in integrateWithEvents");
-				}
+				fillOutput(t);
+				gPrev = gNew;
 			}
 
-			// Ensure final point
-			if (outputIdx < numOutputPoints) {
+			// Ensure final point is captured
+			if (outputIdx <= numIntervals && tEnd > t0)
 				result.solution.fillValues(outputIdx++, tEnd, x);
-			}
 
-			result.finalTime = t;
-			result.finalState = x;
+			finish(t, x);
 			return result;
 		}
+
+	private:
+		/// Time in [tLo, tHi], a range inside the last step, at which event function i changes sign
+		/// (bisection safeguarding the secant step)
+		Real locateEvent(const IODESystemWithEvents& sys, int i, Real tLo, Real tHi, Real gLo, Real gHi, Real eventTol) const {
+			bool bisect = false;
+			while (gHi != 0 && tHi - tLo > eventTol) {
+				Real tMid = tLo + (tHi - tLo) * (bisect ? Real(0.5) : gLo / (gLo - gHi));
+				if (!(tMid > tLo && tMid < tHi))
+					tMid = tLo + (tHi - tLo) / 2;
+				if (!(tMid > tLo && tMid < tHi))
+					break; // no representable time in between
+				Real width = tHi - tLo;
+
+				Real gMid = sys.eventFunction(i, tMid, this->_stepper.interpolate(tMid));
+				if (std::abs(gMid) < eventTol)
+					return tMid;
+				if ((gMid < 0) == (gLo < 0)) {
+					tLo = tMid;
+					gLo = gMid;
+				} else {
+					tHi = tMid;
+					gHi = gMid;
+				}
+				bisect = tHi - tLo > width / 2; // the secant step left most of the range
+			}
+			return std::abs(gLo) < std::abs(gHi) ? tLo : tHi;
+		}
 	};
 
 	// Convenient type aliases for event detection integrators
diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 5201d60..fff1217 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -127,6 +127,19 @@ namespace MML {
 	///////////////////////////////////////////////////////////////////////////////////////////
 	//                           BACKWARD EULER METHOD                                        //
 	///////////////////////////////////////////////////////////////////////////////////////////
+	/// @brief Number of steps of size h needed to reach t_end; the last one may be shorter
+	inline int StiffStepCount(Real t0, Real t_end, Real h) {
+		if (!(h > 0) || !(t_end >= t0) || !std::isfinite(t0) || !std::isfinite(t_end))
+			throw ODESolverError("Stiff solver: step size must be positive and end time must not precede start time");
+		Real ratio = (t_end - t0) / h;
+		if (!(ratio < Real(std::numeric_limits<int>::max() - 1)))
+			throw ODESolverError("Stiff solver: too many steps");
+		Real nearest = std::round(ratio);
+		if (std::abs(ratio - nearest) <= 1e-10 * nearest)
+			ratio = nearest;
+		return static_cast<int>(std::ceil(ratio));
+	}
+
 	/// @brief Backward Euler implicit solver for stiff ODEs
 	/// @details First-order implicit method: y_{n+1} = y_n + h*f(t_{n+1}, y_{n+1})
 	///          Unconditionally stable (A-stable), good for very stiff systems.
@@ -144,7 +157,7 @@ namespace MML {
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 												int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = StiffStepCount(t0, t_end, h) + 1; // saved points, the initial one included
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -158,8 +171,8 @@ namespace MML {
 		int step = 1;
 
 		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+			Real t_next = (step == num_steps - 1) ? t_end : t0 + step * h;
+			Real h_actual = t_next - t;
 
 			// Newton iteration to solve: y_new - y - h*f(t_next, y_new) = 0
 			Vector<Real> y_new = y; // Initial guess
@@ -219,11 +232,16 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BackwardEuler";
 
 		try {
+			if (StiffStepCount(t0, t_end, config.step_size) > config.max_steps) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "BackwardEuler: maximum steps exceeded";
+				result.elapsed_time_ms = timer.elapsed_ms();
+				return result;
+			}
 			result.solution = SolveBackwardEuler(system, t0, y0, t_end, config.step_size, 
 												 config.max_newton_iter, config.newton_tol);
 			result.total_steps = result.solution.getNumStepsOK();
@@ -256,13 +274,14 @@ namespace MML {
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = StiffStepCount(t0, t_end, h) + 1; // saved points, the initial one included
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
 		Real t = t0;
 		Vector<Real> y = y0;
 		Vector<Real> y_prev(dim); // For BDF2, we need previous step
+		Real h_prev = h;          // and its size
 		Vector<Real> dydt(dim);
 		Matrix<Real> J(dim, dim);
 
@@ -272,8 +291,8 @@ namespace MML {
 
 		// First step: Use Backward Euler (BDF1) to bootstrap
 		if (step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+			Real t_next = (step == num_steps - 1) ? t_end : t0 + step * h;
+			Real h_actual = t_next - t;
 
 			Vector<Real> y_new = y;
 			bool converged = false;
@@ -304,6 +323,7 @@ namespace MML {
 			y_prev = y;
 			y = y_new;
 			t = t_next;
+			h_prev = h_actual;
 			sol.fillValues(step, t, y);
 			sol.incrementSuccessfulSteps();
 			++step;
@@ -311,14 +331,17 @@ namespace MML {
 
 		// Subsequent steps: Use BDF2
 		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+			Real t_next = (step == num_steps - 1) ? t_end : t0 + step * h;
+			Real h_actual = t_next - t;
 
 			// BDF2: y_{n+1} = (4/3)*y_n - (1/3)*y_{n-1} + (2/3)*h*f(t_{n+1}, y_{n+1})
 			// Rearrange: y_{n+1} - (2/3)*h*f(t_{n+1}, y_{n+1}) = (4/3)*y_n - (1/3)*y_{n-1}
+			// These are the coefficients for equal steps (w = 1); the last step may be shorter.
+			Real w = h_actual / h_prev;
+			Real beta = (1.0 + w) / (1.0 + 2.0 * w);
 
-			Vector<Real> y_new = y * 2.0 - y_prev; // Extrapolation as initial guess
-			Vector<Real> rhs = y * (4.0 / 3.0) - y_prev * (1.0 / 3.0);
+			Vector<Real> y_new = y * (1.0 + w) - y_prev * w; // Extrapolation as initial guess
+			Vector<Real> rhs = y * ((1.0 + w) * beta) - y_prev * (w * w / (1.0 + 2.0 * w));
 
 			bool converged = false;
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
@@ -326,7 +349,7 @@ namespace MML {
 				system.jacobian(t_next, y_new, dydt, J);
 
 				// Residual: r = y_new - (2/3)*h*f - rhs
-				Vector<Real> residual = y_new - dydt * (2.0 / 3.0 * h_actual) - rhs;
+				Vector<Real> residual = y_new - dydt * (beta * h_actual) - rhs;
 				Real res_norm = residual.NormL2();
 
 				if (res_norm < newton_tol) {
@@ -335,7 +358,7 @@ namespace MML {
 				}
 
 				// Newton step: solve (I - (2/3)*h*J)*delta = -residual
-				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (2.0 / 3.0 * h_actual);
+				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (beta * h_actual);
 				Vector<Real> rhs = residual * (-1.0);
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
@@ -350,6 +373,7 @@ namespace MML {
 			y_prev = y;
 			y = y_new;
 			t = t_next;
+			h_prev = h_actual;
 			sol.fillValues(step, t, y);
 			sol.incrementSuccessfulSteps();
 			++step;
@@ -371,11 +395,16 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, 0);
 		result.algorithm_name = "BDF2";
 
 		try {
+			if (StiffStepCount(t0, t_end, config.step_size) > config.max_steps) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "BDF2: maximum steps exceeded";
+				result.elapsed_time_ms = timer.elapsed_ms();
+				return result;
+			}
 			result.solution = SolveBDF2(system, t0, y0, t_end, config.step_size, 
 										config.max_newton_iter, config.newton_tol);
 			result.total_steps = result.solution.getNumStepsOK();
@@ -487,30 +516,38 @@ namespace MML {
 		/// @param h_init Initial step size
 		/// @return Solution trajectory
 		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init) {
+			return SolveAdaptive(t0, y0, t_end, h_init, 1e-12, h_init * 100.0, 50000);
+		}
+
+	private:
+		/// Adaptive stepping with explicit step size limits and number of accepted steps allowed
+		ODESystemSolution SolveAdaptive(Real t0, const Vector<Real>& y0, Real t_end, Real h_init,
+		                                Real h_min, Real h_max, int max_steps) {
+			if (!(h_init > 0) || !(h_max > 0) || !(t_end >= t0) || !std::isfinite(t0) || !std::isfinite(t_end))
+				throw ODESolverError("Rosenbrock: step sizes must be positive and end time must not precede start time");
+
 			int dim = y0.size();
-			int max_steps = 50000; // Safety limit (storage grows dynamically if needed)
 
-			ODESystemSolution sol(t0, t_end, dim, max_steps);
+			ODESystemSolution sol(t0, t_end, dim, std::min(std::max(max_steps, 0), 1000)); // grows dynamically if needed
 
 			Real t = t0;
 			Vector<Real> y = y0;
-			Real h = h_init;
+			Real h = std::min(h_init, h_max);
 
 			// Safety factors for step size control
 			const Real safety = 0.9;
-			const Real h_min = 1e-12;		   // Minimum step size
-			const Real h_max = h_init * 100.0; // Maximum step size
 			const Real fac_max = 5.0;		   // Maximum step increase factor
 			const Real fac_min = 0.2;		   // Minimum step decrease factor
 
 			sol.fillValues(0, t, y);
 			int step = 1;
 
-			while (t < t_end && step < max_steps) {
+			while (t < t_end && step <= max_steps) {
 				Real h_actual = std::min(h, t_end - t);
 
 				// Don't take tiny final steps
-				if (t + h_actual * 1.01 >= t_end) {
+				bool last = (t + h_actual * 1.01 >= t_end && t_end - t <= h_max);
+				if (last) {
 					h_actual = t_end - t;
 				}
 
@@ -534,7 +571,8 @@ namespace MML {
 				for (int i = 0; i < dim; ++i) {
 					Real scale = _abs_tol + _rel_tol * std::max(std::abs(y[i]), std::abs(y_new[i]));
 					Real err_scaled = std::abs(y_err[i]) / scale;
-					err_norm = std::max(err_norm, err_scaled);
+					if (!(err_scaled <= err_norm)) // a NaN error must not pass as a small one
+						err_norm = std::isnan(err_scaled) ? std::numeric_limits<Real>::infinity() : err_scaled;
 				}
 
 				// Avoid division by zero
@@ -543,7 +581,7 @@ namespace MML {
 				// Accept or reject step
 				if (err_norm <= 1.0) {
 					// Accept step
-					t += h_actual;
+					t = last ? t_end : t + h_actual;
 					y = y_new;
 					sol.fillValues(step, t, y);
 					sol.incrementSuccessfulSteps();
@@ -560,7 +598,7 @@ namespace MML {
 					factor = std::max(fac_min, factor);
 					h = h_actual * factor;
 
-					if (h < h_min) {
+					if (!(h >= h_min) || t + h == t) {
 						throw std::runtime_error("Rosenbrock: Step size too small (" + std::to_string(h) +
 												 "), system may be too stiff or tolerance too tight");
 					}
@@ -568,7 +606,7 @@ namespace MML {
 				}
 			}
 
-			if (step >= max_steps) {
+			if (t < t_end) {
 				throw std::runtime_error("Rosenbrock: Maximum steps exceeded");
 			}
 
@@ -576,6 +614,7 @@ namespace MML {
 			return sol;
 		}
 
+	public:
 		/// @brief Solve stiff ODE system using configuration object
 		/// @param y0 Initial condition vector
 		/// @param t0 Initial time
@@ -586,8 +625,7 @@ namespace MML {
 			AlgorithmTimer timer;  // Starts automatically
 
 			int dim = y0.size();
-			int max_steps = config.max_steps;
-			StiffSolverResult result(t0, t_end, dim, max_steps);
+			StiffSolverResult result(t0, t_end, dim, 0);
 			result.algorithm_name = "Rosenbrock23";
 
 			// Update internal tolerances
@@ -596,7 +634,9 @@ namespace MML {
 
 			try {
 				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
-				result.solution = Solve(t0, y0, t_end, h_init);
+				result.solution = (t_end > t0)
+					? SolveAdaptive(t0, y0, t_end, h_init, config.min_step_size, config.max_step_size, config.max_steps)
+					: Solve(t0, y0, t_end, 1.0);
 				result.total_steps = result.solution.getNumStepsOK();
 			} catch (const std::exception& e) {
 				result.status = AlgorithmStatus::NumericalInstability;
-- 
2.43.0


From e487998c53b5fba5407a39c70a833bbfe3f8c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:52 +0000
Subject: [PATCH 24/62] fix: DAE solvers stopped short of the end time,
 BDF2/BDF4 used equal-step formulas on a shorter last step, BDF4 was started
 at second order, the constraint tolerance and step limit were ignored

---
 mml/algorithms/DAESolvers/DAEBDF2.h          |  52 ++---
 mml/algorithms/DAESolvers/DAEBDF4.h          | 195 +++++++------------
 mml/algorithms/DAESolvers/DAEBackwardEuler.h |  20 +-
 mml/algorithms/DAESolvers/DAERODAS.h         |  28 ++-
 mml/algorithms/DAESolvers/DAERadauIIA.h      |  27 +--
 mml/algorithms/DAESolvers/DAESolverBase.h    |  35 ++++
 mml/base/DAESystem.h                         |   8 +-
 7 files changed, 187 insertions(+), 178 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index e9d461d..c827230 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -55,16 +55,22 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		const int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(0, std::min(num_steps, config.max_steps)));
 		result.algorithm_name = "DAEBDF2";
+		if (num_steps < 0)
+		{
+			SetDAEInvalidInput(result);
+			return result;
+		}
 
 		// Current and previous state
 		Real t = t0;
 		Vector<Real> x = x0;
 		Vector<Real> y = y0;
 		Vector<Real> x_prev = x0;  // For BDF2, need previous step
+		Real h_prev = config.step_size;  // and its length
 
 		// Working vectors
 		Vector<Real> dxdt(diffDim);
@@ -88,6 +94,13 @@ namespace MML {
 		                       Vector<Real>& x_new, Vector<Real>& y_new,
 		                       bool useBDF2, const Vector<Real>& x_prev_bdf) -> bool
 		{
+			// Variable-step BDF2 coefficients; equal steps (w = 1) give 4/3, -1/3 and 2/3.
+			// The last step may be shorter than the others.
+			const Real w = h / h_prev;
+			const Real c0 = (1.0 + w) * (1.0 + w) / (1.0 + 2.0 * w);
+			const Real c1 = -w * w / (1.0 + 2.0 * w);
+			const Real c2 = (1.0 + w) / (1.0 + 2.0 * w);
+
 			x_new = x_pred;
 
 			for (int iter = 0; iter < config.max_newton_iter; ++iter)
@@ -102,9 +115,6 @@ namespace MML {
 				if (useBDF2)
 				{
 					// BDF2: x_new = (4/3)*x - (1/3)*x_prev + (2/3)*h*f
-					Real c0 = 4.0 / 3.0;
-					Real c1 = -1.0 / 3.0;
-					Real c2 = 2.0 / 3.0;
 					for (int i = 0; i < diffDim; ++i)
 						residual[i] = x_new[i] - c0 * x[i] - c1 * x_prev_bdf[i] - c2 * h * dxdt[i];
 				}
@@ -119,7 +129,7 @@ namespace MML {
 
 				// Check convergence
 				Real res_norm = residual.NormL2();
-				if (res_norm < config.newton_tol)
+				if (res_norm < config.newton_tol && g.NormL2() <= config.constraint_tol)
 					return true;
 
 				// Evaluate Jacobians
@@ -127,7 +137,7 @@ namespace MML {
 				result.jacobian_evaluations++;
 
 				// Build augmented Jacobian
-				Real h_eff = useBDF2 ? (2.0 / 3.0) * h : h;
+				Real h_eff = useBDF2 ? c2 * h : h;
 				for (int i = 0; i < diffDim; ++i)
 				{
 					for (int j = 0; j < diffDim; ++j)
@@ -158,10 +168,10 @@ namespace MML {
 		};
 
 		// First step: Backward Euler
-		if (step < config.max_steps && t < t_end)
+		if (t < t_end && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			Real t_next = t + h;
+			Real t_next = (step == num_steps) ? t_end : t0 + config.step_size;
+			Real h = t_next - t;
 
 			// Initial guess
 			system.diffEqs(t, x, y, dxdt);
@@ -172,12 +182,14 @@ namespace MML {
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Newton iteration failed at first step (Backward Euler)";
+				FinishDAESolution(result, 0, t, t_end);
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
 			// Accept step
 			x_prev = x;
+			h_prev = h;
 			x = x_new;
 			y = y_new;
 			t = t_next;
@@ -193,25 +205,17 @@ namespace MML {
 		}
 
 		// Remaining steps: BDF2
-		while (t < t_end && step < config.max_steps)
+		while (t < t_end && step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			
-			// Skip degenerate final steps (floating-point round-off)
-			if (h < config.step_size * 1e-10)
-				break;
-			
-			Real t_next = t + h;
-
-			// For very small final steps (< 10% of nominal), use Backward Euler
-			bool use_be_for_final = (h < config.step_size * 0.1);
+			Real t_next = (step == num_steps) ? t_end : t0 + step * config.step_size;
+			Real h = t_next - t;
 
 			// BDF2 prediction: extrapolate
 			system.diffEqs(t, x, y, dxdt);
 			Vector<Real> x_new = x + dxdt * h;
 			Vector<Real> y_new = y;
 
-			if (!newtonSolve(t_next, h, x_new, x_new, y_new, !use_be_for_final, x_prev))
+			if (!newtonSolve(t_next, h, x_new, x_new, y_new, true, x_prev))
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Newton iteration failed at t=" + std::to_string(t_next);
@@ -220,6 +224,7 @@ namespace MML {
 
 			// Accept step
 			x_prev = x;
+			h_prev = h;
 			x = x_new;
 			y = y_new;
 			t = t_next;
@@ -235,8 +240,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
+		FinishDAESolution(result, step - 1, t, t_end);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index 8673ff2..abcd844 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -21,6 +21,7 @@
 #define MML_DAE_BDF4_H
 
 #include "DAESolverBase.h"
+#include "DAERadauIIA.h"
 #include <vector>
 
 namespace MML {
@@ -29,7 +30,7 @@ namespace MML {
 	/// 
 	/// Complexity: O(N³) per step where N = diffDim + algDim.
 	///            Newton iteration with augmented Jacobian + LU solve each step.
-	///            First 3 steps use BDF2 sub-stepping for accurate history.
+	///            First 3 steps use Radau IIA for accurate history.
 	///
 	/// BDF4 formula for differential equations:
 	/// @f[
@@ -40,7 +41,7 @@ namespace MML {
 	///   0 = g(t_{n+1}, x_{n+1}, y_{n+1})
 	/// @f]
 	///
-	/// Uses sub-stepping with BDF2 for first 3 steps to build accurate history,
+	/// Uses Radau IIA for the first 3 steps to build accurate history (and for a shortened last step),
 	/// then switches to BDF4 for remaining steps.
 	/// Fourth-order accurate, A(α)-stable with α ≈ 73°.
 	/// Industry standard for stiff DAEs (DASSL, SUNDIALS IDA).
@@ -61,10 +62,15 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		const int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(0, std::min(num_steps, config.max_steps)));
 		result.algorithm_name = "DAEBDF4";
+		if (num_steps < 0)
+		{
+			SetDAEInvalidInput(result);
+			return result;
+		}
 
 		// Working vectors
 		Vector<Real> dxdt(diffDim);
@@ -80,11 +86,6 @@ namespace MML {
 		Vector<Real> delta(totalDim);
 
 		// BDF coefficients
-		// BDF2: x_new = (4/3)*x_n - (1/3)*x_{n-1} + (2/3)*h*f
-		constexpr Real bdf2_c0 = 4.0 / 3.0;
-		constexpr Real bdf2_c1 = -1.0 / 3.0;
-		constexpr Real bdf2_h_coeff = 2.0 / 3.0;
-
 		// BDF4: x_new = (48/25)*x_n - (36/25)*x_{n-1} + (16/25)*x_{n-2} - (3/25)*x_{n-3} + (12/25)*h*f
 		constexpr Real bdf4_c0 = 48.0 / 25.0;
 		constexpr Real bdf4_c1 = -36.0 / 25.0;
@@ -92,11 +93,9 @@ namespace MML {
 		constexpr Real bdf4_c3 = -3.0 / 25.0;
 		constexpr Real bdf4_h_coeff = 12.0 / 25.0;
 
-		// Helper function for Newton solve - single-step methods
-		// bdf_order: 1 = Backward Euler, 2 = BDF2, 4 = BDF4
+		// Newton solve of one BDF4 step
 		auto newtonSolve = [&](Real t_next, Real h, const Vector<Real>& x_pred,
 		                       Vector<Real>& x_new, Vector<Real>& y_new,
-		                       int bdf_order,
 		                       const Vector<Real>& xn, const Vector<Real>& xn1,
 		                       const Vector<Real>& xn2, const Vector<Real>& xn3) -> bool
 		{
@@ -110,36 +109,17 @@ namespace MML {
 				system.diffEqs(t_next, x_new, y_new, dxdt);
 				system.algConstraints(t_next, x_new, y_new, g);
 
-				// Build residual based on method order
-				Real h_eff;
-				if (bdf_order == 4)
-				{
-					// BDF4 residual
-					h_eff = bdf4_h_coeff * h;
-					for (int i = 0; i < diffDim; ++i)
-						residual[i] = x_new[i] - bdf4_c0 * xn[i] - bdf4_c1 * xn1[i] 
-						              - bdf4_c2 * xn2[i] - bdf4_c3 * xn3[i] - h_eff * dxdt[i];
-				}
-				else if (bdf_order == 2)
-				{
-					// BDF2 residual
-					h_eff = bdf2_h_coeff * h;
-					for (int i = 0; i < diffDim; ++i)
-						residual[i] = x_new[i] - bdf2_c0 * xn[i] - bdf2_c1 * xn1[i] - h_eff * dxdt[i];
-				}
-				else
-				{
-					// Backward Euler residual
-					h_eff = h;
-					for (int i = 0; i < diffDim; ++i)
-						residual[i] = x_new[i] - xn[i] - h * dxdt[i];
-				}
+				// BDF4 residual
+				const Real h_eff = bdf4_h_coeff * h;
+				for (int i = 0; i < diffDim; ++i)
+					residual[i] = x_new[i] - bdf4_c0 * xn[i] - bdf4_c1 * xn1[i]
+					              - bdf4_c2 * xn2[i] - bdf4_c3 * xn3[i] - h_eff * dxdt[i];
 				for (int i = 0; i < algDim; ++i)
 					residual[diffDim + i] = g[i];
 
 				// Check convergence
 				Real res_norm = residual.NormL2();
-				if (res_norm < config.newton_tol)
+				if (res_norm < config.newton_tol && g.NormL2() <= config.constraint_tol)
 					return true;
 
 				// Evaluate Jacobians
@@ -177,99 +157,80 @@ namespace MML {
 		};
 
 		// ========================================================================
-		// BOOTSTRAP PHASE: Build accurate history using sub-stepped BDF2
-		// Use 4 substeps per main step to achieve O(h^4) local error during bootstrap
+		// BOOTSTRAP PHASE: values at t0+h, t0+2h, t0+3h from the one-step Radau IIA
+		// method, whose order (5) does not limit the order of the BDF4 steps
 		// ========================================================================
-		constexpr int bootstrap_substeps = 4;
 		Real h_main = config.step_size;
-		Real h_sub = h_main / bootstrap_substeps;
-
-		// We need values at t0, t0+h, t0+2h, t0+3h for BDF4
-		// Store these in history array: hist[0]=newest, hist[3]=oldest
-		std::vector<Vector<Real>> x_history(4, x0);
-		std::vector<Vector<Real>> y_history(4, y0);
-		std::vector<Real> t_history(4, t0);
 
-		Real t_current = t0;
-		Vector<Real> x_current = x0;
-		Vector<Real> y_current = y0;
-		Vector<Real> x_sub_prev = x0;  // Previous substep for BDF2
-
-		// Take 3 main steps using sub-stepped BDF2
-		for (int main_step = 1; main_step <= 3 && t_current < t_end; ++main_step)
+		// Takes Radau IIA steps of length h from (t, x, y) to t_to and stores them after
+		// point number 'first'; also used for a last step shorter than the others
+		auto radauSteps = [&](Real t_from, const Vector<Real>& x_from, const Vector<Real>& y_from,
+		                      Real t_to, Real h, int max_steps, int first) -> DAESolution
 		{
-			Real h_this = std::min(h_main, t_end - t_current);
-			Real h_substep = h_this / bootstrap_substeps;
-
-			for (int sub = 0; sub < bootstrap_substeps; ++sub)
+			DAESolverConfig radauConfig = config;
+			radauConfig.step_size = h;
+			radauConfig.max_steps = max_steps;
+			DAESolverResult part = SolveDAERadauIIA(system, t_from, x_from, y_from, t_to, radauConfig);
+
+			result.newton_iterations += part.newton_iterations;
+			result.jacobian_evaluations += part.jacobian_evaluations;
+			result.max_constraint_violation = std::max(result.max_constraint_violation, part.max_constraint_violation);
+			for (int i = 1; i < part.solution.size(); ++i)
 			{
-				Real t_next = t_current + h_substep;
-				
-				system.diffEqs(t_current, x_current, y_current, dxdt);
-				Vector<Real> x_pred = x_current + dxdt * h_substep;
-				Vector<Real> y_pred = y_current;
-
-				int order = (main_step == 1 && sub == 0) ? 1 : 2;  // First substep uses BE
-				if (!newtonSolve(t_next, h_substep, x_pred, x_pred, y_pred, order,
-				                 x_current, x_sub_prev, x_current, x_current))
-				{
-					result.status = AlgorithmStatus::NumericalInstability;
-					result.error_message = "Newton failed during bootstrap at t=" + std::to_string(t_next);
-					result.elapsed_time_ms = timer.elapsed_ms();
-					return result;
-				}
-
-				x_sub_prev = x_current;
-				x_current = x_pred;
-				y_current = y_pred;
-				t_current = t_next;
+				Vector<Real> xi(diffDim), yi(algDim);
+				for (int k = 0; k < diffDim; ++k)
+					xi[k] = part.solution.getXValue(i, k);
+				for (int k = 0; k < algDim; ++k)
+					yi[k] = part.solution.getYValue(i, k);
+				result.solution.fillValues(first + i, part.solution.getTValue(i), xi, yi);
+				result.solution.incrementSuccessfulSteps();
 			}
-
-			// Shift history and store main step result
-			for (int i = 3; i > 0; --i)
+			if (part.status != AlgorithmStatus::Success && part.status != AlgorithmStatus::MaxIterationsExceeded)
 			{
-				x_history[i] = x_history[i-1];
-				y_history[i] = y_history[i-1];
-				t_history[i] = t_history[i-1];
+				result.status = part.status;
+				result.error_message = part.error_message;
 			}
-			x_history[0] = x_current;
-			y_history[0] = y_current;
-			t_history[0] = t_current;
-		}
+			return part.solution;
+		};
+
+		// Store in history array: hist[0]=newest, hist[3]=oldest
+		std::vector<Vector<Real>> x_history(4, x0);
 
-		// Save initial condition and bootstrap points to solution
 		result.solution.fillValues(0, t0, x0, y0);
-		for (int i = 1; i <= 3; ++i)
-		{
-			result.solution.fillValues(i, t_history[3-i], x_history[3-i], y_history[3-i]);
-			result.solution.incrementSuccessfulSteps();
-		}
-		int step = 4;
+		DAESolution start = radauSteps(t0, x0, y0, num_steps <= 3 ? t_end : t0 + 3 * h_main, h_main,
+		                               std::min(3, config.max_steps), 0);
+		int step = start.size();
+		Real t_current = start.getTValue(step - 1);
+		Vector<Real> y_current = start.getYValuesAtEnd();
+		for (int i = 0; i < step && i < 4; ++i)
+			for (int k = 0; k < diffDim; ++k)
+				x_history[i][k] = start.getXValue(step - 1 - i, k);
 
 		// ========================================================================
 		// MAIN PHASE: BDF4 with accurate history
 		// ========================================================================
-		while (t_current < t_end && step < config.max_steps)
+		while (result.status == AlgorithmStatus::Success && t_current < t_end && step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(h_main, t_end - t_current);
-			
-			// Skip degenerate final steps
-			if (h < h_main * 1e-10)
-				break;
-			
-			Real t_next = t_current + h;
+			Real t_next = (step == num_steps) ? t_end : t0 + step * h_main;
+			Real h = t_next - t_current;
 
-			// For very small final steps, fall back to lower order
-			int order = 4;
-			if (h < h_main * 0.1)
-				order = 1;  // Backward Euler for tiny final step
+			// The coefficients hold for equal steps only
+			if (std::abs(h - h_main) > 1e-8 * h_main)
+			{
+				if (radauSteps(t_current, x_history[0], y_current, t_next, h, 1, step - 1).size() > 1)
+				{
+					t_current = t_next;
+					++step;
+				}
+				break;
+			}
 
 			// Prediction
-			system.diffEqs(t_current, x_history[0], y_history[0], dxdt);
+			system.diffEqs(t_current, x_history[0], y_current, dxdt);
 			Vector<Real> x_new = x_history[0] + dxdt * h;
-			Vector<Real> y_new = y_history[0];
+			Vector<Real> y_new = y_current;
 
-			if (!newtonSolve(t_next, h, x_new, x_new, y_new, order,
+			if (!newtonSolve(t_next, h, x_new, x_new, y_new,
 			                 x_history[0], x_history[1], x_history[2], x_history[3]))
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
@@ -279,30 +240,24 @@ namespace MML {
 
 			// Shift history
 			for (int i = 3; i > 0; --i)
-			{
 				x_history[i] = x_history[i-1];
-				y_history[i] = y_history[i-1];
-				t_history[i] = t_history[i-1];
-			}
 			x_history[0] = x_new;
-			y_history[0] = y_new;
-			t_history[0] = t_next;
+			y_current = y_new;
 			t_current = t_next;
 
 			// Track constraint violation
-			system.algConstraints(t_current, x_history[0], y_history[0], g);
+			system.algConstraints(t_current, x_new, y_new, g);
 			Real g_norm = g.NormL2();
 			if (g_norm > result.max_constraint_violation)
 				result.max_constraint_violation = g_norm;
 
-			result.solution.fillValues(step, t_current, x_history[0], y_history[0]);
+			result.solution.fillValues(step, t_current, x_new, y_new);
 			result.solution.incrementSuccessfulSteps();
 			++step;
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
+		FinishDAESolution(result, step - 1, t_current, t_end);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index 274598a..b6894b2 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -65,10 +65,15 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		const int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(0, std::min(num_steps, config.max_steps)));
 		result.algorithm_name = "DAEBackwardEuler";
+		if (num_steps < 0)
+		{
+			SetDAEInvalidInput(result);
+			return result;
+		}
 
 		// Current state
 		Real t = t0;
@@ -92,10 +97,10 @@ namespace MML {
 		result.solution.fillValues(0, t, x, y);
 		int step = 1;
 
-		while (t < t_end && step < config.max_steps)
+		while (t < t_end && step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			Real t_next = t + h;
+			Real t_next = (step == num_steps) ? t_end : t0 + step * config.step_size;
+			Real h = t_next - t;
 
 			// Initial guess for next step (explicit Euler prediction)
 			system.diffEqs(t, x, y, dxdt);
@@ -120,7 +125,7 @@ namespace MML {
 
 				// Check convergence
 				Real res_norm = residual.NormL2();
-				if (res_norm < config.newton_tol)
+				if (res_norm < config.newton_tol && g.NormL2() <= config.constraint_tol)
 				{
 					converged = true;
 					break;
@@ -184,8 +189,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
+		FinishDAESolution(result, step - 1, t, t_end);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index 3cc2dc2..b80760a 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -56,10 +56,15 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		const int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(0, std::min(num_steps, config.max_steps)));
 		result.algorithm_name = "DAERODAS";
+		if (num_steps < 0)
+		{
+			SetDAEInvalidInput(result);
+			return result;
+		}
 
 		// Working vectors
 		Matrix<Real> df_dx(diffDim, diffDim);
@@ -92,12 +97,10 @@ namespace MML {
 		int step = 1;
 
 		// Main time-stepping loop
-		while (t < t_end && step < config.max_steps)
+		while (t < t_end && step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			
-			if (h < config.step_size * 1e-10)
-				break;
+			Real t_next = (step == num_steps) ? t_end : t0 + step * config.step_size;
+			Real h = t_next - t;
 
 			// Evaluate f, g and Jacobians at current point
 			system.diffEqs(t, x, y, f_curr);
@@ -182,11 +185,17 @@ namespace MML {
 			for (int i = 0; i < algDim; ++i)
 				y[i] += delta[diffDim + i];
 
-			t += h;
+			t = t_next;
 
 			// Track constraint violation
 			system.algConstraints(t, x, y, g_pred);
 			Real g_norm = g_pred.NormL2();
+			if (!std::isfinite(g_norm) || !std::isfinite(x.NormL2()) || !std::isfinite(y.NormL2()))
+			{
+				result.status = AlgorithmStatus::NumericalInstability;
+				result.error_message = "Solution is not finite at t=" + std::to_string(t);
+				break;
+			}
 			if (g_norm > result.max_constraint_violation)
 				result.max_constraint_violation = g_norm;
 
@@ -196,8 +205,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
+		FinishDAESolution(result, step - 1, t, t_end);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index 79de999..af4ba4a 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -63,12 +63,16 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		const int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
-		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
+		DAESolverResult result(t0, t_end, diffDim, algDim, std::max(0, std::min(num_steps, config.max_steps)));
 		result.algorithm_name = "DAERadauIIA";
+		if (num_steps < 0)
+		{
+			SetDAEInvalidInput(result);
+			return result;
+		}
 		result.solution.fillValues(0, t0, x0, y0);
-		result.solution.incrementSuccessfulSteps();
 
 		// Radau IIA coefficients (3-stage, order 5)
 		const Real sqrt6 = std::sqrt(Real(6));
@@ -98,7 +102,6 @@ namespace MML {
 		Vector<Real> x = x0;
 		Vector<Real> y = y0;
 		Real t = t0;
-		Real h = config.step_size;
 
 		// Stage values: K_i for differential, L_i for algebraic
 		// K_i = f(t + c_i*h, X_i, Y_i), L_i = y-values at stage
@@ -117,11 +120,11 @@ namespace MML {
 		Matrix<Real> dgDx(algDim, diffDim), dgDy(algDim, algDim);
 
 		int step = 1;
-		while (t + h/2 <= t_end && step < config.max_steps) {
+		while (t < t_end && step <= num_steps && step <= config.max_steps) {
 
-			// Clamp step size to reach t_end exactly
-			Real h_actual = std::min(h, t_end - t);
-			if (h_actual < 1e-15) break;
+			// The last step is shortened to reach t_end exactly
+			Real t_next = (step == num_steps) ? t_end : t0 + step * config.step_size;
+			Real h_actual = t_next - t;
 
 			// Initialize stage values to current solution (predictor)
 			X1 = x; X2 = x; X3 = x;
@@ -129,6 +132,7 @@ namespace MML {
 
 			// Get Jacobians at current point (frozen for all Newton iterations in this step)
 			system.allJacobians(t, x, y, dfDx, dfDy, dgDx, dgDy);
+			result.jacobian_evaluations++;
 
 			// Newton iteration to solve the coupled stage equations
 			bool converged = false;
@@ -190,7 +194,7 @@ namespace MML {
 				}
 
 				residNorm = std::sqrt(residNorm);
-				if (residNorm < config.newton_tol) {
+				if (residNorm < config.newton_tol && G3.NormL2() <= config.constraint_tol) {
 					converged = true;
 					break;
 				}
@@ -277,7 +281,7 @@ namespace MML {
 			// Update solution using stage 3 (for Radau IIA, c3 = 1, so X3, Y3 is the solution at t+h_actual)
 			x = X3;
 			y = Y3;
-			t += h_actual;
+			t = t_next;
 
 			// Track constraint violation
 			Vector<Real> g_check(algDim);
@@ -292,8 +296,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
+		FinishDAESolution(result, step - 1, t, t_end);
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAESolverBase.h b/mml/algorithms/DAESolvers/DAESolverBase.h
index 92d2763..a348ef2 100644
--- a/mml/algorithms/DAESolvers/DAESolverBase.h
+++ b/mml/algorithms/DAESolvers/DAESolverBase.h
@@ -98,6 +98,41 @@ namespace MML {
 			: solution(t0, t_end, diffDim, algDim, num_steps) {}
 	};
 
+	/// @brief Number of fixed steps that cover [t0, t_end]; the last one may be shorter
+	/// @return Step count, or -1 if the step size or the interval is invalid
+	inline int DAEStepCount(Real t0, Real t_end, Real h)
+	{
+		if (!(h > 0) || !(t_end >= t0) || !std::isfinite(t0) || !std::isfinite(t_end))
+			return -1;
+		Real ratio = (t_end - t0) / h;
+		if (!(ratio < Real(std::numeric_limits<int>::max() - 1)))
+			return -1;
+		Real nearest = std::round(ratio);
+		if (std::abs(ratio - nearest) <= 1e-10 * nearest)
+			ratio = nearest;
+		return static_cast<int>(std::ceil(ratio));
+	}
+
+	/// @brief Mark a result as failed because of an invalid step size or interval
+	inline void SetDAEInvalidInput(DAESolverResult& result)
+	{
+		result.status = AlgorithmStatus::InvalidInput;
+		result.error_message = "Step size must be positive and end time must not precede start time";
+	}
+
+	/// @brief Common end of a fixed-step integration: trim the storage, report an unfinished interval
+	inline void FinishDAESolution(DAESolverResult& result, int steps, Real t, Real t_end)
+	{
+		if (result.status == AlgorithmStatus::Success && t < t_end)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps reached at t=" + std::to_string(t);
+		}
+		result.solution.setFinalSize(steps);
+		result.total_steps = steps;
+	}
+
+
 	/******************************************************************************/
 	/*****            Consistent Initial Condition Solver                     *****/
 	/******************************************************************************/
diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 8d1c53d..6705bb9 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -237,7 +237,7 @@ namespace MML
 			if (y.size() != _algDim)
 				throw ArgumentError("Algebraic vector size mismatch in DAESolution::fillValues");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = t;
@@ -255,7 +255,7 @@ namespace MML
 		{
 			if (ind < 0)
 				throw IndexError("Index must be non-negative in DAESolution::setTVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_tval[ind] = t;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -271,7 +271,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setXVal");
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component index out of range in DAESolution::setXVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_xval[component][ind] = val;
 		}
@@ -286,7 +286,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setYVal");
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component index out of range in DAESolution::setYVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_yval[component][ind] = val;
 		}
-- 
2.43.0


From 57693bf4f894e04d1c94beb2f1387d89f4c73cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 25/62] fix: boundary-value shooting accepted a jump or pole as
 converged, reported status Success on failure and indexed out of bounds

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 15d537a..81438e8 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -64,6 +64,19 @@ namespace MML {
 		}
 	}
 
+	/// @brief Algorithm status that corresponds to a shooting failure reason
+	inline AlgorithmStatus BVPFailureReasonToStatus(BVPFailureReason reason) {
+		switch (reason) {
+			case BVPFailureReason::None:                  return AlgorithmStatus::Success;
+			case BVPFailureReason::MaxIterationsExceeded: return AlgorithmStatus::MaxIterationsExceeded;
+			case BVPFailureReason::SingularJacobian:      return AlgorithmStatus::SingularMatrix;
+			case BVPFailureReason::InvalidConfiguration:  return AlgorithmStatus::InvalidInput;
+			case BVPFailureReason::IntegrationFailed:
+			case BVPFailureReason::NumericalInstability:  return AlgorithmStatus::NumericalInstability;
+			default:                                      return AlgorithmStatus::AlgorithmSpecificFailure;
+		}
+	}
+
 	///////////////////////////////////////////////////////////////////////////////////////////
 	///                         BVP SHOOTING METHOD RESULT                                  ///
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -168,6 +181,16 @@ namespace MML {
 		BVPShootingResult solve1D(Real t0, Real t1, const Vector<Real>& knownInitCond, int shootingIndex, int targetIndex, Real targetValue,
 								  Real shootGuess1, Real shootGuess2) {
 			BVPShootingResult result;
+			result.algorithm_name = "BVPShooting1D";
+
+			if (shootingIndex < 0 || shootingIndex >= knownInitCond.size() || targetIndex < 0 || targetIndex >= _system.getDim() ||
+				knownInitCond.size() != _system.getDim() || _numSteps < 1) {
+				result.failureReason = BVPFailureReason::InvalidConfiguration;
+				result.failureDetails = "Component indices and initial condition must match the system, and at least one step is needed";
+				result.residual = std::numeric_limits<Real>::max();
+				result.status = BVPFailureReasonToStatus(result.failureReason);
+				return result;
+			}
 
 			// Create the "defect function" that measures boundary condition error
 			// F(s) = y[targetIndex](t1) - targetValue, where s is the shooting parameter
@@ -203,6 +226,7 @@ namespace MML {
 						std::to_string(shootGuess1) + ", " + std::to_string(shootGuess2) + 
 						"] even after expanding range";
 					result.residual = std::numeric_limits<Real>::max();
+					result.status = BVPFailureReasonToStatus(result.failureReason);
 					return result;
 				}
 
@@ -223,6 +247,13 @@ namespace MML {
 				Vector<Real> finalState = result.solution.getXValuesAtEnd();
 				result.residual = std::abs(finalState[targetIndex] - targetValue);
 				result.failureReason = BVPFailureReason::None;
+
+				// A sign change of the defect can also be a jump or a pole of the trajectory
+				if (!(result.residual <= std::sqrt(_tolerance) * (1 + std::abs(targetValue)))) {
+					result.converged = false;
+					result.failureReason = BVPFailureReason::RootFindingFailed;
+					result.failureDetails = "Boundary condition is not met at the located parameter, residual: " + std::to_string(result.residual);
+				}
 			} catch (const std::exception& e) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::RootFindingFailed;
@@ -230,6 +261,7 @@ namespace MML {
 				result.residual = std::numeric_limits<Real>::max();
 			}
 
+			result.status = BVPFailureReasonToStatus(result.failureReason);
 			return result;
 		}
 
@@ -423,12 +455,27 @@ namespace MML {
 		/// @return ShootingResultND
 		ShootingResultND solve(Real t0, Real t1, const Vector<Real>& knownInitCond, const ShootingConfig& config) {
 			ShootingResultND result;
+			result.algorithm_name = "BVPShootingND";
 
 			if (!config.isValid()) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::InvalidConfiguration;
 				result.failureDetails = "Shooting configuration invalid: unknownIndices, targetIndices, "
 					"unknownGuesses, and targetValues must all have same non-zero size";
+				result.status = BVPFailureReasonToStatus(result.failureReason);
+				return result;
+			}
+
+			const int dim = _system.getDim();
+			bool indicesValid = knownInitCond.size() == dim && _numSteps >= 1;
+			for (int index : config.unknownIndices)
+				indicesValid = indicesValid && index >= 0 && index < dim;
+			for (int index : config.targetIndices)
+				indicesValid = indicesValid && index >= 0 && index < dim;
+			if (!indicesValid) {
+				result.failureReason = BVPFailureReason::InvalidConfiguration;
+				result.failureDetails = "Component indices and initial condition must match the system, and at least one step is needed";
+				result.status = BVPFailureReasonToStatus(result.failureReason);
 				return result;
 			}
 
@@ -510,6 +557,9 @@ namespace MML {
 			}
 			
 			// Check if we exceeded max iterations without converging
+			if (!result.converged && result.failureReason == BVPFailureReason::None && residualNorm < _tolerance)
+				result.converged = true; // reached by the last update
+
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
 				result.failureDetails = "Did not converge within " + std::to_string(_maxIterations) + 
@@ -521,6 +571,7 @@ namespace MML {
 			result.shootingParams = s;
 			result.residuals = F;
 			result.residualNorm = residualNorm;
+			result.status = BVPFailureReasonToStatus(result.failureReason);
 
 			// Compute final solution (even for failed solves, provide best-effort trajectory)
 			Vector<Real> initCond = knownInitCond;
-- 
2.43.0


From 313e96dfd34b87e6d35bba9757df77589b7f6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 26/62] fix: minimizers claimed convergence on unbounded,
 undefined or steep objectives, looped forever on tight tolerances and NaN
 trial values, and miscounted evaluations

---
 mml/algorithms/Optimization.h         |  39 +++++++--
 mml/algorithms/OptimizationMultidim.h | 114 ++++++++++++++++++++------
 2 files changed, 117 insertions(+), 36 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index b8d647f..6a23179 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -301,7 +301,9 @@ namespace MML {
 				result.fc = fu;
 			}
 
-			result.valid = true;
+			// A function that decreases without bound (or stops being defined) runs out of the representable range
+			result.valid = std::isfinite(result.ax) && std::isfinite(result.cx) && std::isfinite(result.fb) &&
+						   result.fb <= result.fa && result.fb <= result.fc;
 			return result;
 		}
 
@@ -355,7 +357,8 @@ namespace MML {
 		/// @note Based on Numerical Recipes §10.2
 		/// @see BracketMinimum to obtain initial bracket
 		/// @see BrentMinimize for typically faster convergence
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8,
+													  int maxIter = 10000) {
 			// Input validation
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			if (!bracket.valid) {
@@ -366,7 +369,7 @@ namespace MML {
 			const Real C = 1.0 - R;	   // = 1/φ = 2/(√5+1)
 
 			MinimizationResult result;
-			result.converged = false;
+			result.converged = true;
 			result.iterations = 0;
 
 			Real x0 = bracket.ax;
@@ -386,7 +389,11 @@ namespace MML {
 			Real f2 = func(x2);
 
 			// Main iteration loop
-			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2)) + std::numeric_limits<Real>::min()) {
+				if (result.iterations >= maxIter) {
+					result.converged = false; // tolerance below what the arithmetic resolves, or limit set by the caller
+					break;
+				}
 				result.iterations++;
 
 				if (f2 < f1) {
@@ -415,7 +422,6 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = true;
 			return result;
 		}
 
@@ -521,6 +527,7 @@ namespace MML {
 			// Initialize x, w, v to the best point (bx from bracket)
 			x = w = v = bracket.bx;
 			fw = fv = fx = func(x);
+			ValidateFunctionValue(fx, "BrentMinimize initial");
 
 			for (int iter = 0; iter < maxIter; iter++) {
 				result.iterations++;
@@ -913,7 +920,13 @@ namespace MML {
 		                                               const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance);
+			int evaluations = 0;
+			RealFunctionFromStdFunc counted([&func, &evaluations](Real x) { ++evaluations; return func(x); });
+			MinimumBracket bracket = BracketMinimum(counted, a, b);
+			if (!bracket.valid)
+				throw OptimizationError("Failed to bracket minimum in GoldenSectionSearch");
+			MinimizationResult result = GoldenSectionSearch(counted, bracket, config.tolerance, config.max_iterations);
+			result.function_evaluations = evaluations;
 			result.algorithm_name = "GoldenSection";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
@@ -936,7 +949,10 @@ namespace MML {
 		                                         const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = BrentMinimize(func, a, b, config.tolerance, config.max_iterations);
+			int evaluations = 0;
+			RealFunctionFromStdFunc counted([&func, &evaluations](Real x) { ++evaluations; return func(x); });
+			MinimizationResult result = BrentMinimize(counted, a, b, config.tolerance, config.max_iterations);
+			result.function_evaluations = evaluations;
 			result.algorithm_name = "Brent";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
@@ -961,8 +977,11 @@ namespace MML {
 		                                                  Real a, Real b, const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = BrentMinimizeWithDeriv(func, dfunc, a, b, 
+			int evaluations = 0;
+			RealFunctionFromStdFunc counted([&func, &evaluations](Real x) { ++evaluations; return func(x); });
+			MinimizationResult result = BrentMinimizeWithDeriv(counted, dfunc, a, b,
 			                                                    config.tolerance, config.max_iterations);
+			result.function_evaluations = evaluations;
 			result.algorithm_name = "BrentWithDeriv";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
@@ -980,8 +999,10 @@ namespace MML {
 		                                         const Minimization1DConfig& config) {
 			AlgorithmTimer timer;
 
-			RealFunctionFromStdFunc negFunc([&func](Real x) { return -func(x); });
+			int evaluations = 0;
+			RealFunctionFromStdFunc negFunc([&func, &evaluations](Real x) { ++evaluations; return -func(x); });
 			MinimizationResult result = BrentMinimize(negFunc, a, b, config.tolerance, config.max_iterations);
+			result.function_evaluations = evaluations;
 			result.fmin = -result.fmin;
 			result.algorithm_name = "BrentMaximize";
 			result.elapsed_time_ms = timer.elapsed_ms();
diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..10d1aca 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -418,6 +418,21 @@ namespace MML::Optimization {
 				// Check convergence
 				Real rtol = 2.0 * std::abs(_y[ihi] - _y[ilo]) / (std::abs(_y[ihi]) + std::abs(_y[ilo]) + TINY);
 
+				if (rtol < _ftol) {
+					// Equal values at the vertices of a large simplex (a symmetric start, say) are not a minimum yet
+					Real extent = 0.0, xscale = 1.0;
+					for (int i = 0; i < _mpts; ++i)
+						for (int j = 0; j < _ndim; ++j) {
+							extent = std::max(extent, std::abs(_p(i, j) - _p(ilo, j)));
+							xscale = std::max(xscale, std::abs(_p(ilo, j)));
+						}
+					if (extent > 10.0 * std::sqrt(_ftol) * xscale && _nfunc < _maxIter) {
+						ShrinkSimplex<N>(ilo, func);
+						GetPsum(psum);
+						continue;
+					}
+				}
+
 				if (rtol < _ftol) {
 					// Converged - swap best to position 0
 					std::swap(_y[0], _y[ilo]);
@@ -457,16 +472,7 @@ namespace MML::Optimization {
 
 					if (ytry >= ysave) {
 						// Contraction failed - do shrink
-						for (int i = 0; i < _mpts; ++i) {
-							if (i != ilo) {
-								for (int j = 0; j < _ndim; ++j) {
-									_p(i, j) = SIGMA * (_p(i, j) + _p(ilo, j));
-									x[j] = _p(i, j);
-								}
-								_y[i] = func(x);
-							}
-						}
-						_nfunc += _ndim;
+						ShrinkSimplex<N>(ilo, func);
 						GetPsum(psum);
 					}
 				}
@@ -489,6 +495,22 @@ namespace MML::Optimization {
 		///                           Helper Functions                          ///
 		///////////////////////////////////////////////////////////////////////////
 
+		/// @brief Contract the simplex around its best vertex
+		template<int N>
+		void ShrinkSimplex(int ilo, const IScalarFunction<N>& func) {
+			VectorN<Real, N> x;
+			for (int i = 0; i < _mpts; ++i) {
+				if (i != ilo) {
+					for (int j = 0; j < _ndim; ++j) {
+						_p(i, j) = SIGMA * (_p(i, j) + _p(ilo, j));
+						x[j] = _p(i, j);
+					}
+					_y[i] = func(x);
+				}
+			}
+			_nfunc += _ndim;
+		}
+
 		/**
          * @brief Compute sum of vertex coordinates (for centroid calculation)
          */
@@ -698,6 +720,41 @@ namespace MML::Optimization {
 		virtual ~IDifferentiableScalarFunction() = default;
 	};
 
+	/// @brief Forwards to another function and counts its evaluations
+	template<int N>
+	class CountedScalarFunction : public IScalarFunction<N> {
+	private:
+		const IScalarFunction<N>& _func;
+		mutable int _count = 0;
+
+	public:
+		explicit CountedScalarFunction(const IScalarFunction<N>& func)
+			: _func(func) {}
+		Real operator()(const VectorN<Real, N>& x) const override {
+			++_count;
+			return _func(x);
+		}
+		int count() const { return _count; }
+	};
+
+	/// @brief Forwards to another differentiable function and counts its evaluations
+	template<int N>
+	class CountedDifferentiableFunction : public IDifferentiableScalarFunction<N> {
+	private:
+		const IDifferentiableScalarFunction<N>& _func;
+		mutable int _count = 0;
+
+	public:
+		explicit CountedDifferentiableFunction(const IDifferentiableScalarFunction<N>& func)
+			: _func(func) {}
+		Real operator()(const VectorN<Real, N>& x) const override {
+			++_count;
+			return _func(x);
+		}
+		void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& grad) const override { _func.Gradient(x, grad); }
+		int count() const { return _count; }
+	};
+
 	///////////////////////////////////////////////////////////////////////////
 	///                    1D function along a line                         ///
 	///////////////////////////////////////////////////////////////////////////
@@ -1381,10 +1438,7 @@ namespace MML::Optimization {
 				Real fnew = func(pnew);
 
 				if (alam < alamin) {
-					// Convergence on delta x
-					for (int j = 0; j < N; ++j)
-						p[j] = pnew[j];
-					return fnew;
+					return f; // no acceptable step: stay at the current point
 				} else if (fnew <= f + ALF * alam * slope) {
 					// Sufficient decrease - accept step
 					for (int j = 0; j < N; ++j)
@@ -1422,7 +1476,7 @@ namespace MML::Optimization {
 
 					alam2 = alam;
 					f2 = fnew;
-					alam = std::max(tmplam, REAL(0.1) * alam);
+					alam = (tmplam >= REAL(0.1) * alam) ? tmplam : REAL(0.1) * alam; // also when tmplam is NaN
 				}
 			}
 		}
@@ -1488,7 +1542,7 @@ namespace MML::Optimization {
 				Real phi_cur = func(xtrial);
 
 				// Check Armijo condition or non-decrease from previous
-				if (phi_cur > phi0 + c1 * alpha_cur * dphi0 || (i > 0 && phi_cur >= phi_prev)) {
+				if (!(phi_cur <= phi0 + c1 * alpha_cur * dphi0) || (i > 0 && phi_cur >= phi_prev)) {
 					Real alpha_star = WolfeZoom(func, x, d, phi0, dphi0, c1, c2, alpha_prev, alpha_cur, phi_prev, phi_cur);
 					AcceptWolfeStep(func, x, d, alpha_star);
 					return func(x);
@@ -1535,7 +1589,7 @@ namespace MML::Optimization {
 		Real WolfeZoom(const IDifferentiableScalarFunction<N>& func, const VectorN<Real, N>& x, const VectorN<Real, N>& d,
 					   Real phi0, Real dphi0, Real c1, Real c2,
 					   Real alpha_lo, Real alpha_hi, Real phi_lo, Real phi_hi) {
-			const int max_zoom_iter = 20;
+			const int max_zoom_iter = 60; // down to the 1e-14 width limit below
 
 			for (int i = 0; i < max_zoom_iter; ++i) {
 				// Bisection interpolant (simple and robust)
@@ -1546,7 +1600,7 @@ namespace MML::Optimization {
 					xtrial[j] = x[j] + alpha_j * d[j];
 				Real phi_j = func(xtrial);
 
-				if (phi_j > phi0 + c1 * alpha_j * dphi0 || phi_j >= phi_lo) {
+				if (!(phi_j <= phi0 + c1 * alpha_j * dphi0) || phi_j >= phi_lo) {
 					alpha_hi = alpha_j;
 					phi_hi = phi_j;
 				} else {
@@ -1814,7 +1868,7 @@ namespace MML::Optimization {
 			Vector<Real> result(N);
 			for (int j = 0; j < N; ++j)
 				result[j] = x[j];
-			return MultidimMinimizationResult(result, _fret, _iter + 1, converged);
+			return MultidimMinimizationResult(result, _fret, converged ? _iter + 1 : _iter, converged);
 		}
 
 		/// @brief Compute dot product of two VectorN
@@ -1885,9 +1939,7 @@ namespace MML::Optimization {
 				Real fnew = func(xnew);
 
 				if (alam < alamin) {
-					for (int j = 0; j < N; ++j)
-						x[j] = xnew[j];
-					return fnew;
+					return f; // no acceptable step: stay at the current point
 				} else if (fnew <= f + ALF * alam * slope) {
 					for (int j = 0; j < N; ++j)
 						x[j] = xnew[j];
@@ -1920,7 +1972,7 @@ namespace MML::Optimization {
 
 					alam2 = alam;
 					f2 = fnew;
-					alam = std::max(tmplam, REAL(0.1) * alam);
+					alam = (tmplam >= REAL(0.1) * alam) ? tmplam : REAL(0.1) * alam; // also when tmplam is NaN
 				}
 			}
 		}
@@ -1993,7 +2045,9 @@ namespace MML::Optimization {
 											  const MultidimOptimizationConfig& config) {
 		AlgorithmTimer timer;
 		Powell optimizer(config.tolerance, config.max_iterations);
-		MultidimMinimizationResult result = optimizer.Minimize(func, start);
+		CountedScalarFunction<N> counted(func);
+		MultidimMinimizationResult result = optimizer.Minimize<N>(counted, start);
+		result.function_evaluations = counted.count();
 		
 		result.algorithm_name = "Powell";
 		result.elapsed_time_ms = timer.elapsed_ms();
@@ -2013,7 +2067,9 @@ namespace MML::Optimization {
 														 ConjugateGradient::Method method = ConjugateGradient::Method::PolakRibiere) {
 		AlgorithmTimer timer;
 		ConjugateGradient optimizer(config.tolerance, 1.0e-8, config.max_iterations, method);
-		MultidimMinimizationResult result = optimizer.Minimize(func, start);
+		CountedDifferentiableFunction<N> counted(func);
+		MultidimMinimizationResult result = optimizer.Minimize<N>(counted, start);
+		result.function_evaluations = counted.count();
 		
 		result.algorithm_name = "ConjugateGradient";
 		result.elapsed_time_ms = timer.elapsed_ms();
@@ -2032,7 +2088,9 @@ namespace MML::Optimization {
 											const MultidimOptimizationConfig& config) {
 		AlgorithmTimer timer;
 		BFGS optimizer(config.tolerance, 1.0e-8, config.max_iterations);
-		MultidimMinimizationResult result = optimizer.Minimize(func, start);
+		CountedDifferentiableFunction<N> counted(func);
+		MultidimMinimizationResult result = optimizer.Minimize<N>(counted, start);
+		result.function_evaluations = counted.count();
 		
 		result.algorithm_name = "BFGS";
 		result.elapsed_time_ms = timer.elapsed_ms();
@@ -2054,7 +2112,9 @@ namespace MML::Optimization {
 											 const MultidimOptimizationConfig& config) {
 		AlgorithmTimer timer;
 		LBFGS optimizer(config.tolerance, 1.0e-8, config.max_iterations, config.lbfgs_memory_size);
-		MultidimMinimizationResult result = optimizer.Minimize(func, start);
+		CountedDifferentiableFunction<N> counted(func);
+		MultidimMinimizationResult result = optimizer.Minimize<N>(counted, start);
+		result.function_evaluations = counted.count();
 		
 		result.algorithm_name = "L-BFGS";
 		result.elapsed_time_ms = timer.elapsed_ms();
-- 
2.43.0


From b03e591d20ecea34d49ce190c2599678c2c03436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:11 +0000
Subject: [PATCH 27/62] fix: quantiles, critical values and tails of the
 distributions were wrong for heavy tails, small shapes and large parameters;
 NaN parameters were accepted; FactorialInt overflowed

---
 mml/algorithms/Statistics/Distributions.h | 681 ++++++----------------
 mml/base/StandardFunctions.h              |   1 +
 2 files changed, 189 insertions(+), 493 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 20c8eeb..1806e75 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -17,6 +17,135 @@ namespace MML
 {
 	namespace Statistics
 	{
+		namespace Detail
+		{
+			/// @brief Modified Lentz evaluation of the incomplete beta continued fraction
+			inline Real betaContinuedFraction(Real x, Real a, Real b)
+			{
+				const Real fpmin = 1.0e-300;
+				const Real eps = 1.0e-16;
+				const int maxIter = 200 + static_cast<int>(std::min(Real(1.0e6), 20.0 * std::sqrt(a + b)));
+
+				Real qab = a + b;
+				Real qap = a + 1.0;
+				Real qam = a - 1.0;
+				Real c = 1.0;
+				Real d = 1.0 - qab * x / qap;
+				if (std::abs(d) < fpmin) d = fpmin;
+				d = 1.0 / d;
+				Real h = d;
+
+				for (int m = 1; m <= maxIter; m++) {
+					Real m2 = 2.0 * m;
+					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
+					d = 1.0 + aa * d;
+					if (std::abs(d) < fpmin) d = fpmin;
+					c = 1.0 + aa / c;
+					if (std::abs(c) < fpmin) c = fpmin;
+					d = 1.0 / d;
+					h *= d * c;
+
+					aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
+					d = 1.0 + aa * d;
+					if (std::abs(d) < fpmin) d = fpmin;
+					c = 1.0 + aa / c;
+					if (std::abs(c) < fpmin) c = fpmin;
+					d = 1.0 / d;
+					Real del = d * c;
+					h *= del;
+					if (std::abs(del - 1.0) <= eps)
+						break;
+				}
+				return h;
+			}
+
+			/// @brief Regularized incomplete beta function I_x(a,b)
+			/// @param y complement 1 - x, passed separately so that both tails keep full precision
+			inline Real incompleteBeta(Real x, Real y, Real a, Real b)
+			{
+				if (std::isnan(x)) return x;
+				if (x <= 0.0) return 0.0;
+				if (y <= 0.0) return 1.0;
+
+				Real front = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) + a * std::log(x) + b * std::log(y));
+				if (x <= (a + 1.0) / (a + b + 2.0))
+					return std::min(Real(1.0), front * betaContinuedFraction(x, a, b) / a);
+				return std::max(Real(0.0), 1.0 - front * betaContinuedFraction(y, b, a) / b);
+			}
+
+			/// @brief Regularized incomplete gamma functions: lower P(a,x) and upper Q(a,x) = 1 - P(a,x)
+			inline void incompleteGamma(Real a, Real x, Real& P, Real& Q)
+			{
+				if (std::isnan(x)) { P = Q = x; return; }
+				if (x <= 0.0) { P = 0.0; Q = 1.0; return; }
+				if (std::isinf(x)) { P = 1.0; Q = 0.0; return; }
+
+				const int maxIter = 300 + static_cast<int>(std::min(Real(1.0e6), 20.0 * std::sqrt(a)));
+				Real front = std::exp(-x + a * std::log(x) - std::lgamma(a));
+				if (x < a + 1.0) {
+					Real sum = 1.0 / a, term = sum;
+					for (int n = 1; n <= maxIter; n++) {
+						term *= x / (a + n);
+						sum += term;
+						if (term < sum * 1.0e-17) break;
+					}
+					P = std::min(Real(1.0), sum * front);
+					Q = 1.0 - P;
+				}
+				else {
+					const Real fpmin = 1.0e-300;
+					Real b = x + 1.0 - a, c = 1.0 / fpmin, d = 1.0 / b, h = d;
+					for (int i = 1; i <= maxIter; i++) {
+						Real an = -i * (i - a);
+						b += 2.0;
+						d = an * d + b;
+						if (std::abs(d) < fpmin) d = fpmin;
+						c = b + an / c;
+						if (std::abs(c) < fpmin) c = fpmin;
+						d = 1.0 / d;
+						Real delta = d * c;
+						h *= delta;
+						if (std::abs(delta - 1.0) <= 1.0e-16) break;
+					}
+					Q = std::min(Real(1.0), h * front);
+					P = 1.0 - Q;
+				}
+			}
+
+			/// @brief Smallest x > 0 that is not left of the solution, by geometric bisection
+			/// @param isLeft isLeft(x) is true while x lies below the solution (monotone)
+			/// @param guess positive starting point
+			template<class Pred>
+			Real bisectPositive(Pred isLeft, Real guess)
+			{
+				Real lo = guess, hi = guess, step = 2.0;
+				while (isLeft(hi)) {
+					if (hi == std::numeric_limits<Real>::max())
+						return std::numeric_limits<Real>::infinity();
+					lo = hi;
+					hi = std::min(hi * step, std::numeric_limits<Real>::max());
+					step = std::min(step * step, Real(1.0e30));
+				}
+				step = 2.0;
+				while (!isLeft(lo)) {
+					if (lo <= std::numeric_limits<Real>::min())
+						return 0.0;
+					hi = lo;
+					lo = std::max(lo / step, std::numeric_limits<Real>::min());
+					step = std::min(step * step, Real(1.0e30));
+				}
+				for (int iter = 0; iter < 200; iter++) {
+					Real mid = (hi > 2.0 * lo) ? std::sqrt(lo) * std::sqrt(hi) : lo + 0.5 * (hi - lo);
+					if (mid <= lo || mid >= hi) break;
+					if (isLeft(mid))
+						lo = mid;
+					else
+						hi = mid;
+				}
+				return hi;
+			}
+		} // namespace Detail
+
 		/// @brief Normal (Gaussian) distribution
 		/// The normal distribution is the most important continuous distribution,
 		/// central to the Central Limit Theorem and statistical inference.
@@ -35,7 +164,7 @@ namespace MML
 			NormalDistribution(Real mean = 0.0, Real stddev = 1.0)
 				: mu(mean), sigma(stddev)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Standard deviation must be positive in NormalDistribution");
 			}
 
@@ -58,7 +187,7 @@ namespace MML
 			Real cdf(Real x) const
 			{
 				Real z = (x - mu) / (sigma * std::sqrt(2.0));
-				return 0.5 * (1.0 + std::erf(z));
+				return 0.5 * std::erfc(-z);
 			}
 
 			/// @brief Inverse cumulative distribution function (quantile/probit function)
@@ -184,7 +313,7 @@ namespace MML
 			/// @brief CDF of standard normal (Φ function)
 			static Real cdf(Real z)
 			{
-				return 0.5 * (1.0 + std::erf(z / std::sqrt(2.0)));
+				return 0.5 * std::erfc(-z / std::sqrt(2.0));
 			}
 
 			/// @brief Inverse CDF (probit function)
@@ -197,7 +326,7 @@ namespace MML
 			/// @brief Survival function: P(Z > z) = 1 - Φ(z)
 			static Real sf(Real z)
 			{
-				return 1.0 - cdf(z);
+				return cdf(-z);
 			}
 
 			/// @brief Two-tailed p-value: P(|Z| > |z|)
@@ -256,33 +385,13 @@ namespace MML
 			/// @return Probability that T <= x
 			Real cdf(Real x) const
 			{
-				if (df == 1) {
-					// Special case: df=1 is Cauchy distribution centered at 0
-					return 0.5 + std::atan(x) / Constants::PI;
-				}
-
+				// Lower tail of -|x|; the upper half follows by symmetry
 				Real nu = static_cast<Real>(df);
-				
-				if (x == 0.0)
-					return 0.5;
-				
-				// Standard formula for t-distribution CDF:
-				// For t > 0: P(T <= t) = 1 - 0.5 * I_x(df/2, 0.5)
-				// where x = df/(df + t²)
-				// For t < 0: Use symmetry P(T <= -|t|) = 1 - P(T <= |t|)
-				
-				Real absX = std::abs(x);
-				Real x2 = absX * absX;
-				Real xBeta = nu / (nu + x2);
-				Real betaReg = incompleteBetaRegularized(xBeta, nu / 2.0, 0.5);
-				
-				Real result = 1.0 - 0.5 * betaReg;
-				
-				// If x < 0, use symmetry
-				if (x < 0.0)
-					result = 1.0 - result;
-				
-				return result;
+				Real x2 = x * x;
+				Real tail = std::isinf(x2) ? 0.0 : 0.5 * Detail::incompleteBeta(nu / (nu + x2), x2 / (nu + x2), nu / 2.0, 0.5);
+				if (df == 1 && x != 0.0)
+					tail = std::atan(1.0 / std::abs(x)) / Constants::PI;
+				return (x > 0.0) ? 1.0 - tail : tail;
 			}
 
 			/// @brief Inverse cumulative distribution function (quantile function)
@@ -295,41 +404,19 @@ namespace MML
 			{
 				if (p <= 0.0 || p >= 1.0)
 					throw StatisticsError("Probability must be in (0, 1) in TDistribution::inverseCdf");
-
 				if (p == 0.5)
 					return 0.0;
 
-				if (df == 1) {
-					// Special case: df=1 is Cauchy
-					return std::tan(Constants::PI * (p - 0.5));
-				}
-
-				// Use Newton-Raphson iteration
-				// Start with normal approximation
-				Real t = StandardNormal::inverseCdf(p);
-				
-				// Refine with Newton-Raphson
-				for (int iter = 0; iter < 10; iter++) {
-					Real f = cdf(t) - p;
-					Real fprime = pdf(t);
-					
-					if (std::abs(fprime) < 1e-14)
-						break;
-					
-					Real delta = f / fprime;
-					t -= delta;
-					
-					if (std::abs(delta) < Precision::DefaultToleranceStrict)
-						break;
-				}
-				
-				return t;
+				// Solve in the lower tail, where the probabilities keep full relative precision
+				Real q = std::min(p, 1.0 - p);
+				Real t = Detail::bisectPositive([this, q](Real x) { return cdf(-x) > q; }, 1.0);
+				return (p < 0.5) ? -t : t;
 			}
 
 			/// @brief Survival function: P(T > t)
 			Real sf(Real x) const
 			{
-				return 1.0 - cdf(x);
+				return cdf(-x);
 			}
 
 			/// @brief Two-tailed p-value: P(|T| > |t|)
@@ -377,72 +464,6 @@ namespace MML
 				Real nu = static_cast<Real>(df);
 				return nu / (nu - 2.0);
 			}
-
-		private:
-			/// @brief Regularized incomplete beta function I_x(a, b)
-			/// Uses continued fraction expansion (Lentz's method).
-			/// Based on Numerical Recipes formula 6.4.5
-			static Real incompleteBetaRegularized(Real x, Real a, Real b)
-			{
-				if (x < 0.0 || x > 1.0)
-					return 0.0;
-				if (x == 0.0)
-					return 0.0;
-				if (x == 1.0)
-					return 1.0;
-
-				// Use symmetry relation if x > (a+1)/(a+b+2)
-				bool useSymmetry = (x > (a + 1.0) / (a + b + 2.0));
-				if (useSymmetry) {
-					return 1.0 - incompleteBetaRegularized(1.0 - x, b, a);
-				}
-
-				// Compute log of beta function B(a, b) = Γ(a)Γ(b)/Γ(a+b)
-				Real logBeta = std::lgamma(a) + std::lgamma(b) - std::lgamma(a + b);
-				
-				// Front factor: exp(a*ln(x) + b*ln(1-x) - ln(B(a,b))) / a
-				Real front = std::exp(a * std::log(x) + b * std::log(1.0 - x) - logBeta) / a;
-
-				// Modified Lentz's method for continued fraction
-				// Formula from Numerical Recipes (Press et al.)
-				const Real fpmin = 1.0e-30;
-				const Real eps = 1.0e-15;
-				const int maxIter = 200;
-				
-				Real qab = a + b;
-				Real qap = a + 1.0;
-				Real qam = a - 1.0;
-				Real c = 1.0;
-				Real d = 1.0 - qab * x / qap;
-				if (std::abs(d) < fpmin) d = fpmin;
-				d = 1.0 / d;
-				Real h = d;
-				
-				for (int m = 1; m <= maxIter; m++) {
-					int m2 = 2 * m;
-					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
-					d = 1.0 + aa * d;
-					if (std::abs(d) < fpmin) d = fpmin;
-					c = 1.0 + aa / c;
-					if (std::abs(c) < fpmin) c = fpmin;
-					d = 1.0 / d;
-					h *= d * c;
-					
-					aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
-					d = 1.0 + aa * d;
-					if (std::abs(d) < fpmin) d = fpmin;
-					c = 1.0 + aa / c;
-					if (std::abs(c) < fpmin) c = fpmin;
-					d = 1.0 / d;
-					Real del = d * c;
-					h *= del;
-					
-					if (std::abs(del - 1.0) < eps)
-						break;
-				}
-
-				return front * h;
-			}
 		};
 
 		/// @brief Chi-square (χ²) distribution
@@ -478,7 +499,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < 0.0) return 0.0;
-				if (x == 0.0) return (_df == 2) ? 0.5 : 0.0;
+				if (x == 0.0) return (_df == 1) ? std::numeric_limits<Real>::infinity() : (_df == 2 ? 0.5 : 0.0);
 
 				Real k2 = _df / 2.0;
 				return std::exp((k2 - 1.0) * std::log(x) - x / 2.0 - k2 * std::log(2.0) - std::lgamma(k2));
@@ -490,9 +511,9 @@ namespace MML
 			Real cdf(Real x) const
 			{
 				if (x <= 0.0) return 0.0;
-				
-				// CDF = P(k/2, x/2) where P is regularized lower incomplete gamma
-				return incompleteGammaP(_df / 2.0, x / 2.0);
+				Real P, Q;
+				Detail::incompleteGamma(_df / 2.0, x / 2.0, P, Q);
+				return P;
 			}
 
 			/// @brief Right-tail probability P(X ≥ x)
@@ -500,7 +521,10 @@ namespace MML
 			/// This is the p-value for chi-square tests
 			Real rightTailPValue(Real chiSquare) const
 			{
-				return 1.0 - cdf(chiSquare);
+				if (chiSquare <= 0.0) return 1.0;
+				Real P, Q;
+				Detail::incompleteGamma(_df / 2.0, chiSquare / 2.0, P, Q);
+				return Q;
 			}
 
 			/// @brief Critical value for given significance level (right-tail test)
@@ -511,95 +535,7 @@ namespace MML
 				if (alpha <= 0.0 || alpha >= 1.0)
 					throw StatisticsError("Alpha must be in (0, 1)");
 
-				// Find x where CDF(x) = 1 - alpha using binary search
-				Real low = 0.0;
-				Real high = mean() + 10.0 * stddev();  // Start with reasonable upper bound
-				Real tolerance = 1e-9;
-				int maxIterations = 100;
-
-				for (int iter = 0; iter < maxIterations; iter++) {
-					Real mid = (low + high) / 2.0;
-					Real cdf_mid = cdf(mid);
-					Real target = 1.0 - alpha;
-
-					if (std::abs(cdf_mid - target) < tolerance)
-						return mid;
-
-					if (cdf_mid < target)
-						low = mid;
-					else
-						high = mid;
-				}
-
-				return (low + high) / 2.0;
-			}
-
-		private:
-			/// @brief Regularized lower incomplete gamma function P(a,x)
-			/// P(a,x) = γ(a,x) / Γ(a)
-			Real incompleteGammaP(Real a, Real x) const
-			{
-				if (x < 0.0 || a <= 0.0)
-					return 0.0;
-
-				if (x == 0.0)
-					return 0.0;
-
-				// Use series expansion for x < a+1
-				if (x < a + 1.0) {
-					return gammaSeriesExpansion(a, x);
-				}
-				// Use continued fraction for x >= a+1
-				else {
-					return 1.0 - gammaContinuedFraction(a, x);
-				}
-			}
-
-			/// @brief Series expansion for incomplete gamma
-			Real gammaSeriesExpansion(Real a, Real x) const
-			{
-				Real sum = 1.0 / a;
-				Real term = 1.0 / a;
-				Real tolerance = 1e-12;
-
-				for (int n = 1; n <= 1000; n++) {
-					term *= x / (a + n);
-					sum += term;
-
-					if (std::abs(term) < std::abs(sum) * tolerance)
-						break;
-				}
-
-				return sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
-			}
-
-			/// @brief Continued fraction for incomplete gamma
-			Real gammaContinuedFraction(Real a, Real x) const
-			{
-				Real tolerance = 1e-12;
-				Real fpmin = 1e-30;
-
-				Real b = x + 1.0 - a;
-				Real c = 1.0 / fpmin;
-				Real d = 1.0 / b;
-				Real h = d;
-
-				for (int i = 1; i <= 1000; i++) {
-					Real an = -i * (i - a);
-					b += 2.0;
-					d = an * d + b;
-					if (std::abs(d) < fpmin) d = fpmin;
-					c = b + an / c;
-					if (std::abs(c) < fpmin) c = fpmin;
-					d = 1.0 / d;
-					Real delta = d * c;
-					h *= delta;
-
-					if (std::abs(delta - 1.0) < tolerance)
-						break;
-				}
-
-				return h * std::exp(-x + a * std::log(x) - std::lgamma(a));
+				return Detail::bisectPositive([this, alpha](Real x) { return rightTailPValue(x) > alpha; }, mean());
 			}
 		};
 
@@ -653,7 +589,7 @@ namespace MML
       Real pdf(Real x) const
       {
         if (x < 0.0) return 0.0;
-        if (x == 0.0) return (_df1 == 2) ? 1.0 : 0.0;
+        if (x == 0.0) return (_df1 == 1) ? std::numeric_limits<Real>::infinity() : (_df1 == 2 ? 1.0 : 0.0);
 
         Real d1 = _df1 / 2.0;
         Real d2 = _df2 / 2.0;
@@ -672,12 +608,10 @@ namespace MML
       /// Uses relationship with regularized incomplete beta function
       Real cdf(Real x) const
       {
-        if (x <= 0.0) return 0.0;
-
-        // F-CDF = I_y(df1/2, df2/2) where y = (df1*x)/(df1*x + df2)
-        // I is regularized incomplete beta function
-        Real y = (_df1 * x) / (_df1 * x + _df2);
-        return incompleteBeta(_df1 / 2.0, _df2 / 2.0, y);
+      	if (x <= 0.0) return 0.0;
+      	if (std::isinf(x)) return 1.0;
+      	Real den = _df1 * x + _df2;
+      	return Detail::incompleteBeta(_df1 * x / den, _df2 / den, _df1 / 2.0, _df2 / 2.0);
       }
 
       /// @brief Right-tail probability P(F ≥ f)
@@ -685,7 +619,10 @@ namespace MML
       /// This is the p-value for F-tests (ANOVA, regression)
       Real rightTailPValue(Real f) const
       {
-        return 1.0 - cdf(f);
+      	if (f <= 0.0) return 1.0;
+      	if (std::isinf(f)) return 0.0;
+      	Real den = _df1 * f + _df2;
+      	return Detail::incompleteBeta(_df2 / den, _df1 * f / den, _df2 / 2.0, _df1 / 2.0);
       }
 
       /// @brief Critical value for given significance level (right-tail test)
@@ -693,94 +630,10 @@ namespace MML
       /// Returns f such that P(F ≥ f) = alpha
       Real criticalValue(Real alpha) const
       {
-        if (alpha <= 0.0 || alpha >= 1.0)
-          throw StatisticsError("Alpha must be in (0, 1)");
-
-        // Binary search for critical value
-        Real low = 0.0;
-        Real high = 100.0;  // Start with reasonable upper bound
-        Real tolerance = 1e-9;
-        int maxIterations = 100;
-
-        for (int iter = 0; iter < maxIterations; iter++) {
-          Real mid = (low + high) / 2.0;
-          Real pValue = rightTailPValue(mid);
-
-          if (std::abs(pValue - alpha) < tolerance)
-            return mid;
-
-          if (pValue > alpha)  // Need larger F
-            low = mid;
-          else  // Need smaller F
-            high = mid;
-        }
-
-        return (low + high) / 2.0;
-      }
-
-    private:
-      /// @brief Regularized incomplete beta function I_x(a,b)
-      Real incompleteBeta(Real a, Real b, Real x) const
-      {
-        if (x < 0.0 || x > 1.0)
-          return 0.0;
-        if (x == 0.0) return 0.0;
-        if (x == 1.0) return 1.0;
-
-        // Use symmetry relation if needed
-        if (x > (a + 1.0) / (a + b + 2.0)) {
-          return 1.0 - incompleteBeta(b, a, 1.0 - x);
-        }
-
-        // Continued fraction evaluation
-        Real bt = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) +
-                          a * std::log(x) + b * std::log(1.0 - x));
-
-        if (x < (a + 1.0) / (a + b + 2.0))
-          return bt * betaContinuedFraction(a, b, x) / a;
-        else
-          return 1.0 - bt * betaContinuedFraction(b, a, 1.0 - x) / b;
-      }
+      	if (alpha <= 0.0 || alpha >= 1.0)
+      		throw StatisticsError("Alpha must be in (0, 1)");
 
-      /// @brief Continued fraction for incomplete beta
-      Real betaContinuedFraction(Real a, Real b, Real x) const
-      {
-        Real tolerance = 1e-12;
-        Real fpmin = 1e-30;
-        Real qab = a + b;
-        Real qap = a + 1.0;
-        Real qam = a - 1.0;
-        Real c = 1.0;
-        Real d = 1.0 - qab * x / qap;
-
-        if (std::abs(d) < fpmin) d = fpmin;
-        d = 1.0 / d;
-        Real h = d;
-
-        for (int m = 1; m <= 1000; m++) {
-          int m2 = 2 * m;
-          Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
-          d = 1.0 + aa * d;
-          if (std::abs(d) < fpmin) d = fpmin;
-          c = 1.0 + aa / c;
-          if (std::abs(c) < fpmin) c = fpmin;
-          d = 1.0 / d;
-          h *= d * c;
-
-          aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
-          d = 1.0 + aa * d;
-          if (std::abs(d) < fpmin) d = fpmin;
-          c = 1.0 + aa / c;
-          if (std::abs(c) < fpmin) c = fpmin;
-          d = 1.0 / d;
-          Real delta = d * c;
-          h *= delta;
-
-          if (std::abs(delta - 1.0) < tolerance)
-            break;
-        }
-
-        return h;
+      	return Detail::bisectPositive([this, alpha](Real x) { return rightTailPValue(x) > alpha; }, 1.0);
       }
     };
 
@@ -797,7 +650,7 @@ namespace MML
 			CauchyDistribution(Real location = 0.0, Real scale = 1.0) 
 				: mu(location), sigma(scale)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Scale parameter must be positive in CauchyDistribution");
 			}
 
@@ -842,7 +695,7 @@ namespace MML
 			/// @param rate Rate parameter λ (must be > 0)
 			ExponentialDistribution(Real rate) : lambda(rate)
 			{
-				if (lambda <= 0.0)
+				if (!(lambda > 0.0))
 					throw StatisticsError("Rate parameter must be positive in ExponentialDistribution");
 			}
 
@@ -898,7 +751,7 @@ namespace MML
 			LogisticDistribution(Real location = 0.0, Real scale = 1.0)
 				: mu(location), sigma(scale)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Scale parameter must be positive in LogisticDistribution");
 			}
 
@@ -908,9 +761,7 @@ namespace MML
 			/// @return Probability density at x
 			Real pdf(Real x) const
 			{
-				// Standard logistic PDF: f(x) = e^(-z) / (σ(1 + e^(-z))²)
-				// where z = (x - μ) / σ
-				Real z = (x - mu) / sigma;
+				Real z = std::abs(x - mu) / sigma;  // density is even around mu; exp(-|z|) cannot overflow
 				Real exp_neg_z = std::exp(-z);
 				Real denom = 1.0 + exp_neg_z;
 				return exp_neg_z / (sigma * denom * denom);
@@ -972,7 +823,7 @@ namespace MML
 			UniformDistribution(Real lower = 0.0, Real upper = 1.0)
 				: a(lower), b(upper)
 			{
-				if (b <= a)
+				if (!(b > a))
 					throw StatisticsError("Upper bound must be greater than lower bound in UniformDistribution");
 			}
 
@@ -1023,9 +874,9 @@ namespace MML
 			GammaDistribution(Real k, Real theta = 1.0)
 				: shape(k), scale(theta)
 			{
-				if (shape <= 0.0)
+				if (!(shape > 0.0))
 					throw StatisticsError("Shape parameter must be positive in GammaDistribution");
-				if (scale <= 0.0)
+				if (!(scale > 0.0))
 					throw StatisticsError("Scale parameter must be positive in GammaDistribution");
 			}
 
@@ -1047,7 +898,9 @@ namespace MML
 			Real cdf(Real x) const
 			{
 				if (x <= 0.0) return 0.0;
-				return incompleteGammaP(shape, x / scale);
+				Real P, Q;
+				Detail::incompleteGamma(shape, x / scale, P, Q);
+				return P;
 			}
 
 			/// @brief Inverse CDF (quantile function) - uses Newton-Raphson
@@ -1055,109 +908,11 @@ namespace MML
 			{
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return std::numeric_limits<Real>::infinity();
-
-				// Initial guess using Wilson-Hilferty approximation for large shape
-				Real x;
-				if (shape >= 1.0) {
-					Real z = inverseStandardNormalCdf(p);
-					Real h = 1.0 / (9.0 * shape);
-					x = shape * scale * std::pow(1.0 - h + z * std::sqrt(h), 3);
-					if (x <= 0.0) x = 0.5 * shape * scale;
-				} else {
-					x = 0.5 * shape * scale;
-				}
-
-				// Newton-Raphson refinement
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (std::abs(dx) < 1e-12 * x) break;
-				}
-				return x;
+				return Detail::bisectPositive([this, p](Real x) { return cdf(x) < p; }, mean());
 			}
 
 			Real mean() const { return shape * scale; }
 			Real variance() const { return shape * scale * scale; }
-
-		private:
-			/// @brief Regularized lower incomplete gamma function P(a,x)
-			static Real incompleteGammaP(Real a, Real x)
-			{
-				if (x < 0.0) return 0.0;
-				if (x == 0.0) return 0.0;
-
-				if (x < a + 1.0) {
-					// Series representation
-					Real ap = a;
-					Real sum = 1.0 / a;
-					Real del = sum;
-					for (int n = 1; n <= 200; n++) {
-						ap += 1.0;
-						del *= x / ap;
-						sum += del;
-						if (std::abs(del) < std::abs(sum) * 1e-15) break;
-					}
-					return sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
-				} else {
-					// Continued fraction representation
-					Real b = x + 1.0 - a;
-					Real c = 1.0 / 1e-30;
-					Real d = 1.0 / b;
-					Real h = d;
-					for (int n = 1; n <= 200; n++) {
-						Real an = -n * (n - a);
-						b += 2.0;
-						d = an * d + b;
-						if (std::abs(d) < 1e-30) d = 1e-30;
-						c = b + an / c;
-						if (std::abs(c) < 1e-30) c = 1e-30;
-						d = 1.0 / d;
-						Real del = d * c;
-						h *= del;
-						if (std::abs(del - 1.0) < 1e-15) break;
-					}
-					return 1.0 - h * std::exp(-x + a * std::log(x) - std::lgamma(a));
-				}
-			}
-
-			/// @brief Inverse standard normal CDF (probit)
-			static Real inverseStandardNormalCdf(Real p)
-			{
-				// Rational approximation from Abramowitz and Stegun
-				const Real a[] = { -3.969683028665376e+01, 2.209460984245205e+02,
-				                   -2.759285104469687e+02, 1.383577518672690e+02,
-				                   -3.066479806614716e+01, 2.506628277459239e+00 };
-				const Real b[] = { -5.447609879822406e+01, 1.615858368580409e+02,
-				                   -1.556989798598866e+02, 6.680131188771972e+01,
-				                   -1.328068155288572e+01 };
-				const Real c[] = { -7.784894002430293e-03, -3.223964580411365e-01,
-				                   -2.400758277161838e+00, -2.549732539343734e+00,
-				                    4.374664141464968e+00,  2.938163982698783e+00 };
-				const Real d[] = { 7.784695709041462e-03, 3.224671290700398e-01,
-				                   2.445134137142996e+00, 3.754408661907416e+00 };
-
-				const Real pLow = 0.02425, pHigh = 1.0 - pLow;
-				Real q, r;
-
-				if (p < pLow) {
-					q = std::sqrt(-2.0 * std::log(p));
-					return (((((c[0]*q+c[1])*q+c[2])*q+c[3])*q+c[4])*q+c[5]) /
-					        ((((d[0]*q+d[1])*q+d[2])*q+d[3])*q+1.0);
-				} else if (p <= pHigh) {
-					q = p - 0.5;
-					r = q * q;
-					return (((((a[0]*r+a[1])*r+a[2])*r+a[3])*r+a[4])*r+a[5])*q /
-					       (((((b[0]*r+b[1])*r+b[2])*r+b[3])*r+b[4])*r+1.0);
-				} else {
-					q = std::sqrt(-2.0 * std::log(1.0 - p));
-					return -(((((c[0]*q+c[1])*q+c[2])*q+c[3])*q+c[4])*q+c[5]) /
-					         ((((d[0]*q+d[1])*q+d[2])*q+d[3])*q+1.0);
-				}
-			}
 		};
 
 		//=========================================================================
@@ -1178,9 +933,9 @@ namespace MML
 			BetaDistribution(Real a, Real b)
 				: alpha(a), beta(b)
 			{
-				if (alpha <= 0.0)
+				if (!(alpha > 0.0))
 					throw StatisticsError("Alpha parameter must be positive in BetaDistribution");
-				if (beta <= 0.0)
+				if (!(beta > 0.0))
 					throw StatisticsError("Beta parameter must be positive in BetaDistribution");
 			}
 
@@ -1205,7 +960,7 @@ namespace MML
 			{
 				if (x <= 0.0) return 0.0;
 				if (x >= 1.0) return 1.0;
-				return incompleteBetaRegularized(x, alpha, beta);
+				return Detail::incompleteBeta(x, 1.0 - x, alpha, beta);
 			}
 
 			/// @brief Inverse CDF (quantile function) - uses Newton-Raphson
@@ -1213,26 +968,7 @@ namespace MML
 			{
 				if (p <= 0.0) return 0.0;
 				if (p >= 1.0) return 1.0;
-
-				// Initial guess
-				Real x = 0.5;
-				if (alpha > 1.0 && beta > 1.0) {
-					// Mode-based initial guess
-					x = (alpha - 1.0) / (alpha + beta - 2.0);
-				}
-
-				// Newton-Raphson
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (x >= 1.0) x = 1.0 - 1e-10;
-					if (std::abs(dx) < 1e-12) break;
-				}
-				return x;
+				return std::min(Real(1.0), Detail::bisectPositive([this, p](Real x) { return cdf(x) < p; }, mean()));
 			}
 
 			Real mean() const { return alpha / (alpha + beta); }
@@ -1241,47 +977,6 @@ namespace MML
 				Real ab = alpha + beta;
 				return (alpha * beta) / (ab * ab * (ab + 1.0));
 			}
-
-		private:
-			/// @brief Regularized incomplete beta function I_x(a,b)
-			static Real incompleteBetaRegularized(Real x, Real a, Real b)
-			{
-				if (x <= 0.0) return 0.0;
-				if (x >= 1.0) return 1.0;
-
-				// Use symmetry if needed for convergence
-				if (x > (a + 1.0) / (a + b + 2.0)) {
-					return 1.0 - incompleteBetaRegularized(1.0 - x, b, a);
-				}
-
-				Real bt = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b)
-				                 + a * std::log(x) + b * std::log(1.0 - x));
-
-				// Continued fraction (Lentz's method)
-				Real qab = a + b, qap = a + 1.0, qam = a - 1.0;
-				Real c = 1.0, d = 1.0 - qab * x / qap;
-				if (std::abs(d) < 1e-30) d = 1e-30;
-				d = 1.0 / d;
-				Real h = d;
-
-				for (int m = 1; m <= 200; m++) {
-					int m2 = 2 * m;
-					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
-					d = 1.0 + aa * d; if (std::abs(d) < 1e-30) d = 1e-30;
-					c = 1.0 + aa / c; if (std::abs(c) < 1e-30) c = 1e-30;
-					d = 1.0 / d;
-					h *= d * c;
-
-					aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
-					d = 1.0 + aa * d; if (std::abs(d) < 1e-30) d = 1e-30;
-					c = 1.0 + aa / c; if (std::abs(c) < 1e-30) c = 1e-30;
-					d = 1.0 / d;
-					Real del = d * c;
-					h *= del;
-					if (std::abs(del - 1.0) < 1e-15) break;
-				}
-				return bt * h / a;
-			}
 		};
 
 		//=========================================================================
@@ -1302,9 +997,9 @@ namespace MML
 			WeibullDistribution(Real k, Real lambda = 1.0)
 				: shape(k), scale(lambda)
 			{
-				if (shape <= 0.0)
+				if (!(shape > 0.0))
 					throw StatisticsError("Shape parameter must be positive in WeibullDistribution");
-				if (scale <= 0.0)
+				if (!(scale > 0.0))
 					throw StatisticsError("Scale parameter must be positive in WeibullDistribution");
 			}
 
@@ -1315,7 +1010,7 @@ namespace MML
 				if (x == 0.0) return (shape < 1.0) ? std::numeric_limits<Real>::infinity()
 				                                  : (shape == 1.0 ? 1.0/scale : 0.0);
 				Real z = x / scale;
-				return (shape / scale) * std::pow(z, shape - 1.0) * std::exp(-std::pow(z, shape));
+				return (shape / scale) * std::exp((shape - 1.0) * std::log(z) - std::pow(z, shape));
 			}
 
 			/// @brief Cumulative distribution function (CDF)
@@ -1360,9 +1055,9 @@ namespace MML
 			ParetoDistribution(Real shape, Real scale = 1.0)
 				: alpha(shape), xm(scale)
 			{
-				if (alpha <= 0.0)
+				if (!(alpha > 0.0))
 					throw StatisticsError("Shape parameter must be positive in ParetoDistribution");
-				if (xm <= 0.0)
+				if (!(xm > 0.0))
 					throw StatisticsError("Scale parameter must be positive in ParetoDistribution");
 			}
 
@@ -1370,7 +1065,7 @@ namespace MML
 			Real pdf(Real x) const
 			{
 				if (x < xm) return 0.0;
-				return alpha * std::pow(xm, alpha) / std::pow(x, alpha + 1.0);
+				return alpha / x * std::pow(xm / x, alpha);
 			}
 
 			/// @brief Cumulative distribution function (CDF)
@@ -1423,7 +1118,7 @@ namespace MML
 			LogNormalDistribution(Real logMean = 0.0, Real logStdDev = 1.0)
 				: mu(logMean), sigma(logStdDev)
 			{
-				if (sigma <= 0.0)
+				if (!(sigma > 0.0))
 					throw StatisticsError("Sigma must be positive in LogNormalDistribution");
 			}
 
@@ -1440,7 +1135,7 @@ namespace MML
 			{
 				if (x <= 0.0) return 0.0;
 				Real z = (std::log(x) - mu) / (sigma * std::sqrt(2.0));
-				return 0.5 * (1.0 + std::erf(z));
+				return 0.5 * std::erfc(-z);
 			}
 
 			/// @brief Inverse CDF (quantile function)
diff --git a/mml/base/StandardFunctions.h b/mml/base/StandardFunctions.h
index 0471563..45470ce 100644
--- a/mml/base/StandardFunctions.h
+++ b/mml/base/StandardFunctions.h
@@ -276,6 +276,7 @@ namespace MML
 		}
 		static inline long long FactorialInt(int n) {
 			if (n < 0) throw std::domain_error("FactorialInt: negative argument");
+			if (n > 20) throw std::overflow_error("FactorialInt: result does not fit into long long");
 			long long fact = 1;
 			for (int i = 2; i <= n; i++)
 				fact *= i;
-- 
2.43.0


From b2da44facf7c1e7d2c1ad7291ae89c33dc10c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 28/62] fix: statistics: NaN deviations of constant data,
 overflow in Pearson correlation, absolute tie tolerance in rank correlations,
 undefined t-tests/Welch/ANOVA/contingency tables on degenerate data, NaN
 percentile arguments

---
 mml/algorithms/Statistics.h                   | 12 ++++++--
 .../Statistics/StatisticsHypothesis.h         | 28 ++++++++++++++++---
 mml/algorithms/Statistics/StatisticsRank.h    |  7 ++---
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index 26e118b..4a0aab8 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -54,6 +54,8 @@ namespace MML {
 				outVar += s * s;
 			}
 			outVar = (outVar - ep * ep / n) / (n - 1);
+			if (outVar < 0.0)
+				outVar = 0.0; // rounding in (nearly) constant data
 		}
 		static void AvgStdDev(const Vector<Real>& data, Real& outAvg, Real& outStdDev) {
 			Real var;
@@ -102,6 +104,8 @@ namespace MML {
 			}
 			adev /= n;
 			var = (var - ep * ep / n) / (n - 1);
+			if (var < 0.0)
+				var = 0.0; // rounding in (nearly) constant data
 			sdev = sqrt(var);
 
 			if (var != 0.0) {
@@ -157,7 +161,7 @@ namespace MML {
 			int n = data.size();
 			if (n <= 0)
 				throw StatisticsError("Vector size must be greater than 0 in Percentile");
-			if (p < 0.0 || p > 100.0)
+			if (!(p >= 0.0 && p <= 100.0))
 				throw StatisticsError("Percentile must be in range [0, 100]");
 
 			// Create a sorted copy
@@ -341,7 +345,7 @@ namespace MML {
 			int n = data.size();
 			if (n <= 0)
 				throw StatisticsError("Vector size must be greater than 0 in TrimmedMean");
-			if (trimPercent < 0.0 || trimPercent >= 50.0)
+			if (!(trimPercent >= 0.0 && trimPercent < 50.0))
 				throw StatisticsError("trimPercent must be in range [0, 50) in TrimmedMean");
 
 			// Create a sorted copy
@@ -598,7 +602,9 @@ namespace MML {
 			if (sumY2 == 0.0)
 				throw StatisticsError("Second variable has zero variance in PearsonCorrelation");
 
-			return sumXY / std::sqrt(sumX2 * sumY2);
+			// separate roots: the product of the sums could overflow or underflow
+			Real r = (sumXY / std::sqrt(sumX2)) / std::sqrt(sumY2);
+			return std::max(Real(-1.0), std::min(Real(1.0), r));
 		}
 
 		/// @brief Result structure for correlation with significance test
diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 80b5b23..a58af6a 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -167,6 +167,13 @@ namespace MML
 			// Standard error
 			Real standardError = pooledStd * std::sqrt(1.0 / n1 + 1.0 / n2);
 
+			if (standardError == 0.0) {
+				// All values identical within each group: no variability to compare against
+				bool same = (mean1 == mean2);
+				Real largeT = same ? 0.0 : ((mean1 > mean2) ? 1000.0 : -1000.0);
+				return HypothesisTestResult(largeT, same ? 1.0 : 0.0, 0.0, !same, 1.0 - alpha, n1 + n2 - 2, "Two-Sample t-Test (Pooled)");
+			}
+
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
 
@@ -234,13 +241,20 @@ namespace MML
 			Real se2 = var2 / n2;
 			Real standardError = std::sqrt(se1 + se2);
 
+			if (standardError == 0.0) {
+				// All values identical within each group: no variability to compare against
+				bool same = (mean1 == mean2);
+				Real largeT = same ? 0.0 : ((mean1 > mean2) ? 1000.0 : -1000.0);
+				return HypothesisTestResult(largeT, same ? 1.0 : 0.0, 0.0, !same, 1.0 - alpha, n1 + n2 - 2, "Welch's t-Test (Unequal Variances)");
+			}
+
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
 
 			// Welch-Satterthwaite degrees of freedom
-			Real numerator = (se1 + se2) * (se1 + se2);
-			Real denominator = (se1 * se1) / (n1 - 1) + (se2 * se2) / (n2 - 1);
-			int df = static_cast<int>(std::floor(numerator / denominator));
+			Real w1 = se1 / (se1 + se2);  // relative weights, so that tiny variances cannot underflow
+			Real w2 = se2 / (se1 + se2);
+			int df = static_cast<int>(std::floor(1.0 / (w1 * w1 / (n1 - 1) + w2 * w2 / (n2 - 1))));
 
 			// Ensure df is at least 1
 			if (df < 1) df = 1;
@@ -438,6 +452,12 @@ namespace MML
 
 			if (grandTotal <= 0.0)
 				throw StatisticsError("Table must have positive total frequency");
+			for (int i = 0; i < rows; i++)
+				if (rowTotals[i] <= 0.0)
+					throw StatisticsError("Every row must have positive total frequency");
+			for (int j = 0; j < cols; j++)
+				if (colTotals[j] <= 0.0)
+					throw StatisticsError("Every column must have positive total frequency");
 
 			// Compute chi-square statistic
 			Real chiSquare = 0.0;
@@ -555,7 +575,7 @@ namespace MML
 			Real MSW = SSW / df_within;       // Mean square within
 
 			// F-statistic
-			Real F = MSB / MSW;
+			Real F = (MSB > 0.0) ? MSB / MSW : 0.0;  // identical group means: no effect, even without spread
 
 			// Create F-distribution
 			FDistribution fDist(df_between, df_within);
diff --git a/mml/algorithms/Statistics/StatisticsRank.h b/mml/algorithms/Statistics/StatisticsRank.h
index 50a0a91..787c22d 100644
--- a/mml/algorithms/Statistics/StatisticsRank.h
+++ b/mml/algorithms/Statistics/StatisticsRank.h
@@ -47,7 +47,7 @@ namespace MML
 			while (i < n) {
 				int j = i;
 				// Find extent of tied values
-				while (j < n - 1 && std::abs(data[indices[j + 1]] - data[indices[i]]) < 1e-14)
+				while (j < n - 1 && data[indices[j + 1]] == data[indices[i]])
 					j++;
 
 				// Average rank for tied values
@@ -170,7 +170,6 @@ namespace MML
 			long long tiedX = 0;
 			long long tiedY = 0;
 
-			const Real eps = 1e-14;
 
 			// Count all pairs
 			for (int i = 0; i < n - 1; i++) {
@@ -178,8 +177,8 @@ namespace MML
 					Real dx = x[j] - x[i];
 					Real dy = y[j] - y[i];
 
-					bool xTied = std::abs(dx) < eps;
-					bool yTied = std::abs(dy) < eps;
+					bool xTied = (x[j] == x[i]);
+					bool yTied = (y[j] == y[i]);
 
 					if (xTied && yTied) {
 						// Both tied - don't count
-- 
2.43.0


From 5bcac81777866d924af8eb117f8dc1ab13373c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 29/62] fix: Kaiser and Gaussian windows were undefined for one
 point, Kaiser was wrong for large beta, NaN parameters passed validation and
 NextPowerOfTwo overflowed

---
 mml/algorithms/Fourier.h          |  6 ++++--
 mml/algorithms/FourierWindowing.h | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/Fourier.h b/mml/algorithms/Fourier.h
index 9557dc9..ad50325 100644
--- a/mml/algorithms/Fourier.h
+++ b/mml/algorithms/Fourier.h
@@ -159,14 +159,14 @@ namespace MML::Fourier
 
 		template<typename T>
 		inline void ValidatePositive(T value, const std::string& paramName, const std::string& functionName) {
-			if (value <= T(0)) {
+			if (!(value > T(0))) {
 				throw std::invalid_argument(functionName + " - " + paramName + " must be positive");
 			}
 		}
 
 		template<typename T>
 		inline void ValidateNonNegative(T value, const std::string& paramName, const std::string& functionName) {
-			if (value < T(0)) {
+			if (!(value >= T(0))) {
 				throw std::invalid_argument(functionName + " - " + paramName + " must be non-negative");
 			}
 		}
@@ -446,6 +446,8 @@ namespace MML::Fourier
 				return 1;
 			if (IsPowerOfTwo(n))
 				return n;
+			if (n > (1 << 30))
+				throw std::invalid_argument("FFT::NextPowerOfTwo - no power of two representable for this size");
 
 			int power = 1;
 			while (power < n) {
diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 01f6870..bee902a 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -20,6 +20,8 @@
 
 #include "algorithms/Fourier.h"
 
+#include <algorithm>
+
 #include <cmath>
 #include <stdexcept>
 
@@ -208,7 +210,9 @@ namespace MML::Fourier
 				Real term = 1.0;
 				Real x_half = x / 2.0;
 
-				for (int k = 1; k <= 50; k++) // Sufficient for typical accuracy
+				// Terms grow until k ~ x/2 and then decrease, so the loop length scales with x
+				const int max_terms = 50 + static_cast<int>(std::min(x, Real(1e6)));
+				for (int k = 1; k <= max_terms; k++)
 				{
 					term *= (x_half / k);
 					term *= (x_half / k);
@@ -221,12 +225,17 @@ namespace MML::Fourier
 				return sum;
 			};
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			Real i0_beta = bessel_i0(beta);
+			if (!std::isfinite(i0_beta))
+				throw std::invalid_argument("Windows::Kaiser - beta too large");
 			Vector<Real> window(n);
 
 			for (int i = 0; i < n; i++) {
 				Real x = 2.0 * i / (n - 1) - 1.0; // Normalize to [-1, 1]
-				Real arg = beta * std::sqrt(1.0 - x * x);
+				Real arg = beta * std::sqrt(std::max(Real(0), Real(1.0 - x * x)));
 				window[i] = bessel_i0(arg) / i0_beta;
 			}
 
@@ -252,6 +261,9 @@ namespace MML::Fourier
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidatePositive(sigma, "sigma", "Windows::Gaussian");
 
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
+
 			Vector<Real> window(n);
 			Real center = (n - 1) / 2.0;
 			Real denominator = sigma * (n - 1) / 2.0;
-- 
2.43.0


From 903db21c1ad3ef7f9439b2277d6a5e2a150daeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:04 +0000
Subject: [PATCH 30/62] fix: graphs: DFS tree parents, negative weights looped
 forever in Dijkstra, wrong connectivity bound, directed betweenness and path
 length, oscillating eigenvector centrality, self-loop Laplacian, empty path
 and cycle graphs

---
 mml/algorithms/GraphAlgorithms.h | 17 +++++++-----
 mml/algorithms/GraphSpectral.h   | 46 +++++++++++++++++++++++++-------
 mml/base/Graph.h                 |  8 +++---
 3 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/mml/algorithms/GraphAlgorithms.h b/mml/algorithms/GraphAlgorithms.h
index a25d14e..bbd7bc8 100644
--- a/mml/algorithms/GraphAlgorithms.h
+++ b/mml/algorithms/GraphAlgorithms.h
@@ -153,11 +153,9 @@ namespace MML
 				size_t v = it->to;
 				if (!visited[v])
 				{
-					if (result.parent[v] == GRAPH_NOT_FOUND)
-					{
-						result.parent[v] = u;
-						result.distance[v] = result.distance[u] + 1;
-					}
+					// The latest push is popped first, so the last vertex to push v is its tree parent
+					result.parent[v] = u;
+					result.distance[v] = result.distance[u] + 1;
 					stack.push(v);
 				}
 			}
@@ -205,7 +203,7 @@ namespace MML
 	///////////////////////////////////////////////////////////////////////////
 
 	/// Find shortest path from start to all vertices using Dijkstra's algorithm
-	/// Requires non-negative edge weights
+	/// Requires non-negative edge weights (throws std::invalid_argument when it meets a negative one)
 	/// Complexity: O((V + E) log V) with priority queue
 	///
 	/// @param graph  The graph (must have non-negative weights)
@@ -244,6 +242,8 @@ namespace MML
 			for (const auto& edge : graph.neighbors(u))
 			{
 				size_t v = edge.to;
+				if (edge.weight < E{0})
+					throw std::invalid_argument("Dijkstra - negative edge weight, use BellmanFord instead");
 				Real newDist = result.distance[u] + static_cast<Real>(edge.weight);
 
 				if (newDist < result.distance[v])
@@ -318,6 +318,8 @@ namespace MML
 			for (const auto& edge : graph.neighbors(u))
 			{
 				size_t v = edge.to;
+				if (edge.weight < E{0})
+					throw std::invalid_argument("Dijkstra - negative edge weight, use BellmanFord instead");
 				Real newDist = dist[u] + static_cast<Real>(edge.weight);
 
 				if (newDist < dist[v])
@@ -561,6 +563,9 @@ namespace MML
 	template<typename V, typename E>
 	bool HasNegativeCycle(const Graph<V, E>& graph, size_t start)
 	{
+		if (start >= graph.numVertices())
+			return false;
+
 		auto result = BellmanFord(graph, start);
 		return result.parent.empty();  // Empty if negative cycle found
 	}
diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 9248098..31758b4 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -128,16 +128,29 @@ namespace MML
 		if (components.numComponents > 1)
 			return 0;
 
-		// Use Cheeger-like bound: lambda_2 >= 2 * (1 - cos(pi/n)) * min_degree
+		// Fiedler: lambda_2 >= 2 * (1 - cos(pi/n)) * edge_connectivity, and a connected graph has
+		// edge connectivity >= 1; for unweighted graphs also lambda_2 >= 2*min_degree - n + 2.
+		// Lowering all weights to the smallest one can only lower lambda_2.
 		Real minDegree = std::numeric_limits<Real>::max();
+		Real minWeight = std::numeric_limits<Real>::max();
 		for (size_t v = 0; v < n; ++v)
 		{
-			Real d = static_cast<Real>(graph.degree(v));
-			if (d < minDegree)
-				minDegree = d;
+			Real d = 0;
+			for (const auto& edge : graph.neighbors(v))
+			{
+				if (edge.to == v)
+					continue;  // Self-loops do not contribute to the Laplacian
+				d += 1;
+				minWeight = std::min(minWeight, static_cast<Real>(edge.weight));
+			}
+			minDegree = std::min(minDegree, d);
 		}
+		if (minWeight <= 0)
+			return 0;
 
-		return minDegree > 0 ? 2.0 * (1.0 - std::cos(Constants::PI / n)) * minDegree : 0;
+		Real bound = 2.0 * (1.0 - std::cos(Constants::PI / n));
+		bound = std::max(bound, 2.0 * minDegree - static_cast<Real>(n) + 2.0);
+		return minWeight * bound;
 	}
 
 	/// Check if graph is connected using spectral method
@@ -311,7 +324,8 @@ namespace MML
 		// Normalize if requested
 		if (normalized && n > 2)
 		{
-			Real normFactor = 2.0 / ((n - 1) * (n - 2));
+			// Number of vertex pairs not including v: ordered for directed, unordered for undirected graphs
+			Real normFactor = (graph.isUndirected() ? 2.0 : 1.0) / ((n - 1) * (n - 2));
 			for (size_t v = 0; v < n; ++v)
 			{
 				betweenness[v] *= normFactor;
@@ -345,12 +359,23 @@ namespace MML
 
 		Matrix<Real> A = graph.toAdjacencyMatrix();
 
+		// Iterate with A + shift*I: same eigenvectors, but bipartite graphs, where both lambda and
+		// -lambda are eigenvalues of A, converge as well instead of oscillating
+		Real shift = 0;
+		for (size_t i = 0; i < n; ++i)
+		{
+			Real rowSum = 0;
+			for (size_t j = 0; j < n; ++j)
+				rowSum += std::abs(A(i, j));
+			shift = std::max(shift, Real(0.5) * rowSum);
+		}
+
 		for (size_t iter = 0; iter < maxIterations; ++iter)
 		{
-			// Matrix-vector multiply: next = A * centrality
+			// Matrix-vector multiply: next = (A + shift*I) * centrality
 			for (size_t i = 0; i < n; ++i)
 			{
-				next[i] = 0;
+				next[i] = shift * centrality[i];
 				for (size_t j = 0; j < n; ++j)
 				{
 					next[i] += A(i, j) * centrality[j];
@@ -564,9 +589,10 @@ namespace MML
 		{
 			auto bfsResult = BFS(graph, v);
 
-			for (size_t u = v + 1; u < n; ++u)
+			// Distances are symmetric only in undirected graphs
+			for (size_t u = graph.isUndirected() ? v + 1 : 0; u < n; ++u)
 			{
-				if (bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
+				if (u != v && bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
 				{
 					totalLength += bfsResult.distance[u];
 					++pathCount;
diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..9437e65 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -433,10 +433,10 @@ namespace MML
 				E deg = E{0};
 				for (const auto& edge : _adjList[i])
 				{
-					L(i, edge.to) = -edge.weight;  // Off-diagonal: -weight
+					L(i, edge.to) -= edge.weight;  // Off-diagonal: -weight
 					deg += edge.weight;
 				}
-				L(i, i) = deg;  // Diagonal: sum of weights
+				L(i, i) += deg;  // Diagonal: sum of weights (less a self-loop's own entry)
 			}
 
 			return L;
@@ -535,7 +535,7 @@ namespace MML
 	Graph<V, E> createPathGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		return g;
 	}
@@ -545,7 +545,7 @@ namespace MML
 	Graph<V, E> createCycleGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		if (n > 2)
 			g.addEdge(n - 1, 0, E{1});
-- 
2.43.0


From 1f53398e9d1aa042f87268e6558534de869e3e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 31/62] fix: geometry: Delaunay lost hull triangles and
 small-scale points, Voronoi cells unordered or truncated, 3D hull neighbours
 never filled, pentagrams reported convex, clockwise clip regions emptied the
 result, false segment intersections with point segments

---
 mml/algorithms/CompGeometry/ConvexHull3D.h    |  20 +++
 mml/algorithms/CompGeometry/PolygonOps.h      |   9 +-
 mml/algorithms/CompGeometry/Triangulation.h   | 127 +++++++++++-------
 mml/algorithms/CompGeometry/VoronoiDiagram.h  |  87 ++++--------
 .../Geometry/Geometry2DCore/Geometry2DLines.h |   3 +-
 .../Geometry2DCore/Geometry2DPolygon.h        |  14 +-
 6 files changed, 149 insertions(+), 111 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index 3d67ea7..6bf2571 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -153,6 +153,7 @@ public:
 			if (n == 3) {
 				hull.faces.push_back({0, 1, 2});
 				hull.faces.push_back({0, 2, 1});  // Both orientations
+				FindNeighbors(hull);
 			}
 			return hull;
 		}
@@ -241,6 +242,8 @@ public:
 			hull.vertices.push_back(points[p1]);
 			hull.vertices.push_back(points[p2]);
 			hull.faces.push_back({0, 1, 2});
+			hull.faces.push_back({0, 2, 1});  // Both orientations
+			FindNeighbors(hull);
 			return hull;
 		}
 		
@@ -504,10 +507,27 @@ public:
 			}
 		}
 		
+		FindNeighbors(hull);
 		return hull;
 	}
 
 private:
+	/// @brief Fill in the face across each face edge (-1 if there is none)
+	static void FindNeighbors(ConvexHull3D& hull) {
+		std::map<std::pair<int, int>, int> edgeToFace;
+		for (int f = 0; f < static_cast<int>(hull.faces.size()); f++)
+			for (int e = 0; e < 3; e++)
+				edgeToFace[{hull.faces[f][e], hull.faces[f][(e + 1) % 3]}] = f;
+
+		hull.neighbors.assign(hull.faces.size(), {-1, -1, -1});
+		for (size_t f = 0; f < hull.faces.size(); f++)
+			for (int e = 0; e < 3; e++) {
+				auto it = edgeToFace.find({hull.faces[f][(e + 1) % 3], hull.faces[f][e]});
+				if (it != edgeToFace.end())
+					hull.neighbors[f][e] = it->second;
+			}
+	}
+
 	/// @brief Squared distance between two 3D points
 	static Real Distance2(const Point3Cartesian& a, const Point3Cartesian& b) {
 		Real dx = b.X() - a.X();
diff --git a/mml/algorithms/CompGeometry/PolygonOps.h b/mml/algorithms/CompGeometry/PolygonOps.h
index 2b46b9e..ab99c5b 100644
--- a/mml/algorithms/CompGeometry/PolygonOps.h
+++ b/mml/algorithms/CompGeometry/PolygonOps.h
@@ -48,13 +48,18 @@ public:
 
 		std::vector<Point2Cartesian> output = subject.Vertices();
 
+		// The clip edges keep what lies to their left, so walk the region CCW
+		std::vector<Point2Cartesian> clip = clipRegion.Vertices();
+		if (clipRegion.SignedArea() < 0)
+			std::reverse(clip.begin(), clip.end());
+
 		int clipN = clipRegion.NumVertices();
 		for (int i = 0; i < clipN; i++) {
 			if (output.empty())
 				break;
 
-			const Point2Cartesian& edgeStart = clipRegion[i];
-			const Point2Cartesian& edgeEnd = clipRegion[(i + 1) % clipN];
+			const Point2Cartesian& edgeStart = clip[i];
+			const Point2Cartesian& edgeEnd = clip[(i + 1) % clipN];
 
 			output = ClipAgainstEdge(output, edgeStart, edgeEnd);
 		}
diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index 6baf8c4..a6028e2 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <array>
+#include <limits>
 #include <map>
 #include <random>
 #include <vector>
@@ -228,43 +229,31 @@ public:
 			return result;
 		}
 
-		// Find bounding box
-		Real minX = points[0].X(), maxX = points[0].X();
-		Real minY = points[0].Y(), maxY = points[0].Y();
-		for (const auto& p : points) {
-			minX = std::min(minX, p.X());
-			maxX = std::max(maxX, p.X());
-			minY = std::min(minY, p.Y());
-			maxY = std::max(maxY, p.Y());
+		// Initial triangle: two distant points and the point farthest from their line
+		int i0 = 0, i1 = 0, i2 = -1;
+		Real best = 0;
+		for (int i = 1; i < n; i++) {
+			Real d = Dist2(points[0], points[i]);
+			if (d > best) { best = d; i1 = i; }
 		}
+		best = 0;
+		for (int i = 0; i < n; i++) {
+			if (Orientation(points[i0], points[i1], points[i]) == 0)
+				continue;
+			Real d = std::abs(Cross(points[i0], points[i1], points[i]));
+			if (d > best) { best = d; i2 = i; }
+		}
+		if (i2 < 0 || best <= Real(1e-14) * Dist2(points[i0], points[i1])) {
+			result.points = std::move(points); // all points coincident or collinear
+			return result;
+		}
+		if (Cross(points[i0], points[i1], points[i2]) < 0)
+			std::swap(i1, i2);
 
-		// Create super-triangle that contains all points
-		// Make it large enough to ensure all points fit well inside
-		Real dx = maxX - minX;
-		Real dy = maxY - minY;
-		Real deltaMax = std::max(dx, dy);
-		
-		// Ensure deltaMax is large enough for numerical stability
-		deltaMax = std::max<Real>(deltaMax, std::max<Real>(std::abs(minX), std::abs(minY)) * Real(1e-10));
-		deltaMax = std::max<Real>(deltaMax, std::max<Real>(std::abs(maxX), std::abs(maxY)) * Real(1e-10));
-		deltaMax = std::max<Real>(deltaMax, Real(1e-10));  // Absolute minimum
-		
-		Real midX = (minX + maxX) / Real(2.0);
-		Real midY = (minY + maxY) / Real(2.0);
-
-		// Super-triangle vertices in CCW order (very large to contain all points)
-		Point2Cartesian st1(midX - 20 * deltaMax, midY - deltaMax);
-		Point2Cartesian st2(midX + 20 * deltaMax, midY - deltaMax);
-		Point2Cartesian st3(midX, midY + 20 * deltaMax);
-
-		// Working point list: original points then super-triangle vertices
-		std::vector<Point2Cartesian> workPoints = points;
-		int st1Idx = static_cast<int>(workPoints.size());
-		int st2Idx = st1Idx + 1;
-		int st3Idx = st1Idx + 2;
-		workPoints.push_back(st1);
-		workPoints.push_back(st2);
-		workPoints.push_back(st3);
+		// Triangles that lie outside the current hull share the symbolic vertex INF
+		// ("at infinity"), so no finite super-triangle can hide part of the hull.
+		const int INF = n;
+		const std::vector<Point2Cartesian>& workPoints = points;
 
 		// Triangle representation: vertex indices and validity flag
 		struct Tri {
@@ -272,10 +261,14 @@ public:
 			bool valid = true;
 		};
 		std::vector<Tri> tris;
-		tris.push_back({{st1Idx, st2Idx, st3Idx}, true});
+		tris.push_back({{i0, i1, i2}, true});
+		tris.push_back({{i1, i0, INF}, true});
+		tris.push_back({{i2, i1, INF}, true});
+		tris.push_back({{i0, i2, INF}, true});
 
 		// Incrementally add each point
 		for (int i = 0; i < n; i++) {
+			if (i == i0 || i == i1 || i == i2) continue;
 			const Point2Cartesian& p = workPoints[i];
 
 			// Find all triangles whose circumcircle contains the new point
@@ -283,13 +276,23 @@ public:
 			for (size_t t = 0; t < tris.size(); t++) {
 				if (!tris[t].valid) continue;
 
-				const Point2Cartesian& a = workPoints[tris[t].v[0]];
-				const Point2Cartesian& b = workPoints[tris[t].v[1]];
-				const Point2Cartesian& c = workPoints[tris[t].v[2]];
-
-				if (InCircumcircle(p, a, b, c)) {
-					badTriangles.push_back(static_cast<int>(t));
+				const std::array<int, 3>& v = tris[t].v;
+				bool bad = false;
+				int inf = v[0] == INF ? 0 : v[1] == INF ? 1 : v[2] == INF ? 2 : -1;
+				if (inf >= 0) {
+					// Outer half-plane of a hull edge, or the open edge itself
+					const Point2Cartesian& a = workPoints[v[(inf + 1) % 3]];
+					const Point2Cartesian& b = workPoints[v[(inf + 2) % 3]];
+					int side = Orientation(a, b, p);
+					bad = side > 0 || (side == 0 && StrictlyBetween(a, b, p));
+				} else {
+					const Point2Cartesian& a = workPoints[v[0]];
+					const Point2Cartesian& b = workPoints[v[1]];
+					const Point2Cartesian& c = workPoints[v[2]];
+					bad = InCircumcircle(p, a, b, c);
 				}
+				if (bad)
+					badTriangles.push_back(static_cast<int>(t));
 			}
 
 			// Find boundary polygon: edges that appear exactly once
@@ -325,22 +328,22 @@ public:
 			}
 		}
 
-		// Extract final triangulation (exclude triangles using super-triangle vertices)
+		// Extract final triangulation (exclude triangles using the vertex at infinity)
 		result.points = points;  // Only original points
 		
 		for (const auto& tri : tris) {
 			if (!tri.valid) continue;
 
-			// Skip if any vertex is a super-triangle vertex
-			bool usesSuperTri = false;
+			// Skip the triangles outside the hull
+			bool isOuter = false;
 			for (int j = 0; j < 3; j++) {
 				if (tri.v[j] >= n) {
-					usesSuperTri = true;
+					isOuter = true;
 					break;
 				}
 			}
 
-			if (!usesSuperTri) {
+			if (!isOuter) {
 				result.triangles.push_back(tri.v);
 			}
 		}
@@ -374,6 +377,25 @@ private:
 		return (a.X() - o.X()) * (b.Y() - o.Y()) - (a.Y() - o.Y()) * (b.X() - o.X());
 	}
 
+	static Real Dist2(const Point2Cartesian& a, const Point2Cartesian& b) {
+		return (a.X() - b.X()) * (a.X() - b.X()) + (a.Y() - b.Y()) * (a.Y() - b.Y());
+	}
+
+	// Sign of the turn a-b-p; 0 when it is below rounding error
+	static int Orientation(const Point2Cartesian& a, const Point2Cartesian& b, const Point2Cartesian& p) {
+		Real l = (b.X() - a.X()) * (p.Y() - a.Y());
+		Real r = (b.Y() - a.Y()) * (p.X() - a.X());
+		Real det = l - r;
+		if (std::abs(det) <= Real(2) * std::numeric_limits<Real>::epsilon() * (std::abs(l) + std::abs(r)))
+			return 0;
+		return det > 0 ? 1 : -1;
+	}
+
+	// For p on the line a-b: is it strictly between a and b?
+	static bool StrictlyBetween(const Point2Cartesian& a, const Point2Cartesian& b, const Point2Cartesian& p) {
+		return (p.X() - a.X()) * (p.X() - b.X()) + (p.Y() - a.Y()) * (p.Y() - b.Y()) < 0;
+	}
+
 	// Check if vertex at index i is an "ear" in the polygon
 	static bool IsEar(const std::vector<Point2Cartesian>& vertices, int i, int n) {
 		int prev = (i - 1 + n) % n;
@@ -437,7 +459,16 @@ private:
 				   ay * (bx * cp - bp * cx) +
 				   ap * (bx * cy - by * cx);
 
-		return det > EPSILON;
+		// Sign is certain only above the rounding error of the determinant
+		Real bound = std::abs(ax) * (std::abs(by) * cp + bp * std::abs(cy)) +
+					 std::abs(ay) * (std::abs(bx) * cp + bp * std::abs(cx)) +
+					 ap * (std::abs(bx * cy) + std::abs(by * cx));
+		if (std::abs(det) > Real(8) * std::numeric_limits<Real>::epsilon() * bound)
+			return det > 0;
+
+		// Too close to call: only a point of the triangle itself (not a vertex) counts
+		int s1 = Orientation(a, b, p), s2 = Orientation(b, c, p), s3 = Orientation(c, a, p);
+		return s1 >= 0 && s2 >= 0 && s3 >= 0 && ap > 0 && bp > 0 && cp > 0;
 	}
 
 	// Unique edge representation for Bowyer-Watson
diff --git a/mml/algorithms/CompGeometry/VoronoiDiagram.h b/mml/algorithms/CompGeometry/VoronoiDiagram.h
index c992dd6..faadd50 100644
--- a/mml/algorithms/CompGeometry/VoronoiDiagram.h
+++ b/mml/algorithms/CompGeometry/VoronoiDiagram.h
@@ -386,58 +386,27 @@ public:
 				continue;
 			}
 			
-			// Order triangles around the site
-			std::vector<int> ordered;
-			std::vector<bool> used(triangles.size(), false);
-			
-			// Start with first triangle
-			ordered.push_back(triangles[0]);
-			used[0] = true;
-			
-			// Try to build a chain
-			for (size_t iter = 0; iter < triangles.size() - 1; iter++) {
-				int lastTri = ordered.back();
-				bool found = false;
-				
-				for (size_t i = 0; i < triangles.size(); i++) {
-					if (used[i]) continue;
-					int candTri = triangles[i];
-					
-					// Check if triangles share an edge (are neighbors)
-					for (int edge = 0; edge < 3; edge++) {
-						if (dt.neighbors[lastTri][edge] == candTri) {
-							ordered.push_back(candTri);
-							used[i] = true;
-							found = true;
-							break;
-						}
-					}
-					if (found) break;
-				}
-				
-				if (!found) {
-					// Gap in the chain - cell is infinite
-					vd.cellIsInfinite[s] = true;
-					break;
-				}
-			}
-			
-			// Check if chain closes (first and last triangles are neighbors)
-			if (ordered.size() == triangles.size() && ordered.size() >= 2) {
-				int first = ordered.front();
-				int last = ordered.back();
-				bool closes = false;
-				for (int edge = 0; edge < 3; edge++) {
-					if (dt.neighbors[last][edge] == first) {
-						closes = true;
-						break;
-					}
-				}
-				if (!closes) {
+			// Order triangles CCW around the site: triangle (s, p, q) is followed by the
+			// one across the edge q-s. Cells on the hull start right after the gap.
+			auto corner = [&](int tri) {
+				const auto& v = dt.triangles[tri];
+				return v[0] == s ? 0 : v[1] == s ? 1 : 2;
+			};
+			int start = triangles[0];
+			for (int t : triangles)
+				if (dt.neighbors[t][corner(t)] < 0) {
+					start = t;
 					vd.cellIsInfinite[s] = true;
 				}
+
+			std::vector<int> ordered;
+			int t = start;
+			while (t >= 0 && ordered.size() < triangles.size()) {
+				ordered.push_back(t);
+				t = dt.neighbors[t][(corner(t) + 2) % 3];
+				if (t == start) break;
 			}
-			
+
 			vd.cells[s] = ordered;
 		}
 		
@@ -449,20 +418,20 @@ private:
 	static Point2Cartesian ComputeCircumcenter(const Point2Cartesian& a, 
 	                                           const Point2Cartesian& b, 
 	                                           const Point2Cartesian& c) {
-		Real ax = a.X(), ay = a.Y();
-		Real bx = b.X(), by = b.Y();
-		Real cx = c.X(), cy = c.Y();
+		// Relative to a, so that the result does not depend on the distance from the origin
+		Real bx = b.X() - a.X(), by = b.Y() - a.Y();
+		Real cx = c.X() - a.X(), cy = c.Y() - a.Y();
 		
-		Real d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
-		if (std::abs(d) < 1e-14) {
+		Real d = 2 * (bx * cy - by * cx);
+		if (d == 0) {
 			// Degenerate triangle - return centroid
-			return Point2Cartesian((ax + bx + cx) / 3.0, (ay + by + cy) / 3.0);
+			return Point2Cartesian(a.X() + (bx + cx) / 3.0, a.Y() + (by + cy) / 3.0);
 		}
 		
-		Real ux = ((ax*ax + ay*ay) * (by - cy) + (bx*bx + by*by) * (cy - ay) + 
-		           (cx*cx + cy*cy) * (ay - by)) / d;
-		Real uy = ((ax*ax + ay*ay) * (cx - bx) + (bx*bx + by*by) * (ax - cx) + 
-		           (cx*cx + cy*cy) * (bx - ax)) / d;
+		Real b2 = bx * bx + by * by;
+		Real c2 = cx * cx + cy * cy;
+		Real ux = a.X() + (b2 * cy - c2 * by) / d;
+		Real uy = a.Y() + (c2 * bx - b2 * cx) / d;
 		
 		return Point2Cartesian(ux, uy);
 	}
diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
index 2a61cd1..ab0717d 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
@@ -374,7 +374,8 @@ namespace MML
 			}
 
 			// Check for collinearity
-			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON);
+			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON &&
+			                  std::abs(d3) <= EPSILON && std::abs(d4) <= EPSILON);
 
 			if (collinear) {
 				bool p2_on_seg1 = OnSegment(p1, p2, q1);
diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
index 1f0ef67..d34a691 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
@@ -249,6 +249,8 @@ namespace MML
 			
 			bool hasPositive = false;
 			bool hasNegative = false;
+			bool foldsBack = false;
+			Real turning = 0.0;
 			
 			for (int i = 0; i < n; i++) {
 				Point2Cartesian p0 = _vertices[i];
@@ -266,9 +268,19 @@ namespace MML
 				// If we have both signs, polygon is not convex
 				if (hasPositive && hasNegative)
 					return false;
+				Real dot = v1.X() * v2.X() + v1.Y() * v2.Y();
+				if (std::abs(cross) <= Constants::GEOMETRY_EPSILON && dot < 0)
+					foldsBack = true;
+				else
+					turning += std::atan2(cross, dot);
 			}
 			
-			return true;
+			// A polygon with area that folds back on itself
+			if (foldsBack && (hasPositive || hasNegative))
+				return false;
+
+			// Turning the same way everywhere, but more than once around (star polygons)
+			return std::abs(turning) < 3 * Constants::PI;
 		}
 
 		/// @brief Tests if a point is inside the polygon using ray-casting
-- 
2.43.0


From 4af7ca796c1181bb47e4f5e8f0931f9748437305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:05 +0000
Subject: [PATCH 32/62] fix: KDTree recursed without end for a non-positive
 leaf size

---
 mml/algorithms/CompGeometry/KDTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/CompGeometry/KDTree.h b/mml/algorithms/CompGeometry/KDTree.h
index 0a2d07b..762da09 100644
--- a/mml/algorithms/CompGeometry/KDTree.h
+++ b/mml/algorithms/CompGeometry/KDTree.h
@@ -346,7 +346,7 @@ namespace MML {
 			_stats.num_nodes++;
 			
 			// Create leaf if few points
-			if (static_cast<int>(indices.size()) <= _config.max_leaf_size) {
+			if (static_cast<int>(indices.size()) <= std::max(1, _config.max_leaf_size)) {
 				node->point_indices = std::move(indices);
 				_stats.num_leaf_nodes++;
 				return node;
-- 
2.43.0


From 0dcd3146e0f05d3efc76fd320f96c6d23da7d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 33/62] fix: geometry primitives: unstable or wrong distances,
 areas, parallel and intersection cases

---
 .../Geometry/Geometry2DCore/Geometry2DLines.h    |  4 ++--
 .../Geometry/Geometry2DCore/Geometry2DTriangle.h |  6 ++----
 .../Geometry/Geometry3DCore/Geometry3DLines.h    | 16 ++++++++++------
 .../Geometry/Geometry3DCore/Geometry3DPlane.h    |  6 +++---
 .../Geometry/Geometry3DCore/Geometry3DSurfaces.h |  8 ++++++--
 .../Geometry/GeometryCore/Geometry2DShapes.h     |  4 ++--
 .../Geometry/GeometryCore/Geometry3DShapes.h     |  2 +-
 mml/base/Geometry/GeometryCore/GeometryPoints.h  | 10 +++++-----
 8 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
index ab0717d..9ee665e 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
@@ -292,7 +292,7 @@ namespace MML
 			Vector2Cartesian w(_point1, p);
 			
 			Real lenSq = v.NormL2() * v.NormL2();
-			if (lenSq < Constants::GEOMETRY_EPSILON)
+			if (lenSq == 0)
 				return _point1.Dist(p); // Degenerate segment
 			
 			// Project w onto v
@@ -312,7 +312,7 @@ namespace MML
 			Vector2Cartesian w(_point1, p);
 			
 			Real lenSq = v.NormL2() * v.NormL2();
-			if (lenSq < Constants::GEOMETRY_EPSILON)
+			if (lenSq == 0)
 				return _point1; // Degenerate segment
 			
 			Real t = (w.X() * v.X() + w.Y() * v.Y()) / lenSq;
diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
index f17eac9..624d5c3 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
@@ -76,12 +76,10 @@ namespace MML
 		/// @brief Calculates the perimeter
 		Real Perimeter() const { return A() + B() + C(); }
 
-		/// @brief Calculates the area using Heron's formula
+		/// @brief Calculates the area
 		Real Area() const
 		{
-			Real a = A(), b = B(), c = C();
-			Real s = (a + b + c) / 2.0;
-			return std::sqrt(s * (s - a) * (s - b) * (s - c));
+			return std::abs(SignedArea());
 		}
 
 		/// @brief Calculates the signed area (positive = CCW, negative = CW)
diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 606f7b1..a7e2de2 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -145,7 +145,7 @@ namespace MML
 		/// @brief Tests if this line is perpendicular to another line
 		bool IsPerpendicular(const Line3D& b, Real eps = Defaults::Line3DIsPerpendicularTolerance) const
 		{
-			return ScalarProduct(Direction(), b.Direction()) < eps;
+			return std::abs(ScalarProduct(Direction(), b.Direction())) < eps;
 		}
 		
 		/// @brief Tests if this line is parallel to another line
@@ -223,10 +223,10 @@ namespace MML
 
 			Vec3Cart n = VectorProduct(d1, d2);
 
-			if (n.isZero())
+			if (n.NormL2() < Constants::GEOMETRY_EPSILON)
 			{
 				// parallel lines
-				return Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				return VectorProduct(Vec3Cart(p1, p2), d1).NormL2() / d1.NormL2();
 			}
 			else
 			{
@@ -253,9 +253,9 @@ namespace MML
 
 			Vec3Cart n = VectorProduct(d1, d2);
 
-			if (n.isZero())				// check for parallel lines
+			if (n.NormL2() < Constants::GEOMETRY_EPSILON)				// check for parallel lines
 			{
-				out_dist = Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				out_dist = VectorProduct(Vec3Cart(p1, p2), d1).NormL2() / d1.NormL2();
 				return false;
 			}
 			else
@@ -298,6 +298,10 @@ namespace MML
 					result.type = LineIntersectionType3D::Coincident;
 				else
 					result.type = LineIntersectionType3D::Parallel;
+				result.point1 = p1;
+				result.point2 = line.NearestPointOnLine(p1);
+				result.t2 = ScalarProduct(Vec3Cart(p2, result.point2), d2);
+				result.distance = crossW.NormL2();
 				return result;
 			}
 
@@ -306,7 +310,7 @@ namespace MML
 			Real c = ScalarProduct(d2, d2);
 			Real d = ScalarProduct(d1, w);
 			Real e = ScalarProduct(d2, w);
-			Real denom = a * c - b * b;
+			Real denom = crossMagSq;  // = a*c - b*b, without the cancellation for nearly parallel lines
 
 			Real t1 = (b * e - c * d) / denom;
 			Real t2 = (a * e - b * d) / denom;
diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index d00d81c..5e43db3 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -232,7 +232,7 @@ namespace MML
 			Vec3Cart norm1(_A, _B, _C);
 			Vec3Cart norm2(plane._A, plane._B, plane._C);
 
-			return norm1.IsParallelTo(norm2);
+			return norm1.IsParallelTo(norm2) || norm1.IsParallelTo(-norm2);
 		}
 		
 		/// @brief Tests if this plane is perpendicular to another plane
@@ -281,12 +281,12 @@ namespace MML
 			}
 
 			// Solve for a point on the intersection line:
-			// x = ( (d2 n1 - d1 n2) x (n1 x n2) ) / |n1 x n2|^2
+			// x = ( (d1 n2 - d2 n1) x (n1 x n2) ) / |n1 x n2|^2
 			double d1 = -D();
 			double d2 = -plane.D();
 
 			Vec3Cart n1xn2 = dir;
-			Vec3Cart p = VectorProduct((d2 * n1 - d1 * n2), n1xn2) / POW2(n1xn2.NormL2());
+			Vec3Cart p = VectorProduct((d1 * n2 - d2 * n1), n1xn2) / POW2(n1xn2.NormL2());
 
 			out_inter_line = Line3D(Pnt3Cart(p.X(), p.Y(), p.Z()), dir.GetAsUnitVector());
 			return true;
diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index b6feb44..a26ae2c 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -65,8 +65,7 @@ namespace MML
 		/// @brief Calculates the area using Heron's formula
 		Real Area() const
 		{
-			Real s = (A() + B() + C()) / 2.0;
-			return sqrt(s * (s - A()) * (s - B()) * (s - C()));
+			return VectorProduct(Vec3Cart(_pnt1, _pnt2), Vec3Cart(_pnt1, _pnt3)).NormL2() / 2.0;
 		}
 
 		/// @brief Tests if this is a right triangle
@@ -136,6 +135,11 @@ namespace MML
 			if (w < 0.0 || w > 1.0)
 				return false;
 			
+			// the point must lie in the plane of the triangle, not just project into it
+			Vec3Cart offPlane = v2 - v * v0 - w * v1;
+			if (offPlane.NormL2() > eps * std::max<Real>(1.0, std::sqrt(d00 + d11) + _pnt1.Dist(Pnt3Cart(0, 0, 0))))
+				return false;
+
 			return (v + w <= 1.0 + eps); // allow for small numerical errors
 		}
 	};
diff --git a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
index f3394ff..ac8a4a5 100644
--- a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
@@ -60,7 +60,7 @@ namespace MML {
 
 		Real Area() const {
 			Real s = Semiperimeter();
-			return sqrt(s * (s - _a) * (s - _b) * (s - _c)); // Heron's formula
+			return sqrt(std::max<Real>(0, s * (s - _a) * (s - _b) * (s - _c))); // Heron's formula
 		}
 
 		// Angles (in radians) - using law of cosines
@@ -481,7 +481,7 @@ namespace MML {
 			// Diagonals bisect each other; use parallelogram law
 			Real a = 0.5 * sqrt(p * p + q * q + 2 * p * q * cos(angleBetween));
 			Real b = 0.5 * sqrt(p * p + q * q - 2 * p * q * cos(angleBetween));
-			Real angle = acos((a * a + b * b - 0.25 * p * p) / (2 * a * b));
+			Real angle = acos(std::clamp<Real>((a * a + b * b - p * p) / (2 * a * b), -1.0, 1.0));
 			return Parallelogram(a, b, angle);
 		}
 	};
diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index 5f31b49..f111ee0 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -241,7 +241,7 @@ namespace MML {
 			Real term1 = a2 * f2 * (b2 + c2 + d2 + e2 - a2 - f2);
 			Real term2 = b2 * e2 * (a2 + c2 + d2 + f2 - b2 - e2);
 			Real term3 = c2 * d2 * (a2 + b2 + e2 + f2 - c2 - d2);
-			Real term4 = -a2 * b2 * f2 - a2 * c2 * e2 - b2 * c2 * d2;
+			Real term4 = -a2 * b2 * d2 - a2 * c2 * e2 - b2 * c2 * f2;
 			Real term5 = -d2 * e2 * f2;
 
 			Real det = term1 + term2 + term3 + term4 + term5;
diff --git a/mml/base/Geometry/GeometryCore/GeometryPoints.h b/mml/base/Geometry/GeometryCore/GeometryPoints.h
index b94c6b0..e1e9ee7 100644
--- a/mml/base/Geometry/GeometryCore/GeometryPoints.h
+++ b/mml/base/Geometry/GeometryCore/GeometryPoints.h
@@ -155,7 +155,7 @@ namespace MML {
 		/// @brief Computes distance to another polar point using law of cosines
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
-		Real Dist(const Point2Polar& b) const { return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi())); }
+		Real Dist(const Point2Polar& b) const { return sqrt(POW2(R() - b.R()) + 4 * R() * b.R() * POW2(sin((b.Phi() - Phi()) / 2))); }
 	};
 
 	/// @brief 3D point in Cartesian coordinates (x, y, z)
@@ -318,9 +318,9 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points (using spherical law of cosines)
 		Real Dist(const Point3Spherical& b) const {
-			Real cosGamma = cos(Theta()) * cos(b.Theta()) + sin(Theta()) * sin(b.Theta()) * cos(b.Phi() - Phi());
-			cosGamma = std::clamp(cosGamma, (Real)-1.0, (Real)1.0);
-			return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cosGamma);
+			// Stable form: never negative under the root and exact for coincident points
+			Real sinHalfGamma2 = POW2(sin((b.Theta() - Theta()) / 2)) + sin(Theta()) * sin(b.Theta()) * POW2(sin((b.Phi() - Phi()) / 2));
+			return sqrt(std::max<Real>(0, POW2(R() - b.R()) + 4 * R() * b.R() * sinHalfGamma2));
 		}
 	};
 
@@ -387,7 +387,7 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
 		Real Dist(const Point3Cylindrical& b) const {
-			return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi()) + POW2(b.Z() - Z()));
+			return sqrt(POW2(R() - b.R()) + 4 * R() * b.R() * POW2(sin((b.Phi() - Phi()) / 2)) + POW2(b.Z() - Z()));
 		}
 	};
 
-- 
2.43.0


From 678c8bcf03b1131bc4ae967dcd865bf85c651d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 34/62] fix: coordinate transformations: dangling copies,
 tensor transformation factors and variance, spherical angle near the axis,
 non-unit orthogonal bases

---
 mml/core/CoordTransf.h                      | 195 ++++++++------------
 mml/core/CoordTransf/CoordTransf2D.h        |   9 +
 mml/core/CoordTransf/CoordTransf3D.h        |  30 ++-
 mml/core/CoordTransf/CoordTransfLorentz.h   |   3 +
 mml/core/CoordTransf/CoordTransfSpherical.h |   8 +-
 5 files changed, 121 insertions(+), 124 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 69439ed..708a11a 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -224,130 +224,118 @@ namespace MML
 			return ret;
 		}
 
-		/// @brief Transform rank-2 tensor (matrix-like object)
+	private:
+		// Factors of the tensor transformation law at a point given in source coordinates:
+		// forward(i, k) = dx'^i / dx^k at pos, inverse(k, i) = dx^k / dx'^i at the image of pos
+		void tensorTransfFactors(const VectorFrom& pos, MatrixNM<Real, N, N>& forward, MatrixNM<Real, N, N>& inverse)
+		{
+			VectorN<Real, N> posTo = (*this)(pos);
+			for (int i = 0; i < N; i++)
+				for (int k = 0; k < N; k++)
+				{
+					forward(i, k) = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
+					inverse(k, i) = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, posTo);
+				}
+		}
+
+	public:
+		/// @brief Transform rank-2 tensor
 		/// @param tensor Input tensor with mixed contravariant/covariant indices
 		/// @param pos Position in source coordinates
-		/// @return Transformed tensor in target coordinates
+		/// @return Transformed tensor in target coordinates (same index variance)
 		Tensor2<N> transfTensor2(const Tensor2<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor2<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			MatrixNM<Real, N, N> forward, inverse;
+			tensorTransfFactors(pos, forward, inverse);
+			auto factor = [&](int ind, int to, int from) { return tensor.IsContravar(ind) ? forward(to, from) : inverse(from, to); };
+
+			Tensor2<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			for (int ind = 0; ind < 2; ind++)
+				ret.setContravar(ind, tensor.IsContravar(ind));
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 				{
-					ret(i, j) = 0;
-					for (int k = 0; k < N; k++)
-						for (int l = 0; l < N; l++)
-						{
-Real coef1, coef2;
-							if (tensor.IsContravar(0))
-								coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
-							else
-								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, pos);
-
-							if (tensor.IsContravar(1))
-								coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), l, pos);
-							else
-								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, pos);
-
-							ret(i, j) += coef1 * coef2 * tensor(k, l);
-						}
+					Real sum = 0;
+					for (int a = 0; a < N; a++)
+						for (int b = 0; b < N; b++)
+							sum += factor(0, i, a) * factor(1, j, b) * tensor(a, b);
+					ret(i, j) = sum;
 				}
-
 			return ret;
 		}
+
 		/// @brief Transform rank-3 tensor
 		/// @param tensor Input tensor with mixed contravariant/covariant indices
 		/// @param pos Position in source coordinates
-		/// @return Transformed tensor in target coordinates
+		/// @return Transformed tensor in target coordinates (same index variance)
 		Tensor3<N> transfTensor3(const Tensor3<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor3<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			MatrixNM<Real, N, N> forward, inverse;
+			tensorTransfFactors(pos, forward, inverse);
+			auto factor = [&](int ind, int to, int from) { return tensor.IsContravar(ind) ? forward(to, from) : inverse(from, to); };
+
+			Tensor3<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			for (int ind = 0; ind < 3; ind++)
+				ret.setContravar(ind, tensor.IsContravar(ind));
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 					{
-						ret.Component(i, j, k) = 0;
-						for (int l = 0; l < N; l++)
-							for (int m = 0; m < N; m++)
-								for (int n = 0; n < N; n++)
-								{
-									Real coef1, coef2, coef3;
-									if (tensor.IsContravar(0))
-										coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), l, pos);
-									else
-										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, pos);
-
-									if (tensor.IsContravar(1))
-										coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), m, pos);
-									else
-										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, pos);
-
-									if (tensor.IsContravar(2))
-										coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), n, pos);
-									else
-										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, pos);
-
-									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
-								}
+						Real sum = 0;
+						for (int a = 0; a < N; a++)
+							for (int b = 0; b < N; b++)
+								for (int c = 0; c < N; c++)
+									sum += factor(0, i, a) * factor(1, j, b) * factor(2, k, c) * tensor(a, b, c);
+						ret(i, j, k) = sum;
 					}
-
 			return ret;
 		}
-		/// @brief Transform rank-4 tensor (e.g., Riemann curvature tensor)
+
+		/// @brief Transform rank-4 tensor
 		/// @param tensor Input tensor with mixed contravariant/covariant indices
 		/// @param pos Position in source coordinates
-		/// @return Transformed tensor in target coordinates
+		/// @return Transformed tensor in target coordinates (same index variance)
 		Tensor4<N> transfTensor4(const Tensor4<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor4<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			MatrixNM<Real, N, N> forward, inverse;
+			tensorTransfFactors(pos, forward, inverse);
+			auto factor = [&](int ind, int to, int from) { return tensor.IsContravar(ind) ? forward(to, from) : inverse(from, to); };
+
+			Tensor4<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			for (int ind = 0; ind < 4; ind++)
+				ret.setContravar(ind, tensor.IsContravar(ind));
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 						for (int l = 0; l < N; l++)
 						{
-							ret[i][j][k][l] = 0;
-							for (int m = 0; m < N; m++)
-								for (int n = 0; n < N; n++)
-									for (int o = 0; o < N; o++)
-										for (int p = 0; p < N; p++)
-										{
-											Real coef1, coef2, coef3, coef4;
-											if (tensor.IsContravar(0))
-												coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), m, pos);
-											else
-												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, pos);
-
-											if (tensor.IsContravar(1))
-												coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), n, pos);
-											else
-												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, pos);
-
-											if (tensor.IsContravar(2))
-												coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), o, pos);
-											else
-												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, pos);
-
-											if (tensor.IsContravar(3))
-												coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), p, pos);
-											else
-												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, pos);
-
-											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
-										}
+							Real sum = 0;
+							for (int a = 0; a < N; a++)
+								for (int b = 0; b < N; b++)
+									for (int c = 0; c < N; c++)
+										for (int d = 0; d < N; d++)
+											sum += factor(0, i, a) * factor(1, j, b) * factor(2, k, c) * factor(3, l, d) * tensor(a, b, c, d);
+							ret(i, j, k, l) = sum;
 						}
-
 			return ret;
 		}
+
 		/// @brief Transform rank-5 tensor
 		/// @param tensor Input tensor with mixed contravariant/covariant indices
 		/// @param pos Position in source coordinates
-		/// @return Transformed tensor in target coordinates
+		/// @return Transformed tensor in target coordinates (same index variance)
 		Tensor5<N> transfTensor5(const Tensor5<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor5<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			MatrixNM<Real, N, N> forward, inverse;
+			tensorTransfFactors(pos, forward, inverse);
+			auto factor = [&](int ind, int to, int from) { return tensor.IsContravar(ind) ? forward(to, from) : inverse(from, to); };
+
+			Tensor5<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			for (int ind = 0; ind < 5; ind++)
+				ret.setContravar(ind, tensor.IsContravar(ind));
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -355,42 +343,15 @@ Real coef1, coef2;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 							{
-								ret[i][j][k][l][m] = 0;
-								for (int n = 0; n < N; n++)
-									for (int o = 0; o < N; o++)
-										for (int p = 0; p < N; p++)
-											for (int q = 0; q < N; q++)
-												for (int r = 0; r < N; r++)
-												{
-														Real coef1, coef2, coef3, coef4, coef5;
-													if (tensor.IsContravar(0))
-														coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), n, pos);
-													else
-														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, pos);
-
-													if (tensor.IsContravar(1))
-														coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), o, pos);
-													else
-														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, pos);
-
-													if (tensor.IsContravar(2))
-														coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), p, pos);
-													else
-														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, pos);
-
-													if (tensor.IsContravar(3))
-														coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), q, pos);
-													else
-														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, pos);
-
-													if (tensor.IsContravar(4))
-												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
-											else
-												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, pos);
-													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
-												}
+								Real sum = 0;
+								for (int a = 0; a < N; a++)
+									for (int b = 0; b < N; b++)
+										for (int c = 0; c < N; c++)
+											for (int d = 0; d < N; d++)
+												for (int e = 0; e < N; e++)
+													sum += factor(0, i, a) * factor(1, j, b) * factor(2, k, c) * factor(3, l, d) * factor(4, m, e) * tensor(a, b, c, d, e);
+								ret(i, j, k, l, m) = sum;
 							}
-
 			return ret;
 		}
 	};
diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 8079a30..a19f991 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -99,6 +99,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCart2DRotation(const CoordTransfCart2DRotation& other) : CoordTransfCart2DRotation(other._angle) { }
+
 		/// @brief Constructor for 2D rotation transformation
 		/// @param inAngle Rotation angle in radians (counterclockwise positive)
 		CoordTransfCart2DRotation(Real inAngle) : 
@@ -179,6 +182,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfObliqueToCartesian2D(const CoordTransfObliqueToCartesian2D& other) : CoordTransfObliqueToCartesian2D(other._angle) { }
+
 		/// @brief Constructor for oblique to Cartesian transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfObliqueToCartesian2D(Real inAngle)
@@ -243,6 +249,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCartesianToOblique2D(const CoordTransfCartesianToOblique2D& other) : CoordTransfCartesianToOblique2D(other._angle) { }
+
 		/// @brief Constructor for Cartesian to oblique transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfCartesianToOblique2D(Real inAngle)
diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..f88abe8 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -37,6 +37,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCart3DRotationXAxis(const CoordTransfCart3DRotationXAxis& other) : CoordTransfCart3DRotationXAxis(other._angle) { }
+
 		/// @brief Constructor for X-axis rotation
 		/// @param inAngle Rotation angle in radians (counterclockwise looking down positive X-axis)
 		CoordTransfCart3DRotationXAxis(Real inAngle) : _angle(inAngle),
@@ -111,6 +114,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCart3DRotationYAxis(const CoordTransfCart3DRotationYAxis& other) : CoordTransfCart3DRotationYAxis(other._angle) { }
+
 		CoordTransfCart3DRotationYAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -172,6 +178,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCart3DRotationZAxis(const CoordTransfCart3DRotationZAxis& other) : CoordTransfCart3DRotationZAxis(other._angle) { }
+
 		CoordTransfCart3DRotationZAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -261,6 +270,9 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCart3DRotationEuler(const CoordTransfCart3DRotationEuler& other) : CoordTransfCart3DRotationEuler(other._alpha, other._beta, other._gamma) { }
+
 		/// @brief Constructor using ZYZ Euler angles
 		/// @param alpha First rotation around Z-axis (radians)
 		/// @param beta Second rotation around Y'-axis (radians)
@@ -333,6 +345,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransf3DCartOrthogonal(const CoordTransf3DCartOrthogonal& other) : CoordTransf3DCartOrthogonal(other._base[0], other._base[1], other._base[2]) { }
+
 		/// @brief Constructor for orthogonal transformation
 		/// @param b1 First basis vector (must be orthogonal to b2, b3)
 		/// @param b2 Second basis vector (must be orthogonal to b1, b3)
@@ -365,10 +380,14 @@ namespace MML
 			_base[2] = b3;
 
 			for (int i = 0; i < 3; i++) {
+				const Real normSq = _base[i] * _base[i];
+				if (normSq == 0.0)
+					throw GeometryError("CoordTransf3DCartOrthogonal: Base vectors must be nonzero.");
 				for (int j = 0; j < 3; j++)
 				{
 					_transf(i, j) = _base[i][j];
-					_transfInverse(i, j) = _base[j][i];
+					// base vectors need not have unit length, so transpose alone is not the inverse
+					_transfInverse(j, i) = _base[i][j] / normSq;
 				}
 			}
 		}
@@ -429,6 +448,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransf3DCartGeneral(const CoordTransf3DCartGeneral& other) : CoordTransf3DCartGeneral(other._transf) { }
+
 		/// @brief Constructor from transformation matrix
 		/// @param transfMat 3x3 transformation matrix (must be non-singular)
 		/// @throws SingularMatrixError if matrix is singular (determinant ≈ 0)
@@ -508,6 +530,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_baseMat * q)[2]; }
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCartesianToOblique3D(const CoordTransfCartesianToOblique3D& other) : CoordTransfCartesianToOblique3D(other._base[0], other._base[1], other._base[2]) { }
+
 		/// @brief Constructor for oblique coordinate system
 		/// @param b1 First basis vector (need not be orthogonal)
 		/// @param b2 Second basis vector (need not be orthogonal)
@@ -657,6 +682,9 @@ namespace MML
 
 	public:
 		// Construct from quaternion
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfCart3DRotationQuaternion(const CoordTransfCart3DRotationQuaternion& other) : CoordTransfCart3DRotationQuaternion(other._quat) { }
+
 		explicit CoordTransfCart3DRotationQuaternion(const Quaternion& q) 
 			: _quat(q),
 				_f1([this](const VectorN<Real, 3>& v) { return func1(v); }),
diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index ce2a6f1..2bba7b9 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -43,6 +43,9 @@ namespace MML {
 		const ScalarFunctionFromStdFunc<4> _fInv1, _fInv2, _fInv3, _fInv4;
 
 	public:
+		/// @brief Copy constructor; the component functions have to refer to the new object
+		CoordTransfLorentzXAxis(const CoordTransfLorentzXAxis& other) : CoordTransfLorentzXAxis(other._velocity) { }
+
 		/// @brief Construct Lorentz boost along X-axis
 		/// @param inVelocity Velocity in units of c, must be in [0, 1)
 		/// @throws std::range_error if velocity is outside valid range
diff --git a/mml/core/CoordTransf/CoordTransfSpherical.h b/mml/core/CoordTransf/CoordTransfSpherical.h
index 71e778a..3ed2948 100644
--- a/mml/core/CoordTransf/CoordTransfSpherical.h
+++ b/mml/core/CoordTransf/CoordTransfSpherical.h
@@ -82,9 +82,7 @@ namespace MML
 		static Real r(const VectorN<Real, 3>& q)		 { return sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2]); }
 		/// @brief Convert Cartesian to spherical polar angle (inclination from z-axis)
 		static Real theta(const VectorN<Real, 3>& q) {
-			Real r = sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2]);
-			if (r < std::numeric_limits<Real>::epsilon() * 100) return Real(0);
-			return acos(std::clamp(q[2] / r, Real(-1), Real(1)));
+			return atan2(sqrt(q[0] * q[0] + q[1] * q[1]), q[2]);
 		}
 		/// @brief Convert Cartesian to spherical azimuthal angle
 		static Real phi(const VectorN<Real, 3>& q)	 { return atan2(q[1], q[0]); }
@@ -192,9 +190,7 @@ namespace MML
 		static Real r(const VectorN<Real, 3>& q) { return sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); }
 		/// @brief Convert Cartesian to spherical polar angle
 		static Real theta(const VectorN<Real, 3>& q) {
-			Real r = sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
-			if (r < std::numeric_limits<Real>::epsilon() * 100) return Real(0);
-			return acos(std::clamp(q[2] / r, Real(-1), Real(1)));
+			return atan2(sqrt(q[0] * q[0] + q[1] * q[1]), q[2]);
 		}
 		/// @brief Convert Cartesian to spherical azimuthal angle
 		static Real phi(const VectorN<Real, 3>& q) { return atan2(q[1], q[0]); }
-- 
2.43.0


From dc9ce3e7a5660e55841faf660e17986ef781ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 35/62] fix: rotation and polar conversions: Euler angles at
 gimbal lock, cancellation in polar sums, spherical angle near the axis,
 endless angle reduction

---
 mml/base/BaseUtils/AngleCoordUtils.h | 12 +++++++-----
 mml/base/Quaternions.h               | 29 +++++++++-------------------
 mml/base/Vector/VectorTypes.h        | 14 ++++++++++----
 3 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/mml/base/BaseUtils/AngleCoordUtils.h b/mml/base/BaseUtils/AngleCoordUtils.h
index 503f4ac..de5cec4 100644
--- a/mml/base/BaseUtils/AngleCoordUtils.h
+++ b/mml/base/BaseUtils/AngleCoordUtils.h
@@ -79,9 +79,10 @@ namespace MML
 		/// @return Normalized angle in [0, 2π)
 		static Real AngleTo2PiRange(Real rad)
 		{
-			while (rad < 0)
+			rad = std::fmod(rad, 2 * Constants::PI);
+			if (rad < 0)
 				rad += 2 * Constants::PI;
-			while (rad >= 2 * Constants::PI)
+			if (rad >= 2 * Constants::PI)
 				rad -= 2 * Constants::PI;
 			return rad;
 		}
@@ -91,9 +92,10 @@ namespace MML
 		/// @return Normalized angle in [-π, π)
 		static Real AngleToPiPiRange(Real rad)
 		{
-			while (rad < -Constants::PI)
+			rad = std::fmod(rad, 2 * Constants::PI);
+			if (rad < -Constants::PI)
 				rad += 2 * Constants::PI;
-			while (rad >= Constants::PI)
+			if (rad >= Constants::PI)
 				rad -= 2 * Constants::PI;
 			return rad;
 		}
@@ -153,7 +155,7 @@ namespace MML
 				theta = 0.0;
 				phi   = 0.0;
 			} else {
-				theta = std::acos(z / r);
+				theta = std::atan2(std::sqrt(x * x + y * y), z);
 				phi   = std::atan2(y, x);
 			}
 		}
diff --git a/mml/base/Quaternions.h b/mml/base/Quaternions.h
index 49db99c..e779343 100644
--- a/mml/base/Quaternions.h
+++ b/mml/base/Quaternions.h
@@ -410,26 +410,15 @@ namespace MML
 		/// @return Vector [yaw, pitch, roll] in radians
 		Vec3Cart ToEulerZYX() const
 		{
-			Real w = _data[0], x = _data[1], y = _data[2], z = _data[3];
-			
-			// Roll (x-axis rotation)
-			Real sinr_cosp = 2.0 * (w * x + y * z);
-			Real cosr_cosp = 1.0 - 2.0 * (x * x + y * y);
-			Real roll = std::atan2(sinr_cosp, cosr_cosp);
-			
-			// Pitch (y-axis rotation)
-			Real sinp = 2.0 * (w * y - z * x);
-			Real pitch;
-			if (std::abs(sinp) >= 1.0)
-				pitch = std::copysign(Constants::PI / 2.0, sinp); // Gimbal lock
-			else
-				pitch = std::asin(sinp);
-			
-			// Yaw (z-axis rotation)
-			Real siny_cosp = 2.0 * (w * z + x * y);
-			Real cosy_cosp = 1.0 - 2.0 * (y * y + z * z);
-			Real yaw = std::atan2(siny_cosp, cosy_cosp);
-			
+			MatrixNM<Real, 3, 3> m = ToRotationMatrix();
+
+			Real yaw = std::atan2(m[1][0], m[0][0]);
+			Real pitch = std::atan2(-m[2][0], std::hypot(m[0][0], m[1][0]));
+			// Roll is what remains after undoing yaw. At gimbal lock (pitch = +-90 deg) only yaw -+ roll
+			// is determined, and this choice keeps the three angles consistent with the rotation.
+			Real sinYaw = std::sin(yaw), cosYaw = std::cos(yaw);
+			Real roll = std::atan2(sinYaw * m[0][2] - cosYaw * m[1][2], cosYaw * m[1][1] - sinYaw * m[0][1]);
+
 			return Vec3Cart(yaw, pitch, roll);
 		}
 
diff --git a/mml/base/Vector/VectorTypes.h b/mml/base/Vector/VectorTypes.h
index b3a29f1..1cde5c7 100644
--- a/mml/base/Vector/VectorTypes.h
+++ b/mml/base/Vector/VectorTypes.h
@@ -248,8 +248,11 @@ namespace MML
 			Real phi2 = b.Phi();
 
 			Real delta = phi2 - phi1;
-			Real r	 = std::sqrt(r1 * r1 + r2 * r2 + 2 * r1 * r2 * std::cos(delta));
-			Real phi = phi1 + std::atan2(r2 * std::sin(delta), r1 + r2 * std::cos(delta));
+			// components along and across the direction of the first vector
+			Real along	= r1 + r2 * std::cos(delta);
+			Real across = r2 * std::sin(delta);
+			Real r	 = std::hypot(along, across);
+			Real phi = phi1 + std::atan2(across, along);
 
 			return Vector2Polar(r, phi);
 		}
@@ -263,8 +266,11 @@ namespace MML
 			Real phi2 = b.Phi();
 
 			Real delta = phi2 - phi1;
-			Real r	 = std::sqrt(r1 * r1 + r2 * r2 - 2 * r1 * r2 * std::cos(delta));
-			Real phi = phi1 + std::atan2(-r2 * std::sin(delta), r1 - r2 * std::cos(delta));
+			// components along and across the direction of the first vector
+			Real along	= r1 - r2 * std::cos(delta);
+			Real across = -r2 * std::sin(delta);
+			Real r	 = std::hypot(along, across);
+			Real phi = phi1 + std::atan2(across, along);
 
 			return Vector2Polar(r, phi);
 		}
-- 
2.43.0


From 22d962c9c23ddcdeca7b6b1f5b0876e29381f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:03 +0000
Subject: [PATCH 36/62] fix: tensors: negative index counts accepted, per-index
 variance lost in arithmetic

---
 mml/base/Tensor.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index 9f80f4c..fd75d92 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -229,7 +229,7 @@ namespace MML
 			if (_numContravar != other._numContravar || _numCovar != other._numCovar)
 				throw TensorCovarContravarArithmeticError("Tensor2 operator+, wrong number of contravariant and covariant indices", _numContravar, _numCovar, other._numContravar, other._numCovar);
 
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff + other._coeff;
 
@@ -243,7 +243,7 @@ namespace MML
 			if (_numContravar != other._numContravar || _numCovar != other._numCovar)
 				throw TensorCovarContravarArithmeticError("Tensor2 operator-, wrong number of contravariant and covariant indices", _numContravar, _numCovar, other._numContravar, other._numCovar);
 
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff - other._coeff;
 
@@ -253,7 +253,7 @@ namespace MML
 		/// @brief Multiply tensor by a scalar.
 		Tensor2 operator*(Real scalar) const
 		{
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff * scalar;
 
@@ -263,7 +263,7 @@ namespace MML
 		/// @brief Divide tensor by a scalar.
 		Tensor2 operator/(Real scalar) const
 		{
-			Tensor2 result(_numCovar, _numContravar);
+			Tensor2 result(*this);
 
 			result._coeff = _coeff / scalar;
 
@@ -273,7 +273,7 @@ namespace MML
 		/// @brief Scalar multiplication from the left (scalar * tensor).
 		friend Tensor2 operator*(Real scalar, const Tensor2& b)
 		{
-			Tensor2 result(b.NumCovar(), b.NumContravar());
+			Tensor2 result(b);
 
 			result._coeff = b._coeff * scalar;
 
@@ -386,7 +386,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -403,7 +403,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar, std::initializer_list<Real> values) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 			
 			for (int i = 0; i < _numCovar; i++)
@@ -584,7 +584,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 4
 		Tensor4(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 4)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 4)
 				throw TensorCovarContravarNumError("Tensor4 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -775,7 +775,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 5
 		Tensor5(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 5)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 5)
 				throw TensorCovarContravarNumError("Tensor5 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
-- 
2.43.0


From e1b1e4e24c73256491b4e7149a29707aa22e971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:03 +0000
Subject: [PATCH 37/62] fix: field analysis: undefined field values followed as
 field lines or taken as harmonic

---
 mml/algorithms/FieldAnalyzers.h  | 2 +-
 mml/algorithms/FieldLineTracer.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/FieldAnalyzers.h b/mml/algorithms/FieldAnalyzers.h
index b409c7d..ef4525a 100644
--- a/mml/algorithms/FieldAnalyzers.h
+++ b/mml/algorithms/FieldAnalyzers.h
@@ -87,7 +87,7 @@ namespace MML {
 				for (int j = 0; j <= samplesPerDim; ++j) {
 					for (int k = 0; k <= samplesPerDim; ++k) {
 						Vec3Cart pos(minCorner.X() + i * dx, minCorner.Y() + j * dy, minCorner.Z() + k * dz);
-						if (std::abs(LaplacianAt(pos)) > tol) {
+						if (!(std::abs(LaplacianAt(pos)) <= tol)) {
 							return false;
 						}
 					}
diff --git a/mml/algorithms/FieldLineTracer.h b/mml/algorithms/FieldLineTracer.h
index 9c512c6..2373631 100644
--- a/mml/algorithms/FieldLineTracer.h
+++ b/mml/algorithms/FieldLineTracer.h
@@ -322,7 +322,7 @@ namespace MML {
 			VectorN<Real, N> F = field(x);
 			Real mag = F.NormL2();
 
-			if (mag < _config.minFieldMagnitude) {
+			if (!(mag >= _config.minFieldMagnitude) || !std::isfinite(mag)) {
 				return false;  // Singularity or zero field
 			}
 
-- 
2.43.0


From b7682b81d89c04ee8f9e2432fa5a89bca4d13938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:26 +0000
Subject: [PATCH 38/62] fix: thread pool: a task's captured state could outlive
 the wait that covered it

---
 mml/tools/ThreadPool.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/tools/ThreadPool.h b/mml/tools/ThreadPool.h
index aa32fd8..ff39a59 100644
--- a/mml/tools/ThreadPool.h
+++ b/mml/tools/ThreadPool.h
@@ -166,6 +166,9 @@ namespace MML
 								}
 							}
 							
+							// Release the task's captured state before it counts as finished
+							task = nullptr;
+
 							// Track task completion and notify waiters
 							if (--this->in_flight_tasks == 0) {
 								std::lock_guard<std::mutex> lock(this->queue_mutex);
-- 
2.43.0


From 6bb2d1a164ab4f70680c3053f4b57a74f51b30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 39/62] fix: thread safety: per-thread defaults bound to one
 thread, racy error estimate of interpolators, non-reentrant log-gamma

---
 mml/MMLBase.h                                 | 51 +++++++++++--------
 mml/algorithms/Statistics/Distributions.h     | 17 ++++---
 .../InterpolatedRealFunction.h                | 37 ++++++++++----
 mml/base/StandardFunctions.h                  | 15 +++++-
 4 files changed, 81 insertions(+), 39 deletions(-)

diff --git a/mml/MMLBase.h b/mml/MMLBase.h
index 8902015..5806355 100644
--- a/mml/MMLBase.h
+++ b/mml/MMLBase.h
@@ -234,15 +234,26 @@ namespace MML {
 		}
 	};
 
+	/// @brief Names one field of a per-thread context; every access goes to the calling thread's context
+	template<class Context, typename T, T Context::*Field>
+	struct ThreadLocalSetting {
+		operator T&() const { return Context::Get().*Field; }
+		const ThreadLocalSetting& operator=(const T& value) const {
+			Context::Get().*Field = value;
+			return *this;
+		}
+		const ThreadLocalSetting& operator=(const ThreadLocalSetting& other) const { return *this = static_cast<T&>(other); }
+	};
+
 	// Backward compatible Defaults namespace (now thread-safe via thread_local
 	// contexts)
 	namespace Defaults {
 		// Output defaults (thread-safe - changed from static globals to thread_local)
 		// Usage: Defaults::VectorPrintWidth = 20; (now thread-safe!)
-		static inline int& VectorPrintWidth = PrintContext::Get().vectorWidth;
-		static inline int& VectorPrintPrecision = PrintContext::Get().vectorPrecision;
-		static inline int& VectorNPrintWidth = PrintContext::Get().vectorNWidth;
-		static inline int& VectorNPrintPrecision = PrintContext::Get().vectorNPrecision;
+		static inline const ThreadLocalSetting<PrintContext, int, &PrintContext::vectorWidth> VectorPrintWidth{};
+		static inline const ThreadLocalSetting<PrintContext, int, &PrintContext::vectorPrecision> VectorPrintPrecision{};
+		static inline const ThreadLocalSetting<PrintContext, int, &PrintContext::vectorNWidth> VectorNPrintWidth{};
+		static inline const ThreadLocalSetting<PrintContext, int, &PrintContext::vectorNPrecision> VectorNPrintPrecision{};
 
 		//////////               Default precisions             ///////////
 		// Use the precision values based on the Real type
@@ -297,22 +308,22 @@ namespace MML {
 		// Algorithm parameters (thread-safe - changed from static constants to
 		// thread_local) Usage: Defaults::TrapezoidIntegrationEPS = 1e-6; (now
 		// thread-safe and mutable!)
-		static inline Real& TrapezoidIntegrationEPS = AlgorithmContext::Get().trapezoidIntegrationEPS;
-		static inline Real& SimpsonIntegrationEPS = AlgorithmContext::Get().simpsonIntegrationEPS;
-		static inline Real& RombergIntegrationEPS = AlgorithmContext::Get().rombergIntegrationEPS;
-		static inline Real& WorkIntegralPrecision = AlgorithmContext::Get().workIntegralPrecision;
-		static inline Real& LineIntegralPrecision = AlgorithmContext::Get().lineIntegralPrecision;
-
-		static inline int& BisectionMaxSteps = AlgorithmContext::Get().bisectionMaxSteps;
-		static inline int& NewtonRaphsonMaxSteps = AlgorithmContext::Get().newtonRaphsonMaxSteps;
-		static inline int& BrentMaxSteps = AlgorithmContext::Get().brentMaxSteps;
-
-		static inline int& TrapezoidIntegrationMaxSteps = AlgorithmContext::Get().trapezoidIntegrationMaxSteps;
-		static inline int& SimpsonIntegrationMaxSteps = AlgorithmContext::Get().simpsonIntegrationMaxSteps;
-		static inline int& RombergIntegrationMaxSteps = AlgorithmContext::Get().rombergIntegrationMaxSteps;
-		static inline int& RombergIntegrationUsedPnts = AlgorithmContext::Get().rombergIntegrationUsedPnts;
-
-		static inline int& ODESolverMaxSteps = AlgorithmContext::Get().odeSolverMaxSteps;
+		static inline const ThreadLocalSetting<AlgorithmContext, Real, &AlgorithmContext::trapezoidIntegrationEPS> TrapezoidIntegrationEPS{};
+		static inline const ThreadLocalSetting<AlgorithmContext, Real, &AlgorithmContext::simpsonIntegrationEPS> SimpsonIntegrationEPS{};
+		static inline const ThreadLocalSetting<AlgorithmContext, Real, &AlgorithmContext::rombergIntegrationEPS> RombergIntegrationEPS{};
+		static inline const ThreadLocalSetting<AlgorithmContext, Real, &AlgorithmContext::workIntegralPrecision> WorkIntegralPrecision{};
+		static inline const ThreadLocalSetting<AlgorithmContext, Real, &AlgorithmContext::lineIntegralPrecision> LineIntegralPrecision{};
+
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::bisectionMaxSteps> BisectionMaxSteps{};
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::newtonRaphsonMaxSteps> NewtonRaphsonMaxSteps{};
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::brentMaxSteps> BrentMaxSteps{};
+
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::trapezoidIntegrationMaxSteps> TrapezoidIntegrationMaxSteps{};
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::simpsonIntegrationMaxSteps> SimpsonIntegrationMaxSteps{};
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::rombergIntegrationMaxSteps> RombergIntegrationMaxSteps{};
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::rombergIntegrationUsedPnts> RombergIntegrationUsedPnts{};
+
+		static inline const ThreadLocalSetting<AlgorithmContext, int, &AlgorithmContext::odeSolverMaxSteps> ODESolverMaxSteps{};
 	} // namespace Defaults
 } // namespace MML
 #endif
diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 1806e75..188e30a 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -12,6 +12,7 @@
 #define MML_DISTRIBUTIONS_H
 
 #include "algorithms/Statistics.h"
+#include "base/StandardFunctions.h"
 
 namespace MML
 {
@@ -67,7 +68,7 @@ namespace MML
 				if (x <= 0.0) return 0.0;
 				if (y <= 0.0) return 1.0;
 
-				Real front = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) + a * std::log(x) + b * std::log(y));
+				Real front = std::exp(Functions::LGamma(a + b) - Functions::LGamma(a) - Functions::LGamma(b) + a * std::log(x) + b * std::log(y));
 				if (x <= (a + 1.0) / (a + b + 2.0))
 					return std::min(Real(1.0), front * betaContinuedFraction(x, a, b) / a);
 				return std::max(Real(0.0), 1.0 - front * betaContinuedFraction(y, b, a) / b);
@@ -81,7 +82,7 @@ namespace MML
 				if (std::isinf(x)) { P = 1.0; Q = 0.0; return; }
 
 				const int maxIter = 300 + static_cast<int>(std::min(Real(1.0e6), 20.0 * std::sqrt(a)));
-				Real front = std::exp(-x + a * std::log(x) - std::lgamma(a));
+				Real front = std::exp(-x + a * std::log(x) - Functions::LGamma(a));
 				if (x < a + 1.0) {
 					Real sum = 1.0 / a, term = sum;
 					for (int n = 1; n <= maxIter; n++) {
@@ -370,8 +371,8 @@ namespace MML
 				Real nu = static_cast<Real>(df);
 				
 				// Log-space computation for numerical stability
-				Real logNumerator = std::lgamma((nu + 1.0) / 2.0);
-				Real logDenominator = 0.5 * std::log(nu * Constants::PI) + std::lgamma(nu / 2.0);
+				Real logNumerator = Functions::LGamma((nu + 1.0) / 2.0);
+				Real logDenominator = 0.5 * std::log(nu * Constants::PI) + Functions::LGamma(nu / 2.0);
 				Real logBase = -(nu + 1.0) / 2.0 * std::log(1.0 + x * x / nu);
 				
 				return std::exp(logNumerator - logDenominator + logBase);
@@ -502,7 +503,7 @@ namespace MML
 				if (x == 0.0) return (_df == 1) ? std::numeric_limits<Real>::infinity() : (_df == 2 ? 0.5 : 0.0);
 
 				Real k2 = _df / 2.0;
-				return std::exp((k2 - 1.0) * std::log(x) - x / 2.0 - k2 * std::log(2.0) - std::lgamma(k2));
+				return std::exp((k2 - 1.0) * std::log(x) - x / 2.0 - k2 * std::log(2.0) - Functions::LGamma(k2));
 			}
 
 			/// @brief Cumulative Distribution Function (CDF)
@@ -598,7 +599,7 @@ namespace MML
         Real logPdf = d1 * std::log(_df1) + d2 * std::log(_df2) +
                       (d1 - 1.0) * std::log(x) -
                       (d1 + d2) * std::log(_df2 + _df1 * x) +
-                      std::lgamma(d1 + d2) - std::lgamma(d1) - std::lgamma(d2);
+                      Functions::LGamma(d1 + d2) - Functions::LGamma(d1) - Functions::LGamma(d2);
 
         return std::exp(logPdf);
       }
@@ -889,7 +890,7 @@ namespace MML
 				
 				// Use log-space for numerical stability
 				Real logPdf = (shape - 1.0) * std::log(x) - x / scale 
-				            - shape * std::log(scale) - std::lgamma(shape);
+				            - shape * std::log(scale) - Functions::LGamma(shape);
 				return std::exp(logPdf);
 			}
 
@@ -950,7 +951,7 @@ namespace MML
 
 				// Log-space for numerical stability
 				Real logPdf = (alpha - 1.0) * std::log(x) + (beta - 1.0) * std::log(1.0 - x)
-				            - std::lgamma(alpha) - std::lgamma(beta) + std::lgamma(alpha + beta);
+				            - Functions::LGamma(alpha) - Functions::LGamma(beta) + Functions::LGamma(alpha + beta);
 				return std::exp(logPdf);
 			}
 
diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index 85cdc3a..16dc16c 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -27,6 +27,7 @@
 #define MML_INTERPOLATED_REAL_FUNCTION_H
 
 #include <algorithm>
+#include <atomic>
 #include <cmath>
 
 #include "MMLBase.h"
@@ -39,6 +40,21 @@
 
 namespace MML {
 
+	/// @brief Error estimate of the last evaluation; concurrent const evaluations may update it safely
+	class InterpErrorEstimate {
+		std::atomic<Real> _value;
+
+	public:
+		InterpErrorEstimate(Real value = 0.0) : _value(value) {}
+		InterpErrorEstimate(const InterpErrorEstimate& other) : _value(other.Get()) {}
+		InterpErrorEstimate& operator=(const InterpErrorEstimate& other) {
+			Set(other.Get());
+			return *this;
+		}
+		Real Get() const { return _value.load(std::memory_order_relaxed); }
+		void Set(Real value) { _value.store(value, std::memory_order_relaxed); }
+	};
+
 	/// @brief Abstract base class for interpolating real functions from tabulated data.
 	/// RealFunctionInterpolated provides the foundation for all 1D interpolation methods.
 	/// It stores the data points (x, y) and provides efficient binary search to locate
@@ -238,7 +254,7 @@ namespace MML {
 
 	class PolynomInterpRealFunc : public RealFunctionInterpolated {
 	private:
-		mutable Real _errorEst;
+		mutable InterpErrorEstimate _errorEst;
 
 	public:
 		/// @brief Construct a polynomial interpolation function.
@@ -252,7 +268,7 @@ namespace MML {
 
 		/// /** @brief Get the error estimate from the last interpolation. */
 
-		Real getLastErrorEst() const { return _errorEst; }
+		Real getLastErrorEst() const { return _errorEst.Get(); }
 
 		/// @brief Calculate polynomial interpolated value using Neville's algorithm.
 		/// @param startInd Starting index in the data array
@@ -262,7 +278,7 @@ namespace MML {
 
 		Real calcInterpValue(int startInd, Real x) const override {
 			int i, m, ns = 0;
-			Real y, den, dif, dift, ho, hp, w, dy;
+			Real y, den, dif, dift, ho, hp, w, dy = 0.0;
 			Vector<Real> c(getInterpOrder()), d(getInterpOrder());
 
 			dif = std::abs(x - X(startInd));
@@ -297,7 +313,7 @@ namespace MML {
 
 				y += dy;
 			}
-			_errorEst = dy;
+			_errorEst.Set(dy);
 			return y;
 		}
 	};
@@ -591,7 +607,7 @@ namespace MML {
 
 	class RationalInterpRealFunc : public RealFunctionInterpolated {
 	private:
-		mutable Real _errorEst;
+		mutable InterpErrorEstimate _errorEst;
 		static constexpr Real TINY = 1.0e-99; ///< Small number to prevent 0/0
 
 	public:
@@ -606,7 +622,7 @@ namespace MML {
 
 		/// /** @brief Get the error estimate from the last interpolation. */
 
-		Real getLastErrorEst() const { return _errorEst; }
+		Real getLastErrorEst() const { return _errorEst.Get(); }
 
 		/// @brief Calculate rational interpolated value using Bulirsch-Stoer algorithm.
 		/// @param startInd Starting index in the data array
@@ -616,7 +632,7 @@ namespace MML {
 
 		Real calcInterpValue(int startInd, Real x) const override {
 			int m, i, ns = 0;
-			Real y, w, t, hh, h, dd;
+			Real y, w, t, hh, h, dd, dy = 0.0;
 			int mm = getInterpOrder();
 			Vector<Real> c(mm), d(mm);
 
@@ -624,7 +640,7 @@ namespace MML {
 			for (i = 0; i < mm; i++) {
 				h = std::abs(x - X(startInd + i));
 				if (h == 0.0) {
-					_errorEst = 0.0;
+					_errorEst.Set(0.0);
 					return Y(startInd + i); // Exact hit on a data point
 				} else if (h < hh) {
 					ns = i;
@@ -647,9 +663,10 @@ namespace MML {
 					d[i] = c[i + 1] * dd;
 					c[i] = t * dd;
 				}
-				_errorEst = (2 * (ns + 1) < (mm - m) ? c[ns + 1] : d[ns--]);
-				y += _errorEst;
+				dy = (2 * (ns + 1) < (mm - m) ? c[ns + 1] : d[ns--]);
+				y += dy;
 			}
+			_errorEst.Set(dy);
 			return y;
 		}
 	};
diff --git a/mml/base/StandardFunctions.h b/mml/base/StandardFunctions.h
index 45470ce..ae002eb 100644
--- a/mml/base/StandardFunctions.h
+++ b/mml/base/StandardFunctions.h
@@ -89,7 +89,20 @@ namespace MML
 		static inline Real Erfc(Real x) { return std::erfc(x); }
 
 		static inline Real TGamma(Real x) { return std::tgamma(x); }
-		static inline Real LGamma(Real x) { return std::lgamma(x); }
+		static inline Real LGamma(Real x) {
+#if defined(__GLIBC__)
+			// std::lgamma stores the sign in a global variable, so it must not run in two threads at once
+			int sign = 0;
+			if constexpr (sizeof(Real) == sizeof(float))
+				return static_cast<Real>(::lgammaf_r(static_cast<float>(x), &sign));
+			else if constexpr (sizeof(Real) == sizeof(double))
+				return static_cast<Real>(::lgamma_r(static_cast<double>(x), &sign));
+			else
+				return static_cast<Real>(::lgammal_r(static_cast<long double>(x), &sign));
+#else
+			return std::lgamma(x);
+#endif
+		}
 
 #if MML_HAS_STD_SPECIAL_FUNCTIONS
 		// C++17 special math functions (not available on macOS libc++)
-- 
2.43.0


From 3ee5d2036c0b5ec4688f6412949c29b248630295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:11 +0000
Subject: [PATCH 40/62] fix: persistence: truncated or corrupt files were read
 as data, failed writes reported success, ragged trajectories accepted

---
 mml/base/Vector/Vector.h                    | 35 +++++++++++----
 mml/tools/serializer/MatrixIO.h             | 49 +++++++++++++++++----
 mml/tools/serializer/SerializerBase.h       | 15 +++++++
 mml/tools/serializer/SerializerCurves.h     | 15 +++----
 mml/tools/serializer/SerializerFieldLines.h | 12 ++---
 mml/tools/serializer/SerializerFunctions.h  | 33 +++++++-------
 mml/tools/serializer/SerializerODE.h        | 12 ++---
 mml/tools/serializer/SerializerSimulation.h | 12 +++--
 mml/tools/serializer/SerializerSurfaces.h   | 15 +++----
 mml/tools/serializer/SerializerVectors.h    | 12 ++---
 mml/tools/serializer/VectorIO.h             |  9 +++-
 11 files changed, 134 insertions(+), 85 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index d5d3120..24e8297 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -519,7 +519,7 @@ namespace MML
 			}
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from binary file
@@ -535,7 +535,7 @@ namespace MML
 			}
 			
 			// Read and verify header
-			uint32_t magic, version, size, elemSize;
+			uint32_t magic = 0, version = 0, size = 0, elemSize = 0;
 			
 			file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 			if (magic != BinaryFormat::MAGIC_VECTOR) {
@@ -559,11 +559,25 @@ namespace MML
 			}
 			
 			// Read data
+			// Check that the file really holds the declared data before allocating and reading it
+			const std::streamoff dataSize = static_cast<std::streamoff>(size) * static_cast<std::streamoff>(sizeof(Type));
+			const std::streamoff dataPos = file.tellg();
+			file.seekg(0, std::ios::end);
+			if (!file || static_cast<std::streamoff>(file.tellg()) - dataPos < dataSize) {
+				std::cerr << "Error: file " << filename << " is too small for declared size " << size << std::endl;
+				return false;
+			}
+			file.seekg(dataPos);
+			
 			outVec._elems.resize(size);
 			if (size > 0) {
 				file.read(reinterpret_cast<char*>(outVec._elems.data()), 
 				          size * sizeof(Type));
 			}
+			if (!file) {
+				std::cerr << "Error: could not read all data from " << filename << std::endl;
+				return false;
+			}
 			
 			file.close();
 			return true;
@@ -583,7 +597,7 @@ namespace MML
 				file << val << std::endl;
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from text file
@@ -595,12 +609,17 @@ namespace MML
 			std::ifstream file(filename);
 			if (!file.is_open()) return false;
 			
-			size_t size;
-			file >> size;
-			outVec._elems.resize(size);
+			size_t size = 0;
+			if (!(file >> size)) return false;
+			
+			// Read all elements before touching the output: a truncated or malformed file is reported
+			std::vector<Type> elems;
+			Type value{};
+			while (elems.size() < size && file >> value)
+				elems.push_back(value);
+			if (elems.size() < size) return false;
 			
-			for (size_t i = 0; i < size; ++i)
-				file >> outVec._elems[i];
+			outVec._elems = std::move(elems);
 			
 			file.close();
 			return true;
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 46b977f..329da17 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -49,17 +49,30 @@ namespace Serializer
 			return false;
 		}
 		
-		int rows, cols;
+		int rows = 0, cols = 0;
 		file >> rows >> cols;
 		if (file.fail() || rows <= 0 || cols <= 0 || rows > 100000 || cols > 100000) {
 			std::cerr << "Error: invalid dimensions (" << rows << "x" << cols << ") in " << filename << std::endl;
 			return false;
 		}
-		outMat.Resize(rows, cols);
+		// Read all elements before touching the output, so that a truncated or
+		// malformed file is reported and cannot leave a half-filled matrix behind
+		const size_t count = static_cast<size_t>(rows) * static_cast<size_t>(cols);
+		std::vector<Type> values;
+		Type value{};
+		while (values.size() < count && file >> value)
+			values.push_back(value);
+		
+		if (values.size() < count) {
+			std::cerr << "Error: file " << filename << " ends before all " << count << " elements could be read" << std::endl;
+			return false;
+		}
 		
+		outMat.Resize(rows, cols);
+		size_t k = 0;
 		for (int i = 0; i < rows; ++i)
 			for (int j = 0; j < cols; ++j)
-				file >> outMat(i, j);
+				outMat(i, j) = values[k++];
 		
 		file.close();
 		return true;
@@ -89,7 +102,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -118,8 +131,11 @@ namespace Serializer
 			std::string cell;
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
-				Type value;
-				cellStream >> value;
+				Type value{};
+				if (!(cellStream >> value) || !(cellStream >> std::ws).eof()) {
+					std::cerr << "Error: invalid value '" << cell << "' in " << filename << std::endl;
+					return false;
+				}
 				row.push_back(value);
 			}
 			if (!row.empty())
@@ -155,7 +171,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -207,7 +223,7 @@ namespace Serializer
 		           static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
@@ -227,7 +243,7 @@ namespace Serializer
 		}
 		
 		// Read and verify header
-		uint32_t magic, version, rows, cols, elemSize, reserved;
+		uint32_t magic = 0, version = 0, rows = 0, cols = 0, elemSize = 0, reserved = 0;
 		
 		file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 		if (magic != BinaryFormat::MAGIC_MATRIX) {
@@ -256,11 +272,26 @@ namespace Serializer
 			return false;
 		}
 		
+		// Check that the file really holds the declared data before allocating and reading it
+		const std::streamoff dataSize = static_cast<std::streamoff>(rows) * cols * static_cast<std::streamoff>(sizeof(Type));
+		const std::streamoff dataPos = file.tellg();
+		file.seekg(0, std::ios::end);
+		if (!file || static_cast<std::streamoff>(file.tellg()) - dataPos < dataSize) {
+			std::cerr << "Error: file " << filename << " is too small for declared dimensions (" << rows << "x" << cols << ")" << std::endl;
+			return false;
+		}
+		file.seekg(dataPos);
+		
 		// Read data
 		outMat.Resize(static_cast<int>(rows), static_cast<int>(cols));
 		file.read(reinterpret_cast<char*>(outMat.data()), 
 		          static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
+		if (!file) {
+			std::cerr << "Error: could not read all data from " << filename << std::endl;
+			return false;
+		}
+		
 		file.close();
 		return true;
 	}
diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index 130f3a4..763188b 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -118,6 +118,21 @@ namespace MML
 			file << title << std::endl;
 		}
 
+
+		/// @brief Result of writing to a stream: failure if any of the output could not be written
+		inline SerializeResult StreamResult(const std::ostream& out, const std::string& successMessage)
+		{
+			if (!out)
+				return {false, SerializeError::WRITE_FAILED, "Write error: output stream is in a failed state"};
+			return {true, SerializeError::OK, successMessage};
+		}
+
+		/// @brief Close an output file and report whether everything reached it
+		inline SerializeResult CloseFile(std::ofstream& file, const std::string& successMessage)
+		{
+			file.close();
+			return StreamResult(file, successMessage);
+		}
 	} // namespace Serializer
 } // namespace MML
 
diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index db20385..f1e41ec 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -57,8 +57,7 @@ namespace MML
 						file << val[i] << " ";
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return CloseFile(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -98,8 +97,7 @@ namespace MML
 					file << std::endl;
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return CloseFile(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -142,8 +140,7 @@ namespace MML
 						file << vals[i][j] << " ";
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return CloseFile(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -183,8 +180,7 @@ namespace MML
 						file << vals[i][j] << " ";
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return CloseFile(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -236,8 +232,7 @@ namespace MML
 					Real t = t1 + (t2 - t1) * i / (vec_x.size() - 1);
 					file << t << " " << vec_x[i] << " " << vec_y[i] << std::endl;
 				}
-				file.close();
-				return { true, SerializeError::OK, "Successfully saved parametric curve 2D" };
+				return CloseFile(file, "Successfully saved parametric curve 2D");
 			}
 			catch (const std::exception& e) {
 				file.close();
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 7577112..766a8db 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -88,8 +88,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return CloseFile(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -136,8 +135,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return CloseFile(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -188,8 +186,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return CloseFile(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -232,8 +229,7 @@ namespace MML
 					}
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return CloseFile(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 38e1b44..a282d38 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -53,7 +53,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return StreamResult(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -74,8 +74,8 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealFunc(file, f, title, x1, x2, numPoints, precision);
-			file.close();
-			return result;
+			auto closeResult = CloseFile(file, result.message);
+			return result.success ? closeResult : result;
 		}
 
 		/// @brief Serialize a real function to a stream at specified points
@@ -96,7 +96,7 @@ namespace MML
 					Real x = points[i];
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return StreamResult(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -116,8 +116,8 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealFunc(file, f, title, points, precision);
-			file.close();
-			return result;
+			auto closeResult = CloseFile(file, result.message);
+			return result.success ? closeResult : result;
 		}
 
 		/// @brief Serialize a real function to stream saving only function values (space-optimized)
@@ -140,7 +140,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return StreamResult(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -160,8 +160,8 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealFuncEquallySpaced(file, f, title, x1, x2, numPoints, precision);
-			file.close();
-			return result;
+			auto closeResult = CloseFile(file, result.message);
+			return result.success ? closeResult : result;
 		}
 
 		//===================================================================================
@@ -197,7 +197,7 @@ namespace MML
 
 					out << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return StreamResult(out, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -218,8 +218,8 @@ namespace MML
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			auto result = SaveRealMultiFunc(file, funcs, title, legend, x1, x2, numPoints, precision);
-			file.close();
-			return result;
+			auto closeResult = CloseFile(file, result.message);
+			return result.success ? closeResult : result;
 		}
 
 		/// @brief Serialize multiple linear interpolation functions to file
@@ -256,8 +256,7 @@ namespace MML
 
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -299,8 +298,7 @@ namespace MML
 
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -342,8 +340,7 @@ namespace MML
 
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 1211821..60dbf11 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -53,8 +53,7 @@ namespace MML
 					file << sol.getTValues()[i] << " " << sol.getXValues()[compInd][i] << std::endl;
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -94,8 +93,7 @@ namespace MML
 					}
 					file << std::endl;
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -137,8 +135,7 @@ namespace MML
 					file << std::endl;
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -182,8 +179,7 @@ namespace MML
 					file << std::endl;
 				}
 
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 47c0946..cb2802c 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -48,6 +48,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "dT must be positive"};
 			if (ballPositions.size() != numBalls || ballColors.size() != numBalls || ballRadius.size() != numBalls)
 				return {false, SerializeError::INVALID_PARAMETERS, "ballPositions, ballColors, and ballRadius sizes must equal numBalls"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
@@ -84,8 +87,7 @@ namespace MML
 					}
 				}
 				file << buffer.str();
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -119,6 +121,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "dT must be positive"};
 			if (ballPositions.size() != numBalls || ballColors.size() != numBalls || ballRadius.size() != numBalls)
 				return {false, SerializeError::INVALID_PARAMETERS, "ballPositions, ballColors, and ballRadius sizes must equal numBalls"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
@@ -154,8 +159,7 @@ namespace MML
 						file << j << " " << ballPositions[j][i].X() << " " << ballPositions[j][i].Y() << " " << ballPositions[j][i].Z() << "\n";
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index 5187222..bd69289 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -83,8 +83,7 @@ namespace MML
 					}
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -139,8 +138,7 @@ namespace MML
 					}
 				}
 				
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -208,8 +206,7 @@ namespace MML
 						file << x << " " << y << " " << f(VectorN<Real, 2>{x, y}) << std::endl;
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -268,8 +265,7 @@ namespace MML
 						}
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -340,8 +336,7 @@ namespace MML
 						file << x << " " << y << " " << value << std::endl;
 					}
 				}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index a469404..02aa8ba 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -54,8 +54,7 @@ namespace MML
 						auto val = f(VectorN<Real, 2>{x, y});
 						file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -97,8 +96,7 @@ namespace MML
 						if (val.NormL2() < upper_threshold)
 							file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -160,8 +158,7 @@ namespace MML
 							file << x << " " << y << " " << z << " " << val[0] << " " << val[1] << " " << val[2] << std::endl;
 						}
 
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
@@ -209,8 +206,7 @@ namespace MML
 								file << x << " " << y << " " << z << " " << val[0] << " " << val[1] << " " << val[2] << std::endl;
 						}
 
-				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return CloseFile(file, "Success");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index 5ac2710..9e0d386 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -77,7 +77,7 @@ bool SaveComplexVector(const std::vector<std::complex<T>>& vec,
     }
     
     file.close();
-    return true;
+    return !file.fail();
 }
 
 /// @brief Load complex vector from binary file
@@ -96,7 +96,7 @@ bool LoadComplexVector(const std::string& filename,
     }
     
     // Read and verify header
-    uint32_t magic, version, count, elemSize;
+    uint32_t magic = 0, version = 0, count = 0, elemSize = 0;
     
     file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
     if (magic != BinaryFormat::MAGIC_VECTOR_COMPLEX) {
@@ -125,6 +125,11 @@ bool LoadComplexVector(const std::string& filename,
     auto fileSize = file.tellg();
     file.seekg(currentPos);
 
+    if (!file) {
+        std::cerr << "Error: could not read header of " << filename << std::endl;
+        return false;
+    }
+
     auto expectedDataSize = static_cast<std::streamoff>(count) * elemSize * 2;
     if (fileSize - currentPos < expectedDataSize) {
         std::cerr << "Error: file " << filename << " is too small for declared count "
-- 
2.43.0


From d9a4464b577084c6861c162208d1851cd3381514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:11 +0000
Subject: [PATCH 41/62] fix: data loaders: integer columns truncated reals,
 JSON rows misaligned for late/absent keys, malformed JSON accepted, escapes
 and denormals mishandled, blank TSV rows dropped

---
 mml/tools/data_loader/DataLoaderCSV.h     |   4 +-
 mml/tools/data_loader/DataLoaderJSON.h    | 100 ++++++++++++++++++----
 mml/tools/data_loader/DataLoaderParsing.h |  30 ++++++-
 3 files changed, 111 insertions(+), 23 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index daca260..4212bc4 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -61,7 +61,7 @@ namespace MML {
 				}
 
 				// Skip empty lines
-				if (Trim(line).empty()) continue;
+				if (Trim(line).empty() && line.find(opts.delimiter) == std::string::npos) continue;
 
 				// Handle Windows line endings
 				if (!line.empty() && line.back() == '\r')
@@ -297,7 +297,7 @@ namespace MML {
 			std::string line;
 
 			while (std::getline(iss, line)) {
-				if (Trim(line).empty()) continue;
+				if (Trim(line).empty() && line.find(delimiter) == std::string::npos) continue;
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index bd5d6a7..8a86574 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -19,6 +19,7 @@
 #include <fstream>
 #include <limits>
 #include <map>
+#include <regex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -40,7 +41,7 @@ namespace MML {
 			JsonParser(const std::string& s) : json(s), pos(0) {}
 
 			void SkipWhitespace() {
-				while (pos < json.size() && std::isspace(json[pos])) ++pos;
+				while (pos < json.size() && std::isspace(static_cast<unsigned char>(json[pos]))) ++pos;
 			}
 
 			char Peek() {
@@ -70,7 +71,10 @@ namespace MML {
 							case '"': result += '"'; break;
 							case '\\': result += '\\'; break;
 							case '/': result += '/'; break;
-							default: result += esc; break;
+							case 'b': result += '\b'; break;
+							case 'f': result += '\f'; break;
+							case 'u': AppendUtf8(result, ParseUnicodeEscape()); break;
+							default: throw DataError("JSON: Invalid escape sequence");
 						}
 					}
 					else {
@@ -80,15 +84,70 @@ namespace MML {
 				throw DataError("JSON: Unterminated string");
 			}
 
+			// Four hexadecimal digits following "\\u"
+			unsigned ParseHex4() {
+				unsigned code = 0;
+				for (int i = 0; i < 4; ++i) {
+					const unsigned char c = pos < json.size() ? json[pos] : '\0';
+					if (!std::isxdigit(c))
+						throw DataError("JSON: Invalid \\u escape");
+					code = code * 16 + (std::isdigit(c) ? c - '0' : std::tolower(c) - 'a' + 10);
+					++pos;
+				}
+				return code;
+			}
+
+			// Code point of a "\\u" escape, combining surrogate pairs
+			unsigned ParseUnicodeEscape() {
+				unsigned code = ParseHex4();
+				if (code >= 0xD800 && code <= 0xDBFF) {
+					if (json.compare(pos, 2, "\\u") != 0)
+						throw DataError("JSON: Unpaired surrogate in \\u escape");
+					pos += 2;
+					const unsigned low = ParseHex4();
+					if (low < 0xDC00 || low > 0xDFFF)
+						throw DataError("JSON: Unpaired surrogate in \\u escape");
+					return 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+				}
+				if (code >= 0xDC00 && code <= 0xDFFF)
+					throw DataError("JSON: Unpaired surrogate in \\u escape");
+				return code;
+			}
+
+			static void AppendUtf8(std::string& out, unsigned code) {
+				if (code < 0x80) {
+					out += static_cast<char>(code);
+				}
+				else if (code < 0x800) {
+					out += static_cast<char>(0xC0 | (code >> 6));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+				else if (code < 0x10000) {
+					out += static_cast<char>(0xE0 | (code >> 12));
+					out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+				else {
+					out += static_cast<char>(0xF0 | (code >> 18));
+					out += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+					out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+			}
+
 			std::string ParseNumber() {
 				SkipWhitespace();
 				size_t start = pos;
 				if (json[pos] == '-') ++pos;
-				while (pos < json.size() && (std::isdigit(json[pos]) || json[pos] == '.' ||
+				while (pos < json.size() && (std::isdigit(static_cast<unsigned char>(json[pos])) || json[pos] == '.' ||
 				       json[pos] == 'e' || json[pos] == 'E' || json[pos] == '+' || json[pos] == '-')) {
 					++pos;
 				}
-				return json.substr(start, pos - start);
+				static const std::regex numberPattern(R"(-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?)");
+				const std::string number = json.substr(start, pos - start);
+				if (!std::regex_match(number, numberPattern))
+					throw DataError("JSON: Invalid number '" + number + "'");
+				return number;
 			}
 
 			bool ParseBool() {
@@ -120,7 +179,7 @@ namespace MML {
 				if (c == '{') return JsonType::Object;
 				if (c == 't' || c == 'f') return JsonType::Bool;
 				if (c == 'n') return JsonType::Null;
-				if (c == '-' || std::isdigit(c)) return JsonType::Number;
+				if (c == '-' || std::isdigit(static_cast<unsigned char>(c))) return JsonType::Number;
 				throw DataError("JSON: Unexpected character");
 			}
 
@@ -135,15 +194,20 @@ namespace MML {
 				std::vector<std::string> columnOrder;
 
 				// Parse each object
+				size_t rowIndex = 0;
 				while (Peek() != ']') {
-					if (Peek() == ',') Get();  // Skip comma
+					if (rowIndex > 0 && Get() != ',')
+						throw DataError("JSON: Expected ',' between objects");
 
 					if (Get() != '{')
 						throw DataError("JSON: Expected '{' for object");
 
 					// Parse object key-value pairs
+					bool firstPair = true;
 					while (Peek() != '}') {
-						if (Peek() == ',') Get();
+						if (!firstPair && Get() != ',')
+							throw DataError("JSON: Expected ',' between members");
+						firstPair = false;
 
 						std::string key = ParseString();
 						if (Get() != ':')
@@ -174,25 +238,27 @@ namespace MML {
 								throw DataError("JSON: Unsupported value type (nested objects/arrays not supported)");
 						}
 
-						columnData[key].push_back(value);
+						// The value belongs to this row, also when the key was missing in earlier rows
+						// (those become missing) or is repeated within the object (the last one counts)
+						std::vector<std::string>& column = columnData[key];
+						column.resize(rowIndex + 1);
+						column[rowIndex] = value;
 					}
 
 					if (Get() != '}')
 						throw DataError("JSON: Expected '}'");
 
-					// Fill missing columns with empty for this row
-					size_t maxRows = 0;
-					for (const auto& col : columnOrder) {
-						maxRows = std::max(maxRows, columnData[col].size());
-					}
-					for (const auto& col : columnOrder) {
-						while (columnData[col].size() < maxRows)
-							columnData[col].push_back("");
-					}
+					++rowIndex;
 				}
 
 				if (Get() != ']')
 					throw DataError("JSON: Expected ']'");
+				if (Peek() != '\0' || pos < json.size())
+					throw DataError("JSON: Unexpected content after the array");
+
+				// Fill columns missing in the last rows
+				for (const auto& col : columnOrder)
+					columnData[col].resize(rowIndex);
 
 				// Build dataset
 				if (!columnOrder.empty()) {
diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 177fd32..4e6c402 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -15,6 +15,10 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+#include <limits>
 #include <regex>
 #include <string>
 #include <vector>
@@ -56,7 +60,13 @@ namespace MML {
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
 				if (std::regex_match(trimmed, intPattern)) {
-					++intCount;
+					// Integers that do not fit into an int can only be represented as reals
+					errno = 0;
+					const long long intVal = std::strtoll(trimmed.c_str(), nullptr, 10);
+					if (errno == 0 && intVal >= std::numeric_limits<int>::min() && intVal <= std::numeric_limits<int>::max())
+						++intCount;
+					else
+						++realCount;
 					continue;
 				}
 				if (std::regex_match(trimmed, realPattern)) {
@@ -98,7 +108,8 @@ namespace MML {
 			if (dateCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::DATE;
 			if (timeCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::TIME;
 			if (boolCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::BOOL;
-			if (intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
+			// A column with any fractional value is real: truncating that value would change it
+			if (realCount == 0 && intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
 			if ((intCount + realCount) >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::REAL;
 
 			return ColumnType::STRING;
@@ -136,11 +147,22 @@ namespace MML {
 			try {
 				switch (targetType) {
 					case ColumnType::REAL: {
-						realOut = std::stod(trimmed);
+						// The whole text must be a decimal number; denormals are fine, overflow is not
+						if (trimmed.find_first_not_of("0123456789+-.eE") != std::string::npos)
+							return ParseResult::Invalid;
+						char* end = nullptr;
+						const double realVal = std::strtod(trimmed.c_str(), &end);
+						if (end == trimmed.c_str() || *end != '\0' || std::isinf(realVal))
+							return ParseResult::Invalid;
+						realOut = static_cast<Real>(realVal);
 						return ParseResult::Parsed;
 					}
 					case ColumnType::INT: {
-						intOut = std::stoi(trimmed);
+						size_t used = 0;
+						const int intVal = std::stoi(trimmed, &used);
+						if (used != trimmed.size())
+							return ParseResult::Invalid;
+						intOut = intVal;
 						return ParseResult::Parsed;
 					}
 					case ColumnType::BOOL: {
-- 
2.43.0


From 04d2e81dc1a5850d372edc1a72da1ff21c7782a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:44 +0000
Subject: [PATCH 42/62] fix: printing: auto-width vector tables crashed,
 TSV/Markdown cells unescaped, exports followed caller's stream flags, failed
 writes silent, Print changed stream precision and ignored zero
 threshold/compact mode

---
 mml/base/Matrix/Matrix.h   | 26 +++++++++++-
 mml/base/Matrix/MatrixNM.h |  2 +
 mml/base/Vector/Vector.h   |  4 ++
 mml/base/Vector/VectorN.h  |  4 ++
 mml/tools/ConsolePrinter.h | 87 ++++++++++++++++++++++++++++++++++----
 5 files changed, 113 insertions(+), 10 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index c5bb3bd..bf90295 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1212,15 +1212,38 @@ namespace MML
 				stream << "Rows: " << _rows << " Cols: " << _cols << std::endl;
 
 			std::ios_base::fmtflags oldFlags = stream.flags();
+			std::streamsize oldPrecision = stream.precision();
 			if (fmt.scientific)
 				stream << std::scientific;
 			else if (fmt.fixed)
 				stream << std::fixed;
 
+			// Entries at or below the zero threshold are shown as 0
+			auto shown = [&](int i, int j) -> Type {
+				if constexpr (is_MML_simple_numeric<Type>) {
+					if (fmt.zeroThreshold > 0.0 && Abs((*this)(i, j)) <= fmt.zeroThreshold)
+						return Type{0};
+				}
+				return (*this)(i, j);
+			};
+
+			// Compact mode - small matrices go on one line
+			if (fmt.compactMode && _rows <= 3 && _cols <= 3) {
+				if (fmt.showBrackets) stream << "[";
+				for (int i = 0; i < _rows; ++i) {
+					if (i > 0) stream << "; ";
+					for (int j = 0; j < _cols; ++j) {
+						if (j > 0) stream << fmt.delimiter;
+						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << shown(i, j);
+					}
+				}
+				if (fmt.showBrackets) stream << "]";
+				stream << std::endl;
+			} else
 			for (int i = 0; i < _rows; ++i) {
 				if (fmt.showBrackets) stream << "[ ";
 				for (int j = 0; j < _cols; ++j) {
-					stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << (*this)(i, j);
+					stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << shown(i, j);
 					if (j < _cols - 1) stream << fmt.delimiter;
 				}
 				if (fmt.showBrackets) stream << " ]";
@@ -1228,6 +1251,7 @@ namespace MML
 			}
 			
 			stream.flags(oldFlags);
+			stream.precision(oldPrecision);
 		}
 		
 		/// @brief Print with specified width and precision
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index a82ddbc..ba7f165 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -757,6 +757,7 @@ namespace MML {
 
 			// Set formatting flags
 			std::ios_base::fmtflags oldFlags = stream.flags();
+			std::streamsize oldPrecision = stream.precision();
 			if (fmt.scientific)
 				stream << std::scientific;
 			else if (fmt.fixed)
@@ -799,6 +800,7 @@ namespace MML {
 
 			// Restore original flags
 			stream.flags(oldFlags);
+			stream.precision(oldPrecision);
 		}
 
 		/// @brief Print with explicit width and precision.
diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 24e8297..8477cf9 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -412,6 +412,7 @@ namespace MML
 		/// @param zeroThreshold Values with |x| <= threshold printed as 0
 		std::ostream& Print(std::ostream& stream, int width, int precision, Real zeroThreshold) const
 		{
+			std::streamsize oldPrecision = stream.precision();
 			stream << "[";
 			bool first = true;
 			for (const Type& x : _elems)
@@ -427,6 +428,7 @@ namespace MML
           stream << std::setw(width) << std::setprecision(precision) << 0.0;
 			}
 			stream << "]";
+			stream.precision(oldPrecision);
 
 			return stream;
 		}
@@ -450,8 +452,10 @@ namespace MML
 		/// @brief Print vector as column (one element per line)
 		std::ostream& PrintCol(std::ostream& stream, int width, int precision) const
 		{
+			std::streamsize oldPrecision = stream.precision();
 			for (const Type& x : _elems)
 				stream << std::setw(width) << std::setprecision(precision) << x << std::endl;
+			stream.precision(oldPrecision);
 			return stream;
 		}		
 
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 175175a..f4b8351 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -325,6 +325,7 @@ namespace MML
 		/// @param precision Decimal precision
 		std::ostream& Print(std::ostream& stream, int width, int precision) const
 		{
+			std::streamsize oldPrecision = stream.precision();
 			stream << "[";
 			bool first = true;
 			for (const Type& x : _val)
@@ -337,6 +338,7 @@ namespace MML
 				stream << std::setw(width) << std::setprecision(precision) << x;
 			}
 			stream << "]";
+			stream.precision(oldPrecision);
 
 			return stream;
 		}
@@ -347,6 +349,7 @@ namespace MML
 		/// @param zeroThreshold Threshold for displaying as zero
 		std::ostream& Print(std::ostream& stream, int width, int precision, Real zeroThreshold) const
 		{
+			std::streamsize oldPrecision = stream.precision();
 			stream << "[";
 			bool first = true;
 			for (const Type& x : _val)
@@ -362,6 +365,7 @@ namespace MML
 					stream << std::setw(width) << std::setprecision(precision) << 0.0;
 			}
 			stream << "]";
+			stream.precision(oldPrecision);
 
 			return stream;
 		}
diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 04d2741..bcc4f80 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <stdexcept>
 #include <memory>
+#include <type_traits>
 
 #include "../base/Vector/Vector.h"
 
@@ -153,6 +154,42 @@ namespace MML {
 		}
 	} // namespace Csv
 
+	/// @brief Escaping for tab-separated export: a cell must stay on one line and in one column
+	namespace Tsv {
+		inline std::string escape(const std::string& str) {
+			std::string result;
+			result.reserve(str.size());
+			for (char c : str) {
+				switch (c) {
+					case '\t': result += "\\t";  break;
+					case '\n': result += "\\n";  break;
+					case '\r': result += "\\r";  break;
+					case '\\': result += "\\\\"; break;
+					default:   result += c;      break;
+				}
+			}
+			return result;
+		}
+	} // namespace Tsv
+
+	/// @brief Escaping for Markdown table cells
+	namespace Markdown {
+		inline std::string escape(const std::string& str) {
+			std::string result;
+			result.reserve(str.size());
+			for (char c : str) {
+				switch (c) {
+					case '|':  result += "\\|";   break;
+					case '\\': result += "\\\\"; break;
+					case '\n': result += "<br>"; break;
+					case '\r': break;
+					default:   result += c;      break;
+				}
+			}
+			return result;
+		}
+	} // namespace Markdown
+
 	namespace Html {
 		/// @brief Escape special HTML characters in a string
 		inline std::string escape(const std::string& str) {
@@ -337,7 +374,9 @@ namespace MML {
 				oss << std::hex;
 				break;
 			case FormatType::Integer:
-				// No decimal formatting
+				// No decimal point: reals are shown rounded to the nearest integer
+				if constexpr (std::is_floating_point_v<T>)
+					oss << std::fixed << std::setprecision(0);
 				break;
 			case FormatType::General:
 			default:
@@ -532,6 +571,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			print(file);
+			file.flush();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 		// Convert to string
@@ -573,6 +616,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			exportTo(file, format);
+			file.flush();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 	private:
@@ -670,19 +717,27 @@ namespace MML {
 		}
 
 		// TSV export
+		/// @brief Cell text for the machine-readable exports, independent of the caller's stream settings
+		template<typename T>
+		static std::string plainText(const T& value) {
+			std::ostringstream oss;
+			oss << value;
+			return oss.str();
+		}
+
 		void exportTSV(std::ostream& os) const {
 			// Header
-			os << m_tagFormat.name();
+			os << Tsv::escape(m_tagFormat.name());
 			for (const auto& fmt : m_columnFormats) {
-				os << "\t" << fmt.name();
+				os << "\t" << Tsv::escape(fmt.name());
 			}
 			os << "\n";
 
 			// Data
 			for (size_t row = 0; row < m_data.size(); ++row) {
-				os << m_rowTags[row];
+				os << Tsv::escape(plainText(m_rowTags[row]));
 				for (const auto& value : m_data[row]) {
-					os << "\t" << value;
+					os << "\t" << Tsv::escape(plainText(value));
 				}
 				os << "\n";
 			}
@@ -691,9 +746,9 @@ namespace MML {
 		// Markdown export
 		void exportMarkdown(std::ostream& os) const {
 			// Header
-			os << "| " << m_tagFormat.name();
+			os << "| " << Markdown::escape(m_tagFormat.name());
 			for (const auto& fmt : m_columnFormats) {
-				os << " | " << fmt.name();
+				os << " | " << Markdown::escape(fmt.name());
 			}
 			os << " |\n";
 
@@ -706,9 +761,9 @@ namespace MML {
 
 			// Data
 			for (size_t row = 0; row < m_data.size(); ++row) {
-				os << "| " << m_rowTags[row];
+				os << "| " << Markdown::escape(plainText(m_rowTags[row]));
 				for (const auto& value : m_data[row]) {
-					os << " | " << value;
+					os << " | " << Markdown::escape(plainText(value));
 				}
 				os << " |\n";
 			}
@@ -871,6 +926,8 @@ namespace MML {
 			auto bc = m_style.getChars();
 			bool hasBorders = m_style.borderStyle() != BorderStyle::None;
 
+			calculateAutoWidths();
+
 			// Print top border
 			if (hasBorders && m_style.showHeader()) {
 				printHorizontalLine(os, bc.topLeft, bc.horizontal, bc.topT, bc.topRight);
@@ -940,6 +997,18 @@ namespace MML {
 		}
 
 	private:
+		void calculateAutoWidths() const {
+			auto& formats = const_cast<std::vector<ColumnFormat>&>(m_formats);
+			for (size_t col = 0; col < formats.size(); ++col) {
+				if (formats[col].rawWidth() != ColumnFormat::AUTO_WIDTH)
+					continue;
+				int maxWidth = static_cast<int>(formats[col].name().length());
+				for (int row = 0; row < m_vectors[col]->size(); ++row)
+					maxWidth = std::max(maxWidth, static_cast<int>(formats[col].formatValue((*m_vectors[col])[row]).length()));
+				formats[col].setCalculatedWidth(maxWidth);
+			}
+		}
+
 		// Helper: print horizontal line for borders (UTF-8 safe)
 		void printHorizontalLine(std::ostream& os, const std::string& left, const std::string& horiz, const std::string& cross,
 								 const std::string& right) const {
-- 
2.43.0


From 63f608d0aa50613fee7cd21d86cd3864e71a3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:00 +0000
Subject: [PATCH 43/62] fix: intervals: set operations and queries follow real
 point sets (half-infinite operands, shared endpoints, empty and reversed
 intervals); coverings stay inside

---
 mml/base/Intervals.h | 313 ++++++++++++++++++-------------------------
 1 file changed, 127 insertions(+), 186 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..acb2b73 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -79,8 +79,10 @@
 
 // Standard headers - include what we use
 #include <algorithm>
+#include <cmath>
 #include <initializer_list>
 #include <limits>
+#include <memory>
 #include <vector>
 
 namespace MML {
@@ -173,27 +175,38 @@ namespace MML {
 			Real upper = _upper;
 
 			// For infinite bounds, use practical limits
+			// (limits move outward when the finite bound lies beyond them)
 			if (_lowerType == EndpointType::NEG_INF)
-				lower = -1e10;
+				lower = (_upperType == EndpointType::POS_INF || upper > -1e10) ? REAL(-1e10)
+																			   : std::max(2 * upper, std::numeric_limits<Real>::lowest());
 			if (_upperType == EndpointType::POS_INF)
-				upper = 1e10;
+				upper = (_lowerType == EndpointType::NEG_INF || lower < 1e10) ? REAL(1e10)
+																			  : std::min(2 * lower, std::numeric_limits<Real>::max());
+
+			// Smallest and largest representable members
+			const Real inf = std::numeric_limits<Real>::infinity();
+			Real first = (_lowerType == EndpointType::OPEN) ? std::nextafter(lower, inf) : lower;
+			Real last = (_upperType == EndpointType::OPEN) ? std::nextafter(upper, -inf) : upper;
+			if (!(first <= last))
+				return; // no representable point inside
 
 			if (numPoints == 1) {
-				points.push_back((lower + upper) / 2.0);
+				points.push_back(std::min(std::max(REAL(0.5) * lower + REAL(0.5) * upper, first), last));
 				return;
 			}
 
 			Real delta = (upper - lower) / (numPoints - 1);
-
+			bool wide = !std::isfinite(delta); // the span itself is not representable
+			Real gap = wide ? std::numeric_limits<Real>::max() / numPoints : delta;
 			for (int i = 0; i < numPoints; i++) {
-				Real x = lower + i * delta;
-
+				Real t = Real(i) / (numPoints - 1);
+				Real x = wide ? lower * (1 - t) + upper * t : lower + i * delta;
 				// Adjust for open endpoints
 				if (i == 0 && _lowerType == EndpointType::OPEN)
-					x += delta * 0.001; // Small epsilon inside
+					x += gap * 0.001; // Small epsilon inside
 				if (i == numPoints - 1 && _upperType == EndpointType::OPEN)
-					x -= delta * 0.001; // Small epsilon inside
-
+					x -= gap * 0.001; // Small epsilon inside
+				x = std::min(std::max(x, first), last); // rounding must not leave the interval
 				points.push_back(x);
 			}
 		}
@@ -248,7 +261,9 @@ namespace MML {
 		/// @brief Returns true if x is not at a hole position.
 		bool contains(Real x) const {
 			Real diff = (x - _hole0) / _holeDelta;
-			if (std::abs(diff - std::round(diff)) < std::numeric_limits<Real>::epsilon() * 100)
+			// Rounding of hole0 + n*holeDelta grows with n
+			Real tol = std::numeric_limits<Real>::epsilon() * std::max(REAL(100.0), 4 * (std::abs(diff) + std::abs(_hole0 / _holeDelta)));
+			if (std::abs(diff - std::round(diff)) < tol)
 				return false;
 
 			return true;
@@ -338,7 +353,9 @@ namespace MML {
 				return false;
 
 			Real diff = (x - _hole0) / _holeDelta;
-			if (std::abs(diff - std::round(diff)) < std::numeric_limits<Real>::epsilon() * 100)
+			// Rounding of hole0 + n*holeDelta grows with n
+			Real tol = std::numeric_limits<Real>::epsilon() * std::max(REAL(100.0), 4 * (std::abs(diff) + std::abs(_hole0 / _holeDelta)));
+			if (std::abs(diff - std::round(diff)) < tol)
 				return false;
 
 			return true;
@@ -465,6 +482,60 @@ namespace MML {
 	class Interval : public IInterval {
 		Real _lower, _upper;
 		std::vector<std::shared_ptr<BaseInterval>> _intervals; ///< Component intervals
+
+		/// @brief True if no point satisfies the bounds, e.g. (a, a).
+		static bool isEmptySet(const BaseInterval& a) {
+			return !(a._lower <= a._upper) ||
+				   (a._lower == a._upper && (a._lowerType != EndpointType::CLOSED || a._upperType != EndpointType::CLOSED));
+		}
+
+		/// @brief True if a reaches further down than b.
+		static bool startsBefore(const BaseInterval& a, const BaseInterval& b) {
+			if (b._lowerType == EndpointType::NEG_INF)
+				return false;
+			if (a._lowerType == EndpointType::NEG_INF || a._lower < b._lower)
+				return true;
+			return a._lower == b._lower && a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::OPEN;
+		}
+
+		/// @brief True if b reaches further up than a.
+		static bool endsBefore(const BaseInterval& a, const BaseInterval& b) {
+			if (a._upperType == EndpointType::POS_INF)
+				return false;
+			if (b._upperType == EndpointType::POS_INF || a._upper < b._upper)
+				return true;
+			return a._upper == b._upper && a._upperType == EndpointType::OPEN && b._upperType == EndpointType::CLOSED;
+		}
+
+		/// @brief Adds the interval with the given bounds and endpoint types; an empty one is not added.
+		void addPiece(Real lower, EndpointType lowerType, Real upper, EndpointType upperType) {
+			if (lowerType == EndpointType::NEG_INF) {
+				if (upperType == EndpointType::POS_INF)
+					AddInterval(CompleteRInterval());
+				else if (upperType == EndpointType::CLOSED)
+					AddInterval(NegInfToClosedInterval(upper));
+				else
+					AddInterval(NegInfToOpenInterval(upper));
+			} else if (upperType == EndpointType::POS_INF) {
+				if (lowerType == EndpointType::CLOSED)
+					AddInterval(ClosedToInfInterval(lower));
+				else
+					AddInterval(OpenToInfInterval(lower));
+			} else if (lower > upper || (lower == upper && (lowerType != EndpointType::CLOSED || upperType != EndpointType::CLOSED))) {
+				return;
+			} else if (lowerType == EndpointType::CLOSED) {
+				if (upperType == EndpointType::CLOSED)
+					AddInterval(ClosedInterval(lower, upper));
+				else
+					AddInterval(ClosedOpenInterval(lower, upper));
+			} else {
+				if (upperType == EndpointType::CLOSED)
+					AddInterval(OpenClosedInterval(lower, upper));
+				else
+					AddInterval(OpenInterval(lower, upper));
+			}
+		}
+
 	public:
 		/// @brief Constructs an empty composite interval.
 		Interval() {}
@@ -500,42 +571,15 @@ namespace MML {
 		static Interval Intersection(const BaseInterval& a, const BaseInterval& b) {
 			Interval ret;
 
-			// Find intersection bounds
-			Real lower = std::max(a._lower, b._lower);
-			Real upper = std::min(a._upper, b._upper);
-
-			// Check if intervals actually intersect
-			if (lower > upper)
-				return ret; // Empty intersection
-
-			// Determine endpoint types
-			EndpointType lowerType, upperType;
-
-			if (lower == a._lower && lower == b._lower)
-				lowerType = (a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
-			else if (lower == a._lower)
-				lowerType = a._lowerType;
-			else
-				lowerType = b._lowerType;
-
-			if (upper == a._upper && upper == b._upper)
-				upperType = (a._upperType == EndpointType::CLOSED && b._upperType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
-			else if (upper == a._upper)
-				upperType = a._upperType;
-			else
-				upperType = b._upperType;
-
-			// Create appropriate interval based on endpoint types
-			if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-				ret.AddInterval(ClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-				ret.AddInterval(OpenClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-				ret.AddInterval(ClosedOpenInterval(lower, upper));
-			else
-				ret.AddInterval(OpenInterval(lower, upper));
+			// The greater lower bound and the smaller upper bound; at equal bounds the excluding endpoint wins
+			bool lowerFromA = a._lowerType != EndpointType::NEG_INF &&
+							  (b._lowerType == EndpointType::NEG_INF || a._lower > b._lower ||
+							   (a._lower == b._lower && a._lowerType == EndpointType::OPEN));
+			bool upperFromA = a._upperType != EndpointType::POS_INF &&
+							  (b._upperType == EndpointType::POS_INF || a._upper < b._upper ||
+							   (a._upper == b._upper && a._upperType == EndpointType::OPEN));
+			ret.addPiece(lowerFromA ? a._lower : b._lower, lowerFromA ? a._lowerType : b._lowerType,
+						 upperFromA ? a._upper : b._upper, upperFromA ? a._upperType : b._upperType);
 
 			return ret;
 		}
@@ -551,80 +595,25 @@ namespace MML {
 		static Interval Union(const BaseInterval& a, const BaseInterval& b) {
 			Interval ret;
 
-			// Check if intervals overlap or are adjacent
-			// They overlap if a.upper >= b.lower AND b.upper >= a.lower
-			// They are adjacent if one ends exactly where the other begins (considering endpoints)
-			bool overlapsOrAdjacent = false;
-
-			if (a._upper > b._lower && b._upper > a._lower) {
-				// Strict overlap
-				overlapsOrAdjacent = true;
-			} else if (a._upper == b._lower) {
-				// Adjacent: a ends where b begins
-				// They merge if at least one endpoint is closed
-				overlapsOrAdjacent = (a._upperType == EndpointType::CLOSED || b._lowerType == EndpointType::CLOSED);
-			} else if (b._upper == a._lower) {
-				// Adjacent: b ends where a begins
-				overlapsOrAdjacent = (b._upperType == EndpointType::CLOSED || a._lowerType == EndpointType::CLOSED);
+			if (isEmptySet(a) || isEmptySet(b)) {
+				ret.addPiece(a._lower, a._lowerType, a._upper, a._upperType);
+				ret.addPiece(b._lower, b._lowerType, b._upper, b._upperType);
+				return ret;
 			}
 
-			if (overlapsOrAdjacent) {
-				// Merge into single interval
-				Real lower = std::min(a._lower, b._lower);
-				Real upper = std::max(a._upper, b._upper);
-
-				// Determine endpoint types
-				EndpointType lowerType, upperType;
-
-				if (lower == a._lower && lower == b._lower)
-					lowerType = (a._lowerType == EndpointType::CLOSED || b._lowerType == EndpointType::CLOSED) 
-					            ? EndpointType::CLOSED : EndpointType::OPEN;
-				else if (lower == a._lower)
-					lowerType = a._lowerType;
-				else
-					lowerType = b._lowerType;
+			const BaseInterval& first = startsBefore(b, a) ? b : a;
+			const BaseInterval& second = (&first == &a) ? b : a;
 
-				if (upper == a._upper && upper == b._upper)
-					upperType = (a._upperType == EndpointType::CLOSED || b._upperType == EndpointType::CLOSED) 
-					            ? EndpointType::CLOSED : EndpointType::OPEN;
-				else if (upper == a._upper)
-					upperType = a._upperType;
-				else
-					upperType = b._upperType;
-
-				// Create appropriate interval
-				if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(lower, upper));
-				else
-					ret.AddInterval(OpenInterval(lower, upper));
+			// A gap remains only when first ends before second starts, or both exclude the common bound
+			bool gap = first._upperType != EndpointType::POS_INF && second._lowerType != EndpointType::NEG_INF &&
+					   (first._upper < second._lower ||
+						(first._upper == second._lower && first._upperType == EndpointType::OPEN && second._lowerType == EndpointType::OPEN));
+			if (gap) {
+				ret.addPiece(first._lower, first._lowerType, first._upper, first._upperType);
+				ret.addPiece(second._lower, second._lowerType, second._upper, second._upperType);
 			} else {
-				// Disjoint intervals - add both (in order)
-				const BaseInterval* first = (a._lower < b._lower) ? &a : &b;
-				const BaseInterval* second = (a._lower < b._lower) ? &b : &a;
-
-				// Add first interval
-				if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::OPEN && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(first->_lower, first->_upper));
-				else
-					ret.AddInterval(OpenInterval(first->_lower, first->_upper));
-
-				// Add second interval
-				if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::OPEN && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(second->_lower, second->_upper));
-				else
-					ret.AddInterval(OpenInterval(second->_lower, second->_upper));
+				const BaseInterval& last = endsBefore(first, second) ? second : first;
+				ret.addPiece(first._lower, first._lowerType, last._upper, last._upperType);
 			}
 
 			return ret;
@@ -642,71 +631,16 @@ namespace MML {
 		static Interval Difference(const BaseInterval& a, const BaseInterval& b) {
 			Interval ret;
 
-			// If b doesn't intersect a, return a
-			if (b._upper <= a._lower || b._lower >= a._upper) {
-				// Return copy of a based on its endpoint types
-				if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, a._upper));
-				else
-					ret.AddInterval(OpenInterval(a._lower, a._upper));
+			if (isEmptySet(b)) {
+				ret.addPiece(a._lower, a._lowerType, a._upper, a._upperType);
 				return ret;
 			}
 
-			// Case: b completely contains a
-			if (b._lower <= a._lower && b._upper >= a._upper)
-				return ret; // Empty set
-
-			// Case: b cuts left part of a
-			if (b._lower <= a._lower && b._upper < a._upper) {
-				EndpointType newLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
-			// Case: b cuts right part of a
-			else if (b._lower > a._lower && b._upper >= a._upper) {
-				EndpointType newUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-			}
-			// Case: b is completely inside a (splits a into two intervals)
-			else {
-				// Left part: [a.lower, b.lower)
-				EndpointType leftUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-
-				// Right part: (b.upper, a.upper]
-				EndpointType rightLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
+			// A \ B is what A has in common with the two sides of B
+			Interval sides = Complement(b);
+			for (const auto& side : sides._intervals) {
+				Interval part = Intersection(a, *side);
+				ret._intervals.insert(ret._intervals.end(), part._intervals.begin(), part._intervals.end());
 			}
 
 			return ret;
@@ -722,6 +656,11 @@ namespace MML {
 		static Interval Complement(const BaseInterval& a) {
 			Interval ret;
 
+			if (isEmptySet(a)) {
+				ret.AddInterval(CompleteRInterval()); // Complement of the empty set is R
+				return ret;
+			}
+
 			// Handle special cases with infinity
 			if (a._lowerType == EndpointType::NEG_INF && a._upperType == EndpointType::POS_INF)
 				return ret; // Complement of R is empty
@@ -800,13 +739,13 @@ namespace MML {
 		/// @brief Checks if another interval is fully contained.
 		/// @param other The interval to test.
 		/// @return True if other is entirely within one of the subintervals.
-		/// @note This is a simplified check using only bounds, not full containment.
+		/// @note Point holes of subintervals are not considered.
 
 		bool contains(const BaseInterval& other) const {
-			// Check if all points in 'other' are contained in at least one of our intervals
-			// For simplicity, we check if other's bounds are contained
+			if (isEmptySet(other))
+				return true;
 			for (const auto& interval : _intervals) {
-				if (interval->contains(other.getLowerBound()) && interval->contains(other.getUpperBound()))
+				if (!isEmptySet(*interval) && !startsBefore(other, *interval) && !endsBefore(*interval, other))
 					return true;
 			}
 			return false;
@@ -819,8 +758,8 @@ namespace MML {
 		bool intersects(const BaseInterval& other) const {
 			// Check if any of our intervals intersect with 'other'
 			for (const auto& interval : _intervals) {
-				// Two intervals intersect if one contains a point from the other
-				if (interval->getLowerBound() <= other.getUpperBound() && interval->getUpperBound() >= other.getLowerBound())
+				// Two intervals intersect if they have a point in common
+				if (!Intersection(*interval, other)._intervals.empty())
 					return true;
 			}
 			return false;
@@ -842,7 +781,9 @@ namespace MML {
 				return;
 
 			for (const auto& interval : _intervals) {
-				int intervalPoints = std::max(1, (int)(numPoints * interval->getLength() / totalLength));
+				// (a span too long to represent is shared evenly)
+				Real share = std::isfinite(totalLength) ? interval->getLength() / totalLength : REAL(1.0) / _intervals.size();
+				int intervalPoints = std::max(1, (int)(numPoints * share));
 				std::vector<Real> intervalPointsVec;
 				interval->GetEquidistantCovering(intervalPoints, intervalPointsVec);
 				points.insert(points.end(), intervalPointsVec.begin(), intervalPointsVec.end());
-- 
2.43.0


From 33362be9ce8e8ccaf1d9cc007586df47c2b91f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:44 +0000
Subject: [PATCH 44/62] fix: dynamical systems: uninitialised/mislocated failed
 fixed points, wrong classes, missed or endless section crossings, misplaced
 trajectory samples, one-step sweeps, unrestored parameters, unsorted map
 exponents

---
 mml/systems/DiscreteMaps.h             |  25 +++-
 mml/systems/DynamicalSystemAnalyzer.h  |   5 +-
 mml/systems/DynamicalSystemAnalyzers.h | 158 +++++++++++++++++--------
 mml/systems/DynamicalSystemBase.h      |  33 +++++-
 mml/systems/DynamicalSystemTypes.h     |  12 +-
 5 files changed, 165 insertions(+), 68 deletions(-)

diff --git a/mml/systems/DiscreteMaps.h b/mml/systems/DiscreteMaps.h
index f285dd0..a51fa8a 100644
--- a/mml/systems/DiscreteMaps.h
+++ b/mml/systems/DiscreteMaps.h
@@ -16,7 +16,9 @@
 #include "base/Vector/Vector.h"
 #include "base/Matrix/Matrix.h"
 
+#include <algorithm>
 #include <cmath>
+#include <functional>
 #include <vector>
 #include <string>
 
@@ -277,6 +279,9 @@ namespace MML::Systems
 		/// @return DiscreteMapLyapunovResult with exponents and chaos indicator
 		static DiscreteMapLyapunovResult<Real> Compute(IDiscreteMap<N>& map, const Vector<Real>& x0, int numIterations = 10000,
 																int skipTransient = 1000) {
+			if (numIterations <= 0)
+				throw DomainError("DiscreteMapLyapunov::Compute - need at least one iteration");
+
 			Vector<Real> x = x0;
 			Vector<Real> xNext(N);
 			Matrix<Real> J(N, N);
@@ -328,14 +333,24 @@ namespace MML::Systems
 						norm += v[i] * v[i];
 					norm = std::sqrt(norm);
 
-					if (norm > Precision::DivisionSafetyThreshold) {
-						lyapunovSums[j] += std::log(norm);
+					lyapunovSums[j] += std::log(norm); // -inf for a collapsed direction
+
+					// A collapsed direction restarts from any vector orthogonal to the others
+					for (int e = 0; norm == 0 && e < N; ++e) {
 						for (int i = 0; i < N; ++i)
-							Q(i, j) = v[i] / norm;
+							v[i] = (i == e) ? 1.0 : 0.0;
+						for (int k = 0; k < j; ++k)
+							for (int i = 0; i < N; ++i)
+								v[i] -= Q(e, k) * Q(i, k);
+						norm = v.NormL2();
+						if (norm < 0.5 / std::sqrt(Real(N)))
+							norm = 0;
 					}
+					for (int i = 0; i < N; ++i)
+						Q(i, j) = v[i] / norm;
 				}
 
-				// Iterate map
+				// Advance state
 				map.map(x, xNext);
 				x = xNext;
 			}
@@ -346,6 +361,8 @@ namespace MML::Systems
 			for (int i = 0; i < N; ++i)
 				result.exponents[i] = lyapunovSums[i] / numIterations;
 
+			std::sort(&result.exponents[0], &result.exponents[0] + N, std::greater<Real>());
+
 			result.maxExponent = result.exponents[0];
 			result.isChaotic = result.maxExponent > 0.01;  // Small threshold
 
diff --git a/mml/systems/DynamicalSystemAnalyzer.h b/mml/systems/DynamicalSystemAnalyzer.h
index 36a15da..a34f839 100644
--- a/mml/systems/DynamicalSystemAnalyzer.h
+++ b/mml/systems/DynamicalSystemAnalyzer.h
@@ -386,8 +386,8 @@ namespace MML::Systems
 																														int numSteps, const Vector<Type>& x0,
 																														Type lyapunovTime = 200) const {
 			std::vector<std::pair<Type, Type>> results;
-			Type dParam = (paramMax - paramMin) / (numSteps - 1);
-			Type originalParam = _sys.getParam(paramIndex);
+			Type dParam = (numSteps > 1) ? (paramMax - paramMin) / (numSteps - 1) : 0.0;
+			ParamRestorer restorer(_sys, paramIndex);
 
 			for (int i = 0; i < numSteps; ++i) {
 				Type param = paramMin + i * dParam;
@@ -398,7 +398,6 @@ namespace MML::Systems
 			}
 
 			// Restore original parameter
-			_sys.setParam(paramIndex, originalParam);
 			return results;
 		}
 
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..f2dc1b0 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -50,7 +50,7 @@ namespace MML::Systems
 			Vector<Real> f(n), dx(n);
 			Matrix<Real> J(n, n);
 
-			for (int iter = 0; iter < maxIter; ++iter) {
+			for (int iter = 0; iter <= maxIter; ++iter) {
 				// Evaluate f(x) = derivs(x) - should be zero at fixed point
 				sys.derivs(0.0, x, f);
 
@@ -65,6 +65,8 @@ namespace MML::Systems
 					ClassifyFixedPoint(result);
 					return result;
 				}
+				if (iter == maxIter)
+					break;
 
 				// Newton step: J * dx = -f
 				sys.jacobian(0.0, x, J);
@@ -76,6 +78,7 @@ namespace MML::Systems
 					dx = solver.Solve(negF);
 				} catch (...) {
 					// Jacobian singular - can't continue
+					result.location = x;
 					result.type = FixedPointType::Unknown;
 					result.convergenceResidual = residual;
 					result.iterations = iter;
@@ -132,41 +135,41 @@ namespace MML::Systems
 				fp.eigenvalues.push_back(std::complex<Real>(ev.real, ev.imag));
 
 			// Classify based on eigenvalues
+			// Rounding errors in eigenvalues scale with the largest of them
+			Real maxAbs = 1.0;
+			for (const auto& ev : fp.eigenvalues)
+				maxAbs = std::max(maxAbs, std::abs(ev));
+			const Real zeroTol = Precision::DefaultToleranceStrict * maxAbs;
+
 			int numPositiveReal = 0;
 			int numNegativeReal = 0;
 			bool hasComplex = false;
-			Real maxRealPart = -1e30;
-			Real minRealPart = 1e30;
 
 			for (const auto& ev : fp.eigenvalues) {
-				Real re = ev.real();
-				Real im = ev.imag();
-
-				maxRealPart = std::max(maxRealPart, re);
-				minRealPart = std::min(minRealPart, re);
-
-				if (std::abs(im) > Precision::DefaultToleranceStrict)
+				if (std::abs(ev.imag()) > zeroTol)
 					hasComplex = true;
 
-				if (re > Precision::DefaultToleranceStrict)
+				if (ev.real() > zeroTol)
 					numPositiveReal++;
-				else if (re < -Precision::DefaultToleranceStrict)
+				else if (ev.real() < -zeroTol)
 					numNegativeReal++;
 			}
 
 			// Determine stability
-			fp.isStable = (maxRealPart < -Precision::DefaultToleranceStrict);
+			fp.isStable = (numNegativeReal == n);
 
 			// Classify type
 			if (hasComplex) {
-				if (std::abs(maxRealPart) < Precision::DefaultToleranceStrict && std::abs(minRealPart) < Precision::DefaultToleranceStrict)
+				if (numPositiveReal == 0 && numNegativeReal == 0)
 					fp.type = FixedPointType::Center;
 				else if (numPositiveReal > 0 && numNegativeReal > 0)
 					fp.type = FixedPointType::SaddleFocus;
-				else if (maxRealPart < -Precision::DefaultToleranceStrict)
+				else if (numNegativeReal == n)
 					fp.type = FixedPointType::StableFocus;
-				else
+				else if (numPositiveReal > 0)
 					fp.type = FixedPointType::UnstableFocus;
+				else
+					fp.type = FixedPointType::Unknown; // contracting apart from a neutral pair
 			} else {
 				if (numPositiveReal > 0 && numNegativeReal > 0)
 					fp.type = FixedPointType::Saddle;
@@ -206,6 +209,9 @@ namespace MML::Systems
 			result.exponents.Resize(n);
 
 			// State vector and perturbation frame
+			if (!(dtOrthonormalize > 0) || !(h > 0) || !(tTotal > 0))
+				throw DomainError("LyapunovAnalyzer::Compute - times and step size must be positive");
+
 			Vector<Real> x = x0;
 			Matrix<Real> Q = Matrix<Real>::Identity(n); // Orthonormal frame
 			Vector<Real> lyapunovSums(n, 0.0);
@@ -256,7 +262,7 @@ namespace MML::Systems
 		static void IntegrateWithVariational(IDynamicalSystem& sys, Vector<Real>& x, Matrix<Real>& Q, Real t0, Real t1, Real h) {
 			int n = sys.getDim();
 			Vector<Real> k1(n), k2(n), k3(n), k4(n);
-			Vector<Real> xTemp(n), xOld(n), xMid(n), xEnd(n);
+			Vector<Real> xTemp(n), xOld(n), xMid(n), xMid2(n), xEnd(n);
 			Matrix<Real> J(n, n);
 			Matrix<Real> dQ1(n, n), dQ2(n, n), dQ3(n, n), dQ4(n, n);
 			Matrix<Real> QTemp(n, n);
@@ -279,6 +285,8 @@ namespace MML::Systems
 				sys.derivs(t + 0.5 * dt, xTemp, k2);
 				for (int i = 0; i < n; ++i)
 					xTemp[i] = x[i] + 0.5 * dt * k2[i];
+				for (int i = 0; i < n; ++i)
+					xMid2[i] = xTemp[i];
 				sys.derivs(t + 0.5 * dt, xTemp, k3);
 				for (int i = 0; i < n; ++i)
 					xTemp[i] = x[i] + dt * k3[i];
@@ -304,6 +312,7 @@ namespace MML::Systems
 				for (int i = 0; i < n; ++i)
 					for (int j = 0; j < n; ++j)
 						QTemp(i, j) = Q(i, j) + 0.5 * dt * dQ2(i, j);
+				sys.jacobian(t + 0.5 * dt, xMid2, J);
 				MultiplyJQ(J, QTemp, dQ3);
 
 				for (int i = 0; i < n; ++i)
@@ -358,11 +367,20 @@ namespace MML::Systems
 					norm += v[i] * v[i];
 				norm = std::sqrt(norm);
 
-				// Accumulate log of stretching
-				if (norm > Precision::DivisionSafetyThreshold)
-					lyapunovSums[j] += std::log(norm);
+				// Accumulate log of stretching (-inf for a collapsed direction)
+				lyapunovSums[j] += std::log(norm);
 
-				// Normalize
+				// Normalize; a collapsed direction restarts from any vector orthogonal to the others
+				for (int e = 0; norm == 0 && e < n; ++e) {
+					for (int i = 0; i < n; ++i)
+						v[i] = (i == e) ? 1.0 : 0.0;
+					for (int k = 0; k < j; ++k)
+						for (int i = 0; i < n; ++i)
+							v[i] -= Q(e, k) * Q(i, k);
+					norm = v.NormL2();
+					if (norm < 0.5 / std::sqrt(Real(n)))
+						norm = 0;
+				}
 				for (int i = 0; i < n; ++i)
 					Q(i, j) = v[i] / norm;
 			}
@@ -406,6 +424,22 @@ namespace MML::Systems
 	// BIFURCATION ANALYZER
 	//=============================================================================
 
+	/// @brief Puts a swept parameter back when the sweep ends, also by an exception
+	class ParamRestorer {
+		IDynamicalSystem& _sys;
+		int _index;
+		Real _value;
+
+	public:
+		ParamRestorer(IDynamicalSystem& sys, int index)
+				: _sys(sys)
+				, _index(index)
+				, _value(sys.getParam(index)) {}
+		~ParamRestorer() { _sys.setParam(_index, _value); }
+		ParamRestorer(const ParamRestorer&) = delete;
+		ParamRestorer& operator=(const ParamRestorer&) = delete;
+	};
+
 	/// @brief Generate bifurcation diagrams via parameter sweeps
 	class BifurcationAnalyzer {
 	public:
@@ -424,7 +458,13 @@ namespace MML::Systems
 																					Vector<Real> x0, int component, Real tTransient = 100.0, Real tRecord = 50.0, Real h = 0.01) {
 			BifurcationDiagram<Real> diagram;
 			diagram.parameterName = sys.getParamName(paramIndex);
-			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / (numSteps - 1);
+			if (component < 0 || component >= sys.getDim())
+				throw IndexError("BifurcationAnalyzer::Sweep - component out of range", component, sys.getDim());
+			if (!(h > 0))
+				throw DomainError("BifurcationAnalyzer::Sweep - step size must be positive");
+			ParamRestorer restorer(sys, paramIndex);
+			Real dParam = (numSteps > 1) ? (paramMax - paramMin) / (numSteps - 1) : 0.0;
+			diagram.numTransientSteps = static_cast<int>(std::ceil(tTransient / h));
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
@@ -439,12 +479,12 @@ namespace MML::Systems
 
 				diagram.parameterValues.push_back(param);
 				diagram.attractorValues.push_back(maxima);
+				diagram.numRecordedPoints += static_cast<int>(maxima.size());
 
 				// Use final state as initial for next parameter (continuation)
 				x0 = x;
 			}
 
-			sys.setParam(paramIndex, originalParam);
 			return diagram;
 		}
 
@@ -538,40 +578,48 @@ namespace MML::Systems
 			Real t = 0;
 			int count = 0;
 
+			if (section.variable < 0 || section.variable >= n)
+				throw IndexError("PhaseSpaceAnalyzer::ComputePoincareSection - section variable out of range", section.variable, n);
+			if (!(h > 0))
+				throw DomainError("PhaseSpaceAnalyzer::ComputePoincareSection - step size must be positive");
+
 			// Skip initial transient
 			Real tTransient = 100.0;
 			while (t < tTransient) {
-				xPrev = x;
 				RK4Step(sys, x, t, h, k1, k2, k3, k4, xTemp);
 				t += h;
 			}
 
-			// Collect intersections
-			while (count < numIntersections) {
+			// Side of the section the trajectory was last seen on (0 while it has only been on the section)
+			auto sideOf = [](Real v) { return (v > 0) - (v < 0); };
+			int side = sideOf(x[section.variable] - section.value);
+
+			// Collect intersections, until the trajectory leaves the reals or stops crossing
+			const long maxStepsBetween = 1000000;
+			long steps = 0;
+			while (count < numIntersections && steps < maxStepsBetween && std::isfinite(x[section.variable])) {
 				xPrev = x;
 				Real valPrev = xPrev[section.variable] - section.value;
 
 				RK4Step(sys, x, t, h, k1, k2, k3, k4, xTemp);
 				t += h;
+				++steps;
 
 				Real val = x[section.variable] - section.value;
+				int newSide = sideOf(val);
+				bool crossed = (side * newSide < 0) && std::isfinite(val);
+				if (newSide != 0)
+					side = newSide;
+				if (crossed && (section.direction == 0 || (section.direction > 0) == (newSide > 0))) {
+					// Linear interpolation to find crossing point
+					Real alpha = -valPrev / (val - valPrev);
+					Vector<Real> xCross(n);
+					for (int i = 0; i < n; ++i)
+						xCross[i] = xPrev[i] + alpha * (x[i] - xPrev[i]);
 
-				// Check for crossing
-				if (valPrev * val < 0) {
-					// Check direction
-					bool correctDirection =
-						(section.direction == 0) || (section.direction > 0 && val > valPrev) || (section.direction < 0 && val < valPrev);
-
-					if (correctDirection) {
-						// Linear interpolation to find crossing point
-						Real alpha = -valPrev / (val - valPrev);
-						Vector<Real> xCross(n);
-						for (int i = 0; i < n; ++i)
-							xCross[i] = xPrev[i] + alpha * (x[i] - xPrev[i]);
-
-						intersections.push_back(xCross);
-						count++;
-					}
+					intersections.push_back(xCross);
+					count++;
+					steps = 0;
 				}
 			}
 
@@ -588,17 +636,23 @@ namespace MML::Systems
 			Vector<Real> k1(n), k2(n), k3(n), k4(n), xTemp(n);
 
 			Real t = 0;
-			Real nextOutput = 0;
+			long numOutput = 1;
+
+			if (!(h > 0))
+				throw DomainError("PhaseSpaceAnalyzer::IntegrateTrajectory - step size must be positive");
 
 			trajectory.push_back(x);
 
-			while (t < tTotal) {
-				RK4Step(sys, x, t, h, k1, k2, k3, k4, xTemp);
-				t += h;
+			const Real slack = 1e-6 * h; // accumulated rounding must not shift an output to the next step
+			while (t < tTotal - slack) {
+				Real dt = std::min(h, tTotal - t);
+				RK4Step(sys, x, t, dt, k1, k2, k3, k4, xTemp);
+				t += dt;
 
-				if (t >= nextOutput) {
+				if (t >= numOutput * dtOutput - slack) {
 					trajectory.push_back(x);
-					nextOutput += dtOutput;
+					while (dtOutput > 0 && t >= numOutput * dtOutput - slack)
+						++numOutput;
 				}
 			}
 
@@ -721,7 +775,7 @@ namespace MML::Systems
 				result.fixed_point = FixedPointFinder::Find(sys, initialGuess, tol, maxIter);
 				result.function_evaluations = result.fixed_point.iterations;
 
-				if (result.fixed_point.convergenceResidual >= tol) {
+				if (!(result.fixed_point.convergenceResidual < tol)) {
 					result.status = AlgorithmStatus::MaxIterationsExceeded;
 					result.error_message = "Newton iteration did not converge (residual="
 						+ std::to_string(result.fixed_point.convergenceResidual) + ")";
@@ -783,7 +837,11 @@ namespace MML::Systems
 			[&](PoincareSectionResult<Real>& result) {
 				result.intersections = PhaseSpaceAnalyzer::ComputePoincareSection(
 					sys, x0, section, numIntersections, h);
-				result.function_evaluations = numIntersections;
+				result.function_evaluations = static_cast<int>(result.intersections.size());
+				if (static_cast<int>(result.intersections.size()) < numIntersections) {
+					result.status = AlgorithmStatus::MaxIterationsExceeded;
+					result.error_message = "Trajectory stopped crossing the section";
+				}
 			});
 	}
 
diff --git a/mml/systems/DynamicalSystemBase.h b/mml/systems/DynamicalSystemBase.h
index d455971..4fc78df 100644
--- a/mml/systems/DynamicalSystemBase.h
+++ b/mml/systems/DynamicalSystemBase.h
@@ -43,6 +43,11 @@ namespace MML::Systems
 		std::vector<std::string> _paramNames;
 		std::vector<std::pair<Real, Real>> _paramRanges;
 
+		static void checkParamIndex(int i) {
+			if (i < 0 || i >= P)
+				throw IndexError("DynamicalSystemBase - parameter index out of range", i, P);
+		}
+
 	public:
 		DynamicalSystemBase()
 				: _params(P, 0.0)
@@ -58,8 +63,14 @@ namespace MML::Systems
 		int getDim() const override { return N; }
 		int getNumParam() const override { return P; }
 
-		Real getParam(int i) const override { return _params[i]; }
-		void setParam(int i, Real val) override { _params[i] = val; }
+		Real getParam(int i) const override {
+			checkParamIndex(i);
+			return _params[i];
+		}
+		void setParam(int i, Real val) override {
+			checkParamIndex(i);
+			_params[i] = val;
+		}
 
 		Vector<Real> getParams() const override {
 			Vector<Real> p(P);
@@ -69,13 +80,25 @@ namespace MML::Systems
 		}
 
 		void setParams(const Vector<Real>& p) override {
+			if (p.size() != P)
+				throw VectorDimensionError("DynamicalSystemBase::setParams - wrong number of parameters", P, p.size());
 			for (int i = 0; i < P; ++i)
 				_params[i] = p[i];
 		}
 
-		std::string getStateName(int i) const override { return _stateNames[i]; }
-		std::string getParamName(int i) const override { return _paramNames[i]; }
-		std::pair<Real, Real> getParamRange(int i) const override { return _paramRanges[i]; }
+		std::string getStateName(int i) const override {
+			if (i < 0 || i >= N)
+				throw IndexError("DynamicalSystemBase - state index out of range", i, N);
+			return _stateNames[i];
+		}
+		std::string getParamName(int i) const override {
+			checkParamIndex(i);
+			return _paramNames[i];
+		}
+		std::pair<Real, Real> getParamRange(int i) const override {
+			checkParamIndex(i);
+			return _paramRanges[i];
+		}
 	};
 
 } // namespace MML::Systems
diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 48e02b2..99eca5a 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -76,10 +76,10 @@ namespace MML::Systems
 		Vector<Type> location;											 ///< Position in state space
 		std::vector<std::complex<Type>> eigenvalues; ///< Jacobian eigenvalues
 		Matrix<Type> jacobian;											 ///< Jacobian at fixed point
-		FixedPointType type;												 ///< Stability classification
-		bool isStable;															 ///< Overall stability
-		Type convergenceResidual;										 ///< ||f(x*)|| at convergence
-		int iterations;															 ///< Newton iterations used
+		FixedPointType type = FixedPointType::Unknown; ///< Stability classification
+		bool isStable = false;											 ///< Overall stability
+		Type convergenceResidual = 0;								 ///< ||f(x*)|| at convergence
+		int iterations = 0;													 ///< Newton iterations used
 	};
 
 	/// @brief Result of Lyapunov exponent computation
@@ -100,8 +100,8 @@ namespace MML::Systems
 		std::string parameterName;											///< Name of swept parameter
 		std::vector<Type> parameterValues;							///< Parameter values
 		std::vector<std::vector<Type>> attractorValues; ///< Attractor points at each param
-		int numTransientSteps;													///< Transient removal steps
-		int numRecordedPoints;													///< Points recorded per parameter
+		int numTransientSteps = 0;											///< Transient removal steps
+		int numRecordedPoints = 0;											///< Points recorded per parameter
 	};
 
 	/// @brief Poincaré section definition
-- 
2.43.0


From 69d19f84b0b829bbabbffa8f431b8a5ee1a599a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 45/62] fix: linear systems: structure shortcuts ignored small
 entries, tolerance arguments were cached away, LU factors empty,
 wide/tall/singular triangular and multi-RHS systems mis-solved

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 20 ++++++
 mml/systems/LinearSystem.h              | 83 +++++++++++++++----------
 2 files changed, 69 insertions(+), 34 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 29a5dc9..c24967b 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -460,6 +460,26 @@ namespace MML
 			Solve(ainv, ainv);
 		}
 
+		/// @brief Extract the factors of P·A = L·U
+		/// @param L Unit lower triangular factor (output)
+		/// @param U Upper triangular factor (output)
+		/// @param permutation Row of A that became row i of L·U (output)
+		void GetFactors(Matrix<Type>& L, Matrix<Type>& U, std::vector<int>& permutation) const
+		{
+			L = Matrix<Type>(_n, _n);
+			U = Matrix<Type>(_n, _n);
+			permutation.resize(_n);
+			for (int i = 0; i < _n; i++) {
+				permutation[i] = i;
+				for (int j = 0; j < _n; j++) {
+					L[i][j] = (j < i) ? _lu[i][j] : Type((j == i) ? 1.0 : 0.0);
+					U[i][j] = (j < i) ? Type(0.0) : _lu[i][j];
+				}
+			}
+			for (int k = 0; k < _n; k++)
+				std::swap(permutation[k], permutation[_indx[k]]);
+		}
+
 		Type det()
 		{
 			Type dd = _d;
diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..700cd66 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -25,6 +25,8 @@
 #include <string>
 #include <memory>
 #include <cmath>
+#include <algorithm>
+#include <stdexcept>
 #include <vector>
 
 namespace MML::Systems 
@@ -347,6 +349,8 @@ namespace MML::Systems
 		/// @note Uses QR decomposition; works for overdetermined systems
 		Vector<Type> SolveLeastSquares() const {
 			RequireRHS();
+			if (isUnderdetermined())
+				return SolveBySVD(); // minimum-norm least squares
 			return SolveByQR(); // QR naturally gives least squares
 		}
 
@@ -455,35 +459,34 @@ namespace MML::Systems
 
 		/// @brief Check if matrix is symmetric within tolerance
 		bool isSymmetric(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isSymmetric.has_value()) {
-				if (!isSquare()) {
-					_isSymmetric = false;
-				} else {
-					_isSymmetric = true;
-					int n = rows();
-					for (int i = 0; i < n && *_isSymmetric; ++i)
-						for (int j = i + 1; j < n && *_isSymmetric; ++j)
-							if (std::abs(_A(i, j) - _A(j, i)) > tol)
-								_isSymmetric = false;
-				}
-			}
-			return *_isSymmetric;
+			if (!isSquare())
+				return false;
+			int n = rows();
+			for (int i = 0; i < n; ++i)
+				for (int j = i + 1; j < n; ++j)
+					if (std::abs(_A(i, j) - _A(j, i)) > tol)
+						return false;
+			return true;
 		}
 
 		/// @brief Check if matrix is positive definite
 		///
 		/// @note Attempts Cholesky decomposition
 		bool isPositiveDefinite(Type tol = Precision::DefaultToleranceStrict) const {
+			if (!isSymmetric(tol))
+				return false;
 			if (!_isPositiveDefinite.has_value()) {
-				if (!isSymmetric(tol)) {
+				// Factor the symmetric part: _A may be symmetric only within tol
+				int n = rows();
+				Matrix<Type> S(n, n);
+				for (int i = 0; i < n; ++i)
+					for (int j = 0; j < n; ++j)
+						S(i, j) = (_A(i, j) + _A(j, i)) / 2;
+				try {
+					CholeskySolver<Type> solver(S);
+					_isPositiveDefinite = true;
+				} catch (const SingularMatrixError&) {
 					_isPositiveDefinite = false;
-				} else {
-					try {
-						CholeskySolver<Type> solver(_A);
-						_isPositiveDefinite = true;
-					} catch (const SingularMatrixError&) {
-						_isPositiveDefinite = false;
-					}
 				}
 			}
 			return *_isPositiveDefinite;
@@ -526,7 +529,7 @@ namespace MML::Systems
 					if (std::abs(_A(i, j)) <= threshold)
 						++zeros;
 
-			return static_cast<Real>(zeros) / total;
+			return total > 0 ? static_cast<Real>(zeros) / total : REAL(0.0);
 		}
 
 		//=========================================================================
@@ -546,6 +549,10 @@ namespace MML::Systems
 		///
 		/// @param tol Threshold below which singular values are considered zero
 		int Rank(Type tol = -1) const {
+			if (tol >= 0) {
+				SVDecompositionSolver<Type> solver(_A);
+				return solver.Rank(tol);
+			}
 			if (!_rank.has_value()) {
 				SVDecompositionSolver<Type> solver(_A);
 				_rank = solver.Rank(tol);
@@ -562,7 +569,10 @@ namespace MML::Systems
 		Type ConditionNumber() const {
 			if (!_conditionNumber.has_value()) {
 				SVDecompositionSolver<Type> solver(_A);
-				Type invCond = solver.inv_condition();
+				// a wide matrix has only rows() singular values; the rest of w is padding
+				Vector<Type> w = solver.getW();
+				int k = std::min(rows(), cols());
+				Type invCond = (w[0] > 0) ? w[k - 1] / w[0] : Type(0);
 				_conditionNumber = (invCond > Precision::DivisionSafetyThreshold) ? (1.0 / invCond) : static_cast<Type>(1.0 / Precision::DivisionSafetyThreshold);
 			}
 			return *_conditionNumber;
@@ -874,7 +884,6 @@ namespace MML::Systems
 		mutable std::optional<CholeskyDecomposition<Type>> _cholesky;
 
 		// Cached properties
-		mutable std::optional<bool> _isSymmetric;
 		mutable std::optional<bool> _isPositiveDefinite;
 		mutable std::optional<Type> _conditionNumber;
 		mutable std::optional<int> _rank;
@@ -886,6 +895,8 @@ namespace MML::Systems
 		void RequireRHS() const {
 			if (!_hasRHS)
 				throw std::runtime_error("LinearSystem: operation requires right-hand side");
+			if (_multipleRHS)
+				throw std::runtime_error("LinearSystem: multiple right-hand sides given, use SolveMultiple");
 		}
 
 		void RequireSquare() const {
@@ -899,13 +910,7 @@ namespace MML::Systems
 				try {
 					LUSolver<Type> solver(_A);
 
-					// Extract L and U from the solver's combined storage
-					int n = rows();
-					_lu->L.Resize(n, n);
-					_lu->U.Resize(n, n);
-
-					// The LU matrix has L in lower triangle and U in upper
-					// For now, store raw LU and determinant
+					solver.GetFactors(_lu->L, _lu->U, _lu->permutation);
 					_lu->determinant = solver.det();
 					_lu->valid = true;
 				} catch (...) {
@@ -957,9 +962,17 @@ namespace MML::Systems
 			}
 		}
 
+		bool HasNonzeroDiagonal() const {
+			for (int i = 0; i < std::min(rows(), cols()); ++i)
+				if (_A(i, i) == Type(0))
+					return false;
+			return true;
+		}
+
 		std::string SelectBestSolver() const {
 			// Quick structural checks first
-			if (isUpperTriangular() || isLowerTriangular())
+			// Structure decides how _A is read, so entries below any tolerance still count here
+			if (isSquare() && (isUpperTriangular(0) || isLowerTriangular(0)) && HasNonzeroDiagonal())
 				return "Triangular";
 
 			// For overdetermined systems, use QR (least squares)
@@ -967,12 +980,14 @@ namespace MML::Systems
 				return "QR";
 
 			// Check condition number for ill-conditioned systems
+			if (isUnderdetermined())
+				return "SVD"; // Minimum-norm solution
 			Type cond = ConditionNumber();
 			if (cond > 1e10)
 				return "SVD"; // Most robust for ill-conditioned
 
 			// For SPD matrices, Cholesky is best
-			if (isSymmetric() && isPositiveDefinite())
+			if (isSymmetric(0) && isPositiveDefinite())
 				return "Cholesky";
 
 			// Default: LU with partial pivoting
@@ -993,7 +1008,7 @@ namespace MML::Systems
 			int n = rows();
 			Vector<Type> x(n);
 
-			if (isUpperTriangular()) {
+			if (isUpperTriangular(0)) {
 				// Back substitution
 				for (int i = n - 1; i >= 0; --i) {
 					Type sum = _b[i];
-- 
2.43.0


From b891b3d6f25c999cd8a2ee9d369d49d28f2b2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:25 +0000
Subject: [PATCH 46/62] fix: curve fits and expansions: line fits far from the
 origin or at small scale, R-squared thresholds, truncated/one-term Chebyshev
 calculus, associated Legendre values, expansion coefficients on unbounded or
 singular weights, large oscillator states

---
 mml/algorithms/ChebyshevApproximation.h   | 20 +++----
 mml/algorithms/CurveFitting.h             | 69 +++++++++++++++--------
 mml/core/OrthogonalBasis/ChebyshevBasis.h | 23 +++++++-
 mml/core/OrthogonalBasis/HermiteBasis.h   | 38 +++++++++++--
 mml/core/OrthogonalBasis/LaguerreBasis.h  | 23 ++++++++
 mml/core/OrthogonalBasis/LegendreBasis.h  |  2 +-
 6 files changed, 133 insertions(+), 42 deletions(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 3dcd898..197f7eb 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -278,7 +278,7 @@ namespace MML {
 		//   c'_{j-1} = c'_{j+1} + 2j * c_j   for j = n-2, ..., 1
 		// Then scale by 2/(b-a) for domain mapping.
 		ChebyshevApproximation Derivative() const {
-			int n = static_cast<int>(_coef.size());
+			int n = _m;
 			if (n <= 1) {
 				// Derivative of constant is zero
 				Vector<Real> zero_coef(1);
@@ -306,28 +306,26 @@ namespace MML {
 		// The constant of integration is chosen so that the integral is zero at x = a.
 		//
 		// The integral of a Chebyshev series:
-		//   c''_j = (con) * (c_{j-1} - c_{j+1}) / j   for j = 1, ..., n-2
-		//   c''_{n-1} = (con) * c_{n-2} / (n-1)
+		//   c''_j = (con) * (c_{j-1} - c_{j+1}) / j   for j = 1, ..., n   (c_n = c_{n+1} = 0)
 		//   c''_0 chosen to make integral(a) = 0
 		// where con = (b-a)/4.
 		ChebyshevApproximation Integral() const {
-			int n = static_cast<int>(_coef.size());
+			int n = _m;
+			// One more coefficient: the antiderivative has one degree more
+			Vector<Real> cint(n + 1);
 
-			Vector<Real> cint(n);
 			Real sum = 0.0;
 			Real fac = 1.0;
 			Real con = 0.25 * (_b - _a);
 
-			for (int j = 1; j < n - 1; j++) {
-				cint[j] = con * (_coef[j - 1] - _coef[j + 1]) / j;
+			for (int j = 1; j <= n; j++) {
+				Real next = j + 1 < n ? _coef[j + 1] : 0.0;
+				cint[j] = con * (_coef[j - 1] - next) / j;
 				sum += fac * cint[j];
 				fac = -fac;
 			}
 
-			cint[n - 1] = con * _coef[n - 2] / (n - 1);
-			sum += fac * cint[n - 1];
-
-			// c_0 chosen so integral(a) = 0
+			// Constant chosen so that integral = 0 at x = a
 			cint[0] = 2.0 * sum;
 
 			return ChebyshevApproximation(cint, _a, _b);
diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 32aaa9c..88b4cdb 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -100,6 +100,16 @@ namespace MML {
 					AlgorithmStatus::AlgorithmSpecificFailure, ex.what(), algorithm_name);
 			}
 		}
+
+		// Scale of y_data as a sum of squares: variation far below it is rounding error only
+		template<typename Scalar>
+		Scalar SumSquaresScale(const Vector<Scalar>& y_data)
+		{
+			Scalar max_y = 0.0;
+			for (int i = 0; i < y_data.size(); i++)
+				max_y = std::max(max_y, static_cast<Scalar>(std::abs(y_data[i])));
+			return y_data.size() * max_y * max_y;
+		}
 	} // namespace CurveFittingDetail
 	///////////////////////////           LINEAR LEAST SQUARES           ///////////////////////////
 
@@ -144,7 +154,7 @@ namespace MML {
 		// Special case: two points - exact fit
 		if (n == 2) {
 			Scalar dx = x_data[1] - x_data[0];
-			if (std::abs(dx) < std::numeric_limits<Scalar>::epsilon() * 10) {
+			if (std::abs(dx) <= std::numeric_limits<Scalar>::epsilon() * 10 * std::max(std::abs(x_data[0]), std::abs(x_data[1]))) {
 				// Vertical line - can't fit y = ax + b, use horizontal line at average y
 				a = 0.0;
 				b = (y_data[0] + y_data[1]) / 2.0;
@@ -160,32 +170,40 @@ namespace MML {
 
 		// General case: n >= 3 points - least squares
 		// Compute sums for normal equations
-		Scalar sum_x = 0.0, sum_y = 0.0, sum_xx = 0.0, sum_xy = 0.0;
+		// Work with data taken relative to the first x and centred: the raw normal
+		// equations cancel catastrophically when the x values are far from the origin
+		Scalar x_min = x_data[0], x_max = x_data[0];
+		for (int i = 1; i < n; i++) {
+			x_min = std::min(x_min, x_data[i]);
+			x_max = std::max(x_max, x_data[i]);
+		}
+		Scalar spread = x_max - x_min;
 
+		// Check for singularity (all x values essentially identical)
+		if (spread <= std::numeric_limits<Scalar>::epsilon() * 4 * std::max(std::abs(x_min), std::abs(x_max)))
+			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", spread);
+
+		Vector<Scalar> u(n);
+		Scalar mean_u = 0.0, mean_y = 0.0;
 		for (int i = 0; i < n; i++) {
-			sum_x += x_data[i];
-			sum_y += y_data[i];
-			sum_xx += x_data[i] * x_data[i];
-			sum_xy += x_data[i] * y_data[i];
+			u[i] = (x_data[i] - x_data[0]) / spread;
+			mean_u += u[i] / n;
+			mean_y += y_data[i] / n;
 		}
 
-		// Normal equations matrix: A = [sum_xx  sum_x ]
-		//                              [sum_x   n     ]
-		Scalar det = n * sum_xx - sum_x * sum_x;
-
-		// Check for singularity (all x values essentially identical)
-		if (std::abs(det) < std::numeric_limits<Scalar>::epsilon() * std::max(std::abs(n * sum_xx), std::abs(sum_x * sum_x))) {
-			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", det);
+		Scalar s_uu = 0.0, s_uy = 0.0;
+		for (int i = 0; i < n; i++) {
+			s_uu += (u[i] - mean_u) * (u[i] - mean_u);
+			s_uy += (u[i] - mean_u) * (y_data[i] - mean_y);
 		}
 
-		// Solve using Cramer's rule (explicit for 2x2 system)
-		a = (n * sum_xy - sum_x * sum_y) / det;
-		b = (sum_xx * sum_y - sum_x * sum_xy) / det;
+		Scalar slope = s_uy / s_uu;
+		a = slope / spread;
+		b = mean_y - a * (x_data[0] + mean_u * spread);
 
-		// Compute residual norm
 		Scalar residual_sum = 0.0;
 		for (int i = 0; i < n; i++) {
-			Scalar residual = y_data[i] - (a * x_data[i] + b);
+			Scalar residual = (y_data[i] - mean_y) - slope * (u[i] - mean_u);
 			residual_sum += residual * residual;
 		}
 
@@ -234,11 +252,12 @@ namespace MML {
 		}
 
 		// R^2 = 1 - (SS_res / SS_tot)
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
+		const Scalar scale = CurveFittingDetail::SumSquaresScale(y_data);
+		if (ss_tot > scale * 256 * std::numeric_limits<Scalar>::epsilon() * std::numeric_limits<Scalar>::epsilon()) {
 			result.r_squared = 1.0 - (ss_res / ss_tot);
 		} else {
 			// All y values are identical
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+			result.r_squared = (ss_res <= scale * std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 		}
 
 		result.mean_squared_error = ss_res / n;
@@ -388,7 +407,8 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
+		const Scalar scale = CurveFittingDetail::SumSquaresScale(y_data);
+		if (ss_tot > scale * 256 * std::numeric_limits<Scalar>::epsilon() * std::numeric_limits<Scalar>::epsilon()) {
 			result.r_squared = 1.0 - (ss_res / ss_tot);
 			// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
 			if (m > n)
@@ -396,7 +416,7 @@ namespace MML {
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+			result.r_squared = (ss_res <= scale * std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
@@ -479,14 +499,15 @@ namespace MML {
 			ss_tot += diff * diff;
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
+		const Scalar scale = CurveFittingDetail::SumSquaresScale(y_data);
+		if (ss_tot > scale * 256 * std::numeric_limits<Scalar>::epsilon() * std::numeric_limits<Scalar>::epsilon()) {
 			result.r_squared = 1.0 - (ss_res / ss_tot);
 			if (m > n)
 				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+			result.r_squared = (ss_res <= scale * std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
diff --git a/mml/core/OrthogonalBasis/ChebyshevBasis.h b/mml/core/OrthogonalBasis/ChebyshevBasis.h
index 13a65de..b2c09e4 100644
--- a/mml/core/OrthogonalBasis/ChebyshevBasis.h
+++ b/mml/core/OrthogonalBasis/ChebyshevBasis.h
@@ -95,6 +95,27 @@ namespace MML
         Real DomainMin() const override { return -1.0; }
         Real DomainMax() const override { return 1.0; }
 
+        // Expansion coefficient by Gauss-Chebyshev quadrature, which absorbs the
+        // endpoint singularities of the weight; nodes are doubled until converged
+        Real ComputeCoefficient(const IRealFunction& f, int n, Real eps = Precision::DefaultToleranceStrict) const override
+        {
+            Real norm = Normalization(n);
+            Real previous = 0.0;
+            for (int N = 64 + 2 * n; ; N *= 2)
+            {
+                Real sum = 0.0;
+                for (int k = 0; k < N; k++)
+                {
+                    Real theta = Constants::PI * (k + 0.5) / N;
+                    sum += f(std::cos(theta)) * std::cos(n * theta);
+                }
+                Real result = sum * Constants::PI / N / norm;
+                if (N > 64 + 2 * n && (std::abs(result - previous) <= eps * std::abs(result) || std::abs(result - previous) <= eps || N > 100000))
+                    return result;
+                previous = result;
+            }
+        }
+
         // Recurrence coefficients for three-term recurrence:
         // Tₙ₊₁(x) = (aₙx + bₙ)Tₙ(x) + cₙTₙ₋₁(x)
         // 
@@ -118,7 +139,7 @@ namespace MML
             
             std::vector<Real> extrema(n + 1);
             for (int k = 0; k <= n; k++)
-                extrema[k] = std::cos(k * Constants::PI / n);
+                extrema[k] = n > 0 ? std::cos(k * Constants::PI / n) : 1.0;
             return extrema;
         }
 
diff --git a/mml/core/OrthogonalBasis/HermiteBasis.h b/mml/core/OrthogonalBasis/HermiteBasis.h
index 78cb098..5c4f42e 100644
--- a/mml/core/OrthogonalBasis/HermiteBasis.h
+++ b/mml/core/OrthogonalBasis/HermiteBasis.h
@@ -97,6 +97,29 @@ namespace MML
             return std::numeric_limits<Real>::infinity(); 
         }
 
+        // Expansion coefficient on the unbounded domain: trapezoidal sums over the range
+        // where the weight is not negligible, which converge geometrically; the step is halved
+        // until the value settles
+        Real ComputeCoefficient(const IRealFunction& f, int n, Real eps = Precision::DefaultToleranceStrict) const override
+        {
+            Real norm = Normalization(n);
+            Real previous = 0.0;
+            for (int level = 0; ; level++)
+            {
+                Real h = std::ldexp(0.125, -level);
+                Real sum = 0.0;
+                for (int k = static_cast<int>(-26.0 / h); k * h <= 26.0; k++)
+                {
+                    Real x = k * h;
+                    sum += f(x) * Evaluate(n, x) * WeightFunction(x);
+                }
+                Real result = sum * h / norm;
+                if (level > 0 && (std::abs(result - previous) <= eps * std::abs(result) || std::abs(result - previous) <= eps || level >= 10))
+                    return result;
+                previous = result;
+            }
+        }
+
         // Recurrence coefficients for three-term recurrence:
         // Hₙ₊₁(x) = (aₙx + bₙ)Hₙ(x) + cₙHₙ₋₁(x)
         // 
@@ -119,11 +142,16 @@ namespace MML
             if (n < 0)
                 throw std::invalid_argument("HermiteBasis::QuantumWavefunction: n must be non-negative");
             
-            Real Hn = Evaluate(n, x);
-            Real norm_factor = 1.0 / std::sqrt(Normalization(n));
-            Real gaussian = std::exp(-0.5 * x * x);
-            
-            return norm_factor * Hn * gaussian;
+            // Recurrence for the normalised functions: Hₙ and its norm overflow for large n
+            Real prev = 0.0;
+            Real psi = std::exp(-0.5 * x * x) / std::sqrt(std::sqrt(Constants::PI));
+            for (int k = 0; k < n; k++)
+            {
+                Real next = std::sqrt(2.0 / (k + 1.0)) * x * psi - std::sqrt(k / (k + 1.0)) * prev;
+                prev = psi;
+                psi = next;
+            }
+            return psi;
         }
     };
 
diff --git a/mml/core/OrthogonalBasis/LaguerreBasis.h b/mml/core/OrthogonalBasis/LaguerreBasis.h
index 427d0fc..bb3b7fc 100644
--- a/mml/core/OrthogonalBasis/LaguerreBasis.h
+++ b/mml/core/OrthogonalBasis/LaguerreBasis.h
@@ -87,6 +87,29 @@ namespace MML
             return std::numeric_limits<Real>::infinity(); 
         }
 
+        // Expansion coefficient on the unbounded domain: trapezoidal sums in
+        // log x, which converge geometrically; the step is halved
+        // until the value settles
+        Real ComputeCoefficient(const IRealFunction& f, int n, Real eps = Precision::DefaultToleranceStrict) const override
+        {
+            Real norm = Normalization(n);
+            Real previous = 0.0;
+            for (int level = 0; ; level++)
+            {
+                Real h = std::ldexp(0.125, -level);
+                Real sum = 0.0;
+                for (int k = static_cast<int>(-40.0 / h); k * h <= 6.5; k++)
+                {
+                    Real x = std::exp(k * h);
+                    sum += f(x) * Evaluate(n, x) * WeightFunction(x) * x;
+                }
+                Real result = sum * h / norm;
+                if (level > 0 && (std::abs(result - previous) <= eps * std::abs(result) || std::abs(result - previous) <= eps || level >= 10))
+                    return result;
+                previous = result;
+            }
+        }
+
         // Recurrence coefficients for three-term recurrence:
         // (n+1)Lₙ₊₁(x) = (2n + 1 - x)Lₙ(x) - nLₙ₋₁(x)
         // 
diff --git a/mml/core/OrthogonalBasis/LegendreBasis.h b/mml/core/OrthogonalBasis/LegendreBasis.h
index a580cd9..8fde448 100644
--- a/mml/core/OrthogonalBasis/LegendreBasis.h
+++ b/mml/core/OrthogonalBasis/LegendreBasis.h
@@ -123,7 +123,7 @@ namespace MML
             if (l < _m)
                 throw std::invalid_argument("AssociatedLegendreBasis::Evaluate: l must be >= m");
             
-            return Functions::SphLegendre(static_cast<unsigned int>(l), static_cast<unsigned int>(_m), x);
+            return Functions::AssocLegendre(static_cast<unsigned int>(l), static_cast<unsigned int>(_m), x);
         }
 
         // Domain bounds
-- 
2.43.0


From 5a1118a4e67f53144e93bb5ccde35fa3e3a7a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 47/62] fix: curves and surfaces: ignored spiral scale,
 acceleration returned as unit normal, absolute degeneracy thresholds, garbage
 principal directions, plane axes, discontinuous Klein bottle

---
 mml/core/Curves.h   |  19 ++++++---
 mml/core/Surfaces.h | 102 ++++++++++++++++++++++----------------------
 2 files changed, 63 insertions(+), 58 deletions(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index 5963d20..ed4ebbd 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -55,7 +55,7 @@ namespace MML
 			Real speed_squared = x_prime * x_prime + y_prime * y_prime;
 			Real denominator = std::pow(speed_squared, 1.5);
 
-			if (denominator < Precision::NumericalZeroThreshold)
+			if (denominator == 0.0 || std::sqrt(speed_squared) <= Precision::NumericalZeroThreshold * r_double_prime.NormL2())
 				return 0.0;  // Avoid division by zero at singular points
 
 			return numerator / denominator;
@@ -84,7 +84,7 @@ namespace MML
 			Real speed_squared = x_prime * x_prime + y_prime * y_prime;
 			Real denominator = std::pow(speed_squared, 1.5);
 
-			if (denominator < Precision::NumericalZeroThreshold)
+			if (denominator == 0.0 || std::sqrt(speed_squared) <= Precision::NumericalZeroThreshold * r_double_prime.NormL2())
 				return 0.0;  // Avoid division by zero at singular points
 
 			return numerator / denominator;
@@ -128,7 +128,7 @@ namespace MML
 			Real speed_sq = x_dt * x_dt + y_dt * y_dt;
 			Real denominator = std::pow(speed_sq, 1.5);
 
-			if (denominator < Precision::NumericalZeroThreshold)
+			if (denominator == 0.0 || std::sqrt(speed_sq) <= Precision::NumericalZeroThreshold * std::hypot(x_dt2, y_dt2))
 				return 0.0;
 
 			return numerator / denominator;
@@ -153,7 +153,12 @@ namespace MML
 			}
 			Vec2Cart getNormalUnit(Real t)
 			{
-				return getNormal(t).GetAsUnitVector();
+				// Principal normal: perpendicular to the tangent, towards the centre of curvature
+				// (to the left of the tangent where the curve does not turn)
+				Vec2Cart tang = getTangentUnit(t);
+				Vec2Cart second = getNormal(t);
+				Vec2Cart left{-tang[1], tang[0]};
+				return left[0] * second[0] + left[1] * second[1] < 0.0 ? Vec2Cart{tang[1], -tang[0]} : left;
 			}
 
 			/// @brief Get scalar curvature κ(t) = |x'y'' - y'x''| / (x'² + y'²)^(3/2)
@@ -172,7 +177,7 @@ namespace MML
 			virtual Real getRadiusOfCurvature(Real t)
 			{
 				Real kappa = getCurvature(t);
-				if (kappa < Precision::NumericalZeroThreshold)
+				if (kappa == 0.0)
 					return Constants::PosInf;  // Straight line has infinite radius
 				return 1.0 / kappa;
 			}
@@ -215,7 +220,7 @@ namespace MML
 			Real getMinT() const { return Constants::NegInf; }
 			Real getMaxT() const { return Constants::PosInf; }
 
-			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{exp(_lambda * t)* cos(t), exp(_lambda * t)* sin(t)}; }
+			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{_c * exp(_lambda * t)* cos(t), _c * exp(_lambda * t)* sin(t)}; }
 		};
 
 		/// @brief Lemniscate of Gerono curve (figure-eight curve)
@@ -380,7 +385,7 @@ namespace MML
 			virtual Real getRadiusOfCurvature(Real t)
 			{
 				Real kappa = getCurvature(t);
-				if (kappa < Precision::NumericalZeroThreshold)
+				if (kappa == 0.0)
 					return Constants::PosInf;
 				return 1.0 / kappa;
 			}
diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 2551055..1268c9a 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -33,6 +33,19 @@ namespace MML
 		/// @note Uses first/second fundamental forms (E,F,G) and (L,M,N) for curvature calculations
 		class ISurfaceCartesian : public IParametricSurfaceRect<3>	
 		{
+		protected:
+			/// @brief True where the tangent plane is not defined: one tangent vanishes
+			/// compared with the other, or they are parallel (independent of the surface's scale)
+			static bool IsDegenerate(Real E, Real F, Real G)
+			{
+				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
+				return !(std::min(E, G) > eps * eps * std::max(E, G)) || E * G - F * F <= eps * E * G;
+			}
+			static bool IsDegenerate(const VectorN<Real, 3>& r_u, const VectorN<Real, 3>& r_w)
+			{
+				return IsDegenerate(Utils::ScalarProduct(r_u, r_u), Utils::ScalarProduct(r_u, r_w), Utils::ScalarProduct(r_w, r_w));
+			}
+
 		public:
 			/// @brief Compute unit normal vector n = (∂r/∂u × ∂r/∂w) / ||∂r/∂u × ∂r/∂w||
 			/// @param u,w Surface parameters
@@ -48,8 +61,7 @@ namespace MML
 
 			// Normalize
 			Real norm = n.NormL2();
-			constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-			if (norm < eps)
+			if (IsDegenerate(r_u, r_w))
 				return VectorN<Real, 3>{0.0, 0.0, 0.0}; // Degenerate case
 
 			return n / norm;
@@ -82,8 +94,7 @@ namespace MML
 
 				// Compute the invariants
 				Real denom = E * G - F * F;
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps) {
+				if (IsDegenerate(E, F, G)) {
 					k1 = k2 = 0.0;
 					return;
 				}
@@ -114,10 +125,7 @@ namespace MML
 				Real L, M, N;
 				GetSecondNormalFormCoefficients(u, w, L, M, N);
 
-				// Compute the invariants
-				Real denom = E * G - F * F;
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps) {
+				if (IsDegenerate(E, F, G)) {
 					dir1 = dir2 = VectorN<Real, 3>{ 0.0, 0.0, 0.0 };
 					return;
 				}
@@ -135,29 +143,28 @@ namespace MML
 				// [L - k*E, M - k*F] [a] = 0
 				// [M - k*F, N - k*G] [b]   0
 
-				auto getDirection = [&](Real k) -> VectorN<Real, 3> {
-					Real a = M - k * F;
-					Real b = L - k * E;
-					if (std::abs(a) > std::abs(b)) {
-						// Set v = (1, -b/a)
-						Real v0 = 1.0;
-						Real v1 = (a != 0.0) ? -b / a : 0.0;
-						return (v0 * tU + v1 * tW).Normalized();
-					}
-					else if (std::abs(b) > eps) {
-						// Set v = (-a/b, 1)
-						Real v0 = (b != 0.0) ? -a / b : 0.0;
-						Real v1 = 1.0;
-						return (v0 * tU + v1 * tW).Normalized();
-					}
-					else {
-						// Fallback: use tU
-						return tU.Normalized();
-					}
-					};
-
-				dir1 = getDirection(k1);
-				dir2 = getDirection(k2);
+				VectorN<Real, 3> n = VectorProduct(Vec3Cart(tU), Vec3Cart(tW)).Normalized();
+
+				// Umbilic point: every direction is principal
+				Real size = std::max(std::abs(k1), std::abs(k2));
+				if (k1 - k2 <= PrecisionValues<Real>::DefaultToleranceStrict * size) {
+					dir1 = tU.Normalized();
+					dir2 = VectorProduct(Vec3Cart(n), Vec3Cart(dir1));
+					return;
+				}
+
+				// Both rows of (II - k I) v = 0 determine v; use the larger one, as the other
+				// vanishes when a parameter line is itself principal
+				Real a1 = (M - k1 * F) / std::sqrt(E), b1 = (L - k1 * E) / std::sqrt(E);
+				Real a2 = (N - k1 * G) / std::sqrt(G), b2 = (M - k1 * F) / std::sqrt(G);
+				Real size1 = std::hypot(a1 * std::sqrt(E), b1 * std::sqrt(G));
+				Real size2 = std::hypot(a2 * std::sqrt(E), b2 * std::sqrt(G));
+				if (size1 >= size2)
+					dir1 = (a1 * tU - b1 * tW).Normalized();
+				else
+					dir1 = (a2 * tU - b2 * tW).Normalized();
+				// Principal directions are orthogonal
+				dir2 = VectorProduct(Vec3Cart(n), Vec3Cart(dir1));
 			}
 
 			/// @brief Get first fundamental form coefficients (E,F,G) - measures surface metric
@@ -201,8 +208,7 @@ namespace MML
 				// normal — check for degenerate point (parallel tangents / cusp / fold)
 				Vec3Cart cross = VectorProduct(r_by_u, r_by_w);
 				Real mag = cross.NormL2();
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (mag < eps) {
+				if (IsDegenerate(r_by_u, r_by_w)) {
 					// Degenerate point: second fundamental form is undefined
 					outL = outM = outN = 0.0;
 					return;
@@ -243,8 +249,7 @@ namespace MML
 
 				// Compute denominator and check for degeneracy
 				Real denom = E * G - F * F;
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps)
+				if (IsDegenerate(E, F, G))
 				{
 					// Degenerate metric: curvature undefined
 					return 0.0;
@@ -269,8 +274,7 @@ namespace MML
 
 				// Compute denominator and check for degeneracy
 				Real denom = 2 * (E * G - F * F);
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				if (std::abs(denom) < eps)
+				if (IsDegenerate(E, F, G))
 				{
 					// Degenerate metric: mean curvature undefined
 					return 0.0;
@@ -288,11 +292,7 @@ namespace MML
 				Vec3Cart tW = Derivation::NDer1_w(*this, u, w);
 
 				// Compute normal vector (cross product)
-				VectorN<Real, 3> n = VectorProduct(tU, tW);
-
-				// If the norm is above a small threshold, the surface is regular at (u, w)
-				constexpr Real eps = PrecisionValues<Real>::NumericalZeroThreshold;
-				return n.NormL2() > eps;
+				return !IsDegenerate(tU, tW);
 			}
 			bool isFlat(Real u, Real w, Real eps = PrecisionValues<Real>::DefaultToleranceStrict)
 			{
@@ -340,7 +340,7 @@ namespace MML
 			PlaneSurface(const Vec3Cart& point, const Vec3Cart& normal, const Vec3Cart& uAxisDirection)
 			{
 				// first we have to make sure that the uAxisDirection is not parallel to the normal
-				if (normal.IsParallelTo(uAxisDirection))
+				if (normal.IsParallelTo(uAxisDirection) || normal.IsParallelTo(-uAxisDirection))
 				{
 					throw GeometryError("uAxisDirection must not be parallel to the normal.");
 				}
@@ -348,6 +348,7 @@ namespace MML
 				_point = point;
 				_normal = normal.Normalized();
 				Vec3Cart uAxis = uAxisDirection - (uAxisDirection.ScalarProduct(_normal) * _normal);
+				_uAxis = uAxis.Normalized();
 
 				// now we can compute the vAxis as cross product of normal and uAxis
 				_vAxis = VectorProduct(_normal, uAxis).Normalized();
@@ -360,7 +361,7 @@ namespace MML
 				_normal = normal.Normalized();
 
 				// try to align uAxis with x axis, if normal is not parallel to x axis
-				if (!normal.IsParallelTo(Vec3Cart(1,0,0)))
+				if (!normal.IsParallelTo(Vec3Cart(1,0,0)) && !normal.IsParallelTo(Vec3Cart(-1,0,0)))
 				{
 					_uAxis = VectorProduct(normal, Vec3Cart(1,0,0)).Normalized();
 				}
@@ -590,19 +591,18 @@ namespace MML
 				// u goes around the main loop, v goes around the tube
 				Real cosu = cos(u), sinu = sin(u);
 				Real cosv = cos(v), sinv = sin(v);
-				Real cos_half_u = cos(u / 2), sin_half_u = sin(u / 2);
-				
+
 				// Radius varies to create the bottle shape
-				Real r = 2 - cosv;
-				
+				Real r = 4 * (1 - cosu / 2);
+
 				Real x, y, z;
 				if (u < Constants::PI) {
 					// First half: normal torus-like shape
-					x = 6 * cosu * (1 + sinu) + r * cos_half_u * cosv;
-					y = 16 * sinu + r * sin_half_u * cosv;
+					x = 6 * cosu * (1 + sinu) + r * cosu * cosv;
+					y = 16 * sinu + r * sinu * cosv;
 				} else {
 					// Second half: tube goes through itself
-					x = 6 * cosu * (1 + sinu) - r * cos_half_u * cosv;
+					x = 6 * cosu * (1 + sinu) - r * cosv;
 					y = 16 * sinu;
 				}
 				z = r * sinv;
-- 
2.43.0


From 954e94ba0a21dee8abd9fec6dc70e8824e7c35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:41 +0000
Subject: [PATCH 48/62] fix: function analysis: repeated, false and missed
 roots, extrema and discontinuities, limit signs, monotonicity at the ends,
 zero spacing

---
 mml/algorithms/FunctionsAnalyzer.h | 523 +++++++++++++----------------
 1 file changed, 234 insertions(+), 289 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index e415d8f..32d8e06 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -158,6 +158,152 @@ namespace MML {
 		const IRealFunction& _f;
 		std::string _funcName;
 
+		/// Root found by scanning samples; direction is +1/-1 when the function goes up/down
+		/// through zero there, and 0 when it only touches zero
+		struct SignScanRoot {
+			Real x;
+			int direction;
+		};
+
+		/// Locate the root in a bracket; false if the sign changes at a jump or a pole instead
+		static bool RefineRoot(const IRealFunction& f, Real a, Real fa, Real b, Real fb, Real eps, Real& root) {
+			if (fa == 0.0 || fb == 0.0) {
+				root = fa == 0.0 ? a : b;
+				return true;
+			}
+			RootFinding::RootFindingConfig config;
+			config.tolerance = eps;
+			RootFinding::RootFindingResult result = RootFinding::FindRootBisection(f, a, b, config);
+			if (!result.converged)
+				return false;
+			root = result.root;
+			if (!(eps < std::abs(b - a) / 8))
+				return true; // tolerance too coarse to tell
+			return std::abs(f(root + eps) - f(root - eps)) <= 0.5 * std::abs(fb - fa);
+		}
+
+		/// Scan 1000 subintervals. Consecutive samples below eps in magnitude form one root:
+		/// refined by bisection if the sign differs on the two sides, else the smallest sample.
+		/// lookBeyondEnds evaluates f one step outside to tell crossing from touching at the ends.
+		static std::vector<SignScanRoot> ScanRoots(const IRealFunction& f, Real x1, Real x2, Real eps, bool lookBeyondEnds = false) {
+			const int n = 1000;
+			std::vector<SignScanRoot> roots;
+			std::vector<Real> x(n + 1), y(n + 1);
+			for (int i = 0; i <= n; i++) {
+				x[i] = x1 + i * ((x2 - x1) / n);
+				y[i] = f(x[i]);
+			}
+			auto addSignChange = [&](int left, int right) {
+				Real root;
+				if (RefineRoot(f, x[left], y[left], x[right], y[right], eps, root))
+					roots.push_back({root, y[left] < 0 ? 1 : -1});
+			};
+			for (int i = 0; i <= n; i++) {
+				if (std::abs(y[i]) < eps) {
+					int best = i, last = i;
+					while (last < n && std::abs(y[last + 1]) < eps) {
+						last++;
+						if (std::abs(y[last]) < std::abs(y[best]))
+							best = last;
+					}
+					bool atEnd = i == 0 || last == n;
+					Real step = (x2 - x1) / n;
+					Real before = i > 0 ? y[i - 1] : (lookBeyondEnds ? f(x1 - step) : 0.0);
+					Real after = last < n ? y[last + 1] : (lookBeyondEnds ? f(x2 + step) : 0.0);
+					bool crosses = before * after < 0 && std::abs(before) >= eps && std::abs(after) >= eps;
+					if (crosses && !atEnd && y[best] != 0.0)
+						addSignChange(i - 1, last + 1);
+					else
+						roots.push_back({x[best], crosses ? (before < 0 ? 1 : -1) : 0});
+					i = last;
+				}
+				else if (i > 0 && std::abs(y[i - 1]) >= eps && y[i - 1] * y[i] < 0)
+					addSignChange(i - 1, i);
+			}
+			return roots;
+		}
+
+		/// Look for a discontinuity between a and b by following the larger change of f
+		bool FindJumpBetween(Real a, Real b, Real eps, Real& x) const {
+			Real fa = _f(a), fb = _f(b);
+			while (true) {
+				if (!(std::abs(fb - fa) > eps * 100 * (1.0 + std::min(std::abs(fa), std::abs(fb)))))
+					return false;
+				Real m = a + (b - a) / 2;
+				if (m <= a || m >= b)
+					break;
+				Real fm = _f(m);
+				if (!std::isfinite(fm)) {
+					x = m;
+					return true;
+				}
+				if (std::abs(fm - fa) >= std::abs(fb - fm)) {
+					b = m;
+					fb = fm;
+				} else {
+					a = m;
+					fa = fm;
+				}
+			}
+			x = b;
+			return !isContinuousAtPoint(b, eps);
+		}
+
+		/// Move a point found discontinuous onto the jump, if that is just beside it
+		Real PinpointJump(Real x, Real eps) const {
+			Real jump;
+			if (isDefinedAtPoint(x - 10 * eps) && isDefinedAtPoint(x + 10 * eps) && FindJumpBetween(x - 10 * eps, x + 10 * eps, eps, jump))
+				return jump;
+			return x;
+		}
+
+		/// One-sided limit, approaching x from below (side = -1) or from above (side = +1)
+		Real ComputeOneSidedLimit(Real x, int side, Real eps, int maxSteps) const {
+			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
+			Real h = eps * 100;
+			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
+			Real earlyChange = 0.0, lateChange = 0.0;
+			bool rising = true, falling = true;
+			int stableCount = 0;
+			int overflowCount = 0;
+
+			for (int i = 0; i < maxSteps; i++, h /= 2.0) {
+				SafeEvalResult evalResult = SafeEvaluate(_f, x + side * h, overflowThreshold);
+				if (evalResult.isNaN)
+					return std::numeric_limits<Real>::quiet_NaN();
+				if (!evalResult.isValid) {
+					// If we consistently get overflow, the limit is infinite
+					if (++overflowCount >= 3)
+						return std::copysign(std::numeric_limits<Real>::infinity(), evalResult.value);
+					continue;
+				}
+
+				Real value = evalResult.value;
+				if (!std::isnan(prevValue)) {
+					Real diff = std::abs(value - prevValue);
+					(i < maxSteps / 2 ? earlyChange : lateChange) = std::max(i < maxSteps / 2 ? earlyChange : lateChange, diff);
+					rising = rising && value > prevValue;
+					falling = falling && value < prevValue;
+
+					if (diff < eps * (1.0 + std::abs(value))) {
+						if (++stableCount >= 3) // Require 3 stable iterations
+							return value;
+					} else {
+						stableCount = 0;
+					}
+				}
+				prevValue = value;
+			}
+
+			// Changes that do not shrink as x is approached: divergence if steady, else oscillation
+			if (lateChange > 0.5 * earlyChange && earlyChange > 0.0) {
+				if (rising || falling)
+					return rising ? std::numeric_limits<Real>::infinity() : -std::numeric_limits<Real>::infinity();
+				return std::numeric_limits<Real>::quiet_NaN();
+			}
+			return prevValue; // Best approximation
+		}
+
 	public:
 		RealFunctionAnalyzer(const IRealFunction& f)
 			: _f(f) {}
@@ -300,108 +446,49 @@ namespace MML {
 
 		std::vector<Real> GetRoots(Real x1, Real x2, Real eps) {
 			std::vector<Real> roots;
-			Real step = (x2 - x1) / 1000;
-
-			// Check if x1 is a root (within tolerance)
-			Real val_x1 = _f(x1);
-			if (std::abs(val_x1) < eps)
-				roots.push_back(x1);
-
-			Real prev = val_x1;
-			for (int i = 1; i <= 1000; i++) {
-				Real x_curr = x1 + i * step;
-				Real curr = _f(x_curr);
-
-				// Check if current point is a root
-				if (std::abs(curr) < eps && (roots.empty() || std::abs(x_curr - roots.back()) > eps)) {
-					roots.push_back(x_curr);
-				}
-				// Check for sign change (bracket around root)
-				else if (prev * curr < 0) {
-					Real root = RootFinding::FindRootBisection(_f, x1 + (i - 1) * step, x_curr, eps);
-					// Avoid duplicate roots
-					if (roots.empty() || std::abs(root - roots.back()) > eps)
-						roots.push_back(root);
-				}
-				prev = curr;
-			}
+			for (const SignScanRoot& r : ScanRoots(_f, x1, x2, eps))
+				roots.push_back(r.x);
 			return roots;
 		}
 		Vector<Real> GetLocalOptimums(Real x1, Real x2, Real eps = 1e-6) {
 			Vector<Real> optimums;
-
-			// Create a wrapper for f'(x) to find critical points where f'(x) = 0
-			std::function<Real(Real)> derivative = [this](Real x) -> Real { return Derivation::NDer4(_f, x); };
-			RealFunctionFromStdFunc derivativeFunc(derivative);
-			RealFunctionAnalyzer derivAnalyzer(derivativeFunc);
-
-			// Find roots of f'(x) - these are potential critical points
-			std::vector<Real> criticalPoints = derivAnalyzer.GetRoots(x1, x2, eps);
-
-			// For each critical point, verify it's a local optimum using second derivative test
-			for (Real x : criticalPoints) {
-				if (isLocalOptimum(x, eps)) {
-					optimums.push_back(x);
-				}
-			}
-
+			for (const CriticalPoint& cp : GetLocalOptimumsClassified(x1, x2, eps))
+				optimums.push_back(cp.x);
 			return optimums;
 		}
+
 		std::vector<CriticalPoint> GetLocalOptimumsClassified(Real x1, Real x2, Real eps = 1e-6) {
 			std::vector<CriticalPoint> classified;
 
 			// Create a wrapper for f'(x) to find critical points where f'(x) = 0
 			std::function<Real(Real)> derivative = [this](Real x) -> Real { return Derivation::NDer4(_f, x); };
 			RealFunctionFromStdFunc derivativeFunc(derivative);
-			RealFunctionAnalyzer derivAnalyzer(derivativeFunc);
-
-			// Find roots of f'(x) - these are potential critical points
-			std::vector<Real> criticalPoints = derivAnalyzer.GetRoots(x1, x2, eps);
-
-			// For each critical point, verify it's a local optimum and classify
-			for (Real x : criticalPoints) {
-				if (isLocalOptimum(x, eps)) {
-					CriticalPoint cp;
-					cp.x = x;
-					cp.value = _f(x);
-
-					// Classify using second derivative test
-					Real secDeriv = Derivation::NSecDer4(_f, x);
-
-					if (secDeriv > eps)
-						cp.type = CriticalPointType::LOCAL_MINIMUM;
-					else if (secDeriv < -eps)
-						cp.type = CriticalPointType::LOCAL_MAXIMUM;
-					else
-						cp.type = CriticalPointType::SADDLE_POINT; // Very rare in 1D
 
-					classified.push_back(cp);
-				}
+			// f' changes sign at a local optimum: upwards at a minimum, downwards at a maximum
+			for (const SignScanRoot& r : ScanRoots(derivativeFunc, x1, x2, eps, true)) {
+				if (r.direction == 0)
+					continue;
+				CriticalPoint cp;
+				cp.x = r.x;
+				cp.value = _f(r.x);
+				cp.type = r.direction > 0 ? CriticalPointType::LOCAL_MINIMUM : CriticalPointType::LOCAL_MAXIMUM;
+				classified.push_back(cp);
 			}
-
 			return classified;
 		}
 		Vector<Real> GetInflectionPoints(Real x1, Real x2, Real eps = 1e-6) {
 			Vector<Real> inflection_points;
 
-			// Create a wrapper for f''(x) to find inflection points where f''(x) = 0
+			// Create a wrapper for f''(x) to find where the second derivative changes sign
 			std::function<Real(Real)> secondDerivative = [this](Real x) -> Real { return Derivation::NSecDer4(_f, x); };
 			RealFunctionFromStdFunc secondDerivFunc(secondDerivative);
-			RealFunctionAnalyzer secDerivAnalyzer(secondDerivFunc);
 
-			// Find roots of f''(x) - these are potential inflection points
-			std::vector<Real> candidates = secDerivAnalyzer.GetRoots(x1, x2, eps);
-
-			// For each candidate, verify it's an inflection point (concavity changes)
-			for (Real x : candidates) {
-				if (isInflectionPoint(x, eps)) {
-					inflection_points.push_back(x);
-				}
+			for (const SignScanRoot& r : ScanRoots(secondDerivFunc, x1, x2, eps, true)) {
+				if (r.direction != 0 && isInflectionPoint(r.x, eps))
+					inflection_points.push_back(r.x);
 			}
-
 			return inflection_points;
 		}
-
 		bool isDefinedAtPoint(Real x) const {
 			Real y = _f(x);
 			return !std::isnan(y) && !std::isinf(y);
@@ -419,9 +506,10 @@ namespace MML {
 			if (!isDefinedAtPoint(x - h) || !isDefinedAtPoint(x + h))
 				return false;
 
-			// Compute left and right derivatives using NDer2
-			Real leftDeriv = Derivation::NDer2Left(_f, x, eps);
-			Real rightDeriv = Derivation::NDer2Right(_f, x, eps);
+			// Compute left and right derivatives with one-sided formulas that end at x itself
+			Real val = _f(x);
+			Real leftDeriv = (3 * val - 4 * _f(x - eps) + _f(x - 2 * eps)) / (2 * eps);
+			Real rightDeriv = (-3 * val + 4 * _f(x + eps) - _f(x + 2 * eps)) / (2 * eps);
 
 			// Check if both derivatives are defined (not NaN or Inf)
 			if (std::isnan(leftDeriv) || std::isinf(leftDeriv) || std::isnan(rightDeriv) || std::isinf(rightDeriv))
@@ -514,7 +602,8 @@ namespace MML {
 				h /= 2.0; // Try with smaller h
 			}
 
-			return false;
+			// Steep, but the difference kept shrinking with h
+			return prev_max_diff < std::numeric_limits<Real>::max();
 		}
 		bool isLocalOptimum(Real x, Real eps) const {
 			// For a local optimum:
@@ -523,15 +612,15 @@ namespace MML {
 			//    - f''(x) > 0 => local minimum
 			//    - f''(x) < 0 => local maximum
 
-			// Check first derivative is near zero
-			Real first_der = Derivation::NDer4(_f, x);
-			if (std::abs(first_der) > eps)
-				return false; // Not a stationary point
-
 			// Check second derivative has consistent sign (non-zero)
 			Real left_sec_der = Derivation::NSecDer4(_f, x - 4 * eps);
 			Real right_sec_der = Derivation::NSecDer4(_f, x + 4 * eps);
 
+			// Check first derivative is near zero, as it is within eps of a stationary point
+			Real first_der = Derivation::NDer4(_f, x);
+			if (std::abs(first_der) > eps * std::max(Real(1.0), std::max(std::abs(left_sec_der), std::abs(right_sec_der))))
+				return false; // Not a stationary point
+
 			// Both should have the same sign AND be non-zero
 			return left_sec_der * right_sec_der > 0;
 		}
@@ -542,6 +631,14 @@ namespace MML {
 			Real right_sec_der = Derivation::NSecDer4(_f, x + 4 * eps);
 
 			// Check if second derivatives have opposite signs (sign change)
+			// Ignore the rounding noise of the difference formula (e.g. on straight lines)
+			Real h = Derivation::ScaleStep(Derivation::NDer4_h, x);
+			Real size = std::max(std::abs(_f(x)), std::max(std::abs(_f(x - h)), std::abs(_f(x + h))))
+						+ std::abs(x * (_f(x + h) - _f(x - h)) / (2 * h));
+			Real noise = 10 * Constants::Eps * size / (h * h);
+			if (std::abs(left_sec_der) <= noise || std::abs(right_sec_der) <= noise)
+				return false;
+
 			return left_sec_der * right_sec_der < 0;
 		}
 		bool isContinuous(Real x1, Real x2, int numPoints, Real eps = 1e-6, std::vector<Real>* discontinuities = nullptr) const {
@@ -559,68 +656,43 @@ namespace MML {
 				Real x = x1 + i * step;
 				if (!isContinuousAtPoint(x, eps)) {
 					allContinuous = false;
-					suspiciousPoints.push_back(x);
+					suspiciousPoints.push_back(PinpointJump(x, eps));
 				}
 			}
 
-			// Stage 2: Check for sign changes in derivative (potential discontinuities)
-			// Sample derivative at midpoints to catch jump discontinuities
+			// Stage 2: Look for jumps between the samples
 			for (int i = 0; i < numPoints; i++) {
 				Real x_left = x1 + i * step;
 				Real x_right = x1 + (i + 1) * step;
-				Real x_mid = (x_left + x_right) / 2.0;
-
-				// Check for large derivative changes (potential discontinuity)
-				Real der_left = Derivation::NDer2(_f, x_left);
-				Real der_right = Derivation::NDer2(_f, x_right);
-
-				// If derivative changes dramatically or function value jumps
-				Real val_left = _f(x_left);
-				Real val_right = _f(x_right);
-				Real val_mid = _f(x_mid);
-
-				// Check for non-smooth behavior (jump or cusp)
-				bool potentialJump = std::abs(val_right - val_left) > 10 * eps * std::abs(val_left + val_right);
-				bool derivativeJump = !std::isnan(der_left) && !std::isnan(der_right) && std::abs(der_right - der_left) > 100 * eps;
-
-				if (potentialJump || derivativeJump) {
-					// Refine search in this interval
-					if (!isContinuousAtPoint(x_mid, eps)) {
-						allContinuous = false;
-						// Avoid duplicates
-						if (std::find(suspiciousPoints.begin(), suspiciousPoints.end(), x_mid) == suspiciousPoints.end()) {
-							suspiciousPoints.push_back(x_mid);
-						}
-					}
+				Real x_jump;
+				if (isDefinedAtPoint(x_left) && isDefinedAtPoint(x_right) && FindJumpBetween(x_left, x_right, eps, x_jump)) {
+					allContinuous = false;
+					bool alreadyFound = false;
+					for (Real x : suspiciousPoints)
+						alreadyFound = alreadyFound || std::abs(x - x_jump) < 20 * eps;
+					if (!alreadyFound)
+						suspiciousPoints.push_back(x_jump);
 				}
 			}
+			std::sort(suspiciousPoints.begin(), suspiciousPoints.end());
 
 			// Return discontinuity locations if requested
-			if (discontinuities != nullptr && !suspiciousPoints.empty()) {
+			if (discontinuities != nullptr)
 				*discontinuities = suspiciousPoints;
-			}
 
 			return allContinuous;
 		}
 		bool isMonotonic(Real x1, Real x2, int numPoints) const {
 			Real step = (x2 - x1) / numPoints;
-			Real prev = _f(x1 + step);
-			if (_f(x1) < _f(x1 + step)) {
-				for (int i = 2; i < numPoints; i++) {
-					Real curr = _f(x1 + i * step);
-					if (curr < prev)
-						return false;
-					prev = curr;
-				}
-			} else {
-				for (int i = 2; i < numPoints; i++) {
-					Real curr = _f(x1 + i * step);
-					if (curr > prev)
-						return false;
-					prev = curr;
-				}
+			bool rises = false, falls = false;
+			Real prev = _f(x1);
+			for (int i = 1; i <= numPoints; i++) {
+				Real curr = _f(x1 + i * step);
+				rises = rises || curr > prev;
+				falls = falls || curr < prev;
+				prev = curr;
 			}
-			return true;
+			return !(rises && falls);
 		}
 		
 		/// @brief Find minimum value in N sample points with overflow protection
@@ -675,139 +747,10 @@ namespace MML {
 
 		// Compute left limit: lim(x→a⁻) f(x)
 		// With overflow protection for singularities
-		Real ComputeLeftLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const {
-			// Approach from the left with decreasing step sizes
-			Real h = eps * 100;
-			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
-			int stableCount = 0;
-			int overflowCount = 0;
-			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
-
-			for (int i = 0; i < maxSteps; i++) {
-				Real testPoint = x - h;
-				
-				// Use safe evaluation with overflow detection
-				SafeEvalResult evalResult = SafeEvaluate(_f, testPoint, overflowThreshold);
-				
-				if (!evalResult.isValid) {
-					if (evalResult.isOverflow) {
-						overflowCount++;
-						// If we consistently get overflow, the limit is infinite
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-					}
-					if (evalResult.isNaN)
-						return std::numeric_limits<Real>::quiet_NaN();
-					// Try with smaller h for potential underflow
-					h /= 2.0;
-					continue;
-				}
-
-				Real value = evalResult.value;
-
-				// Check for convergence with overflow-safe difference
-				if (!std::isnan(prevValue)) {
-					Real diff = SafeDifference(value, prevValue);
-					
-					// If difference computation overflowed, values are diverging
-					if (std::isinf(diff)) {
-						overflowCount++;
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-						h /= 2.0;
-						continue;
-					}
-					
-					Real tolerance = eps * (1.0 + std::abs(value));
-
-					if (diff < tolerance) {
-						stableCount++;
-						if (stableCount >= 3) // Require 3 stable iterations
-							return value;
-					} else {
-						stableCount = 0;
-					}
-				}
-
-				prevValue = value;
-				h /= 2.0;
-			}
-
-			// Return best approximation, or infinity if we detected overflow trend
-			if (overflowCount >= 2 && !std::isnan(prevValue) && std::abs(prevValue) > overflowThreshold)
-				return (prevValue > 0) ? std::numeric_limits<Real>::infinity() 
-				                        : -std::numeric_limits<Real>::infinity();
-			
-			return prevValue; // Best approximation
-		}
-
-		// Compute right limit: lim(x→a⁺) f(x)
-		// With overflow protection for singularities
-		Real ComputeRightLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const {
-			// Approach from the right with decreasing step sizes
-			Real h = eps * 100;
-			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
-			int stableCount = 0;
-			int overflowCount = 0;
-			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
+		Real ComputeLeftLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const { return ComputeOneSidedLimit(x, -1, eps, maxSteps); }
 
-			for (int i = 0; i < maxSteps; i++) {
-				Real testPoint = x + h;
-				
-				// Use safe evaluation with overflow detection
-				SafeEvalResult evalResult = SafeEvaluate(_f, testPoint, overflowThreshold);
-				
-				if (!evalResult.isValid) {
-					if (evalResult.isOverflow) {
-						overflowCount++;
-						// If we consistently get overflow, the limit is infinite
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-					}
-					if (evalResult.isNaN)
-						return std::numeric_limits<Real>::quiet_NaN();
-					// Try with smaller h for potential underflow
-					h /= 2.0;
-					continue;
-				}
-
-				Real value = evalResult.value;
-
-				// Check for convergence with overflow-safe difference
-				if (!std::isnan(prevValue)) {
-					Real diff = SafeDifference(value, prevValue);
-					
-					// If difference computation overflowed, values are diverging
-					if (std::isinf(diff)) {
-						overflowCount++;
-						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
-						h /= 2.0;
-						continue;
-					}
-					
-					Real tolerance = eps * (1.0 + std::abs(value));
-
-					if (diff < tolerance) {
-						stableCount++;
-						if (stableCount >= 3) // Require 3 stable iterations
-							return value;
-					} else {
-						stableCount = 0;
-					}
-				}
-
-				prevValue = value;
-				h /= 2.0;
-			}
-
-			// Return best approximation, or infinity if we detected overflow trend
-			if (overflowCount >= 2 && !std::isnan(prevValue) && std::abs(prevValue) > overflowThreshold)
-				return (prevValue > 0) ? std::numeric_limits<Real>::infinity() 
-				                        : -std::numeric_limits<Real>::infinity();
-			
-			return prevValue; // Best approximation
-		}
+		// Compute right limit: lim(h→0⁺) f(x+h)
+		Real ComputeRightLimit(Real x, Real eps = 1e-6, int maxSteps = 20) const { return ComputeOneSidedLimit(x, +1, eps, maxSteps); }
 
 		// Classify a discontinuity at point x
 		DiscontinuityPoint ClassifyDiscontinuity(Real x, Real eps = 1e-6) const {
@@ -828,11 +771,12 @@ namespace MML {
 			bool rightLimitVeryLarge = std::abs(disc.rightLimit) > largeThreshold;
 
 			// Classify discontinuity type
-			if (!leftLimitExists && !rightLimitExists) {
-				disc.type = DiscontinuityType::OSCILLATORY; // Or could be UNKNOWN
-			} else if (!leftLimitExists || !rightLimitExists || leftLimitVeryLarge || rightLimitVeryLarge) {
-				// At least one limit is infinite or doesn't exist
+			if (leftLimitVeryLarge || rightLimitVeryLarge) {
+				// At least one limit is infinite
 				disc.type = DiscontinuityType::INFINITE;
+			} else if (!leftLimitExists || !rightLimitExists) {
+				// Function defined on both sides, but not settling down on one of them
+				disc.type = isDefinedAtPoint(x - eps) && isDefinedAtPoint(x + eps) ? DiscontinuityType::OSCILLATORY : DiscontinuityType::UNKNOWN;
 			} else if (std::abs(disc.leftLimit - disc.rightLimit) > eps * 1000 * (1.0 + std::abs(disc.leftLimit))) {
 				// Limits exist but differ significantly - JUMP discontinuity
 				disc.type = DiscontinuityType::JUMP;
@@ -864,7 +808,7 @@ namespace MML {
 			for (int i = 0; i <= numPoints; i++) {
 				Real x = x1 + i * step;
 				if (!isContinuousAtPoint(x, eps)) {
-					candidates.push_back(x);
+					candidates.push_back(PinpointJump(x, eps));
 				}
 			}
 
@@ -903,21 +847,19 @@ namespace MML {
 					jumpThreshold = std::max(jumpThreshold, maxVal * eps * 10);
 
 				if (std::abs(val_right - val_left) > jumpThreshold) {
-					// Potential discontinuity - check multiple points in this interval
-					for (int j = 1; j <= 4; j++) {
-						Real x_test = x_left + (j / 5.0) * (x_right - x_left);
-						if (!isContinuousAtPoint(x_test, eps)) {
-							// Avoid duplicates
-							bool alreadyFound = false;
-							for (const auto& candX : candidates) {
-								if (std::abs(candX - x_test) < step / 5.0) {
-									alreadyFound = true;
-									break;
-								}
+					// Potential discontinuity - narrow it down
+					Real x_jump;
+					if (FindJumpBetween(x_left, x_right, eps, x_jump)) {
+						// Avoid duplicates
+						bool alreadyFound = false;
+						for (const auto& candX : candidates) {
+							if (std::abs(candX - x_jump) < 20 * eps) {
+								alreadyFound = true;
+								break;
 							}
-							if (!alreadyFound)
-								candidates.push_back(x_test);
 						}
+						if (!alreadyFound)
+							candidates.push_back(x_jump);
 					}
 				}
 			}
@@ -1013,18 +955,21 @@ namespace MML {
 			if (numFoundRoots == 0)
 				return 0.0;
 
-			Vector<Real> roots(numFoundRoots);
-			Vector<Real> rootDiffs(numFoundRoots - 1);
+			// A zero exactly at a sample closes two brackets; poles and jumps are not roots
+			std::vector<Real> roots;
 			for (int i = 0; i < numFoundRoots; i++) {
-				roots[i] = RootFinding::FindRootBisection(_f, root_brack_x1[i], root_brack_x2[i], 1e-7);
-
-				if (i > 0)
-					rootDiffs[i - 1] = roots[i] - roots[i - 1];
+				Real a = root_brack_x1[i], b = root_brack_x2[i];
+				Real root;
+				if (RefineRoot(_f, a, _f(a), b, _f(b), 1e-7, root) && (roots.empty() || root - roots.back() > 1e-6))
+					roots.push_back(root);
 			}
-
-			if (numFoundRoots == 1)
+			if (roots.size() < 2)
 				return 0.0; // only one root found, no period
 
+			Vector<Real> rootDiffs((int)roots.size() - 1);
+			for (size_t i = 1; i < roots.size(); i++)
+				rootDiffs[(int)i - 1] = roots[i] - roots[i - 1];
+
 			return Statistics::Avg(rootDiffs);
 		}
 	};
-- 
2.43.0


From b1da3253cfd19f42156dfee3d53a977dc18150ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:37 +0000
Subject: [PATCH 49/62] fix: Random: upper bound drawn, ranges wider than the
 largest number, invalid ranges undefined

---
 mml/base/Random.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mml/base/Random.h b/mml/base/Random.h
index 291456d..489f704 100644
--- a/mml/base/Random.h
+++ b/mml/base/Random.h
@@ -13,6 +13,7 @@
 #define MML_RANDOM_H
 
 #include "MMLBase.h"
+#include "MMLExceptions.h"
 
 #include <random>
 
@@ -29,13 +30,27 @@ namespace MML
 		// Seeds the thread-local RNG for reproducible results (affects calling thread only)
 		static void SetSeed(unsigned int seed) { gen.seed(seed); }
 
+		// Uniform real number in [min, max); min itself when min == max
 		static Real UniformReal(Real min, Real max)
 		{
-			std::uniform_real_distribution<Real> dis(min, max);
-			return dis(gen);
+			if (!(min <= max) || !std::isfinite(min) || !std::isfinite(max))
+				throw ArgumentError("Random::UniformReal - range must be finite with min <= max");
+			if (min == max)
+				return min;
+
+			// The distribution needs max - min to be representable
+			const bool wide = !std::isfinite(max - min);
+			std::uniform_real_distribution<Real> dis(wide ? min / 2 : min, wide ? max / 2 : max);
+			Real value;
+			do { // rounding can produce the excluded upper bound
+				value = wide ? 2 * dis(gen) : dis(gen);
+			} while (value >= max);
+			return value;
 		}
 		static int UniformInt(int min, int max)
 		{
+			if (min > max)
+				throw ArgumentError("Random::UniformInt - min must not exceed max");
 			std::uniform_int_distribution<int> dis(min, max);
 			return dis(gen);
 		}
-- 
2.43.0


From fdb802072ee7c901286588c13d11a56c77c95c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:58 +0000
Subject: [PATCH 50/62] fix: undefined behaviour on non-finite, negative and
 empty arguments, adaptive Gauss-Kronrod that never ended [C40]

---
 mml/algorithms/Fourier.h                      |  2 +-
 .../Statistics/StatisticsHypothesis.h         |  6 ++--
 mml/base/BaseUtils/MatrixOps.h                | 12 +++++++
 mml/base/DAESystem.h                          |  8 +++++
 mml/base/DiracDeltaFunction.h                 |  4 +--
 mml/base/Intervals.h                          |  2 +-
 mml/base/Matrix/MatrixBandDiag.h              |  2 +-
 mml/base/ODESystemSolution.h                  |  8 +++++
 mml/core/Curves.h                             |  2 +-
 mml/core/Integration/GaussKronrod.h           | 34 +++++++++++++++----
 mml/systems/DynamicalSystemAnalyzers.h        |  4 ++-
 mml/systems/LinearSystem.h                    |  2 ++
 12 files changed, 69 insertions(+), 17 deletions(-)

diff --git a/mml/algorithms/Fourier.h b/mml/algorithms/Fourier.h
index ad50325..8489b64 100644
--- a/mml/algorithms/Fourier.h
+++ b/mml/algorithms/Fourier.h
@@ -390,7 +390,7 @@ namespace MML::Fourier
 			int mmax = 1;
 			while (n > mmax) {
 				int istep = mmax << 1;											// istep = 2 * mmax
-				Real theta = -isign * Constants::PI / mmax; // Negative sign for DIT
+				Real theta = -static_cast<Real>(isign) * Constants::PI / mmax; // Negative sign for DIT
 
 				// Complex exponential for twiddle factor
 				Complex wp(std::cos(theta), std::sin(theta));
diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index a58af6a..b130935 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -254,10 +254,10 @@ namespace MML
 			// Welch-Satterthwaite degrees of freedom
 			Real w1 = se1 / (se1 + se2);  // relative weights, so that tiny variances cannot underflow
 			Real w2 = se2 / (se1 + se2);
-			int df = static_cast<int>(std::floor(1.0 / (w1 * w1 / (n1 - 1) + w2 * w2 / (n2 - 1))));
+			Real effectiveDf = std::floor(1.0 / (w1 * w1 / (n1 - 1) + w2 * w2 / (n2 - 1)));
 
-			// Ensure df is at least 1
-			if (df < 1) df = 1;
+			// Ensure df is at least 1 (also when the data are not finite)
+			int df = (effectiveDf >= 1) ? static_cast<int>(effectiveDf) : 1;
 
 			// Create t-distribution
 			TDistribution tDist(df);
diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 69e867e..f807297 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -78,6 +78,12 @@ namespace MML
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInRows(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				return Matrix<Type>();
+			for (const auto& vec : b)
+				if (vec.size() != b[0].size())
+					throw VectorDimensionError("MatrixFromVectorsInRows - vectors must have equal size", b[0].size(), vec.size());
+
 			Matrix<Type> ret((int)b.size(), (int)b[0].size());
 			for (int i = 0; i < b.size(); i++)
 				for (int j = 0; j < b[i].size(); j++)
@@ -92,6 +98,12 @@ namespace MML
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInColumns(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				return Matrix<Type>();
+			for (const auto& vec : b)
+				if (vec.size() != b[0].size())
+					throw VectorDimensionError("MatrixFromVectorsInColumns - vectors must have equal size", b[0].size(), vec.size());
+
 			Matrix<Type> ret((int)b[0].size(), (int)b.size());
 			for (int i = 0; i < b.size(); i++)
 				for (int j = 0; j < b[i].size(); j++)
diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 6705bb9..7fce9dc 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -296,6 +296,8 @@ namespace MML
 		/// @note Call this after integration completes to free unused memory
 		void setFinalSize(int numDoneSteps)
 		{
+			if (numDoneSteps < 0)
+				throw IndexError("Number of steps must be non-negative in DAESolution::setFinalSize");
 			_totalSavedSteps = numDoneSteps + 1;
 			_count = _totalSavedSteps;
 			_tval.Resize(_totalSavedSteps, true);
@@ -353,6 +355,9 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getXAsParamCurve2D(int ind1, int ind2) const
 		{
+			if (ind1 < 0 || ind1 >= _diffDim || ind2 < 0 || ind2 >= _diffDim)
+				throw IndexError("Component out of range in DAESolution::getXAsParamCurve2D");
+
 			Matrix<Real> curve_points(_totalSavedSteps, 2);
 			for (int i = 0; i < _totalSavedSteps; i++)
 			{
@@ -369,6 +374,9 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getXAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
+			if (ind1 < 0 || ind1 >= _diffDim || ind2 < 0 || ind2 >= _diffDim || ind3 < 0 || ind3 >= _diffDim)
+				throw IndexError("Component out of range in DAESolution::getXAsParamCurve3D");
+
 			Matrix<Real> curve_points(_totalSavedSteps, 3);
 			for (int i = 0; i < _totalSavedSteps; i++)
 			{
diff --git a/mml/base/DiracDeltaFunction.h b/mml/base/DiracDeltaFunction.h
index 4fbb7ab..12ed72b 100644
--- a/mml/base/DiracDeltaFunction.h
+++ b/mml/base/DiracDeltaFunction.h
@@ -47,7 +47,7 @@ namespace MML
 		/// @return N if |x| < 1/(2N), otherwise 0
 		Real operator()(const Real x) const
 		{
-			if (x < -1.0 / (2 * _N) || x > 1.0 / (2 * _N))
+			if (x < -1.0 / (2.0 * _N) || x > 1.0 / (2.0 * _N))
 				return 0.0;
 			else
 				return _N;
@@ -84,7 +84,7 @@ namespace MML
 		/// @brief Evaluates the Lorentzian approximation.
 		/// @param x Point to evaluate
 		/// @return N / (π(1 + N²x²))
-		Real operator()(const Real x) const { return _N / Constants::PI / (1 + _N * _N * x * x); }
+		Real operator()(const Real x) const { return _N / Constants::PI / (1 + static_cast<Real>(_N) * _N * x * x); }
 	};
 
 	/// @brief Sinc function approximation of Dirac delta.
diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index acb2b73..093e5e2 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -783,7 +783,7 @@ namespace MML {
 			for (const auto& interval : _intervals) {
 				// (a span too long to represent is shared evenly)
 				Real share = std::isfinite(totalLength) ? interval->getLength() / totalLength : REAL(1.0) / _intervals.size();
-				int intervalPoints = std::max(1, (int)(numPoints * share));
+				int intervalPoints = (share > 0) ? std::max(1, (int)(numPoints * std::min(share, REAL(1.0)))) : 1;
 				std::vector<Real> intervalPointsVec;
 				interval->GetEquidistantCovering(intervalPoints, intervalPointsVec);
 				points.insert(points.end(), intervalPointsVec.begin(), intervalPointsVec.end());
diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index c59faa2..a619a4b 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -119,7 +119,7 @@ namespace MML {
 			, _m1(m1)
 			, _m2(m2)
 			, _data(data) {
-			if (data.rows() != dim || data.cols() != m1 + m2 + 1)
+			if (m1 < 0 || m2 < 0 || data.rows() != dim || data.cols() - m1 - 1 != m2)
 				throw MatrixDimensionError("BandDiagonalMatrix constructor: data dimensions must be dim x (m1+m2+1)");
 		}
 
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index f28dd7f..4a343e9 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -217,6 +217,8 @@ namespace MML
 		/// @note Call this after integration completes to free unused memory
 		void setFinalSize(int numDoneSteps)
 		{
+			if (numDoneSteps < 0)
+				throw IndexError("Number of steps must be non-negative in ODESystemSolution::setFinalSize");
 			_totalSavedSteps = numDoneSteps + 1;
 			_count = numDoneSteps + 1;
 
@@ -262,6 +264,9 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getSolAsParamCurve2D(int ind1, int ind2) const
 		{
+			if (ind1 < 0 || ind1 >= _sysDim || ind2 < 0 || ind2 >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution::getSolAsParamCurve2D");
+
 			Matrix<Real> curve_points(_count, 2);
 			for (int i = 0; i < _count; i++)
 			{
@@ -278,6 +283,9 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getSolAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
+			if (ind1 < 0 || ind1 >= _sysDim || ind2 < 0 || ind2 >= _sysDim || ind3 < 0 || ind3 >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution::getSolAsParamCurve3D");
+
 			Matrix<Real> curve_points(_count, 3);
 			for (int i = 0; i < _count; i++)
 			{
diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index ed4ebbd..8c087e9 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -246,7 +246,7 @@ namespace MML
 			Real getMinT() const { return Constants::NegInf; }
 			Real getMaxT() const { return Constants::PosInf; }
 
-			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{2 * _n * cos(t) * (1 + cos(t)), 2 * _n * sin(t) * (1 - cos(t))}; }
+			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{2.0 * _n * cos(t) * (1 + cos(t)), 2.0 * _n * sin(t) * (1 - cos(t))}; }
 		};
 
 		/// @brief Astroid (four-cusped hypocycloid) curve
diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 7783a41..3b27094 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -343,6 +343,13 @@ namespace MML {
 		/// @brief Rule selection for adaptive Gauss-Kronrod
 		enum class GKRule { GK15, GK21, GK31 };
 
+		/// Largest number of function evaluations one adaptive Gauss-Kronrod integration may use
+		static constexpr int GK_MAX_ADAPTIVE_EVALS = 1000000;
+
+		template<typename Func>
+		static GKResult IntegrateGKAdaptive_Recursive(Func& f, Real a, Real b, Real tol_abs, Real tol_rel, int max_depth,
+																									GKRule rule, bool parent_finite, int& evals_left);
+
 		/// @brief Adaptive Gauss-Kronrod integration with automatic subdivision.
 		/// @details Uses recursive bisection when local error exceeds tolerance.
 		///          This is the standard approach used by QUADPACK/GSL.
@@ -354,12 +361,23 @@ namespace MML {
 		/// @param tol_rel Relative error tolerance (default 1e-10)
 		/// @param max_depth Maximum recursion depth (default 50)
 		/// @param rule Which Gauss-Kronrod rule to use (default GK15)
-		/// @param parent_finite False if the estimate of the enclosing interval was not finite (used internally):
-		///        subdividing once can step around a singular point, but not around a non-finite region
-		/// @return GKResult with integral and accumulated error estimate
+		/// @return GKResult with integral and accumulated error estimate; converged is false when a part of the
+		///         interval missed its tolerance at the maximum depth or when the evaluation budget was used up
 		template<typename Func>
 		static GKResult IntegrateGKAdaptive(Func f, Real a, Real b, Real tol_abs = 1e-10, Real tol_rel = 1e-10, int max_depth = 50,
-																				GKRule rule = GKRule::GK15, bool parent_finite = true) {
+																				GKRule rule = GKRule::GK15) {
+			int evals_left = GK_MAX_ADAPTIVE_EVALS;
+			return IntegrateGKAdaptive_Recursive(f, a, b, tol_abs, tol_rel, max_depth, rule, true, evals_left);
+		}
+
+		/// @brief Recursive part of IntegrateGKAdaptive
+		/// @param parent_finite False if the estimate of the enclosing interval was not finite:
+		///        subdividing once can step around a singular point, but not around a non-finite region
+		/// @param evals_left Remaining evaluation budget: a tolerance below rounding level is never met,
+		///        and subdividing to the maximum depth would take about 2^max_depth rule applications
+		template<typename Func>
+		static GKResult IntegrateGKAdaptive_Recursive(Func& f, Real a, Real b, Real tol_abs, Real tol_rel, int max_depth,
+																									GKRule rule, bool parent_finite, int& evals_left) {
 			// Apply basic rule first
 			GKResult local = (rule == GKRule::GK15)		? IntegrateGK15(f, a, b)
 											 : (rule == GKRule::GK21) ? IntegrateGK21(f, a, b)
@@ -369,15 +387,17 @@ namespace MML {
 
 			// Check if we meet tolerance or hit max depth
 			const bool finite = std::isfinite(local.error_estimate);
-			if (!finite ? (!parent_finite || max_depth <= 0) : (local.error_estimate <= tolerance || max_depth <= 0)) {
+			evals_left -= local.function_evals;
+			const bool last = max_depth <= 0 || evals_left <= 0;
+			if (!finite ? (!parent_finite || last) : (local.error_estimate <= tolerance || last)) {
 				local.converged = finite && (local.error_estimate <= tolerance);
 				return local;
 			}
 
 			// Subdivide and recurse
 			Real mid = 0.5 * (a + b);
-			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
-			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
+			GKResult left = IntegrateGKAdaptive_Recursive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite, evals_left);
+			GKResult right = IntegrateGKAdaptive_Recursive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite, evals_left);
 
 			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate,
 											local.function_evals + left.function_evals + right.function_evals,
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index f2dc1b0..4ee7ff2 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -462,9 +462,11 @@ namespace MML::Systems
 				throw IndexError("BifurcationAnalyzer::Sweep - component out of range", component, sys.getDim());
 			if (!(h > 0))
 				throw DomainError("BifurcationAnalyzer::Sweep - step size must be positive");
+			if (!(tTransient / h < Real(std::numeric_limits<int>::max())))
+				throw DomainError("BifurcationAnalyzer::Sweep - too many transient steps");
 			ParamRestorer restorer(sys, paramIndex);
 			Real dParam = (numSteps > 1) ? (paramMax - paramMin) / (numSteps - 1) : 0.0;
-			diagram.numTransientSteps = static_cast<int>(std::ceil(tTransient / h));
+			diagram.numTransientSteps = static_cast<int>(std::ceil(std::max(tTransient / h, Real(0))));
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 700cd66..1a1abc5 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -621,6 +621,8 @@ namespace MML::Systems
 		/// @brief Estimate digits of precision lost due to conditioning
 		int ExpectedDigitsLost() const {
 			Type cond = ConditionNumber();
+			if (!std::isfinite(cond)) // singular: nothing is left
+				return std::numeric_limits<Type>::max_digits10;
 			return static_cast<int>(std::log10(std::max(cond, Type(1))));
 		}
 
-- 
2.43.0


From b9f339ed00d54f025122d7d5f168bd3ae9d2a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:31 +0000
Subject: [PATCH 51/62] fix: visualizer reported failed or killed viewers and
 interrupted waits as success, followed dangling links out of the results
 folder, ignored legend sizes, unusable names and the AUTO backend [C45]

---
 mml/MMLVisualizators.h |  5 +--
 mml/tools/Visualizer.h | 74 +++++++++++++++++++++++++++---------------
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/mml/MMLVisualizators.h b/mml/MMLVisualizators.h
index 1bfc6af..b44b06f 100644
--- a/mml/MMLVisualizators.h
+++ b/mml/MMLVisualizators.h
@@ -176,6 +176,7 @@ namespace MML
   /// 
   /// @return Current backend selection (never returns Auto, always resolves to concrete backend)
   inline VisualizerBackend GetVisualizerBackend() {
+    bool autoRequested = false;
     // 1. Check environment variable for override
     if (const char* envBackend = GetEnv("MML_VISUALIZER_BACKEND")) {
       std::string backend(envBackend);
@@ -186,11 +187,11 @@ namespace MML
       if (backend == "QT" || backend == "QT5" || backend == "QT6") 
         return VisualizerBackend::Qt;
       if (backend == "FLTK") return VisualizerBackend::FLTK;
-      if (backend == "AUTO") return VisualizerBackend::Auto;
+      if (backend == "AUTO") autoRequested = true;
     }
     
     // 2. Get runtime setting
-    VisualizerBackend backend = detail::GetUnifiedBackendState();
+    VisualizerBackend backend = autoRequested ? VisualizerBackend::Auto : detail::GetUnifiedBackendState();
     
     // 3. Resolve Auto to platform default
     if (backend == VisualizerBackend::Auto) {
diff --git a/mml/tools/Visualizer.h b/mml/tools/Visualizer.h
index 9862cb0..a951098 100644
--- a/mml/tools/Visualizer.h
+++ b/mml/tools/Visualizer.h
@@ -35,6 +35,7 @@
 #else
 #include <unistd.h>
 #include <signal.h>
+#include <cerrno>
 #include <sys/types.h>
 #include <sys/wait.h>
 #endif
@@ -88,12 +89,18 @@ namespace MML {
 		static std::string pathScalarFunc3DViz() { return GetScalarFunction3DVisualizerPath(); }
 		static std::string pathRigidBodyViz() { return GetRigidBodyVisualizerPath(); }
 
+		// Helper: existence test that treats unusable paths (e.g. over-long names) as not existing
+		static bool PathExists(const std::string& path) {
+			std::error_code ec;
+			return std::filesystem::exists(path, ec);
+		}
+
 		// Helper: resolve a file path for "FromFile" methods.
 		// Tries the path as-is first (absolute or relative), then falls back to the results folder.
 		// Returns the resolved path, or empty string if the file is not found anywhere.
 		static std::string ResolveFilePath(const std::string& fileNameOrPath) {
 			// 1. Try as-is (absolute path or relative to cwd)
-			if (std::filesystem::exists(fileNameOrPath))
+			if (PathExists(fileNameOrPath))
 				return std::filesystem::weakly_canonical(fileNameOrPath).string();
 
 			// 2. Try in results folder (legacy: bare filename)
@@ -177,6 +184,10 @@ namespace MML {
 				}
 				// Use weakly_canonical since output file may not exist yet
 				canonical = std::filesystem::weakly_canonical(outputPath);
+				// A dangling link is not resolved above, but writing to it would create its target
+				if (std::filesystem::is_symlink(outputPath) && !std::filesystem::exists(outputPath)) {
+					return "";
+				}
 				std::filesystem::path canonicalResults = std::filesystem::weakly_canonical(resultsDir);
 
 				// Verify containment: canonical path must start with results directory
@@ -205,6 +216,10 @@ namespace MML {
 					std::filesystem::create_directories(resultsDir);
 				}
 				canonical = std::filesystem::weakly_canonical(outputPath);
+				// A dangling link is not resolved above, but writing to it would create its target
+				if (std::filesystem::is_symlink(outputPath) && !std::filesystem::exists(outputPath)) {
+					return "";
+				}
 				std::filesystem::path canonicalResults = std::filesystem::weakly_canonical(resultsDir);
 
 				auto mismatch = std::mismatch(canonicalResults.begin(), canonicalResults.end(), canonical.begin(), canonical.end());
@@ -226,12 +241,8 @@ namespace MML {
 				if (c == '/')
 					c = '\\';
 			}
-#else
-			for (char& c : result) {
-				if (c == '\\')
-					c = '/';
-			}
 #endif
+			// On POSIX systems a backslash is an ordinary file name character
 			return result;
 		}
 
@@ -310,6 +321,19 @@ namespace MML {
 			return VisualizerResult::Success(args.empty() ? "" : args[0]);
 		}
 #else
+		// Translate the wait status of a finished visualizer process into a result
+		static VisualizerResult ResultFromStatus(int status, const std::string& dataPath) {
+			if (WIFEXITED(status)) {
+				int exitCode = WEXITSTATUS(status);
+				if (exitCode == 0)
+					return VisualizerResult::Success(dataPath);
+				if (exitCode == 127)
+					return VisualizerResult::Failure("Failed to execute visualizer", dataPath, 127);
+				return VisualizerResult::Failure("Visualizer exited with code " + std::to_string(exitCode), dataPath, exitCode);
+			}
+			return VisualizerResult::Failure("Visualizer terminated abnormally", dataPath, -1);
+		}
+
 		// Safe process execution without shell - POSIX implementation
 		/// @brief Execute visualizer on POSIX with optional timeout
 		/// @param executable Path to the visualizer executable
@@ -424,15 +448,15 @@ namespace MML {
 				// Infinite wait mode (matches Windows INFINITE behavior)
 				// Wait for the visualizer to close before returning
 				int status;
-				pid_t result = waitpid(pid, &status, 0);  // Blocking wait
-				if (result == pid && WIFEXITED(status)) {
-					int exitCode = WEXITSTATUS(status);
-					if (exitCode == 127) {
-						return VisualizerResult::Failure("Failed to execute visualizer", 
-																					  args.empty() ? "" : args[0], 127);
-					}
+				pid_t result;
+				do {
+					result = waitpid(pid, &status, 0);  // Blocking wait
+				} while (result < 0 && errno == EINTR);
+				if (result != pid) {
+					return VisualizerResult::Failure("Error waiting for process", 
+																				  args.empty() ? "" : args[0], -1);
 				}
-				return VisualizerResult::Success(args.empty() ? "" : args[0]);
+				return ResultFromStatus(status, args.empty() ? "" : args[0]);
 			}
 			
 			// Wait with timeout using polling (portable approach)
@@ -445,17 +469,9 @@ namespace MML {
 				
 				if (result == pid) {
 					// Child has exited
-					if (WIFEXITED(status)) {
-						int exitCode = WEXITSTATUS(status);
-						if (exitCode == 127) {
-							return VisualizerResult::Failure("Failed to execute visualizer", 
-																						  args.empty() ? "" : args[0], 127);
-						}
-						return VisualizerResult::Success(args.empty() ? "" : args[0]);
-					}
-					return VisualizerResult::Success(args.empty() ? "" : args[0]);
+					return ResultFromStatus(status, args.empty() ? "" : args[0]);
 				}
-				else if (result < 0) {
+				else if (result < 0 && errno != EINTR) {
 					// Error occurred
 					return VisualizerResult::Failure("Error waiting for process", 
 																		  args.empty() ? "" : args[0], -1);
@@ -573,6 +589,9 @@ namespace MML {
 																																 std::vector<std::string> func_legend, Real x1, Real x2, int numPoints,
 																																 std::string fileName) {
 			// for each function, serialize data to file, with name generated from fileName
+			if (func_legend.size() != funcs.size()) {
+				return VisualizerResult::Failure("Number of legend entries does not match number of functions", fileName);
+			}
 			std::vector<std::string> fileNames;
 			int i = 0;
 			for (auto& func : funcs) {
@@ -773,6 +792,9 @@ namespace MML {
 		static VisualizerResult VisualizeMultiParamCurve2D(std::vector<IRealToVectorFunction<2>*> curves, std::vector<std::string> legend,
 																											 Real t1, Real t2, int numPoints, std::string fileName) {
 			// for each function, serialize data to file, with name generated from fileName
+			if (legend.size() != curves.size()) {
+				return VisualizerResult::Failure("Number of legend entries does not match number of curves", fileName);
+			}
 			std::vector<std::string> fileNames;
 			int i = 0;
 			for (auto& curve : curves) {
@@ -1046,7 +1068,7 @@ namespace MML {
 		/// @return VisualizerResult indicating success or failure
 		static VisualizerResult VisualizeRigidBodyTrajectory(std::string fileName) {
 			// First try as-is (for full paths)
-			if (std::filesystem::exists(fileName)) {
+			if (PathExists(fileName)) {
 				return ExecuteVisualizer(pathRigidBodyViz(), {fileName});
 			}
 			// Try in results folder
@@ -1069,7 +1091,7 @@ namespace MML {
 			std::vector<std::string> validPaths;
 			for (const auto& fileName : fileNames) {
 				// First try as-is (for full paths)
-				if (std::filesystem::exists(fileName)) {
+				if (PathExists(fileName)) {
 					validPaths.push_back(fileName);
 					continue;
 				}
-- 
2.43.0


From 651fe19888e5d8905099f74f039e3c0ef4b08fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:14 +0000
Subject: [PATCH 52/62] fix: surface area of small spheroids was that of a
 sphere [C27]

---
 .../Geometry/GeometryCore/Geometry3DShapes.h     | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index f111ee0..9563805 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -313,18 +313,16 @@ namespace MML {
 
 		// Surface area (exact formula involves elliptic integrals, using approximation)
 		Real SurfaceArea() const {
-			if (IsSphere())
-				return 4.0 * Constants::PI * _equatorial * _equatorial;
-
 			Real a = _equatorial, c = _polar;
-			if (IsOblate()) {
-				Real e = Eccentricity();
+			// The size of the body must not decide its shape, so no absolute tolerance here
+			Real e = (a == c) ? Real(0) : Eccentricity();
+			if (e == 0)
+				return 4.0 * Constants::PI * a * a;
+
+			if (IsOblate())
 				return 2.0 * Constants::PI * a * a * (1.0 + (1.0 - e * e) / e * atanh(e));
-			} else // Prolate
-			{
-				Real e = Eccentricity();
+			else // Prolate
 				return 2.0 * Constants::PI * a * a * (1.0 + c / (a * e) * asin(e));
-			}
 		}
 
 		static Spheroid Earth() {
-- 
2.43.0


From 64bc8593a5161dcdf603b7abb55b968d761d3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:37 +0000
Subject: [PATCH 53/62] fix: sampled functions and curves are written up to
 exactly their end point [C34]

---
 mml/tools/serializer/SerializerCurves.h    |  2 +-
 mml/tools/serializer/SerializerFunctions.h | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index f1e41ec..97e1c9e 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -50,7 +50,7 @@ namespace MML
 				Real delta = (t2 - t1) / (numPoints - 1);
 				for (int n = 0; n < numPoints; n++)
 				{
-					Real t = t1 + n * delta;
+					Real t = (n == numPoints - 1) ? t2 : t1 + n * delta;
 					file << t << " ";
 					auto val = f(t);
 					for (int i = 0; i < N; i++)
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index a282d38..0eb9360 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -50,7 +50,7 @@ namespace MML
 				Real step = (x2 - x1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + i * step;
+					Real x = (i == numPoints - 1) ? x2 : x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
 				return StreamResult(out, "Success");
@@ -137,7 +137,7 @@ namespace MML
 				Real step = (x2 - x1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + i * step;
+					Real x = (i == numPoints - 1) ? x2 : x1 + i * step;
 					out << f(x) << std::endl;
 				}
 				return StreamResult(out, "Success");
@@ -189,7 +189,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					out << x << " ";
 
 					for (size_t j = 0; j < funcs.size(); j++)
@@ -248,7 +248,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
@@ -290,7 +290,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
@@ -332,7 +332,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
-- 
2.43.0


From 52b3f2fc60b9df043029612be6e31209a386e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:48 +0000
Subject: [PATCH 54/62] fix: Richardson extrapolation with no steps allowed
 read outside its tableau [C12]

---
 mml/core/RichardsonExtrapolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/RichardsonExtrapolation.h b/mml/core/RichardsonExtrapolation.h
index a278f6d..7bfce82 100644
--- a/mml/core/RichardsonExtrapolation.h
+++ b/mml/core/RichardsonExtrapolation.h
@@ -126,7 +126,7 @@ namespace MML
 			const Real con2 = con * con;
 			const Real big = std::numeric_limits<Real>::max();
 
-			if (std::abs(h0) < Precision::DivisionSafetyThreshold)
+			if (max_iter < 1 || std::abs(h0) < Precision::DivisionSafetyThreshold)
 				return RichardsonResult(0.0, big, 0, false);
 
 			// Allocate tableau (triangular, but use full matrix for clarity)
-- 
2.43.0


From e393893c9b57675a28c06ee98ae78c8abf7040dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:40 +0000
Subject: [PATCH 55/62] fix: a long run of digits in a table cell or a JSON
 number overflowed the stack [C35]

---
 mml/tools/data_loader/DataLoaderJSON.h    | 19 ++++++++--
 mml/tools/data_loader/DataLoaderParsing.h | 45 ++++++++++++++++++++---
 2 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index 8a86574..5c70c55 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -19,7 +19,6 @@
 #include <fstream>
 #include <limits>
 #include <map>
-#include <regex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -135,6 +134,21 @@ namespace MML {
 				}
 			}
 
+			/// @brief True for -?(0|[1-9]digits)[.digits][(e|E)[+-]digits]
+			static bool IsJsonNumber(const std::string& text) {
+				const size_t start = (!text.empty() && text[0] == '-') ? 1 : 0;
+				size_t pos = SkipDigits(text, start);
+				if (pos == start || (text[start] == '0' && pos > start + 1)) return false;
+				if (pos < text.size() && text[pos] == '.') {
+					const size_t fraction = pos + 1;
+					pos = SkipDigits(text, fraction);
+					if (pos == fraction) return false;
+				}
+				if (pos < text.size() && (text[pos] == 'e' || text[pos] == 'E'))
+					return IsIntegerText(text.substr(pos + 1));
+				return pos == text.size();
+			}
+
 			std::string ParseNumber() {
 				SkipWhitespace();
 				size_t start = pos;
@@ -143,9 +157,8 @@ namespace MML {
 				       json[pos] == 'e' || json[pos] == 'E' || json[pos] == '+' || json[pos] == '-')) {
 					++pos;
 				}
-				static const std::regex numberPattern(R"(-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?)");
 				const std::string number = json.substr(start, pos - start);
-				if (!std::regex_match(number, numberPattern))
+				if (!IsJsonNumber(number))
 					throw DataError("JSON: Invalid number '" + number + "'");
 				return number;
 			}
diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 4e6c402..4381881 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -29,6 +29,38 @@ namespace MML {
 		/////////////////////////////////////////////////////////////////////////////////////
 		///                              TYPE INFERENCE                                    ///
 		/////////////////////////////////////////////////////////////////////////////////////
+		/// @brief Advance past decimal digits
+		/// @return Index of the first character at or after `pos` that is not a digit
+		inline size_t SkipDigits(const std::string& text, size_t pos) {
+			while (pos < text.size() && text[pos] >= '0' && text[pos] <= '9') ++pos;
+			return pos;
+		}
+
+		// Digit runs are scanned by hand: std::regex recurses once per character,
+		// so a long enough cell would exhaust the stack.
+
+		/// @brief True for [+-]digits
+		inline bool IsIntegerText(const std::string& text) {
+			const size_t start = (!text.empty() && (text[0] == '+' || text[0] == '-')) ? 1 : 0;
+			return text.size() > start && SkipDigits(text, start) == text.size();
+		}
+
+		/// @brief True for [+-]digits[.digits][(e|E)[+-]digits] with digits before or after the point
+		inline bool IsRealText(const std::string& text) {
+			const size_t start = (!text.empty() && (text[0] == '+' || text[0] == '-')) ? 1 : 0;
+			size_t pos = SkipDigits(text, start);
+			size_t digits = pos - start;
+			if (pos < text.size() && text[pos] == '.') {
+				const size_t fraction = pos + 1;
+				pos = SkipDigits(text, fraction);
+				digits += pos - fraction;
+			}
+			if (digits == 0) return false;
+			if (pos < text.size() && (text[pos] == 'e' || text[pos] == 'E'))
+				return IsIntegerText(text.substr(pos + 1));
+			return pos == text.size();
+		}
+
 		/// @brief Infer column type from string values
 		/// @param values Sample of string values from the column
 		/// @return Most appropriate ColumnType for the data
@@ -41,10 +73,8 @@ namespace MML {
 			size_t missingCount = 0;
 
 			// Patterns
-			std::regex intPattern(R"(^[-+]?\d+$)");
-			std::regex realPattern(R"(^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$)");
 			std::regex datePattern(R"(^\d{4}[-/]\d{1,2}[-/]\d{1,2}$)");
-			std::regex timePattern(R"(^\d{1,2}:\d{2}(:\d{2})?(\.\d+)?$)");
+			std::regex timePattern(R"(^\d{1,2}:\d{2}(:\d{2})?$)");
 			std::regex dateTimePattern(R"(^\d{4}[-/]\d{1,2}[-/]\d{1,2}[T ]\d{1,2}:\d{2}(:\d{2})?$)");
 
 			for (const auto& val : values) {
@@ -59,7 +89,7 @@ namespace MML {
 				}
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
-				if (std::regex_match(trimmed, intPattern)) {
+				if (IsIntegerText(trimmed)) {
 					// Integers that do not fit into an int can only be represented as reals
 					errno = 0;
 					const long long intVal = std::strtoll(trimmed.c_str(), nullptr, 10);
@@ -69,7 +99,7 @@ namespace MML {
 						++realCount;
 					continue;
 				}
-				if (std::regex_match(trimmed, realPattern)) {
+				if (IsRealText(trimmed)) {
 					++realCount;
 					continue;
 				}
@@ -92,7 +122,10 @@ namespace MML {
 					++dateCount;
 					continue;
 				}
-				if (std::regex_match(trimmed, timePattern)) {
+				const size_t point = trimmed.find('.');
+				const bool fractionOk = point == std::string::npos ||
+				                        (point + 1 < trimmed.size() && SkipDigits(trimmed, point + 1) == trimmed.size());
+				if (fractionOk && std::regex_match(trimmed.substr(0, point), timePattern)) {
 					++timeCount;
 					continue;
 				}
-- 
2.43.0


From 90b262cda2c631126addb15f15d5e68d5f5a6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:52 +0000
Subject: [PATCH 56/62] fix: the maximum error of a Chebyshev approximation
 could not be sampled on some intervals [C39]

---
 mml/algorithms/ChebyshevApproximation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 197f7eb..92bb400 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -389,7 +389,7 @@ namespace MML {
 		Real MaxError(const IRealFunction& func, int numSamples = 1000) const {
 			Real maxErr = 0.0;
 			for (int i = 0; i <= numSamples; i++) {
-				Real x = _a + i * (_b - _a) / numSamples;
+				Real x = i < numSamples ? _a + i * (_b - _a) / numSamples : _b; // rounding must not step past b
 				Real err = std::abs((*this)(x)-func(x));
 				if (err > maxErr)
 					maxErr = err;
@@ -400,7 +400,7 @@ namespace MML {
 		Real MaxError(std::function<Real(Real)> func, int numSamples = 1000) const {
 			Real maxErr = 0.0;
 			for (int i = 0; i <= numSamples; i++) {
-				Real x = _a + i * (_b - _a) / numSamples;
+				Real x = i < numSamples ? _a + i * (_b - _a) / numSamples : _b; // rounding must not step past b
 				Real err = std::abs((*this)(x)-func(x));
 				if (err > maxErr)
 					maxErr = err;
-- 
2.43.0


From e71fd0988deba73cc907b718ea9a19ded26af6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:28 +0000
Subject: [PATCH 57/62] fix: the enclosing circle of many points overflowed the
 stack [C25]

---
 mml/algorithms/CompGeometry/Circles.h | 78 +++++++++++++--------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Circles.h b/mml/algorithms/CompGeometry/Circles.h
index f5b8131..456a0f4 100644
--- a/mml/algorithms/CompGeometry/Circles.h
+++ b/mml/algorithms/CompGeometry/Circles.h
@@ -66,47 +66,48 @@ namespace CompGeometry {
 			return p.Dist(center) <= radius + EPSILON;
 		}
 
-		static void WelzlHelper(std::vector<Point2Cartesian>& points, std::vector<Point2Cartesian>& boundary, 
-		                        int n, Point2Cartesian& center, Real& radius, std::mt19937& rng) {
-			if (n == 0 || boundary.size() == 3) {
-				if (boundary.empty()) {
-					center = Point2Cartesian(0, 0);
-					radius = 0;
-				} else if (boundary.size() == 1) {
-					center = boundary[0];
-					radius = 0;
-				} else if (boundary.size() == 2) {
-					CircleFrom2Points(boundary[0], boundary[1], center, radius);
-				} else {
-					if (!CircleFrom3Points(boundary[0], boundary[1], boundary[2], center, radius)) {
-						Real d01 = boundary[0].Dist(boundary[1]);
-						Real d02 = boundary[0].Dist(boundary[2]);
-						Real d12 = boundary[1].Dist(boundary[2]);
-
-						if (d01 >= d02 && d01 >= d12)
-							CircleFrom2Points(boundary[0], boundary[1], center, radius);
-						else if (d02 >= d12)
-							CircleFrom2Points(boundary[0], boundary[2], center, radius);
-						else
-							CircleFrom2Points(boundary[1], boundary[2], center, radius);
-					}
-				}
+		// Smallest circle with all three points on its boundary; for collinear
+		// points the one spanned by the two farthest apart
+		static void CircleThroughBoundary(const Point2Cartesian& p0, const Point2Cartesian& p1,
+		                                  const Point2Cartesian& p2, Point2Cartesian& center, Real& radius) {
+			if (CircleFrom3Points(p0, p1, p2, center, radius))
 				return;
-			}
 
-			std::uniform_int_distribution<int> dist(0, n - 1);
-			int idx = dist(rng);
-			std::swap(points[idx], points[n - 1]);
-			Point2Cartesian p = points[n - 1];
+			Real d01 = p0.Dist(p1);
+			Real d02 = p0.Dist(p2);
+			Real d12 = p1.Dist(p2);
 
-			WelzlHelper(points, boundary, n - 1, center, radius, rng);
-
-			if (IsInsideCircle(p, center, radius))
-				return;
+			if (d01 >= d02 && d01 >= d12)
+				CircleFrom2Points(p0, p1, center, radius);
+			else if (d02 >= d12)
+				CircleFrom2Points(p0, p2, center, radius);
+			else
+				CircleFrom2Points(p1, p2, center, radius);
+		}
 
-			boundary.push_back(p);
-			WelzlHelper(points, boundary, n - 1, center, radius, rng);
-			boundary.pop_back();
+		// Welzl's algorithm on shuffled points, written without recursion: a point
+		// outside the circle of its predecessors lies on the boundary of the new one
+		static void WelzlIterative(const std::vector<Point2Cartesian>& points, Point2Cartesian& center, Real& radius) {
+			center = points[0];
+			radius = 0;
+
+			for (size_t i = 1; i < points.size(); i++) {
+				if (IsInsideCircle(points[i], center, radius))
+					continue;
+				center = points[i];
+				radius = 0;
+
+				for (size_t j = 0; j < i; j++) {
+					if (IsInsideCircle(points[j], center, radius))
+						continue;
+					CircleFrom2Points(points[i], points[j], center, radius);
+
+					for (size_t k = 0; k < j; k++) {
+						if (!IsInsideCircle(points[k], center, radius))
+							CircleThroughBoundary(points[i], points[j], points[k], center, radius);
+					}
+				}
+			}
 		}
 
 		// ========================================================================
@@ -191,9 +192,8 @@ namespace CompGeometry {
 
 			Point2Cartesian center;
 			Real radius;
-			std::vector<Point2Cartesian> boundary;
 
-			WelzlHelper(points, boundary, n, center, radius, rng);
+			WelzlIterative(points, center, radius);
 
 			return Circle2D(center, radius);
 		}
-- 
2.43.0


From 9e39a6e9e163cf8bca4053bc5c3c7528745609ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:28 +0000
Subject: [PATCH 58/62] fix: Student critical values lost or rejected very
 small significance levels [C21]

---
 mml/algorithms/Statistics/Distributions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 188e30a..3afbd08 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -439,8 +439,8 @@ namespace MML
 				if (alpha <= 0.0 || alpha >= 1.0)
 					throw StatisticsError("Alpha must be in (0, 1) in TDistribution::criticalValue");
 				
-				// Two-tailed: find t* where P(T > t*) = alpha/2
-				return inverseCdf(1.0 - alpha / 2.0);
+				// Two-tailed: find t* where P(T < -t*) = alpha/2; going through 1 - alpha/2 would round small alphas away
+				return -inverseCdf(alpha / 2.0);
 			}
 
 			/// @brief Mean of the distribution (if it exists)
-- 
2.43.0


From 0a210958208e10ae25a14c1918df247afb72d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:25 +0000
Subject: [PATCH 59/62] fix: simultaneous events were lost or repeated when one
 of them restarted the integration [C17]

---
 .../ODESolvers/ODESolverEventDetection.h      | 47 ++++++++++++++++---
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index 6d63523..f63af32 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -108,6 +108,8 @@ namespace MML {
 			// Evaluate event functions at start
 			Vector<Real> gPrev(numEvents), gNew(numEvents);
 			sys.eventFunctions(t, x, gPrev);
+			// Values an event may still show without a new crossing, until it has left them
+			Vector<Real> residual(numEvents, Real(0));
 
 			// Store initial point
 			int outputIdx = 0;
@@ -156,14 +158,15 @@ namespace MML {
 					[](const std::pair<Real, int>& a, const std::pair<Real, int>& b) { return a.first < b.first; });
 
 				bool restarted = false;
-				for (const auto& crossing : crossings) {
-					Real eventTime = crossing.first;
-					int eventIndex = crossing.second;
+				for (size_t c = 0; c < crossings.size(); ++c) {
+					Real eventTime = crossings[c].first;
+					int eventIndex = crossings[c].second;
 
 					Vector<Real> xEvent = (eventTime == t) ? x : this->_stepper.interpolate(eventTime);
 					Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
 					EventDirection actualDir = gPrev[eventIndex] < 0 ? EventDirection::Increasing : EventDirection::Decreasing;
 					result.events.push_back(EventInfo(eventIndex, eventTime, xEvent, actualDir, gEvent));
+					residual[eventIndex] = std::max(eventTol, 2 * std::abs(gEvent));
 
 					EventAction action = sys.getEventAction(eventIndex);
 					if (action == EventAction::Continue)
@@ -183,15 +186,42 @@ namespace MML {
 					if (stalledRestarts > maxStalledRestarts)
 						throw ODESolverError("Events accumulate without advancing time in integrateWithEvents");
 
-					sys.handleEvent(eventIndex, eventTime, xEvent);
 					t = eventTime;
 					x = xEvent;
+					sys.handleEvent(eventIndex, t, x);
+
+					// Later crossings that already show at the event time happen together with it:
+					// the restarted integration begins on them or beyond and would not find them again
+					for (size_t k = c + 1; k < crossings.size() && !result.terminatedByEvent; ++k) {
+						int other = crossings[k].second;
+						Real gOther = sys.eventFunction(other, eventTime, xEvent);
+						bool notYet = gPrev[other] < 0 ? gOther < 0 : gOther > 0;
+						if (notYet && std::abs(gOther) > eventTol && crossings[k].first - eventTime > eventTol)
+							continue;
+						actualDir = gPrev[other] < 0 ? EventDirection::Increasing : EventDirection::Decreasing;
+						result.events.push_back(EventInfo(other, eventTime, xEvent, actualDir, gOther));
+						residual[other] = std::max(eventTol, 2 * std::abs(gOther));
+						action = sys.getEventAction(other);
+						if (action == EventAction::Restart)
+							sys.handleEvent(other, t, x);
+						else if (action == EventAction::Stop)
+							result.terminatedByEvent = true;
+					}
+					if (result.terminatedByEvent) {
+						finish(t, x);
+						return result;
+					}
+
 					sys.derivs(t, x, dxdt);
 					this->_stats.totalFuncEvals++;
 					sys.eventFunctions(t, x, gPrev);
-					// The event just handled is at its zero: its residual must not trigger it again
-					if (std::abs(gPrev[eventIndex]) <= std::max(eventTol, 2 * std::abs(gEvent)))
-						gPrev[eventIndex] = 0;
+					// An event just handled is at its zero: its residual must not trigger it again
+					for (int i = 0; i < numEvents; ++i) {
+						if (std::abs(gPrev[i]) > residual[i])
+							residual[i] = 0;
+						else
+							gPrev[i] = 0;
+					}
 					this->_stepper.resetFSAL();
 					if (t < tEnd)
 						h = this->initialStep(x, t, tEnd, eps, 0);
@@ -203,6 +233,9 @@ namespace MML {
 
 				fillOutput(t);
 				gPrev = gNew;
+				for (int i = 0; i < numEvents; ++i)
+					if (std::abs(gPrev[i]) > residual[i])
+						residual[i] = 0;
 			}
 
 			// Ensure final point is captured
-- 
2.43.0


From 67c4da35bc4bb62db158eeea324dfa3e6953ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:44 +0000
Subject: [PATCH 60/62] fix: text files were written and read in the decimal
 format of the global locale [C34]

---
 mml/base/Vector/Vector.h                    | 3 +++
 mml/tools/serializer/MatrixIO.h             | 6 ++++++
 mml/tools/serializer/SerializerBase.h       | 1 +
 mml/tools/serializer/SerializerCurves.h     | 5 +++++
 mml/tools/serializer/SerializerFieldLines.h | 4 ++++
 mml/tools/serializer/SerializerFunctions.h  | 7 +++++++
 mml/tools/serializer/SerializerODE.h        | 4 ++++
 mml/tools/serializer/SerializerSimulation.h | 3 +++
 mml/tools/serializer/SerializerSurfaces.h   | 5 +++++
 mml/tools/serializer/SerializerVectors.h    | 4 ++++
 10 files changed, 42 insertions(+)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 8477cf9..fb802ff 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -19,6 +19,7 @@
 #include <initializer_list>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -594,6 +595,7 @@ namespace MML
 		static bool SaveToFile(const Vector& vec, const std::string& filename)
 		{
 			std::ofstream file(filename);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open()) return false;
 			
 			file << vec._elems.size() << std::endl;
@@ -611,6 +613,7 @@ namespace MML
 		static bool LoadFromFile(const std::string& filename, Vector& outVec)
 		{
 			std::ifstream file(filename);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open()) return false;
 			
 			size_t size = 0;
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 329da17..b719acc 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -16,6 +16,7 @@
 #include "mml/base/Matrix/Matrix.h"
 
 #include <iostream>
+#include <locale>
 #include <fstream>
 #include <sstream>
 #include <vector>
@@ -44,6 +45,7 @@ namespace Serializer
 	bool LoadMatrixFromFile(const std::string& filename, Matrix<Type>& outMat)
 	{
 		std::ifstream file(filename);
+		file.imbue(std::locale::classic()); // the format does not follow the global locale
 		if (!file.is_open()) {
 			std::cerr << "Error: could not open file " << filename << " for reading." << std::endl;
 			return false;
@@ -89,6 +91,7 @@ namespace Serializer
 	bool SaveMatrixToFile(const Matrix<Type>& mat, const std::string& filename)
 	{
 		std::ofstream file(filename);
+		file.imbue(std::locale::classic()); // the format does not follow the global locale
 		if (!file.is_open()) {
 			std::cerr << "Error: could not create file " << filename << " for writing." << std::endl;
 			return false;
@@ -120,6 +123,7 @@ namespace Serializer
 	bool LoadMatrixFromCSV(const std::string& filename, Matrix<Type>& outMat)
 	{
 		std::ifstream file(filename);
+		file.imbue(std::locale::classic()); // the format does not follow the global locale
 		if (!file.is_open()) return false;
 		
 		std::vector<std::vector<Type>> data;
@@ -131,6 +135,7 @@ namespace Serializer
 			std::string cell;
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
+				cellStream.imbue(std::locale::classic());
 				Type value{};
 				if (!(cellStream >> value) || !(cellStream >> std::ws).eof()) {
 					std::cerr << "Error: invalid value '" << cell << "' in " << filename << std::endl;
@@ -160,6 +165,7 @@ namespace Serializer
 	bool SaveMatrixToCSV(const Matrix<Type>& mat, const std::string& filename)
 	{
 		std::ofstream file(filename);
+		file.imbue(std::locale::classic()); // the format does not follow the global locale
 		if (!file.is_open()) return false;
 		
 		for (int i = 0; i < mat.rows(); ++i) {
diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index 763188b..a40a54d 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -16,6 +16,7 @@
 
 #include <fstream>
 #include <iomanip>
+#include <locale>
 #include <string>
 #include <vector>
 
diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index 97e1c9e..3ce6474 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -38,6 +38,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "t1 must be < t2"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -78,6 +79,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "points vector must have at least 2 elements"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -122,6 +124,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "vals vector size must be >= numPoints"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -163,6 +166,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "vals vector size must be >= points size"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -220,6 +224,7 @@ namespace MML
 			}
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open()) {
 				return { false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName };
 			}
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 766a8db..997df2e 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -65,6 +65,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "lines vector cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -112,6 +113,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "lines vector cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -163,6 +165,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "lines vector cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -206,6 +209,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "lines vector cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 0eb9360..909e6b0 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -70,6 +70,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -112,6 +113,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -156,6 +158,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -214,6 +217,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -239,6 +243,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -281,6 +286,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -323,6 +329,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 60dbf11..dcf2836 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -41,6 +41,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -77,6 +78,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -120,6 +122,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -163,6 +166,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index cb2802c..050fa56 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -57,12 +57,14 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "saveEveryNSteps must be >= 1"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
 			try
 			{
 				std::ostringstream buffer;
+				buffer.imbue(std::locale::classic());
 				buffer << "PARTICLE_SIMULATION_DATA_2D\n";
 				buffer << "Width: " << width << "\n";
 				buffer << "Height: " << height << "\n";
@@ -130,6 +132,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "saveEveryNSteps must be >= 1"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index bd69289..5f33408 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -53,6 +53,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -108,6 +109,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -181,6 +183,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -232,6 +235,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -299,6 +303,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index 02aa8ba..deeb2fd 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -37,6 +37,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -78,6 +79,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -137,6 +139,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
@@ -183,6 +186,7 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 
 			std::ofstream file(fileName);
+			file.imbue(std::locale::classic()); // the format does not follow the global locale
 			if (!file.is_open())
 				return {false, SerializeError::FILE_NOT_OPENED, "Cannot open file: " + fileName};
 
-- 
2.43.0


From f9931ec4f91bd40166e463bbf435d15fa5f95e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:37 +0000
Subject: [PATCH 61/62] fix: a thread pool whose threads could not all be
 started terminated the program [C32]

---
 mml/tools/ThreadPool.h | 122 ++++++++++++++++++++++-------------------
 1 file changed, 67 insertions(+), 55 deletions(-)

diff --git a/mml/tools/ThreadPool.h b/mml/tools/ThreadPool.h
index ff39a59..971c685 100644
--- a/mml/tools/ThreadPool.h
+++ b/mml/tools/ThreadPool.h
@@ -112,6 +112,20 @@ namespace MML
 		/// Number of worker threads in the pool
 		size_t num_threads;
 
+		void stop_and_join()
+		{
+			// Set stop flag and notify under lock, then release BEFORE joining
+			{
+				std::lock_guard<std::mutex> lock(queue_mutex);
+				stop.store(true);
+			}
+			condition.notify_all();
+
+			// Now safe to join - workers can acquire mutex to wake up
+			for (std::thread& worker : workers)
+				worker.join();
+		}
+
 	public:
 		/// @brief Construct a thread pool with the specified number of worker threads
 		/// @param numThreads Number of worker threads to create (typically std::thread::hardware_concurrency())
@@ -121,79 +135,77 @@ namespace MML
 			if (numThreads == 0)
 				throw std::invalid_argument("ThreadPool requires at least 1 thread");
 				
-			for (size_t i = 0; i < numThreads; ++i)
-				workers.emplace_back([this]
-					{
-						while (true) {
-							std::function<void()> task;
-							{
-								std::unique_lock<std::mutex> lock(this->queue_mutex);
+			try {
+				for (size_t i = 0; i < numThreads; ++i)
+					workers.emplace_back([this]
+						{
+							while (true) {
+								std::function<void()> task;
+								{
+									std::unique_lock<std::mutex> lock(this->queue_mutex);
 
-								this->condition.wait(lock, [this] { return this->stop.load() || !this->tasks.empty(); });
+									this->condition.wait(lock, [this] { return this->stop.load() || !this->tasks.empty(); });
 
-								if (this->stop.load() && this->tasks.empty())
-									return;
+									if (this->stop.load() && this->tasks.empty())
+										return;
 
-								task = std::move(this->tasks.front());
-								this->tasks.pop();
-								++this->in_flight_tasks;
-							}
-							
-							// Execute task with exception capture
-							try {
-								task();
-							}
-							catch (...) {
-								// Capture exception
-								std::exception_ptr eptr = std::current_exception();
-								{
-									std::lock_guard<std::mutex> lock(this->exceptions_mutex);
-									this->exceptions.push(eptr);
+									task = std::move(this->tasks.front());
+									this->tasks.pop();
+									++this->in_flight_tasks;
 								}
-								// Invoke error callback if set (copy under lock to avoid data race)
-								std::function<void(std::exception_ptr)> cb;
-								{
-									std::lock_guard<std::mutex> lock(this->exceptions_mutex);
-									cb = this->error_callback;
+							
+								// Execute task with exception capture
+								try {
+									task();
 								}
-								if (cb) {
-									try {
-										cb(eptr);
+								catch (...) {
+									// Capture exception
+									std::exception_ptr eptr = std::current_exception();
+									{
+										std::lock_guard<std::mutex> lock(this->exceptions_mutex);
+										this->exceptions.push(eptr);
 									}
-									catch (...) {
-										// Ignore exceptions from callback
+									// Invoke error callback if set (copy under lock to avoid data race)
+									std::function<void(std::exception_ptr)> cb;
+									{
+										std::lock_guard<std::mutex> lock(this->exceptions_mutex);
+										cb = this->error_callback;
+									}
+									if (cb) {
+										try {
+											cb(eptr);
+										}
+										catch (...) {
+											// Ignore exceptions from callback
+										}
 									}
 								}
-							}
 							
-							// Release the task's captured state before it counts as finished
-							task = nullptr;
+								// Release the task's captured state before it counts as finished
+								task = nullptr;
 
-							// Track task completion and notify waiters
-							if (--this->in_flight_tasks == 0) {
-								std::lock_guard<std::mutex> lock(this->queue_mutex);
-								if (this->tasks.empty()) {
-									this->tasks_done_condition.notify_all();
+								// Track task completion and notify waiters
+								if (--this->in_flight_tasks == 0) {
+									std::lock_guard<std::mutex> lock(this->queue_mutex);
+									if (this->tasks.empty()) {
+										this->tasks_done_condition.notify_all();
+									}
 								}
 							}
-						}
-					});
+						});
+			}
+			catch (...) {
+				// A thread that cannot be started must not bring down those already running
+				stop_and_join();
+				throw;
+			}
 		}
 		
 		/// @brief Destructor - waits for all pending tasks to complete before joining threads
 		/// @note Blocks until all queued and in-flight tasks finish execution
 		~ThreadPool()
 		{
-			// Set stop flag and notify under lock, then release BEFORE joining
-			{
-				std::lock_guard<std::mutex> lock(queue_mutex);
-				stop.store(true);
-			}
-			condition.notify_all();
-			
-			// Now safe to join - workers can acquire mutex to wake up
-			for (std::thread& worker : workers)
-				worker.join();
+			stop_and_join();
 		}
 
 		// Non-copyable and non-movable
-- 
2.43.0


From 32c4f9fae47fdc6040b492b1ead1e591254ba084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:37 +0000
Subject: [PATCH 62/62] fix: copies, resizes and graph edits that ran out of
 memory left shape and storage in disagreement [C47]

---
 mml/base/Graph.h                 | 19 +++++++++++++++----
 mml/base/Matrix/Matrix.h         |  8 +++++++-
 mml/base/Matrix/Matrix3D.h       | 22 ++++------------------
 mml/base/Matrix/MatrixBandDiag.h |  5 +++++
 mml/base/Matrix/MatrixSym.h      |  4 ++--
 mml/base/Matrix/MatrixTriDiag.h  |  6 ++++++
 mml/base/ODESystemSolution.h     | 19 +++++++++++++------
 7 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index 9437e65..8f348a1 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -176,7 +176,13 @@ namespace MML
 		{
 			size_t idx = _vertexData.size();
 			_vertexData.push_back(data);
-			_adjList.push_back({});
+			try {
+				_adjList.push_back({});
+			}
+			catch (...) {
+				_vertexData.pop_back(); // every vertex has an adjacency list
+				throw;
+			}
 			return idx;
 		}
 
@@ -221,13 +227,18 @@ namespace MML
 			}
 
 			_adjList[from].push_back(Edge<E>(to, weight));
-			++_numEdges;
 
 			if (_type == Type::Undirected && from != to)
 			{
-				_adjList[to].push_back(Edge<E>(from, weight));
-				// Note: we count undirected edge as 1 edge, not 2
+				try {
+					_adjList[to].push_back(Edge<E>(from, weight));
+				}
+				catch (...) {
+					_adjList[from].pop_back(); // no half of an edge is left behind
+					throw;
+				}
 			}
+			++_numEdges; // an undirected edge counts once
 		}
 
 		/// Check if edge exists from 'from' to 'to'
diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index bf90295..6cd1ccb 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -322,7 +322,13 @@ namespace MML
 		///////////////////////          Assignment operators              //////////////////////
 		
 		/// @brief Copy assignment
-		Matrix& operator=(const Matrix& m) = default;
+		Matrix& operator=(const Matrix& m)
+		{
+			_data = m._data; // first: if it fails, the shape still describes the storage
+			_rows = m._rows;
+			_cols = m._cols;
+			return *this;
+		}
 		
 		/// @brief Move assignment
 		Matrix& operator=(Matrix&& m) noexcept
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index 54d6bbc..54a5a56 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -174,18 +174,8 @@ namespace MML {
 
 		/// @brief Copy assignment (deep copy).
 		Matrix3D& operator=(const Matrix3D& other) {
-			if (this != &other) {
-				_dim1 = other._dim1;
-				_dim2 = other._dim2;
-				_dim3 = other._dim3;
-				_data = other._data;
-				if (!_data.empty())
-					BuildPointers();
-				else {
-					_rows.clear();
-					_slices.clear();
-				}
-			}
+			if (this != &other)
+				*this = Matrix3D(other); // a failed copy leaves this matrix as it was
 			return *this;
 		}
 
@@ -310,9 +300,7 @@ namespace MML {
 			if (d1 == _dim1 && d2 == _dim2 && d3 == _dim3)
 				return;
 			if (d1 > 0 && d2 > 0 && d3 > 0) {
-				_data.assign(ValidateDims(d1, d2, d3), Type{});
-				_dim1 = d1; _dim2 = d2; _dim3 = d3;
-				BuildPointers();
+				*this = Matrix3D(d1, d2, d3); // a failed resize leaves this matrix as it was
 			} else {
 				_dim1 = _dim2 = _dim3 = 0;
 				_data.clear();
@@ -328,9 +316,7 @@ namespace MML {
 		/// @param initVal Value to initialize all elements.
 		void Resize(int d1, int d2, int d3, const Type& initVal) {
 			if (d1 > 0 && d2 > 0 && d3 > 0) {
-				_data.assign(ValidateDims(d1, d2, d3), initVal);
-				_dim1 = d1; _dim2 = d2; _dim3 = d3;
-				BuildPointers();
+				*this = Matrix3D(d1, d2, d3, initVal); // a failed resize leaves this matrix as it was
 			} else {
 				_dim1 = _dim2 = _dim3 = 0;
 				_data.clear();
diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index a619a4b..7d33cac 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -122,6 +122,11 @@ namespace MML {
 			if (m1 < 0 || m2 < 0 || data.rows() != dim || data.cols() - m1 - 1 != m2)
 				throw MatrixDimensionError("BandDiagonalMatrix constructor: data dimensions must be dim x (m1+m2+1)");
 		}
+		BandDiagonalMatrix(const BandDiagonalMatrix&) = default;
+		BandDiagonalMatrix(BandDiagonalMatrix&&) = default;
+		BandDiagonalMatrix& operator=(BandDiagonalMatrix&&) = default;
+		/// @brief Copy assignment (a failed copy leaves this matrix as it was)
+		BandDiagonalMatrix& operator=(const BandDiagonalMatrix& other) { return *this = BandDiagonalMatrix(other); }
 
 		/// /** @name Element Access
 		/// @{ */
diff --git a/mml/base/Matrix/MatrixSym.h b/mml/base/Matrix/MatrixSym.h
index 38552e0..8946c87 100644
--- a/mml/base/Matrix/MatrixSym.h
+++ b/mml/base/Matrix/MatrixSym.h
@@ -268,8 +268,8 @@ namespace MML
 			}
 
 			validateDimension(newDim);
-			_dim = newDim;
 			_data.assign(numElements(newDim), Type{0});
+			_dim = newDim; // only once the storage is there
 		}
 
 		/// @brief Resizes the matrix with optional data preservation.
@@ -539,8 +539,8 @@ namespace MML
 		/// @brief Copy assignment.
 		MatrixSym& operator=(const MatrixSym& other) {
 			if (this != &other) {
+				_data = other._data; // first: if it fails, the dimension still describes the storage
 				_dim = other._dim;
-				_data = other._data;
 			}
 			return *this;
 		}
diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 51c6b73..1d5f420 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -46,6 +46,12 @@ namespace MML
 				throw MatrixDimensionError("TridiagonalMatrix constructor: vector dimensions must match matrix dimension");
 		}
 
+		TridiagonalMatrix(const TridiagonalMatrix&) = default;
+		TridiagonalMatrix(TridiagonalMatrix&&) = default;
+		TridiagonalMatrix& operator=(TridiagonalMatrix&&) = default;
+		/// @brief Copy assignment (a failed copy leaves this matrix as it was)
+		TridiagonalMatrix& operator=(const TridiagonalMatrix& other) { return *this = TridiagonalMatrix(other); }
+
 		TridiagonalMatrix(int dim, std::initializer_list<Type> values) : _dim(dim), _belowDiag(dim), _diag(dim), _aboveDiag(dim)
 		{
 			if (dim < 2 || values.size() != static_cast<size_t>(dim) * 3 - 2)
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 4a343e9..075d53d 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -41,14 +41,21 @@ namespace MML
 		/// @brief Extend storage capacity using exponential growth (1.5x)
 		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
+			int newSize = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
 			// resizing the storage while preserving old values
-			_tval.Resize(_totalSavedSteps, true);
-			_xval.Resize(_sysDim, _totalSavedSteps, true);
+			_tval.Resize(newSize, true);
+			_xval.Resize(_sysDim, newSize, true);
+			_totalSavedSteps = newSize; // only once the storage is there
 		}
 
 	public:
+		ODESystemSolution(const ODESystemSolution&) = default;
+		ODESystemSolution(ODESystemSolution&&) = default;
+		ODESystemSolution& operator=(ODESystemSolution&&) = default;
+		/// @brief Copy assignment (a failed copy leaves this solution as it was)
+		ODESystemSolution& operator=(const ODESystemSolution& other) { return *this = ODESystemSolution(other); }
+
 		/// @brief Construct solution container with specified capacity
 		/// @param x1 Initial time
 		/// @param x2 Final time
@@ -100,9 +107,9 @@ namespace MML
 		/// @param n Number of points to reserve space for
 		void reserve(int n) {
 			if (n > _totalSavedSteps) {
-				_totalSavedSteps = n;
-				_tval.Resize(_totalSavedSteps, true);
-				_xval.Resize(_sysDim, _totalSavedSteps, true);
+				_tval.Resize(n, true);
+				_xval.Resize(_sysDim, n, true);
+				_totalSavedSteps = n; // only once the storage is there
 			}
 		}
 
-- 
2.43.0

