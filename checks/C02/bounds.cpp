// C02: shape / index contracts of the dense containers, under ASan+UBSan.
#include "mon.h"
#include "mml/base/BaseUtils.h"
using namespace MML;
static const int HUGE_I[] = {INT_MAX, INT_MIN, INT_MAX - 1, -1, -2, 1 << 30, 100001};
static int badIndex(mon::Rng& r, int n) { switch (r.i(0, 4)) { case 0: return n; case 1: return -1; case 2: return n + r.i(0, 5); case 3: return -r.i(1, 9); default: return r.coin() ? HUGE_I[r.i(0, 6)] < 0 || HUGE_I[r.i(0, 6)] >= n ? n + 7 : n : (r.coin() ? INT_MAX : INT_MIN); } }
template<class T> static T val(mon::Rng& r) { return T(r.i(-9, 9)); }
template<class T> static Vector<T> rv(mon::Rng& r, int n) { Vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = val<T>(r); return v; }
template<class T> static Matrix<T> rm(mon::Rng& r, int n, int m) { Matrix<T> v(n, m); for (auto& x : v) x = val<T>(r); return v; }
template<class T> static bool same(const Matrix<T>& a, const Matrix<T>& b) { return a.rows() == b.rows() && a.cols() == b.cols() && std::equal(a.begin(), a.end(), b.begin()); }
template<class T> static bool same(const Vector<T>& a, const Vector<T>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static int other(mon::Rng& r, int n, int lo = 0) { int k; do k = r.coin(0.6) ? n + r.i(-1, 1) : r.i(lo, n + 4); while (k == n || k < lo); return k; }

template<class T> void vec(mon::Case& c) {
	auto& r = c.r; int n = r.i(0, 12), k = other(r, n); c.in("n", n); c.in("k", k); Vector<T> a = rv<T>(r, n), b = rv<T>(r, k), a0 = a, b0 = b;
	c.throws<VectorDimensionError>([&] { (void)(a + b); }, "v+v"); c.throws<VectorDimensionError>([&] { (void)(a - b); }, "v-v"); c.throws<VectorDimensionError>([&] { a += b; }, "v+=v"); c.throws<VectorDimensionError>([&] { a -= b; }, "v-=v");
	c.throws<VectorDimensionError>([&] { (void)(a == b); }, "v==v"); c.throws<VectorDimensionError>([&] { (void)(a != b); }, "v!=v"); c.throws<VectorDimensionError>([&] { (void)a.IsEqualTo(b); }, "IsEqualTo");
	int bi = badIndex(r, n); c.in("bad", bi); c.throws<VectorDimensionError>([&] { a.at(bi) = T(1); }, "at"); const auto& ca = a; c.throws<VectorDimensionError>([&] { (void)ca.at(bi); }, "at const");
	for (int i = 0; i < n; ++i) c.check(a.at(i) == a0[i], "at valid");
	int neg = r.coin() ? -1 : (r.coin() ? INT_MIN : -r.i(1, 1000)); c.throws<VectorInitializationError>([&] { Vector<T> x(neg); }, "ctor neg"); c.throws<VectorInitializationError>([&] { Vector<T> x(neg, T(1)); }, "ctor neg val"); T dummy[1] = {T(0)}; c.throws<VectorInitializationError>([&] { Vector<T> x(neg, dummy); }, "ctor neg ptr");
	c.throws<std::exception>([&] { a.Resize(neg); }, "Resize neg");
	if constexpr (std::is_arithmetic_v<T>) c.throws<VectorDimensionError>([&] { (void)Vector<T>::UnitVector(n, bi); }, "UnitVector");
	c.check(same(a, a0) && same(b, b0), "operands intact after throw");
}
FAMILY(vec_bad, 1500) { vec<Real>(c); }
FAMILY(vec_bad_c, 700) { vec<Complex>(c); }

template<class T> void mat(mon::Case& c) {
	auto& r = c.r; int n = r.i(1, 7), m = r.i(1, 7); int n2 = n, m2 = m; switch (r.i(0, 2)) { case 0: n2 = other(r, n, 1); break; case 1: m2 = other(r, m, 1); break; default: n2 = other(r, n, 1); m2 = other(r, m, 1); } 
	bool empty = r.coin(0.1); Matrix<T> a = rm<T>(r, n, m), b = empty ? Matrix<T>() : rm<T>(r, n2, m2), a0 = a, b0 = b; c.in("n", n); c.in("m", m); c.in("n2", n2); c.in("m2", m2);
	typedef MatrixDimensionError D; typedef MatrixAccessBoundsError B;
	c.throws<D>([&] { (void)(a + b); }, "m+m"); c.throws<D>([&] { (void)(a - b); }, "m-m"); c.throws<D>([&] { a += b; }, "m+=m"); c.throws<D>([&] { a -= b; }, "m-=m"); c.check(!(a == b) && a != b && !a.IsEqualTo(b, 1e300), "== of different shapes");
	if (a.cols() != b.rows()) c.throws<D>([&] { (void)(a * b); }, "m*m"); else { auto p = a * b; c.check(p.rows() == n && p.cols() == m2, "product shape"); }
	int k = other(r, m), k2 = other(r, n); Vector<T> v = rv<T>(r, k), u = rv<T>(r, k2); c.throws<D>([&] { (void)(a * v); }, "m*v"); c.throws<D>([&] { (void)(u * a); }, "v*m");
	int bi = badIndex(r, n), bj = badIndex(r, m), gi = r.i(0, n - 1), gj = r.i(0, m - 1); c.in("bi", bi); c.in("bj", bj); const auto& ca = a;
	c.throws<B>([&] { a.at(bi, gj) = T(1); }, "at row"); c.throws<B>([&] { a.at(gi, bj) = T(1); }, "at col"); c.throws<B>([&] { (void)ca.at(bi, gj); }, "at row const"); c.throws<B>([&] { (void)ca.at(gi, bj); }, "at col const"); c.throws<B>([&] { (void)ca.at(bi, bj); }, "at both");
	c.throws<B>([&] { (void)a.VectorFromRow(bi); }, "VectorFromRow"); c.throws<B>([&] { (void)a.VectorFromColumn(bj); }, "VectorFromColumn"); c.throws<B>([&] { (void)a.row(bi); }, "row"); c.throws<B>([&] { (void)ca.row(bi); }, "row const"); c.throws<B>([&] { (void)a.col(bj); }, "col");
	Vector<T> gr = rv<T>(r, m), gc = rv<T>(r, n); c.throws<B>([&] { a.InitRowWithVector(bi, gr); }, "InitRow idx"); c.throws<D>([&] { a.InitRowWithVector(gi, v); }, "InitRow size"); c.throws<B>([&] { a.InitColWithVector(bj, gc); }, "InitCol idx"); c.throws<D>([&] { a.InitColWithVector(gj, u); }, "InitCol size");
	c.throws<D>([&] { a.SwapRows(bi, gi); }, "SwapRows"); c.throws<D>([&] { a.SwapRows(gi, bi); }, "SwapRows2"); c.throws<D>([&] { a.SwapCols(bj, gj); }, "SwapCols"); c.throws<D>([&] { a.SwapCols(gj, bj); }, "SwapCols2"); c.throws<D>([&] { a.SwapRows(bi, bi); }, "SwapRows same bad"); c.throws<D>([&] { a.SwapCols(bj, bj); }, "SwapCols same bad");
	auto badblk = [&](int& r0, int& c0, int& h, int& w) { r0 = r.i(0, n - 1); c0 = r.i(0, m - 1); h = r.i(1, n - r0); w = r.i(1, m - c0); switch (r.i(0, 7)) { case 0: r0 = badIndex(r, n); if (r0 >= 0 && r0 < n) r0 = n; break; case 1: c0 = badIndex(r, m); break; case 2: h = n - r0 + 1; break; case 3: w = m - c0 + 1; break; case 4: h = -r.i(0, 2); break; case 5: w = -r.i(0, 2); break; case 6: h = INT_MAX; break; default: w = INT_MAX; } };
	for (int q = 0; q < 4; ++q) { int r0, c0, h, w; badblk(r0, c0, h, w); std::ostringstream o; o << r0 << "," << c0 << "," << h << "," << w; c.note("blk " + o.str()); c.throws<D>([&] { (void)a.GetSubmatrix(r0, c0, h, w); }, "GetSubmatrix"); c.throws<D>([&] { (void)a.block(r0, c0, h, w); }, "block"); c.throws<D>([&] { (void)ca.block(r0, c0, h, w); }, "block const"); c.throws<D>([&] { Matrix<T> s(a, r0, c0, h, w); }, "sub ctor"); }
	if (n != m) { c.throws<D>([&] { a.Transpose(); }, "Transpose"); c.throws<D>([&] { (void)a.trace(); }, "trace"); c.throws<D>([&] { a.MakeUnitMatrix(); }, "MakeUnit"); c.throws<D>([&] { (void)a.diagonal(); }, "diagonal"); c.throws<D>([&] { (void)a.GetLower(); }, "GetLower"); c.throws<D>([&] { (void)a.GetUpper(); }, "GetUpper"); c.throws<D>([&] { a.Invert(); }, "Invert"); c.throws<D>([&] { (void)a.inverse(); }, "inverse"); c.ev("nonsquare"); }
	int z = r.coin() ? 0 : -r.i(1, 5), big = r.coin() ? 100001 : INT_MAX; c.throws<D>([&] { a.Resize(z, m); }, "Resize rows<=0"); c.throws<D>([&] { a.Resize(n, z); }, "Resize cols<=0"); c.throws<D>([&] { a.Resize(big, 1); }, "Resize too big"); c.throws<D>([&] { a.Resize(1, big, true); }, "Resize too big2"); c.throws<std::bad_alloc>([&] { a.Resize(100000, 100000); }, "Resize huge");
	int neg = r.coin() ? INT_MIN : -r.i(1, 9); c.throws<D>([&] { Matrix<T> x(neg, m); }, "ctor neg rows"); c.throws<D>([&] { Matrix<T> x(n, neg); }, "ctor neg cols"); c.throws<D>([&] { Matrix<T> x(n, neg, T(1)); }, "ctor neg val"); c.throws<D>([&] { Matrix<T> x(big, 2); }, "ctor too big"); c.throws<std::bad_alloc>([&] { Matrix<T> x(100000, 99999); }, "ctor huge"); T d1[1]; c.throws<D>([&] { Matrix<T> x(neg, 1, d1); }, "ctor ptr neg");
	c.throws<D>([&] { Matrix<T> x(2, 2, {T(1), T(2), T(3)}); }, "init list short strict"); c.throws<D>([&] { Matrix<T> x(2, 2, {T(1), T(2), T(3), T(4), T(5)}); }, "init list long strict"); { Matrix<T> x(2, 2, {T(1), T(2), T(3)}, false); c.check(x(0, 0) == T(1) && x(0, 1) == T(2) && x(1, 0) == T(3) && x(1, 1) == T(0), "init list lenient"); Matrix<T> y(1, 2, {T(1), T(2), T(3)}, false); c.check(y(0, 1) == T(2), "init list lenient long"); }
	{ std::vector<std::vector<T>> rag(n, std::vector<T>(m, T(1))); if (n > 1) { int q = r.i(1, n - 1); rag[q].resize(r.coin() ? m + 1 : m - 1); c.throws<D>([&] { Matrix<T> x(rag); }, "ragged"); } }
	c.throws<D>([&] { (void)Matrix<T>::Identity(z); }, "Identity<=0"); c.throws<D>([&] { (void)Matrix<T>::Diagonal(Vector<T>()); }, "Diagonal empty");
	{ Matrix<T> e1(0, m), e2(n, 0); c.check(e1.isEmpty() && e2.isEmpty() && e1.rows() == 0 && e2.cols() == 0, "zero dims give empty"); c.check(same(e1 + e2, Matrix<T>()), "empty+empty"); }
	c.check(same(a, a0) && same(b, b0), "operands intact after throw");
}
FAMILY(mat_bad, 900) { mat<Real>(c); }
FAMILY(mat_bad_c, 400) { mat<Complex>(c); }

FAMILY(mixed_bad, 500) {
	auto& r = c.r; int n = r.i(1, 5), m = r.i(1, 5), p = other(r, m, 1), q = other(r, n, 1); c.in("n", n); c.in("m", m); c.in("p", p); c.in("q", q); typedef MatrixDimensionError D; typedef VectorDimensionError V;
	auto A = rm<Real>(r, n, m); auto B = rm<Complex>(r, n, m); auto A2 = r.coin() ? rm<Real>(r, n, p) : rm<Real>(r, q, m); auto B2 = r.coin() ? rm<Complex>(r, n, p) : rm<Complex>(r, q, m);
	c.throws<D>([&] { (void)Utils::AddMat(B, A2); }, "AddMat"); c.throws<D>([&] { (void)Utils::AddMat(A, B2); }, "AddMat2"); c.throws<D>([&] { (void)Utils::SubMat(B, A2); }, "SubMat"); c.throws<D>([&] { (void)Utils::SubMat(A, B2); }, "SubMat2");
	auto G = rm<Real>(r, p, 3); auto GC = rm<Complex>(r, p, 2); c.throws<D>([&] { (void)Utils::MulMat(B, G); }, "MulMat"); c.throws<D>([&] { (void)Utils::MulMat(A, GC); }, "MulMat2");
	auto x = rv<Real>(r, p); auto xc = rv<Complex>(r, p); auto y = rv<Real>(r, q); auto yc = rv<Complex>(r, q); auto w = rv<Real>(r, m); auto wc = rv<Complex>(r, m);
	c.throws<D>([&] { (void)Utils::MulMatVec(A, xc); }, "MulMatVec"); c.throws<D>([&] { (void)Utils::MulMatVec(B, x); }, "MulMatVec2"); c.throws<D>([&] { (void)Utils::MulVecMat(yc, A); }, "MulVecMat"); c.throws<D>([&] { (void)Utils::MulVecMat(y, B); }, "MulVecMat2");
	c.throws<V>([&] { (void)Utils::AddVec(wc, x); }, "AddVec"); c.throws<V>([&] { (void)Utils::AddVec(w, xc); }, "AddVec2"); c.throws<V>([&] { (void)Utils::SubVec(wc, x); }, "SubVec"); c.throws<V>([&] { (void)Utils::SubVec(w, xc); }, "SubVec2"); c.throws<V>([&] { (void)Utils::ScalarProduct(w, x); }, "ScalarProduct"); c.throws<V>([&] { (void)Utils::ScalarProduct(wc, xc); }, "ScalarProductC"); c.throws<V>([&] { (void)Utils::VectorsAngle(w, x); }, "VectorsAngle");
	if (n != m) { c.throws<D>([&] { (void)Utils::IsOrthogonal(A); }, "IsOrthogonal"); c.throws<D>([&] { (void)Utils::IsHermitian(B); }, "IsHermitian"); c.throws<D>([&] { (void)Utils::IsUnitary(B); }, "IsUnitary"); Matrix<Real> s, t; c.throws<D>([&] { Utils::MatrixDecomposeToSymAntisym(A, s, t); }, "SymAntisym"); c.throws<D>([&] { (void)Utils::Exp(A); }, "Exp"); }
}

template<class T, int N, int M> void fixed_(mon::Case& c) {
	auto& r = c.r; int bi = badIndex(r, N), bj = badIndex(r, M), gi = r.i(0, N - 1), gj = r.i(0, M - 1); c.in("bi", bi); c.in("bj", bj); c.in("N", N); c.in("M", M);
	MatrixNM<T, N, M> A; for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) A(i, j) = val<T>(r); auto A0 = A; const auto& CA = A; typedef MatrixAccessBoundsError B; typedef MatrixDimensionError D;
	c.throws<B>([&] { A.at(bi, gj) = T(1); }, "at"); c.throws<B>([&] { A.at(gi, bj) = T(1); }, "at2"); c.throws<B>([&] { (void)CA.at(bi, gj); }, "at c"); c.throws<B>([&] { (void)CA.at(gi, bj); }, "at c2");
	VectorN<T, N> v; c.throws<VectorDimensionError>([&] { v.at(bi) = T(1); }, "VectorN at"); const auto& cv = v; c.throws<VectorDimensionError>([&] { (void)cv.at(bi); }, "VectorN at c"); std::vector<T> lng(N + r.i(1, 4), T(1)); c.throws<VectorDimensionError>([&] { VectorN<T, N> x(lng); }, "VectorN too many");
	if (N != M) { c.throws<D>([&] { A.Invert(); }, "Invert"); c.throws<D>([&] { (void)A.GetInverse(); }, "GetInverse"); c.throws<D>([&] { A.Transpose(); }, "Transpose"); c.throws<D>([&] { A.MakeUnitMatrix(); }, "MakeUnit"); c.throws<D>([&] { (void)A.Trace(); }, "Trace"); c.throws<D>([&] { (void)A.GetUpper(); }, "GetUpper"); c.throws<D>([&] { (void)A.GetLower(); }, "GetLower"); }
	std::vector<T> flat(N * M + 5, T(3)); MatrixNM<T, N, M> X(flat.data(), flat.size()); c.check(X(N - 1, M - 1) == T(3), "ctor longer ptr"); auto id = MatrixNM<T, N, M>::Identity(); (void)id; MatrixNM<T, N, M> sc(T(2)); (void)sc; (void)A.VectorFromDiagonal();
	MatrixNM<T, N, M> il({T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10), T(11), T(12), T(13), T(14), T(15), T(16), T(17), T(18), T(19), T(20), T(21)}); (void)il; MatrixNM<T, N, M> nested{{T(1), T(2), T(3), T(4), T(5), T(6)}, {T(1)}, {T(1), T(2)}, {}, {T(7)}, {T(8)}}; (void)nested;
	c.check(A == A0, "intact");
}
FAMILY(fixed_bad, 500) { switch (c.r.i(0, 3)) { case 0: fixed_<Real, 3, 3>(c); break; case 1: fixed_<Real, 4, 2>(c); break; case 2: fixed_<Real, 2, 5>(c); break; default: fixed_<Real, 1, 3>(c); } }

// random histories of valid and invalid edits against a shadow model
FAMILY(history, 500) {
	auto& r = c.r; int n = r.i(1, 5), m = r.i(1, 5); Matrix<Real> A = rm<Real>(r, n, m); std::vector<std::vector<Real>> S(n, std::vector<Real>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) S[i][j] = A(i, j); std::string h;
	auto eq = [&] { if (A.rows() != (int)S.size() || (A.rows() && A.cols() != (int)S[0].size())) return false; for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) if (A(i, j) != S[i][j]) return false; return true; };
	for (int q = 0; q < 25; ++q) {
		n = A.rows(); m = A.cols(); int op = r.i(0, 8); bool bad = false; std::ostringstream o; o << op;
		int i = r.i(-1, n), j = r.i(-1, m), k = r.i(-1, n), l = r.i(-1, m); bool iok = i >= 0 && i < n, jok = j >= 0 && j < m, kok = k >= 0 && k < n, lok = l >= 0 && l < m; o << "(" << i << "," << j << "," << k << "," << l << ")"; h += o.str() + " ";
		try {
			if (op == 0) { bad = !(iok && kok); A.SwapRows(i, k); if (!bad) std::swap(S[i], S[k]); }
			else if (op == 1) { bad = !(jok && lok); A.SwapCols(j, l); if (!bad) for (auto& row : S) std::swap(row[j], row[l]); }
			else if (op == 2) { int nn = i + 1, mm = j + 1; bad = nn <= 0 || mm <= 0; A.Resize(nn, mm, true); std::vector<std::vector<Real>> T(nn, std::vector<Real>(mm, 0)); for (int x = 0; x < std::min(n, nn); ++x) for (int y = 0; y < std::min(m, mm); ++y) T[x][y] = S[x][y]; S = T; }
			else if (op == 3) { bad = !(iok && jok); Real v = r.i(-9, 9); A.at(i, j) = v; S[i][j] = v; }
			else if (op == 4) { int sz = r.i(0, m + 1); auto v = rv<Real>(r, sz); bad = !iok || sz != m; A.InitRowWithVector(i, v); for (int y = 0; y < m; ++y) S[i][y] = v[y]; }
			else if (op == 5) { int sz = r.i(0, n + 1); auto v = rv<Real>(r, sz); bad = !jok || sz != n; A.InitColWithVector(j, v); for (int x = 0; x < n; ++x) S[x][j] = v[x]; }
			else if (op == 6) { int hh = r.i(0, n), ww = r.i(0, m); bad = !(iok && jok) || hh <= 0 || ww <= 0 || i + hh > n || j + ww > m; A = A.GetSubmatrix(i, j, hh, ww); std::vector<std::vector<Real>> T(hh, std::vector<Real>(ww)); for (int x = 0; x < hh; ++x) for (int y = 0; y < ww; ++y) T[x][y] = S[i + x][j + y]; S = T; }
			else if (op == 7) { bad = n != m; A.Transpose(); for (int x = 0; x < n; ++x) for (int y = 0; y < x; ++y) std::swap(S[x][y], S[y][x]); }
			else { auto B = rm<Real>(r, r.coin() ? n : k + 2, r.coin() ? m : l + 2); bad = B.rows() != n || B.cols() != m; A += B; for (int x = 0; x < n; ++x) for (int y = 0; y < m; ++y) S[x][y] += B(x, y); }
			c.check(!bad, "bad edit accepted", "op " + o.str()); c.ev("edits_ok");
		} catch (const std::invalid_argument&) { c.check(bad, "good edit rejected", "op " + o.str()); c.ev("edits_rejected"); }
		catch (const std::out_of_range&) { c.check(bad, "good edit rejected", "op " + o.str()); c.ev("edits_rejected"); }
		if (!c.check(eq(), "state after edit", "op " + o.str() + " h " + h)) break;
	}
	c.in("h", h);
}
MON_MAIN()
