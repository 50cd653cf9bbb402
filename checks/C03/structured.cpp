// C03: structured matrices vs a dense shadow model, over random operation histories.
#include "mon.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "base/Matrix/Matrix3D.h"
using namespace MML; using mon::Case;

template<class T> struct Dense {
	int r = 0, c = 0; std::vector<T> a;
	Dense() {} Dense(int r, int c, T v = T(0)) : r(r), c(c), a((size_t)r * c, v) {}
	T& operator()(int i, int j) { return a[(size_t)i * c + j]; }
	const T& operator()(int i, int j) const { return a[(size_t)i * c + j]; }
};
template<class T> T rv(mon::Rng& r);
template<> Real rv<Real>(mon::Rng& r) { return r.i(-9, 9); }
template<> int rv<int>(mon::Rng& r) { return r.i(-9, 9); }
template<> Complex rv<Complex>(mon::Rng& r) { return Complex(r.i(-9, 9), r.i(-9, 9)); }
template<class T> const char* tn();
template<> const char* tn<Real>() { return "Real"; } template<> const char* tn<int>() { return "int"; } template<> const char* tn<Complex>() { return "Complex"; }

template<class S, class T> void same(Case& c, const S& s, const Dense<T>& d, const std::string& key) {
	if (!c.check(s.rows() == d.r && s.cols() == d.c, key + ":shape")) throw mon::Abandon{};
	for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++)
		if (!(s(i, j) == d(i, j))) { std::ostringstream o; o << "(" << i << "," << j << ") got " << s(i, j) << " want " << d(i, j); c.fail(key + ":elem", o.str()); throw mon::Abandon{}; }
	c.check(true, "elem"); c.ev("states_compared");
}
template<class T> Vector<T> mkv(const std::vector<T>& v) { Vector<T> x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
template<class T> Matrix<T> mkm(const Dense<T>& d) { Matrix<T> m(d.r, d.c); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) m(i, j) = d(i, j); return m; }
template<class T> void sameV(Case& c, const Vector<T>& v, const std::vector<T>& w, const std::string& key) {
	if (!c.check(v.size() == (int)w.size(), key + ":size")) throw mon::Abandon{};
	for (size_t i = 0; i < w.size(); i++) if (!(v[i] == w[i])) { std::ostringstream o; o << i << " got " << v[i] << " want " << w[i]; c.fail(key, o.str()); throw mon::Abandon{}; }
	c.check(true, "v");
}
static Real mag(Real x) { return std::fabs(x); } static Real mag(const Complex& x) { return std::abs(x); } static Real mag(int x) { return std::abs(x); }

template<class T> Dense<T> rsym(mon::Rng& r, int n) { Dense<T> d(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) d(i, j) = d(j, i) = rv<T>(r); return d; }
template<class T> MatrixSym<T> buildSym(Case& c, const Dense<T>& d) {
	int n = d.r;
	switch (c.r.i(0, 4)) {
	case 0: { MatrixSym<T> m(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = d(i, j); return m; }
	case 1: { MatrixSym<T> m(n, T(7)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m.at(i, j) = d(i, j); return m; }
	case 2: { Matrix<T> f = mkm(d); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) f(i, j) = rv<T>(c.r); return MatrixSym<T>::FromLower(f); }
	case 3: { Matrix<T> f = mkm(d); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) f(i, j) = rv<T>(c.r); return MatrixSym<T>::FromUpper(f); }
	default: {
		Matrix<T> f = mkm(d); if (!std::is_same<T, int>::value) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { T e = rv<T>(c.r); f(i, j) += e; f(j, i) -= e; }
		return MatrixSym<T>::FromFullMatrix(f); }
	}
}
template<class T> void symHist(Case& c) {
	int n = c.r.sz(0, 9, 24); c.note(tn<T>()); c.in("n", n);
	Dense<T> d = rsym<T>(c.r, n); MatrixSym<T> m = buildSym<T>(c, d);
	c.in("a", d.a);
	same(c, m, d, "sym-build");
	c.check(m.size() == (size_t)n * (n + 1) / 2 && m.empty() == (n == 0) && m.Dim() == n, "sym-size");
	if (n == 0) c.trivial();
	for (int step = 0; step < 12; step++) {
		int op = c.r.i(0, 13); c.note("op" + std::to_string(op));
		n = d.r; Dense<T> e = rsym<T>(c.r, n); MatrixSym<T> b = buildSym<T>(c, e);
		Dense<T> p = d;
		auto ew = [&](auto f) { for (size_t i = 0; i < p.a.size(); i++) p.a[i] = f(d.a[i], e.a[i]); };
		switch (op) {
		case 0: ew([](T x, T y) { return x + y; }); same(c, m + b, p, "sym+"); { auto m2 = m; m2 += b; same(c, m2, p, "sym+="); } break;
		case 1: ew([](T x, T y) { return x - y; }); same(c, m - b, p, "sym-"); { auto m2 = m; m2 -= b; same(c, m2, p, "sym-="); } break;
		case 2: ew([](T x, T) { return -x; }); same(c, -m, p, "sym-neg"); break;
		case 3: { T k = rv<T>(c.r); ew([k](T x, T) { return x * k; }); same(c, m * k, p, "sym*k"); same(c, k * m, p, "k*sym"); auto m2 = m; m2 *= k; same(c, m2, p, "sym*=k"); break; }
		case 4: { T k = T(c.r.coin() ? 2 : -4); if (std::is_same<T, int>::value) break; ew([k](T x, T) { return x / k; }); same(c, m / k, p, "sym/k"); auto m2 = m; m2 /= k; same(c, m2, p, "sym/=k"); break; }
		case 5: { if (!n) break; Dense<T> q(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) q(i, j) += d(i, k) * e(k, j); same(c, m * b, q, "sym*sym");
			int w = c.r.i(1, 5); Dense<T> g(n, w); for (auto& x : g.a) x = rv<T>(c.r); Dense<T> q2(n, w); for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) for (int k = 0; k < n; k++) q2(i, j) += d(i, k) * g(k, j); same(c, m * mkm(g), q2, "sym*mat"); break; }
		case 6: { std::vector<T> v(n), w(n, T(0)); for (auto& x : v) x = rv<T>(c.r); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) w[i] += d(i, k) * v[k]; sameV<T>(c, m * mkv(v), w, "sym*vec"); sameV<T>(c, mkv(v) * m, w, "vec*sym"); break; }
		case 7: { if (!n) break; int i = c.r.i(0, n - 1); std::vector<T> row(n), dg(n); T tr(0); for (int j = 0; j < n; j++) { row[j] = d(i, j); dg[j] = d(j, j); tr += dg[j]; }
			sameV<T>(c, m.VectorFromRow(i), row, "sym-row"); sameV<T>(c, m.VectorFromColumn(i), row, "sym-col"); sameV<T>(c, m.VectorFromDiagonal(), dg, "sym-diag"); c.check(m.Trace() == tr, "sym-trace"); break; }
		case 8: { Real f = 0, mx = 0; for (int i = 0; i < n; i++) { Real s = 0; for (int j = 0; j < n; j++) { f += mag(d(i, j)) * mag(d(i, j)); s += mag(d(i, j)); } mx = std::max(mx, s); }
			c.close(m.NormFrobenius(), std::sqrt(f), 1e-12 * (1 + std::sqrt(f)), "sym-frob"); c.close(m.NormInf(), mx, 1e-12 * (1 + mx), "sym-norminf"); c.close(m.Norm1(), mx, 1e-12 * (1 + mx), "sym-norm1"); break; }
		case 9: if (n) same(c, m.GetAsMatrix(), d, "sym-dense"); else c.check(m.GetAsMatrix().rows() == 0, "sym-dense0"); break;
		case 10: { bool eq = d.a == e.a; c.check(m.IsEqualTo(b) == eq && MatrixSym<T>::AreEqual(m, b) == eq, "sym-equal"); c.check(m.IsEqualTo(m), "sym-equal-self");
			if (n) { auto m2 = m; int i = c.r.i(0, n - 1), j = c.r.i(0, n - 1); m2(i, j) += T(1); c.check(!m.IsEqualTo(m2), "sym-notequal-one"); c.check(m2(j, i) == d(i, j) + T(1), "sym-mirror"); } break; }
		case 11: { int nn = c.r.i(0, 9); bool keep = c.r.coin(0.7); bool noop = nn == n; if (keep) m.Resize(nn, true); else if (c.r.coin()) m.Resize(nn); else m.Resize(nn, false);
			Dense<T> q(nn, nn); if (keep || noop) for (int i = 0; i < std::min(n, nn); i++) for (int j = 0; j < std::min(n, nn); j++) q(i, j) = d(i, j); d = q; same(c, m, d, "sym-resize"); break; }
		case 12: { if (c.r.coin()) { T k = rv<T>(c.r); m.SetToValue(k); d = Dense<T>(n, n, k); } else { m.SetToZero(); d = Dense<T>(n, n); } same(c, m, d, "sym-set"); m = b; d = e; same(c, m, d, "sym-assign"); MatrixSym<T> t(std::move(b)); same(c, t, d, "sym-move"); c.check(b.rows() == 0 && b.empty(), "sym-moved-from"); m = std::move(t); same(c, m, d, "sym-moveassign"); auto& self = m; m = self; same(c, m, d, "sym-selfassign"); break; }
		case 13: { int o = n + c.r.pick({-1, 1, 2}); if (o < 0) break; MatrixSym<T> w(o); c.throws<MatrixDimensionError>([&] { (void)(m + w); }, "sym+dim"); c.throws<MatrixDimensionError>([&] { (void)(m - w); }, "sym-dim"); c.throws<MatrixDimensionError>([&] { m += w; }, "sym+=dim"); c.throws<MatrixDimensionError>([&] { m -= w; }, "sym-=dim"); c.throws<MatrixDimensionError>([&] { (void)(m * w); }, "sym*dim"); c.throws<MatrixDimensionError>([&] { (void)(m * Vector<T>(o)); }, "sym*vdim"); c.throws<MatrixDimensionError>([&] { (void)(Vector<T>(o) * m); }, "v*symdim"); c.check(!m.IsEqualTo(w), "sym-eqdim");
			int bi = c.r.pick({-1, n, n + 1, INT_MAX, INT_MIN}); c.throws<MatrixAccessBoundsError>([&] { (void)m.at(bi, 0); }, "sym-at"); c.throws<MatrixAccessBoundsError>([&] { m.at(0, bi) = T(0); }, "sym-at2"); c.throws<MatrixAccessBoundsError>([&] { m.VectorFromRow(bi); }, "sym-row-oob"); c.throws<MatrixAccessBoundsError>([&] { m.VectorFromColumn(bi); }, "sym-col-oob");
			c.throws<MatrixDimensionError>([&] { MatrixSym<T> x(-c.r.i(1, 5)); }, "sym-negdim"); c.throws<MatrixDimensionError>([&] { MatrixSym<T> x(10001 + c.r.i(0, 1000)); }, "sym-hugedim"); c.throws<MatrixDimensionError>([&] { m.Resize(-1); }, "sym-resize-neg"); c.throws<MatrixDimensionError>([&] { m.Resize(-2, true); }, "sym-resize-neg2");
			c.throws<MatrixDimensionError>([&] { MatrixSym<T>::FromLower(Matrix<T>(n + 1, n + 2)); }, "sym-fromlower"); c.throws<MatrixDimensionError>([&] { MatrixSym<T>::FromUpper(Matrix<T>(n + 2, n + 1)); }, "sym-fromupper"); c.throws<MatrixDimensionError>([&] { MatrixSym<T>::FromFullMatrix(Matrix<T>(n + 2, n + 1)); }, "sym-fromfull"); c.throws<MatrixDimensionError>([&] { MatrixSym<T> x(3, {T(1), T(2), T(3), T(4), T(5)}); }, "sym-initlist");
			same(c, m, d, "sym-after-reject"); break; }
		}
		same(c, m, d, "sym-state");
	}
	{ MatrixSym<T> x(3, {T(1), T(2), T(3), T(4), T(5), T(6)}); Dense<T> q(3, 3); T v[6] = {T(1), T(2), T(3), T(4), T(5), T(6)}; int k = 0; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) q(i, j) = q(j, i) = v[k++]; same(c, x, q, "sym-list"); }
	if (n) { Dense<T> q(n, n); for (int i = 0; i < n; i++) q(i, i) = T(1); same(c, MatrixSym<T>::Identity(n), q, "sym-ident"); std::vector<T> dv(n); for (int i = 0; i < n; i++) q(i, i) = dv[i] = rv<T>(c.r); same(c, MatrixSym<T>::GetDiagonalMatrix(mkv(dv)), q, "sym-diagmat"); }
}
FAMILY(sym_real, 1500) { symHist<Real>(c); }
FAMILY(sym_complex, 700) { symHist<Complex>(c); }
FAMILY(sym_int, 500) { symHist<int>(c); }
FAMILY(sym_inverse, 600) {
	int n = c.r.sz(1, 7, 24); Dense<Real> d = rsym<Real>(c.r, n); for (int i = 0; i < n; i++) d(i, i) += c.r.coin() ? 9 * n + 3 : -9 * n - 3;
	c.in("a", d.a); auto m = buildSym<Real>(c, d); Matrix<Real> inv = m.GetInverse();
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long double s = 0; for (int k = 0; k < n; k++) s += (long double)d(i, k) * inv(k, j); c.close(s, i == j, 1e-12, "sym-inverse"); }
	same(c, m, d, "sym-inverse-operand");
	c.throws<MatrixDimensionError>([&] { MatrixSym<Real>().GetInverse(); }, "sym-inv-empty");
	c.throws<SingularMatrixError>([&] { MatrixSym<Real> z(n); z.GetInverse(); }, "sym-inv-zero");
}

// ---------------- tridiagonal
template<class T> void triHist(Case& c) {
	int n = c.r.i(3, 10); c.note(tn<T>()); c.in("n", n);
	auto gen = [&](Dense<T>& d) { d = Dense<T>(n, n); Vector<T> a(n), b(n), g(n); for (int i = 0; i < n; i++) { a[i] = rv<T>(c.r); b[i] = rv<T>(c.r); g[i] = rv<T>(c.r); d(i, i) = b[i]; if (i) d(i, i - 1) = a[i]; if (i < n - 1) d(i, i + 1) = g[i]; } return TridiagonalMatrix<T>(n, a, b, g); };
	Dense<T> d, e; auto m = gen(d); auto b = gen(e); c.in("a", d.a);
	const auto& cm = m;
	same(c, cm, d, "tri-build");
	auto cmp = [&](const TridiagonalMatrix<T>& x, const Dense<T>& q, const char* k) { same(c, x, q, k); };
	for (int step = 0; step < 10; step++) {
		int op = c.r.i(0, 8); c.note("op" + std::to_string(op)); Dense<T> p = d;
		switch (op) {
		case 0: for (size_t i = 0; i < p.a.size(); i++) p.a[i] = d.a[i] + e.a[i]; cmp(m + b, p, "tri+"); break;
		case 1: for (size_t i = 0; i < p.a.size(); i++) p.a[i] = d.a[i] - e.a[i]; cmp(m - b, p, "tri-"); break;
		case 2: { T k = rv<T>(c.r); for (auto& x : p.a) x = x * k; cmp(m * k, p, "tri*k"); cmp(k * m, p, "k*tri"); break; }
		case 3: { T k = T(c.r.coin() ? 2 : -8); for (auto& x : p.a) x = x / k; cmp(m / k, p, "tri/k"); break; }
		case 4: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p(i, j) = d(j, i); cmp(m.GetTranspose(), p, "tri-transpose"); cmp(m.GetTranspose().GetTranspose(), d, "tri-transpose2"); break;
		case 5: { int i = c.r.i(0, n - 1), j = i + c.r.i(-1, 1); if (j < 0 || j >= n) break; T v = rv<T>(c.r); m(i, j) = v; d(i, j) = v; break; }
		case 6: { int i = c.r.i(0, n - 1), j = c.r.i(0, n - 1); if (std::abs(i - j) < 2) break; c.throws<MatrixAccessBoundsError>([&] { m(i, j) = T(3); }, "tri-write-outside"); c.ev("outside_writes"); break; }
		case 7: { int i = c.r.pick({-1, n, n + 2}), j = i + c.r.i(-1, 1); if (c.r.coin()) std::swap(i, j); if (i >= 0 && i < n && j >= 0 && j < n) break; c.in("i", i); c.in("j", j); c.throws<MatrixAccessBoundsError>([&] { m(i, j) = T(3); }, "tri-write-oob"); c.ev("oob_writes"); break; }
		case 8: if constexpr (!std::is_same<T, Complex>::value) { c.check(m.IsEqualTo(m), "tri-eq-self"); int i = c.r.i(0, n - 1), j = i + c.r.i(-1, 1); if (j < 0 || j >= n) break; auto m2 = m; m2(i, j) += T(1); c.check(!m.IsEqualTo(m2, 0.5), "tri-neq"); c.check(m.IsEqualTo(m2, 1.5), "tri-eq-tol");
			Vector<T> a(n), bb(n), g(n); for (int k = 0; k < n; k++) { bb[k] = d(k, k); a[k] = k ? d(k, k - 1) : T(55); g[k] = k < n - 1 ? d(k, k + 1) : T(-66); } c.check(m.IsEqualTo(TridiagonalMatrix<T>(n, a, bb, g)), "tri-eq-ignores-unused"); break; }
		}
		same(c, cm, d, "tri-state");
	}
	Vector<T> s(n), l(n + 1); TridiagonalMatrix<T> big(n + 1, l, l, l);
	c.throws<MatrixDimensionError>([&] { TridiagonalMatrix<T> x(n, l, s, s); }, "tri-ctor1"); c.throws<MatrixDimensionError>([&] { TridiagonalMatrix<T> x(n, s, l, s); }, "tri-ctor2"); c.throws<MatrixDimensionError>([&] { TridiagonalMatrix<T> x(n, s, s, l); }, "tri-ctor3"); c.throws<MatrixDimensionError>([&] { Vector<T> t(2); TridiagonalMatrix<T> x(2, t, t, t); }, "tri-ctor-small");
	c.throws<MatrixDimensionError>([&] { (void)(m + big); }, "tri+dim"); c.throws<MatrixDimensionError>([&] { (void)(m - big); }, "tri-dim"); if constexpr (!std::is_same<T, Complex>::value) c.check(!m.IsEqualTo(big), "tri-eqdim");
	c.throws<MatrixDimensionError>([&] { TridiagonalMatrix<T> x(4, {T(1), T(2), T(3)}); }, "tri-list"); c.throws<MatrixDimensionError>([&] { TridiagonalMatrix<T> x(1, {T(1)}); }, "tri-list1");
	c.throws<NotImplementedError>([&] { m.GetInverse(); }, "tri-inverse");
	{ TridiagonalMatrix<T> x(4, {T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10)}); Dense<T> q(4, 4); int k = 1; for (int i = 0; i < 4; i++) for (int j = std::max(0, i - 1); j <= std::min(3, i + 1); j++) q(i, j) = T(k++); same(c, x, q, "tri-listctor"); }
}
FAMILY(tri_real, 1200) { triHist<Real>(c); }
FAMILY(tri_complex, 500) { triHist<Complex>(c); }

// ---------------- band
static BandDiagonalMatrix mkBand(Case& c, int n, int m1, int m2, Dense<Real>& d) {
	Matrix<Real> s(n, m1 + m2 + 1); d = Dense<Real>(n, n);
	for (int i = 0; i < n; i++) for (int k = 0; k <= m1 + m2; k++) { s(i, k) = c.r.i(-9, 9); int j = i + k - m1; if (j >= 0 && j < n) d(i, j) = s(i, k); else s(i, k) = c.r.i(-99, 99); }
	return BandDiagonalMatrix(n, m1, m2, s);
}
FAMILY(band, 2500) {
	int n = c.r.i(1, 10), m1 = c.r.i(0, n), m2 = c.r.i(0, n); if (c.r.coin(0.3)) m2 = m1;
	c.in("n", n); c.in("m1", m1); c.in("m2", m2);
	Dense<Real> d, e; auto m = mkBand(c, n, m1, m2, d); auto b = mkBand(c, n, m1, m2, e); c.in("a", d.a);
	const auto& cm = m; auto cmp = [&](const BandDiagonalMatrix& x, const Dense<Real>& q, const char* k) { same(c, x, q, k); };
	same(c, cm, d, "band-build"); same(c, m.ToFullMatrix(), d, "band-full");
	c.check(m.GetLowerBandwidth() == m1 && m.GetUpperBandwidth() == m2 && m.GetDimension() == n, "band-meta");
	if (m1 != m2) c.ev("asymmetric_bands");
	for (int step = 0; step < 10; step++) {
		int op = c.r.i(0, 9); c.note("op" + std::to_string(op)); Dense<Real> p = d;
		switch (op) {
		case 0: for (size_t i = 0; i < p.a.size(); i++) p.a[i] += e.a[i]; cmp(m + b, p, "band+"); { auto t = m; t += b; cmp(t, p, "band+="); } break;
		case 1: for (size_t i = 0; i < p.a.size(); i++) p.a[i] -= e.a[i]; cmp(m - b, p, "band-"); { auto t = m; t -= b; cmp(t, p, "band-="); } break;
		case 2: { Real k = c.r.i(-9, 9); for (auto& x : p.a) x *= k; cmp(m * k, p, "band*k"); cmp(k * m, p, "k*band"); auto t = m; t *= k; cmp(t, p, "band*=k"); for (size_t i = 0; i < p.a.size(); i++) p.a[i] = -d.a[i]; cmp(-m, p, "band-neg"); break; }
		case 3: { Real k = c.r.coin() ? 4 : -0.5; for (auto& x : p.a) x /= k; cmp(m / k, p, "band/k"); auto t = m; t /= k; cmp(t, p, "band/=k"); c.throws<DivisionByZeroError>([&] { (void)(m / 0.0); }, "band/0"); c.throws<DivisionByZeroError>([&] { m /= 0.0; }, "band/=0"); break; }
		case 4: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p(i, j) = d(j, i); { auto t = m.Transpose(); cmp(t, p, "band-transpose"); c.check(t.GetLowerBandwidth() == m2 && t.GetUpperBandwidth() == m1, "band-transpose-width"); cmp(t.Transpose(), d, "band-tt"); } break;
		case 5: { int i = c.r.i(0, n - 1), j = c.r.i(0, n - 1); bool inb = i - j <= m1 && j - i <= m2; c.check(m.IsInBand(i, j) == inb, "band-inband"); if (inb) { Real v = c.r.i(-9, 9); m(i, j) = v; d(i, j) = v; } else { c.throws<MatrixAccessBoundsError>([&] { m(i, j) = 3; }, "band-write-outside"); c.ev("outside_writes"); } break; }
		case 6: { int i = c.r.pick({-1, n, n + 1}), j = c.r.i(-1, n + 1); if (c.r.coin()) std::swap(i, j); c.in("i", i); c.in("j", j); c.throws<MatrixAccessBoundsError>([&] { m(i, j) = 3; }, "band-write-oob"); c.ev("oob_writes"); break; }
		case 7: { std::vector<Real> v(n), w(n, 0); for (auto& x : v) x = c.r.i(-9, 9); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) w[i] += d(i, k) * v[k]; sameV<Real>(c, m * mkv(v), w, "band*vec"); break; }
		case 8: { Real tr = 0, f = 0, mx = 0; std::vector<Real> dg; bool sym = m1 == m2; for (int i = 0; i < n; i++) { tr += d(i, i); dg.push_back(d(i, i)); Real s = 0; for (int j = 0; j < n; j++) { f += d(i, j) * d(i, j); s += std::fabs(d(i, j)); if (d(i, j) != d(j, i)) sym = false; } mx = std::max(mx, s); }
			c.check(m.Trace() == tr, "band-trace"); c.close(m.NormFrobenius(), std::sqrt(f), 1e-12 * (1 + f), "band-frob"); c.check(m.NormInf() == mx, "band-norminf"); sameV<Real>(c, m.GetDiagonal(), dg, "band-diag"); c.check(m.IsSymmetric() == sym, "band-issym");
			int k = c.r.i(-m2, m1); if (std::abs(k) < n) { std::vector<Real> q; for (int i = 0; i < n; i++) { int j = i - k; if (j >= 0 && j < n) q.push_back(d(i, j)); } sameV<Real>(c, m.GetDiagonal(k), q, "band-diagk"); } c.throws<IndexError>([&] { m.GetDiagonal(m1 + 1); }, "band-diag-oob"); c.throws<IndexError>([&] { m.GetDiagonal(-m2 - 1); }, "band-diag-oob2"); break; }
		case 9: { c.check(m.IsEqualTo(m), "band-eq-self"); c.check(m.IsEqualTo(b) == (d.a == e.a), "band-eq"); int i = c.r.i(0, n - 1); auto t = m; t(i, i) += 1; c.check(!m.IsEqualTo(t, 0.5) && m.IsEqualTo(t, 1.5), "band-eq-tol");
			Matrix<Real> s2(n, m1 + m2 + 1); for (int r = 0; r < n; r++) for (int k = 0; k <= m1 + m2; k++) { int j = r + k - m1; s2(r, k) = (j >= 0 && j < n) ? d(r, j) : 1234; } c.check(m.IsEqualTo(BandDiagonalMatrix(n, m1, m2, s2)), "band-eq-ignores-unused"); break; }
		}
		same(c, cm, d, "band-state");
	}
	c.throws<MatrixDimensionError>([&] { BandDiagonalMatrix x(n, m1, m2, Matrix<Real>(n + 1, m1 + m2 + 1)); }, "band-ctor"); c.throws<MatrixDimensionError>([&] { BandDiagonalMatrix x(n, m1, m2, Matrix<Real>(n, m1 + m2 + 2)); }, "band-ctor2");
	Dense<Real> q; auto o = mkBand(c, n + 1, m1, m2, q); auto o2 = mkBand(c, n, m1 + 1, m2, q); auto o3 = mkBand(c, n, m1, m2 + 1, q);
	for (auto* x : {&o, &o2, &o3}) { c.throws<MatrixDimensionError>([&] { (void)(m + *x); }, "band+dim"); c.throws<MatrixDimensionError>([&] { (void)(m - *x); }, "band-dim"); c.throws<MatrixDimensionError>([&] { m += *x; }, "band+=dim"); c.throws<MatrixDimensionError>([&] { m -= *x; }, "band-=dim"); c.check(!m.IsEqualTo(*x), "band-eqdim"); }
	c.throws<ArgumentError>([&] { (void)(m * Vector<Real>(n + 1)); }, "band*vdim"); c.throws<ArgumentError>([&] { (void)(m * Vector<Real>(n - 1)); }, "band*vdim2");
	same(c, cm, d, "band-after-reject");
}

// ---------------- Matrix3D
template<class T> struct D3 { int a = 0, b = 0, c = 0; std::vector<T> v; T& at(int i, int j, int k) { return v[((size_t)i * b + j) * c + k]; } };
template<class T> void same3(Case& c, Matrix3D<T>& m, D3<T>& d, const char* key) {
	if (!c.check(m.dim1() == d.a && m.dim2() == d.b && m.dim3() == d.c && m.size() == (int)d.v.size() && m.isEmpty() == d.v.empty(), std::string(key) + ":shape")) throw mon::Abandon{};
	const Matrix3D<T>& cm = m;
	for (int i = 0; i < d.a; i++) for (int j = 0; j < d.b; j++) for (int k = 0; k < d.c; k++) {
		T w = d.at(i, j, k); bool ok = m(i, j, k) == w && cm(i, j, k) == w && m.At(i, j, k) == w && cm.At(i, j, k) == w && m[i][j][k] == w && cm[i][j][k] == w && m.data()[(i * d.b + j) * d.c + k] == w;
		if (!ok) { std::ostringstream o; o << i << "," << j << "," << k << " got " << m(i, j, k) << "/" << m[i][j][k] << " want " << w; c.fail(key, o.str()); throw mon::Abandon{}; }
	}
	c.check(true, "m3"); c.ev("states_compared");
}
template<class T> void m3hist(Case& c) {
	c.note(tn<T>());
	auto gen = [&](int a, int b, int cc) { D3<T> d; d.a = a; d.b = b; d.c = cc; d.v.resize((size_t)a * b * cc); for (auto& x : d.v) x = rv<T>(c.r); return d; };
	auto mk = [&](D3<T>& d) { Matrix3D<T> m = c.r.coin() ? Matrix3D<T>(d.a, d.b, d.c) : Matrix3D<T>(d.a, d.b, d.c, T(5)); for (int i = 0; i < d.a; i++) for (int j = 0; j < d.b; j++) for (int k = 0; k < d.c; k++) switch (c.r.i(0, 2)) { case 0: m(i, j, k) = d.at(i, j, k); break; case 1: m[i][j][k] = d.at(i, j, k); break; default: m.At(i, j, k) = d.at(i, j, k); } return m; };
	D3<T> d = gen(c.r.sz(1, 5, 12), c.r.sz(1, 5, 12), c.r.sz(1, 5, 12)); Matrix3D<T> m = mk(d); c.in("d1", d.a); c.in("d2", d.b); c.in("d3", d.c); c.in("v", d.v);
	same3(c, m, d, "m3-build");
	for (int step = 0; step < 10; step++) {
		int op = c.r.i(0, 10); c.note("op" + std::to_string(op)); D3<T> e = d; for (auto& x : e.v) x = rv<T>(c.r);
		bool empty = d.v.empty();
		switch (op) {
		case 0: { if (empty) break; auto b = mk(e); D3<T> p = d; for (size_t i = 0; i < p.v.size(); i++) p.v[i] += e.v[i]; auto s = m + b; same3(c, s, p, "m3+"); m += b; d = p; p = d; for (size_t i = 0; i < p.v.size(); i++) p.v[i] -= e.v[i]; s = m - b; same3(c, s, p, "m3-"); break; }
		case 1: { if (empty) break; auto b = mk(e); m -= b; for (size_t i = 0; i < d.v.size(); i++) d.v[i] -= e.v[i]; break; }
		case 2: { T k = rv<T>(c.r); D3<T> p = d; for (auto& x : p.v) x = x * k; auto s = m * k; same3(c, s, p, "m3*k"); p = d; for (auto& x : p.v) x = x + k; s = m + k; same3(c, s, p, "m3+k"); m += k; d = p; break; }
		case 3: { if (std::is_same<T, int>::value) break; T k = T(2); D3<T> p = d; for (auto& x : p.v) x = x / k; auto s = m / k; same3(c, s, p, "m3/k"); auto t = m; t /= k; same3(c, t, p, "m3/=k"); t *= k; same3(c, t, d, "m3*=k"); break; }
		case 4: { T k = rv<T>(c.r); m.Fill(k); for (auto& x : d.v) x = k; break; }
		case 5: { m.Apply([](T x) { return x * T(2) + T(1); }); for (auto& x : d.v) x = x * T(2) + T(1); break; }
		case 6: { int a = c.r.i(0, 5), b = c.r.i(1, 5), cc = c.r.i(1, 5); if (a == 0 && c.r.coin()) b = -3; bool noop = a == d.a && b == d.b && cc == d.c; bool init = c.r.coin(); T k = rv<T>(c.r); if (init) m.Resize(a, b, cc, k); else m.Resize(a, b, cc);
			if (init || !noop) { D3<T> p; if (a > 0 && b > 0 && cc > 0) { p.a = a; p.b = b; p.c = cc; p.v.assign((size_t)a * b * cc, init ? k : T(0)); } d = p; } c.ev("m3_resizes"); break; }
		case 7: { Matrix3D<T> t(m); same3(c, t, d, "m3-copy"); c.check(t == m && !(t != m), "m3-eq"); if (!empty) { size_t q = c.r.next() % d.v.size(); t.data()[q] += T(1); c.check(t != m && !(t == m), "m3-neq"); same3(c, m, d, "m3-copy-indep"); } break; }
		case 8: { Matrix3D<T> t(std::move(m)); same3(c, t, d, "m3-move"); D3<T> z; same3(c, m, z, "m3-movedfrom"); m = std::move(t); same3(c, m, d, "m3-moveassign"); same3(c, t, z, "m3-movedfrom2"); m = *&m; break; }
		case 9: { D3<T> f = gen(c.r.i(1, 4), c.r.i(1, 4), c.r.i(1, 4)); auto b = mk(f); if (f.a != d.a || f.b != d.b || f.c != d.c) { c.throws<MatrixDimensionError>([&] { m += b; }, "m3+=dim"); c.throws<MatrixDimensionError>([&] { m -= b; }, "m3-=dim"); c.throws<MatrixDimensionError>([&] { (void)(m + b); }, "m3+dim"); c.throws<MatrixDimensionError>([&] { (void)(m - b); }, "m3-dim"); c.check(m != b, "m3-neqdim"); same3(c, m, d, "m3-rejected"); } m = b; d = f; break; }
		case 10: { int bad = c.r.pick({-1, 100, INT_MAX, INT_MIN}); c.throws<IndexError>([&] { m.At(bad, 0, 0); }, "m3-at1"); c.throws<IndexError>([&] { m.At(0, bad, 0); }, "m3-at2"); c.throws<IndexError>([&] { m.At(0, 0, bad); }, "m3-at3"); c.throws<IndexError>([&] { m.At(d.a, 0, 0); }, "m3-at4"); c.throws<IndexError>([&] { m.At(0, d.b, 0); }, "m3-at5"); c.throws<IndexError>([&] { m.At(0, 0, d.c); }, "m3-at6");
			c.throws<ArgumentError>([&] { Matrix3D<T> x(0, 1, 1); }, "m3-ctor0"); c.throws<ArgumentError>([&] { Matrix3D<T> x(1, -1, 1, T(1)); }, "m3-ctor1"); c.throws<ArgumentError>([&] { Matrix3D<T> x(1, 1, -5); }, "m3-ctor2"); c.throws<ArgumentError>([&] { Matrix3D<T> x(65536, 65536, 3); }, "m3-huge"); c.throws<ArgumentError>([&] { m.Resize(50000, 50000, 2); }, "m3-resize-huge"); break; }
		}
		same3(c, m, d, "m3-state");
	}
}
FAMILY(m3_real, 1000) { m3hist<Real>(c); }
FAMILY(m3_int, 500) { m3hist<int>(c); }
MON_MAIN()
