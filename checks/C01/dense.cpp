// C01: dense vector / matrix arithmetic against an exact (integer valued) reference model.
#include "mon.h"
#include "mml/base/BaseUtils.h"
using namespace MML;
typedef long long L;
struct Z { L re = 0, im = 0; };
static Z operator+(Z a, Z b) { return {a.re + b.re, a.im + b.im}; }
static Z operator-(Z a, Z b) { return {a.re - b.re, a.im - b.im}; }
static Z operator*(Z a, Z b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static bool operator==(Z a, Z b) { return a.re == b.re && a.im == b.im; }

template<class T> struct Tr { static constexpr bool cplx = false; static T to(Z z) { return (T)z.re; } static bool eq(T v, Z z) { return v == (T)z.re; } };
template<class F> struct Tr<std::complex<F>> { static constexpr bool cplx = true; static std::complex<F> to(Z z) { return {(F)z.re, (F)z.im}; } static bool eq(std::complex<F> v, Z z) { return v.real() == (F)z.re && v.imag() == (F)z.im; } };

typedef std::vector<Z> MV;
struct MM { int r = 0, c = 0; std::vector<Z> d; Z& at(int i, int j) { return d[(size_t)i * c + j]; } Z at(int i, int j) const { return d[(size_t)i * c + j]; } MM(int R = 0, int C = 0) : r(R), c(C), d((size_t)R * C) {} };
static std::ostream& operator<<(std::ostream& o, Z z) { o << z.re; if (z.im) o << (z.im > 0 ? "+" : "") << z.im << "i"; return o; }
static std::ostream& operator<<(std::ostream& o, const MM& m) { o << m.r << "x" << m.c << "["; for (size_t k = 0; k < m.d.size() && k < 200; ++k) o << (k ? "," : "") << m.d[k]; return o << "]"; }

template<class T> Z rz(mon::Rng& r, int lim = 9) { Z z; z.re = r.i(-lim, lim); if (r.coin(0.15)) z.re = 0; if (Tr<T>::cplx && r.coin(0.8)) z.im = r.i(-lim, lim); return z; }
template<class T> MV rv(mon::Rng& r, int n) { MV v(n); for (auto& x : v) x = rz<T>(r); return v; }
template<class T> MM rm(mon::Rng& r, int n, int m) { MM v(n, m); for (auto& x : v.d) x = rz<T>(r); return v; }
template<class T> Vector<T> tv(const MV& v) { Vector<T> o((int)v.size()); for (int i = 0; i < (int)v.size(); ++i) o[i] = Tr<T>::to(v[i]); return o; }
template<class T> Matrix<T> tm(const MM& m) { Matrix<T> o(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) o(i, j) = Tr<T>::to(m.at(i, j)); return o; }
template<class T> bool eqv(const Vector<T>& a, const MV& b) { if (a.size() != (int)b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!Tr<T>::eq(a[i], b[i])) return false; return true; }
template<class T> bool eqm(const Matrix<T>& a, const MM& b) { if (a.rows() != b.r || a.cols() != b.c) return false; for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) if (!Tr<T>::eq(a(i, j), b.at(i, j))) return false; return true; }
template<class V> std::string ds(const V& v) { std::ostringstream o; o << v; return o.str().substr(0, 400); }
static int dim(mon::Rng& r, bool zero = false) { double u = r.u01(); if (u < 0.75) return r.i(zero ? 0 : 1, 6); if (u < 0.95) return r.i(7, 20); return r.i(21, 70); }
static MM mul(const MM& a, const MM& b) { MM o(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int k = 0; k < a.c; ++k) for (int j = 0; j < b.c; ++j) o.at(i, j) = o.at(i, j) + a.at(i, k) * b.at(k, j); return o; }
static MM tr(const MM& a) { MM o(a.c, a.r); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) o.at(j, i) = a.at(i, j); return o; }
static long double zabs(Z z) { return std::sqrt((long double)z.re * z.re + (long double)z.im * z.im); }
// scalar with exact quotient for all T: power of two (or 1 for ints)
template<class T> Z pow2(mon::Rng& r) { static const L p[] = {1, -1, 2, -2, 4}; Z z; z.re = p[r.i(0, std::is_same_v<T, int> ? 1 : 4)]; return z; }
template<class T> Z zdiv(Z a, Z b) { return {a.re / b.re, a.im / b.re}; }

template<class T> void vec_ops(mon::Case& c) {
	auto& r = c.r; int n = dim(r, true);
	MV a = rv<T>(r, n), b = rv<T>(r, n); Z s = rz<T>(r);
	c.in("n", n); c.in("a", a); c.in("b", b); c.in("s", s);
	if (n == 0) c.trivial();
	Vector<T> A = tv<T>(a), B = tv<T>(b); T S = Tr<T>::to(s);
	MV w(n);
	auto set = [&](auto f) { for (int i = 0; i < n; ++i) w[i] = f(i); };
	set([&](int i) { return a[i] + b[i]; }); c.check(eqv<T>(A + B, w), "v+v", ds(A + B)); { Vector<T> C = A; C += B; c.check(eqv<T>(C, w), "v+=v"); }
	set([&](int i) { return a[i] - b[i]; }); c.check(eqv<T>(A - B, w), "v-v"); { Vector<T> C = A; C -= B; c.check(eqv<T>(C, w), "v-=v"); }
	set([&](int i) { return Z{} - a[i]; }); c.check(eqv<T>(-A, w), "-v");
	set([&](int i) { return a[i] * s; }); c.check(eqv<T>(A * S, w), "v*s"); c.check(eqv<T>(S * A, w), "s*v"); { Vector<T> C = A; C *= S; c.check(eqv<T>(C, w), "v*=s"); }
	set([&](int i) { return a[i] + a[i]; }); { Vector<T> C = A; C += C; c.check(eqv<T>(C, w), "v+=self"); }
	set([&](int i) { return Z{}; }); { Vector<T> C = A; C -= C; c.check(eqv<T>(C, w), "v-=self"); }
	Z d = pow2<T>(r); MV m4(n); for (int i = 0; i < n; ++i) m4[i] = a[i] * d;
	{ Vector<T> C = tv<T>(m4); T D = Tr<T>::to(d); c.check(eqv<T>(C / D, a), "v/s"); c.check(eqv<T>(C.safeDivide(D), a), "safeDivide"); C /= D; c.check(eqv<T>(C, a), "v/=s"); }
	if (n > 0) { // aliasing: scalar operand is an element of the target
		int k = r.i(0, n - 1); Vector<T> C = A; C *= C[k]; set([&](int i) { return a[i] * a[k]; }); c.check(eqv<T>(C, w), "v*=v[k]"); c.ev("alias_ops");
		MV q = a; q[k] = d; MV qq(n); for (int i = 0; i < n; ++i) qq[i] = i == k ? d : a[i] * d; Vector<T> E = tv<T>(qq); E /= E[k]; for (int i = 0; i < n; ++i) w[i] = i == k ? Z{1, 0} : a[i]; c.check(eqv<T>(E, w), "v/=v[k]");
	}
	c.check(eqv<T>(A, a) && eqv<T>(B, b), "operands-unchanged");
	// comparison
	Vector<T> A2 = tv<T>(a); c.check(A == A2 && !(A != A2), "v==v");
	if (n > 0) { int k = r.i(0, n - 1); Vector<T> C = A; C[k] = Tr<T>::to(a[k] + Z{1, 0}); c.check(!(A == C) && A != C, "v!=v"); c.check(!A.IsEqualTo(C, 0.5) && A.IsEqualTo(C, 1.5) && C.IsEqualTo(A, 1.5), "IsEqualTo"); }
	{ Vector<T> C(n + 1); c.throws<VectorDimensionError>([&] { (void)(A == C); }, "v==v size"); c.throws<VectorDimensionError>([&] { A.IsEqualTo(C, 1e9); }, "IsEqualTo size"); }
	bool allz = true; for (auto& x : a) if (!(x == Z{})) allz = false;
	c.check(A.isZero() == allz, "isZero"); { Vector<T> z(n); c.check(z.isZero() && z.isNearZero(0), "zero-init"); if (n) { int k = r.i(0, n - 1); z[k] = Tr<T>::to(Z{1, 0}); c.check(!z.isZero() && !z.isNearZero(0.5), "isZero k"); } }
	{ Z v = rz<T>(r); Vector<T> C(n, Tr<T>::to(v)); MV e(n, v); c.check(eqv<T>(C, e), "ctor(n,val)"); }
	{ std::vector<T> raw; for (auto& x : a) raw.push_back(Tr<T>::to(x)); c.check(eqv<T>(Vector<T>(raw), a), "ctor(std::vector)"); if (n) c.check(eqv<T>(Vector<T>(n, raw.data()), a), "ctor(ptr)"); }
	if constexpr (!std::is_same_v<T, int>) {
		long double n1 = 0, n2 = 0, ni = 0; for (auto& x : a) { n1 += zabs(x); n2 += zabs(x) * zabs(x); ni = std::max(ni, zabs(x)); }
		long double eps = std::is_same_v<T, float> ? 1e-5L : 1e-12L;
		c.close(A.NormL1(), n1, eps * (1 + n1), "NormL1"); c.close(A.NormL2(), std::sqrt(n2), eps * (1 + std::sqrt(n2)), "NormL2"); c.close(A.NormLInf(), ni, eps * (1 + ni), "NormLInf");
	}
	// container edits keep exactly the right elements
	{ Vector<T> C = A; MV e = a; for (int k = 0; k < 6; ++k) {
		int op = r.i(0, 5); int sz = (int)e.size();
		if (op == 0) { Z v = rz<T>(r); C.push_back(Tr<T>::to(v)); e.push_back(v); }
		else if (op == 1) { Z v = rz<T>(r); int p = r.i(0, sz); C.insert(p, Tr<T>::to(v)); e.insert(e.begin() + p, v); }
		else if (op == 2 && sz > 0) { if constexpr (!std::is_same_v<T, int>) { int p = r.i(0, sz - 1); C.erase(p); e.erase(e.begin() + p); } }
		else if (op == 3) { int p = r.i(0, sz), q = r.i(p, sz); C.erase(p, q); e.erase(e.begin() + p, e.begin() + q); }
		else if (op == 4) { int nl = r.i(0, sz + 3); C.Resize(nl, true); e.resize(nl); }
		else if (op == 5 && sz > 0) { if constexpr (!std::is_same_v<T, int>) { int p = r.i(0, sz - 1); Z v = e[p]; C.erase(C[p]); e.erase(std::remove_if(e.begin(), e.end(), [&](Z x) { return x == v; }), e.end()); } }
		c.ev("container_edits");
		if (!c.check(eqv<T>(C, e), "edit-history", "op " + std::to_string(op) + " got " + ds(C))) break;
		if (!e.empty()) c.check(Tr<T>::eq(C.front(), e.front()) && Tr<T>::eq(C.back(), e.back()) && Tr<T>::eq(C.at(0), e[0]), "front/back");
	} }
}
#if !defined(PART) || PART == 1
FAMILY(vec_real, 700) { vec_ops<Real>(c); }
FAMILY(vec_cplx, 500) { vec_ops<Complex>(c); }
FAMILY(vec_float, 200) { vec_ops<float>(c); }
FAMILY(vec_int, 200) { vec_ops<int>(c); }

#endif
template<class T> void mat_ops(mon::Case& c) {
	auto& r = c.r; int n = dim(r), m = dim(r), k = dim(r);
	MM a = rm<T>(r, n, m), b = rm<T>(r, n, m), g = rm<T>(r, m, k); Z s = rz<T>(r);
	c.in("a", a); c.in("b", b); c.in("g", g); c.in("s", s);
	Matrix<T> A = tm<T>(a), B = tm<T>(b), G = tm<T>(g); T S = Tr<T>::to(s);
	auto map2 = [&](auto f) { MM o(n, m); for (size_t i = 0; i < o.d.size(); ++i) o.d[i] = f(i); return o; };
	MM w = map2([&](size_t i) { return a.d[i] + b.d[i]; }); c.check(eqm<T>(A + B, w), "m+m"); { auto C = A; C += B; c.check(eqm<T>(C, w), "m+=m"); }
	w = map2([&](size_t i) { return a.d[i] - b.d[i]; }); c.check(eqm<T>(A - B, w), "m-m"); { auto C = A; C -= B; c.check(eqm<T>(C, w), "m-=m"); }
	w = map2([&](size_t i) { return Z{} - a.d[i]; }); c.check(eqm<T>(-A, w), "-m");
	w = map2([&](size_t i) { return a.d[i] * s; }); c.check(eqm<T>(A * S, w), "m*s"); c.check(eqm<T>(S * A, w), "s*m"); { auto C = A; C *= S; c.check(eqm<T>(C, w), "m*=s"); }
	w = map2([&](size_t i) { return a.d[i] + a.d[i]; }); { auto C = A; C += C; c.check(eqm<T>(C, w), "m+=self"); } { auto C = A; C -= C; c.check(eqm<T>(C, MM(n, m)), "m-=self"); }
	Z d = pow2<T>(r); w = map2([&](size_t i) { return a.d[i] * d; }); { auto C = tm<T>(w); T D = Tr<T>::to(d); c.check(eqm<T>(C / D, a), "m/s"); C /= D; c.check(eqm<T>(C, a), "m/=s"); }
	{ int i = r.i(0, n - 1), j = r.i(0, m - 1); Z p = a.at(i, j); auto C = A; C *= C(i, j); w = map2([&](size_t q) { return a.d[q] * p; }); c.check(eqm<T>(C, w), "m*=m(i,j)");
	  MM q = map2([&](size_t t) { return a.d[t] * d; }); q.at(i, j) = d; auto E = tm<T>(q); E /= E(i, j); MM e = a; e.at(i, j) = Z{1, 0}; c.check(eqm<T>(E, e), "m/=m(i,j)"); c.ev("alias_ops"); }
	MM p = mul(a, g); c.check(eqm<T>(A * G, p), "m*m", ds(A * G)); c.ev("matrix_products");
	{ MM sq = rm<T>(r, n, n); auto Q = tm<T>(sq); c.check(eqm<T>(Q * Q, mul(sq, sq)), "m*self"); auto Q2 = Q; Q2 = Q2 * Q2; c.check(eqm<T>(Q2, mul(sq, sq)), "m=m*m"); }
	c.check(eqm<T>(A.transpose(), tr(a)), "transpose");
	c.check(eqm<T>((A * G).transpose(), mul(tr(g), tr(a))), "(AG)^T");
	MV v = rv<T>(r, m), u = rv<T>(r, n); auto Vv = tv<T>(v), Uv = tv<T>(u); c.in("v", v); c.in("u", u);
	MV av(n), ua(m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { av[i] = av[i] + a.at(i, j) * v[j]; ua[j] = ua[j] + u[i] * a.at(i, j); }
	c.check(eqv<T>(A * Vv, av), "m*v"); c.check(eqv<T>(Uv * A, ua), "v*m");
	c.check(eqm<T>(A, a) && eqm<T>(B, b) && eqm<T>(G, g) && eqv<T>(Vv, v), "operands-unchanged");
	// extraction / insertion
	{ int i = r.i(0, n - 1), j = r.i(0, m - 1); MV row(m), col(n); for (int q = 0; q < m; ++q) row[q] = a.at(i, q); for (int q = 0; q < n; ++q) col[q] = a.at(q, j);
	  c.check(eqv<T>(A.VectorFromRow(i), row), "VectorFromRow"); c.check(eqv<T>(A.VectorFromColumn(j), col), "VectorFromColumn");
	  { size_t q = 0; bool ok = true; for (auto& x : A.row(i)) { ok = ok && q < row.size() && Tr<T>::eq(x, row[q]); ++q; } c.check(ok && q == row.size(), "row()"); }
	  { const Matrix<T>& CA = A; size_t q = 0; bool ok = true; for (auto& x : CA.row(i)) { ok = ok && q < row.size() && Tr<T>::eq(x, row[q]); ++q; } c.check(ok && q == row.size(), "row() const"); }
	  { size_t q = 0; bool ok = true; for (auto& x : A.col(j)) { ok = ok && q < col.size() && Tr<T>::eq(x, col[q]); ++q; } c.check(ok && q == col.size(), "col()"); }
	  { auto C = A; MM e = a; for (auto& x : C.col(j)) x = Tr<T>::to(s); for (int q = 0; q < n; ++q) e.at(q, j) = s; c.check(eqm<T>(C, e), "col() write"); for (auto& x : C.row(i)) x = Tr<T>::to(Z{2, 0}); for (int q = 0; q < m; ++q) e.at(i, q) = Z{2, 0}; c.check(eqm<T>(C, e), "row() write"); }
	  auto C = A; MM e = a; C.InitRowWithVector(i, Vv); for (int q = 0; q < m; ++q) e.at(i, q) = v[q]; c.check(eqm<T>(C, e), "InitRow"); C.InitColWithVector(j, Uv); for (int q = 0; q < n; ++q) e.at(q, j) = u[q]; c.check(eqm<T>(C, e), "InitCol");
	  int i2 = r.i(0, n - 1), j2 = r.i(0, m - 1); C.SwapRows(i, i2); for (int q = 0; q < m; ++q) std::swap(e.at(i, q), e.at(i2, q)); c.check(eqm<T>(C, e), "SwapRows"); C.SwapCols(j, j2); for (int q = 0; q < n; ++q) std::swap(e.at(q, j), e.at(q, j2)); c.check(eqm<T>(C, e), "SwapCols"); }
	{ int r0 = r.i(0, n - 1), c0 = r.i(0, m - 1), h = r.i(1, n - r0), wd = r.i(1, m - c0); MM e(h, wd); for (int i = 0; i < h; ++i) for (int j = 0; j < wd; ++j) e.at(i, j) = a.at(r0 + i, c0 + j);
	  c.check(eqm<T>(A.GetSubmatrix(r0, c0, h, wd), e), "GetSubmatrix"); c.check(eqm<T>(Matrix<T>(A, r0, c0, h, wd), e), "submatrix ctor");
	  auto C = A; MM ee = a; auto view = C.block(r0, c0, h, wd); bool ok = view.rows() == h && view.cols() == wd; for (int i = 0; i < h; ++i) for (int j = 0; j < wd; ++j) ok = ok && Tr<T>::eq(view(i, j), e.at(i, j)); c.check(ok, "block read");
	  const Matrix<T>& CA = A; auto cv = CA.block(r0, c0, h, wd); ok = true; for (int i = 0; i < h; ++i) for (int j = 0; j < wd; ++j) ok = ok && Tr<T>::eq(cv(i, j), e.at(i, j)); c.check(ok, "const block read");
	  for (int i = 0; i < h; ++i) for (int j = 0; j < wd; ++j) { Z z = rz<T>(r); view(i, j) = Tr<T>::to(z); ee.at(r0 + i, c0 + j) = z; } c.check(eqm<T>(C, ee), "block write"); c.ev("views"); }
	// indexing forms agree
	{ bool ok = true; const Matrix<T>& CA = A; size_t q = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j, ++q) ok = ok && Tr<T>::eq(A[i][j], a.at(i, j)) && Tr<T>::eq(CA[i][j], a.at(i, j)) && Tr<T>::eq(A.at(i, j), a.at(i, j)) && Tr<T>::eq(CA.at(i, j), a.at(i, j)) && Tr<T>::eq(*(A.begin() + q), a.at(i, j)) && Tr<T>::eq(A.data()[q], a.at(i, j)); c.check(ok && (size_t)(A.end() - A.begin()) == q, "indexing forms"); }
	// constructors
	{ std::vector<T> flat; for (auto& z : a.d) flat.push_back(Tr<T>::to(z)); std::vector<std::vector<T>> nested(n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) nested[i].push_back(flat[(size_t)i * m + j]);
	  c.check(eqm<T>(Matrix<T>(nested), a), "ctor nested"); c.check(eqm<T>(Matrix<T>(n, m, flat.data()), a), "ctor ptr"); auto at = tr(a); std::vector<T> cm; for (auto& z : at.d) cm.push_back(Tr<T>::to(z)); c.check(eqm<T>(Matrix<T>(n, m, cm.data(), false), a), "ctor ptr colwise");
	  MM cst(n, m); for (auto& z : cst.d) z = s; c.check(eqm<T>(Matrix<T>(n, m, S), cst), "ctor value"); c.check(eqm<T>(Matrix<T>(n, m), MM(n, m)), "ctor zero");
	  Matrix<T> mv = A; Matrix<T> mv2 = std::move(mv); c.check(eqm<T>(mv2, a) && mv.rows() == 0 && mv.cols() == 0, "move ctor"); Matrix<T> mv3 = B; mv3 = std::move(mv2); c.check(eqm<T>(mv3, a) && mv2.rows() == 0, "move assign"); }
	// resize
	{ auto C = A; int h = r.i(1, n + 3), wd = r.i(1, m + 3); C.Resize(h, wd, true); MM e(h, wd); for (int i = 0; i < std::min(h, n); ++i) for (int j = 0; j < std::min(wd, m); ++j) e.at(i, j) = a.at(i, j); c.check(eqm<T>(C, e), "Resize preserve", std::to_string(h) + "x" + std::to_string(wd)); }
	{ int dn = dim(r); MM q = rm<T>(r, dn, dn); auto Q = tm<T>(q); MM lo(dn, dn), up(dn, dn), slo(dn, dn), sup(dn, dn); Z t; for (int i = 0; i < dn; ++i) for (int j = 0; j < dn; ++j) { if (j <= i) lo.at(i, j) = q.at(i, j); if (j < i) slo.at(i, j) = q.at(i, j); if (j >= i) up.at(i, j) = q.at(i, j); if (j > i) sup.at(i, j) = q.at(i, j); if (i == j) t = t + q.at(i, j); }
	  c.check(eqm<T>(Q.GetLower(), lo) && eqm<T>(Q.GetLower(true), lo), "GetLower"); c.check(eqm<T>(Q.GetLower(false), slo), "GetLower strict"); c.check(eqm<T>(Q.GetUpper(), up), "GetUpper"); c.check(eqm<T>(Q.GetUpper(false), sup), "GetUpper strict"); c.check(Tr<T>::eq(Q.trace(), t), "trace");
	  MV dg(dn); for (int i = 0; i < dn; ++i) dg[i] = q.at(i, i); c.check(eqv<T>(Q.diagonal(), dg), "diagonal"); auto Q3 = Q; Q3.Transpose(); c.check(eqm<T>(Q3, tr(q)), "Transpose in place"); auto DM = Matrix<T>::Diagonal(tv<T>(dg)); MM de(dn, dn), id(dn, dn); for (int i = 0; i < dn; ++i) { de.at(i, i) = dg[i]; id.at(i, i) = Z{1, 0}; } c.check(eqm<T>(DM, de), "Diagonal"); c.check(eqm<T>(Matrix<T>::Identity(dn), id), "Identity"); Q3.MakeUnitMatrix(); c.check(eqm<T>(Q3, id), "MakeUnitMatrix");
	  c.check(eqm<T>(Utils::Commutator(Q, tm<T>(q)), MM(dn, dn)), "commutator self"); MM q2 = rm<T>(r, dn, dn); auto R2 = tm<T>(q2); MM ab = mul(q, q2), ba = mul(q2, q), cm(dn, dn), ac(dn, dn); for (size_t i = 0; i < cm.d.size(); ++i) { cm.d[i] = ab.d[i] - ba.d[i]; ac.d[i] = ab.d[i] + ba.d[i]; } c.check(eqm<T>(Utils::Commutator(Q, R2), cm), "Commutator"); c.check(eqm<T>(Utils::AntiCommutator(Q, R2), ac), "AntiCommutator"); }
	if constexpr (!std::is_same_v<T, int>) {
		long double n1 = 0, n2 = 0, ni = 0; for (auto& x : a.d) { n1 += zabs(x); n2 += zabs(x) * zabs(x); ni = std::max(ni, zabs(x)); } long double eps = std::is_same_v<T, float> ? 1e-4L : 1e-12L;
		c.close(A.NormL1(), n1, eps * (1 + n1), "NormL1"); c.close(A.NormL2(), std::sqrt(n2), eps * (1 + std::sqrt(n2)), "NormL2"); c.close(A.NormLInf(), ni, eps * (1 + ni), "NormLInf"); }
	// comparison: one differing element anywhere is seen
	{ auto C = A; int i = r.i(0, n - 1), j = r.i(0, m - 1); c.check(C == A && !(C != A), "m==m"); C(i, j) = Tr<T>::to(a.at(i, j) + Z{1, 0}); c.check(!(C == A) && C != A, "m!=m", std::to_string(i) + "," + std::to_string(j)); c.check(!A.IsEqualTo(C, 0.5) && A.IsEqualTo(C, 1.5) && Matrix<T>::AreEqual(A, C, 1.5), "m IsEqualTo"); if (n != m) c.check(!(A == A.transpose()), "shape =="); }
}
#if !defined(PART) || PART == 2
FAMILY(mat_real, 260) { mat_ops<Real>(c); }
#endif
#if !defined(PART) || PART == 3
FAMILY(mat_cplx, 200) { mat_ops<Complex>(c); }
#endif
#if !defined(PART) || PART == 4
FAMILY(mat_float, 60) { mat_ops<float>(c); }
FAMILY(mat_int, 60) { mat_ops<int>(c); }

#endif
// predicates on matrices built to satisfy / minimally violate them
#if !defined(PART) || PART == 5
FAMILY(mat_pred, 700) {
	auto& r = c.r; int n = r.sz(1, 7, 20); MM s(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { s.at(i, j) = rz<Real>(r); s.at(j, i) = s.at(i, j); }
	auto S = tm<Real>(s); c.in("s", s); c.check(S.isSymmetric(), "sym");
	if (n > 1) { int i = r.i(0, n - 1), j = r.i(0, n - 2); if (j >= i) j++; auto Q = S; Q(i, j) += 1; c.check(!Q.isSymmetric(), "sym violated"); c.check(Q.isSymmetric(1.5), "sym eps"); }
	MM as(n, n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { as.at(i, j) = rz<Real>(r); as.at(j, i) = Z{} - as.at(i, j); } auto AS = tm<Real>(as); c.check(AS.isAntiSymmetric(), "antisym");
	{ int i = r.i(0, n - 1), j = r.i(0, n - 1); auto Q = AS; Q(i, j) += 1; c.check(!Q.isAntiSymmetric(), "antisym violated", std::to_string(i) + "," + std::to_string(j)); }
	Matrix<Real> D(n, n), Id(n, n); for (int i = 0; i < n; ++i) { D(i, i) = r.i(-5, 5); Id(i, i) = 1; } c.check(D.isDiagonal(), "isDiagonal"); c.check(Id.isIdentity(), "isIdentity"); c.check(Id.isDiagonal() && Id.isSymmetric(), "id diag");
	{ int i = r.i(0, n - 1), j = r.i(0, n - 1); auto Q = Id; Q(i, j) += 0.5; c.check(!Q.isIdentity() && Q.isIdentity(0.75), "isIdentity violated"); if (i != j) { auto P = D; P(i, j) += 0.5; c.check(!P.isDiagonal() && P.isDiagonal(0.75), "isDiagonal violated"); } Matrix<Real> Zr(n, n); c.check(Zr.isZero(), "isZero"); Zr(i, j) = r.coin() ? 0.5 : -0.5; c.check(!Zr.isZero() && Zr.isZero(0.75), "isZero violated"); }
	// diagonal dominance, any shape
	int h = r.i(1, 6), w = r.i(1, 6); MM q = rm<Real>(r, h, w); for (int i = 0; i < std::min(h, w); ++i) { L sum = 0; for (int j = 0; j < w; ++j) if (j != i) sum += std::llabs(q.at(i, j).re); q.at(i, i).re = (r.coin() ? 1 : -1) * (sum + r.i(-1, 1) * (r.coin(0.3) ? 1 : 0)); }
	if (h <= w) { bool dd = true; for (int i = 0; i < h; ++i) { L sum = 0; for (int j = 0; j < w; ++j) if (j != i) sum += std::llabs(q.at(i, j).re); if (std::llabs(q.at(i, i).re) < sum) dd = false; } c.in("dd", q); c.check(tm<Real>(q).isDiagonallyDominant() == dd, "isDiagonallyDominant"); }
	else (void)tm<Real>(q).isDiagonallyDominant();
	{ Matrix<Real> R(n, n + 1); c.check(!R.isSymmetric() && !R.isAntiSymmetric() && !R.isIdentity(), "nonsquare predicates"); }
	// complex predicates
	MM hm(n, n); for (int i = 0; i < n; ++i) { hm.at(i, i).re = r.i(-5, 5); for (int j = i + 1; j < n; ++j) { hm.at(i, j) = rz<Complex>(r); hm.at(j, i) = {hm.at(i, j).re, -hm.at(i, j).im}; } }
	auto H = tm<Complex>(hm); c.check(Utils::IsHermitian(H), "IsHermitian"); { int i = r.i(0, n - 1), j = r.i(0, n - 1); auto Q = H; Q(i, j) += Complex(0, 1); c.check(!Utils::IsHermitian(Q), "IsHermitian violated", std::to_string(i) + "," + std::to_string(j)); }
	{ auto CT = Utils::GetConjugateTranspose(H); c.check(CT == H, "conj transpose hermitian"); }
	// skew-hermitian is what isAntiSymmetric means for complex matrices
	{ auto K = H * Complex(0, 1); c.check(K.isAntiSymmetric(), "complex antisym"); int i = r.i(0, n - 1); auto Q = K; Q(i, i) += 1.0; c.check(!Q.isAntiSymmetric(), "complex antisym diag"); }
	// permutation matrices are orthogonal / unitary
	std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); Matrix<Real> P(n, n); Matrix<Complex> U(n, n); for (int i = 0; i < n; ++i) { Real sg = r.coin() ? 1 : -1; P(i, p[i]) = sg; U(i, p[i]) = Complex(0, sg); } c.check(Utils::IsOrthogonal(P), "IsOrthogonal"); c.check(Utils::IsUnitary(U), "IsUnitary");
	{ auto Q = P; int i = r.i(0, n - 1); Q(i, p[i]) *= 2; c.check(!Utils::IsOrthogonal(Q), "IsOrthogonal violated"); auto V = U; V(i, p[i]) *= 2.0; c.check(!Utils::IsUnitary(V), "IsUnitary violated"); }
	Matrix<Real> sy, an; MM g = rm<Real>(r, n, n); for (auto& z : g.d) z.re *= 2; auto G = tm<Real>(g); Utils::MatrixDecomposeToSymAntisym(G, sy, an); c.check(sy.isSymmetric(0) && an.isAntiSymmetric(0) && sy + an == G, "sym+antisym");
}

#endif
#if !defined(PART) || PART == 6
FAMILY(mixed, 400) {
	auto& r = c.r; int n = dim(r), m = dim(r), k = dim(r); if (n > 25) n = 9; if (m > 25) m = 11;
	MM a = rm<Complex>(r, n, m), b = rm<Real>(r, n, m), g = rm<Real>(r, m, k), gc = rm<Complex>(r, m, k); Z s = rz<Complex>(r); MV v = rv<Real>(r, m), vc = rv<Complex>(r, m), u = rv<Real>(r, n), uc = rv<Complex>(r, n), v2 = rv<Complex>(r, m);
	c.in("a", a); c.in("b", b); c.in("s", s); c.in("v", v); c.in("vc", vc);
	auto A = tm<Complex>(a), GC = tm<Complex>(gc); auto B = tm<Real>(b), G = tm<Real>(g); auto V = tv<Real>(v), U = tv<Real>(u); auto VC = tv<Complex>(vc), UC = tv<Complex>(uc); Complex S = Tr<Complex>::to(s);
	MM w(n, m); auto fill = [&](auto f) { for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = f(i); };
	fill([&](size_t i) { return a.d[i] + b.d[i]; }); c.check(eqm<Complex>(Utils::AddMat(A, B), w), "AddMat(C,R)"); c.check(eqm<Complex>(Utils::AddMat(B, A), w), "AddMat(R,C)");
	fill([&](size_t i) { return a.d[i] - b.d[i]; }); c.check(eqm<Complex>(Utils::SubMat(A, B), w), "SubMat(C,R)");
	fill([&](size_t i) { return b.d[i] - a.d[i]; }); c.check(eqm<Complex>(Utils::SubMat(B, A), w), "SubMat(R,C)");
	fill([&](size_t i) { return s * b.d[i]; }); c.check(eqm<Complex>(Utils::MulMat(S, B), w), "MulMat(s,R)"); c.check(eqm<Complex>(Utils::MulMat(B, S), w), "MulMat(R,s)");
	c.check(eqm<Complex>(Utils::MulMat(A, G), mul(a, g)), "MulMat(C,R)"); c.check(eqm<Complex>(Utils::MulMat(B, GC), mul(b, gc)), "MulMat(R,C)");
	MV x(n), y(m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x[i] = x[i] + b.at(i, j) * vc[j]; c.check(eqv<Complex>(Utils::MulMatVec(B, VC), x), "MulMatVec(R,C)");
	x.assign(n, Z{}); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x[i] = x[i] + a.at(i, j) * v[j]; c.check(eqv<Complex>(Utils::MulMatVec(A, V), x), "MulMatVec(C,R)");
	for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[j] = y[j] + uc[i] * b.at(i, j); c.check(eqv<Complex>(Utils::MulVecMat(UC, B), y), "MulVecMat(C,R)");
	y.assign(m, Z{}); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[j] = y[j] + u[i] * a.at(i, j); c.check(eqv<Complex>(Utils::MulVecMat(U, A), y), "MulVecMat(R,C)");
	MV t(m); auto fv = [&](auto f) { for (int i = 0; i < m; ++i) t[i] = f(i); };
	fv([&](int i) { return v[i] + vc[i]; }); c.check(eqv<Complex>(Utils::AddVec(V, VC), t) && eqv<Complex>(Utils::AddVec(VC, V), t), "AddVec");
	fv([&](int i) { return v[i] - vc[i]; }); c.check(eqv<Complex>(Utils::SubVec(V, VC), t), "SubVec(R,C)"); fv([&](int i) { return vc[i] - v[i]; }); c.check(eqv<Complex>(Utils::SubVec(VC, V), t), "SubVec(C,R)");
	fv([&](int i) { return s * v[i]; }); c.check(eqv<Complex>(Utils::MulVec(S, V), t) && eqv<Complex>(Utils::MulVec(V, S), t), "MulVec");
	Z sp; for (int i = 0; i < m; ++i) sp = sp + vc[i] * Z{v2[i].re, -v2[i].im}; c.check(Tr<Complex>::eq(Utils::ScalarProduct(VC, tv<Complex>(v2)), sp), "ScalarProduct complex");
	MM ct(m, n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) ct.at(j, i) = {a.at(i, j).re, -a.at(i, j).im}; c.check(eqm<Complex>(Utils::GetConjugateTranspose(A), ct), "ConjugateTranspose");
	{ bool ok = true; auto R = Utils::GetRealPart(A), Im = Utils::GetImagPart(A); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) ok = ok && R(i, j) == a.at(i, j).re && Im(i, j) == a.at(i, j).im; c.check(ok && R.rows() == n && R.cols() == m, "Re/Im"); c.check(eqm<Complex>(Utils::CmplxMatFromRealMat(B), b), "CmplxFromReal"); bool anyim = false; for (auto& z : a.d) if (z.im) anyim = true; c.check(Utils::IsComplexMatReal(A) == !anyim, "IsComplexMatReal"); auto Bc = Utils::CmplxMatFromRealMat(B); c.check(Utils::IsComplexMatReal(Bc), "IsComplexMatReal t"); Bc(r.i(0, n - 1), r.i(0, m - 1)) += Complex(0, 1e-300); c.check(!Utils::IsComplexMatReal(Bc), "IsComplexMatReal f"); }
}

FAMILY(vec_geometry, 600) {
	auto& r = c.r; int n = dim(r); MV a = rv<Real>(r, n), b = rv<Real>(r, n); c.in("a", a); c.in("b", b); auto A = tv<Real>(a), B = tv<Real>(b);
	L ab = 0, aa = 0, bb = 0; for (int i = 0; i < n; ++i) { ab += a[i].re * b[i].re; aa += a[i].re * a[i].re; bb += b[i].re * b[i].re; }
	c.check(Utils::ScalarProduct(A, B) == (Real)ab, "ScalarProduct");
	MM o(n, n); { MV d = rv<Real>(r, r.i(1, 9)); MM e(n, (int)d.size()); for (int i = 0; i < n; ++i) for (int j = 0; j < (int)d.size(); ++j) e.at(i, j) = a[i] * d[j]; c.check(eqm<Real>(Utils::OuterProduct(A, tv<Real>(d)), e), "OuterProduct"); }
	if (aa && bb) { long double cs = ab / std::sqrt((long double)aa * bb); cs = std::min(1.0L, std::max(-1.0L, cs)); long double ang = Utils::VectorsAngle(A, B); c.close(std::cos(ang), cs, 1e-9L, "angle"); c.check(ang >= 0 && ang <= 3.1415926536L, "angle range"); }
	if (bb) { auto P = Utils::VectorProjectionParallelTo(A, B), Q = Utils::VectorProjectionPerpendicularTo(A, B); long double e = 0, q = 0; for (int i = 0; i < n; ++i) { long double p = (long double)ab / bb * b[i].re; e = std::max(e, std::fabs((long double)P[i] - p)); q = std::max(q, std::fabs((long double)Q[i] - (a[i].re - p))); } c.close(e, 0, 1e-11L * (1 + std::sqrt((long double)aa)), "proj parallel"); c.close(q, 0, 1e-11L * (1 + std::sqrt((long double)aa)), "proj perp"); }
	{ auto R = Utils::RowMatrixFromVector(A), C = Utils::ColumnMatrixFromVector(A), D = Utils::DiagonalMatrixFromVector(A); MM er(1, n), ec(n, 1), ed(n, n); for (int i = 0; i < n; ++i) { er.at(0, i) = a[i]; ec.at(i, 0) = a[i]; ed.at(i, i) = a[i]; } c.check(eqm<Real>(R, er) && eqm<Real>(C, ec) && eqm<Real>(D, ed), "matrix from vector"); int m = r.i(1, 6); MM g = rm<Real>(r, m, n); std::vector<Vector<Real>> rows; for (int i = 0; i < m; ++i) { MV t(n); for (int j = 0; j < n; ++j) t[j] = g.at(i, j); rows.push_back(tv<Real>(t)); } c.check(eqm<Real>(Utils::MatrixFromVectorsInRows(rows), g), "from rows"); c.check(eqm<Real>(Utils::MatrixFromVectorsInColumns(rows), tr(g)), "from cols"); }
	{ int k = r.i(0, n - 1); auto e = Vector<Real>::UnitVector(n, k); MV w(n); w[k].re = 1; c.check(eqv<Real>(e, w), "UnitVector"); }
}

#endif
// fixed-size types
template<class T, int N> void vn(mon::Case& c) {
	auto& r = c.r; MV a = rv<T>(r, N), b = rv<T>(r, N); Z s = rz<T>(r); c.in("a", a); c.in("b", b); c.in("s", s);
	auto mk = [&](const MV& v) { VectorN<T, N> o; for (int i = 0; i < N; ++i) o[i] = Tr<T>::to(v[i]); return o; };
	auto eq = [&](const VectorN<T, N>& x, const MV& v) { for (int i = 0; i < N; ++i) if (!Tr<T>::eq(x[i], v[i])) return false; return true; };
	VectorN<T, N> A = mk(a), B = mk(b); T S = Tr<T>::to(s); MV w(N); auto set = [&](auto f) { for (int i = 0; i < N; ++i) w[i] = f(i); };
	set([&](int i) { return a[i] + b[i]; }); c.check(eq(A + B, w), "+"); { auto C = A; C += B; c.check(eq(C, w), "+="); }
	set([&](int i) { return a[i] - b[i]; }); c.check(eq(A - B, w), "-"); { auto C = A; C -= B; c.check(eq(C, w), "-="); }
	set([&](int i) { return a[i] * s; }); c.check(eq(A * S, w) && eq(S * A, w), "*s"); { auto C = A; C *= S; c.check(eq(C, w), "*="); }
	set([&](int i) { return Z{} - a[i]; }); c.check(eq(-A, w), "neg"); set([&](int i) { return a[i] + a[i]; }); { auto C = A; C += C; c.check(eq(C, w), "+=self"); }
	int k = r.i(0, N - 1); { auto C = A; C *= C[k]; set([&](int i) { return a[i] * a[k]; }); c.check(eq(C, w), "*=v[k]"); }
	Z d = pow2<T>(r); MV q(N); for (int i = 0; i < N; ++i) q[i] = i == k ? d : a[i] * d; { auto C = mk(q); auto E = C / C[k]; for (int i = 0; i < N; ++i) w[i] = i == k ? Z{1, 0} : a[i]; c.check(eq(E, w), "/s"); C /= C[k]; c.check(eq(C, w), "/=v[k]"); }
	c.check(eq(A, a) && eq(B, b), "unchanged"); c.check(A == mk(a) && !(A != mk(a)), "=="); { auto C = A; C[k] = Tr<T>::to(a[k] + Z{1, 0}); c.check(A != C && !(A == C), "!="); if constexpr (!Tr<T>::cplx) c.check(!A.IsEqualTo(C, T(0.5)) && A.IsEqualTo(C, T(1.5)), "IsEqualTo"); }
	bool allz = true; for (auto& z : a) if (!(z == Z{})) allz = false; if constexpr (!Tr<T>::cplx) { c.check(A.isZero() == allz, "isZero"); VectorN<T, N> z; z[k] = T(1); c.check(!z.isZero(), "isZero k"); }
	long double n1 = 0, n2 = 0, ni = 0; for (auto& x : a) { n1 += zabs(x); n2 += zabs(x) * zabs(x); ni = std::max(ni, zabs(x)); } long double eps = std::is_same_v<T, float> ? 1e-5L : 1e-12L; n2 = std::sqrt(n2);
	if constexpr (!std::is_same_v<T, float>) { c.close(A.NormL1(), n1, eps * (1 + n1), "L1"); c.close(A.NormLInf(), ni, eps * (1 + ni), "LInf"); } c.close(A.NormL2(), n2, eps * (1 + n2), "L2");
	if (n2 > 0) { auto u = A.Normalized(); for (int i = 0; i < N; ++i) { long double e = zabs({a[i].re, a[i].im}) / n2; c.close(std::abs(u[i]), e, eps * 4, "Normalized"); } c.check(eq(A, a), "Normalized const"); }
	else c.throws<VectorDimensionError>([&] { A.Normalized(); }, "Normalized zero");
	{ VectorN<T, N> C(S); MV e(N, s); c.check(eq(C, e), "ctor val"); C.clear(); c.check(eq(C, MV(N)), "clear"); std::vector<T> raw; for (auto& z : a) raw.push_back(Tr<T>::to(z)); c.check(eq(VectorN<T, N>(raw), a) && eq(VectorN<T, N>(raw.data()), a), "ctor raw"); auto U = VectorN<T, N>::UnitVector(k); MV ue(N); ue[k] = {1, 0}; c.check(eq(U, ue), "UnitVector"); int cut = r.i(0, N); std::vector<T> sh(raw.begin(), raw.begin() + cut); MV se(N); for (int i = 0; i < cut; ++i) se[i] = a[i]; c.check(eq(VectorN<T, N>(sh), se), "short init zero-fills"); c.check(std::equal(A.begin(), A.end(), raw.begin()) && A.size() == N && A.end() - A.begin() == N, "iteration"); }
	if constexpr (std::is_same_v<T, Real>) { L ab = 0; for (int i = 0; i < N; ++i) ab += a[i].re * b[i].re; c.check(Utils::ScalarProduct(A, B) == (Real)ab, "dot"); long double nb = 0; for (auto& x : b) nb += (long double)x.re * x.re; nb = std::sqrt(nb); if (n2 > 0 && nb > 0) c.close(std::cos((long double)Utils::VectorsAngle(A, B)), ab / (n2 * nb), 1e-9L, "angle"); }
	if constexpr (std::is_same_v<T, Complex>) { Z sp; for (int i = 0; i < N; ++i) sp = sp + a[i] * Z{b[i].re, -b[i].im}; c.check(Tr<T>::eq(Utils::ScalarProduct(A, B), sp), "dot"); }
}
#if !defined(PART) || PART == 7
FAMILY(vecN_real, 500) { switch (c.r.i(0, 5)) { case 0: vn<Real, 1>(c); break; case 1: vn<Real, 2>(c); break; case 2: vn<Real, 3>(c); break; case 3: vn<Real, 4>(c); break; case 4: vn<Real, 6>(c); break; default: vn<Real, 9>(c); } }
FAMILY(vecN_cplx, 250) { switch (c.r.i(0, 3)) { case 0: vn<Complex, 1>(c); break; case 1: vn<Complex, 2>(c); break; case 2: vn<Complex, 3>(c); break; default: vn<Complex, 5>(c); } }
FAMILY(vecN_float, 100) { vn<float, 3>(c); }

#endif
template<class T, int N, int M, int K> void mnm(mon::Case& c) {
	auto& r = c.r; MM a = rm<T>(r, N, M), b = rm<T>(r, N, M), g = rm<T>(r, M, K); Z s = rz<T>(r); c.in("a", a); c.in("b", b); c.in("g", g); c.in("s", s);
	MatrixNM<T, N, M> A, B; MatrixNM<T, M, K> G; for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { A(i, j) = Tr<T>::to(a.at(i, j)); B[i][j] = Tr<T>::to(b.at(i, j)); } for (int i = 0; i < M; ++i) for (int j = 0; j < K; ++j) G(i, j) = Tr<T>::to(g.at(i, j));
	auto eq = [&](const auto& x, const MM& m) { if (x.rows() != m.r || x.cols() != m.c) return false; for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (!Tr<T>::eq(x(i, j), m.at(i, j))) return false; return true; };
	T S = Tr<T>::to(s); MM w(N, M); auto set = [&](auto f) { for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = f(i); };
	set([&](size_t i) { return a.d[i] + b.d[i]; }); c.check(eq(A + B, w), "+"); set([&](size_t i) { return a.d[i] - b.d[i]; }); c.check(eq(A - B, w), "-"); set([&](size_t i) { return Z{} - a.d[i]; }); c.check(eq(-A, w), "neg");
	set([&](size_t i) { return a.d[i] * s; }); c.check(eq(A * S, w), "*s"); c.check(eq(S * A, w), "s*"); { auto C = A; C *= S; c.check(eq(C, w), "*=s"); }
	{ int i = r.i(0, N - 1), j = r.i(0, M - 1); auto C = A; Z p = a.at(i, j); C *= C(i, j); set([&](size_t q) { return a.d[q] * p; }); c.check(eq(C, w), "*=m(i,j)"); }
	{ Z d = pow2<T>(r); MatrixNM<T, N, M> C = A * Tr<T>::to(d); c.check(eq(C / Tr<T>::to(d), a), "/s"); }
	c.check(eq(A * G, mul(a, g)), "m*m"); c.check(eq(A.transpose(), tr(a)), "transpose"); c.check(eq(A, a) && eq(B, b) && eq(G, g), "unchanged");
	MV v = rv<T>(r, M), u = rv<T>(r, N); VectorN<T, M> V; VectorN<T, N> U; for (int i = 0; i < M; ++i) V[i] = Tr<T>::to(v[i]); for (int i = 0; i < N; ++i) U[i] = Tr<T>::to(u[i]);
	{ auto x = A * V; auto y = U * A; bool ok = true, ok2 = true; for (int i = 0; i < N; ++i) { Z z; for (int j = 0; j < M; ++j) z = z + a.at(i, j) * v[j]; ok = ok && Tr<T>::eq(x[i], z); } for (int j = 0; j < M; ++j) { Z z; for (int i = 0; i < N; ++i) z = z + u[i] * a.at(i, j); ok2 = ok2 && Tr<T>::eq(y[j], z); } c.check(ok, "m*v"); c.check(ok2, "v*m"); }
	{ int i = r.i(0, N - 1), j = r.i(0, M - 1); auto ro = A.VectorFromRow(i); auto co = A.VectorFromColumn(j); bool ok = true; for (int q = 0; q < M; ++q) ok = ok && Tr<T>::eq(ro[q], a.at(i, q)); for (int q = 0; q < N; ++q) ok = ok && Tr<T>::eq(co[q], a.at(q, j)); auto di = A.VectorFromDiagonal(); for (int q = 0; q < std::min(N, M); ++q) ok = ok && Tr<T>::eq(di[q], a.at(q, q)); c.check(ok, "row/col/diag"); c.check(Tr<T>::eq(A.at(i, j), a.at(i, j)), "at"); auto C = A; C.at(i, j) = Tr<T>::to(a.at(i, j) + Z{1, 0}); c.check(C != A && !(C == A) && !C.IsEqualTo(A, 0.5) && C.IsEqualTo(A, 1.5), "!="); C = A; c.check(C == A, "assign"); }
	{ std::vector<T> flat; for (auto& z : a.d) flat.push_back(Tr<T>::to(z)); c.check(eq(MatrixNM<T, N, M>(flat.data(), flat.size()), a), "ctor ptr"); size_t cut = r.i(0, N * M); MM e(N, M); for (size_t i = 0; i < cut; ++i) e.d[i] = a.d[i]; c.check(eq(MatrixNM<T, N, M>(flat.data(), cut), e), "ctor short ptr"); MM id(N, M), sc(N, M); for (int i = 0; i < std::min(N, M); ++i) { id.at(i, i) = {1, 0}; sc.at(i, i) = s; } c.check(eq(MatrixNM<T, N, M>::Identity(), id), "Identity"); c.check(eq(MatrixNM<T, N, M>(S), sc), "ctor scalar diag"); auto C = A; C = S; MM f(N, M); for (auto& z : f.d) z = s; c.check(eq(C, f), "assign scalar"); }
	if constexpr (N == M) { Z t; for (int i = 0; i < N; ++i) t = t + a.at(i, i); c.check(Tr<T>::eq(A.Trace(), t), "Trace"); auto C = A; C.Transpose(); c.check(eq(C, tr(a)), "Transpose"); MM lo(N, N), up(N, N), sl(N, N), su(N, N), id(N, N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { if (j <= i) lo.at(i, j) = a.at(i, j); if (j < i) sl.at(i, j) = a.at(i, j); if (j >= i) up.at(i, j) = a.at(i, j); if (j > i) su.at(i, j) = a.at(i, j); if (i == j) id.at(i, j) = {1, 0}; } c.check(eq(A.GetLower(), lo) && eq(A.GetUpper(), up) && eq(A.GetLower(false), sl) && eq(A.GetUpper(false), su), "Lower/Upper"); C.MakeUnitMatrix(); c.check(eq(C, id), "MakeUnit"); c.check(eq(A * A, mul(a, a)), "m*self"); }
	else { c.throws<MatrixDimensionError>([&] { A.Trace(); }, "Trace nonsquare"); auto C = A; c.throws<MatrixDimensionError>([&] { C.Transpose(); }, "Transpose nonsquare"); c.throws<MatrixDimensionError>([&] { C.MakeUnitMatrix(); }, "MakeUnit nonsquare"); c.throws<MatrixDimensionError>([&] { (void)C.GetLower(); }, "GetLower nonsquare"); c.check(eq(C, a), "unchanged after throw"); }
	{ MV vv = rv<T>(r, N); VectorN<T, N> X; for (int i = 0; i < N; ++i) X[i] = Tr<T>::to(vv[i]); MM er(1, N), ec(N, 1), ed(N, N); for (int i = 0; i < N; ++i) { er.at(0, i) = vv[i]; ec.at(i, 0) = vv[i]; ed.at(i, i) = vv[i]; } c.check(eq(Utils::RowMatrixFromVector(X), er) && eq(Utils::ColumnMatrixFromVector(X), ec) && eq(Utils::DiagonalMatrixFromVector(X), ed), "from VectorN"); }
}
#if !defined(PART) || PART == 8
FAMILY(matNM_real, 400) { switch (c.r.i(0, 6)) { case 0: mnm<Real, 1, 1, 3>(c); break; case 1: mnm<Real, 2, 2, 2>(c); break; case 2: mnm<Real, 3, 3, 3>(c); break; case 3: mnm<Real, 4, 4, 2>(c); break; case 4: mnm<Real, 2, 5, 3>(c); break; case 5: mnm<Real, 5, 2, 4>(c); break; default: mnm<Real, 3, 1, 4>(c); } }
#endif
#if !defined(PART) || PART == 9
FAMILY(matNM_cplx, 200) { switch (c.r.i(0, 2)) { case 0: mnm<Complex, 2, 2, 2>(c); break; case 1: mnm<Complex, 3, 4, 2>(c); break; default: mnm<Complex, 4, 3, 3>(c); } }

#endif
// truncated matrix exponential family: exact partial sums in long double
#if !defined(PART) || PART == 5
FAMILY(matfunc, 250) {
	auto& r = c.r; int n = r.i(1, 5); Matrix<Real> A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.uni(-1, 1) * 0.6; c.in("A", A); int terms = r.i(12, 24); c.in("terms", terms);
	typedef std::vector<long double> LM; auto ml = [&](const LM& x, const LM& y) { LM z(n * n); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) z[i * n + j] += x[i * n + k] * y[k * n + j]; return z; };
	LM a(n * n), p(n * n), e(n * n), sn(n * n), cs(n * n), sh(n * n), ch(n * n); for (int i = 0; i < n * n; ++i) a[i] = A(i / n, i % n); for (int i = 0; i < n; ++i) p[i * n + i] = 1; long double f = 1;
	for (int k = 0; k < 60; ++k) { if (k) { p = ml(p, a); f *= k; } for (int i = 0; i < n * n; ++i) { long double t = p[i] / f; e[i] += t; if (k % 2) { sh[i] += t; sn[i] += (k % 4 == 1) ? t : -t; } else { ch[i] += t; cs[i] += (k % 4 == 0) ? t : -t; } } }
	auto cmp = [&](const Matrix<Real>& M, const LM& w, const char* k) { long double m = 0; for (int i = 0; i < n * n; ++i) m = std::max(m, std::fabs((long double)M(i / n, i % n) - w[i])); c.close(m, 0, std::pow(3.0L, terms) / std::tgamma((long double)terms) * 4 + 1e-10L, k); };
	// ||A||_inf <= 3, remainder bounded by 3^terms/terms! times a constant
	cmp(Utils::Exp(A, terms), e, "Exp"); cmp(Utils::Sin(A, terms), sn, "Sin"); cmp(Utils::Cos(A, terms), cs, "Cos"); cmp(Utils::Sinh(A, terms), sh, "Sinh"); cmp(Utils::Cosh(A, terms), ch, "Cosh");
}

// real-valued (not integer) elements: forward error bound of the dot product, wide magnitude range
FAMILY(mat_scaled, 200) {
	auto& r = c.r; int n = r.sz(1, 8, 40), m = r.sz(1, 8, 40), k = r.sz(1, 8, 40); int e = r.i(-100, 100); Matrix<Real> A(n, m), B(m, k); for (auto& x : A) x = r.normal() * std::pow(10.0, r.uni(-6, 6)) * std::pow(2.0, e); for (auto& x : B) x = r.normal() * std::pow(10.0, r.uni(-6, 6)); c.in("A", A); c.in("B", B);
	auto C = A * B; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { long double s = 0, sa = 0; for (int q = 0; q < m; ++q) { s += (long double)A(i, q) * B(q, j); sa += std::fabs((long double)A(i, q) * B(q, j)); } c.close(C(i, j), s, sa * 1e-14L, "m*m rounding"); }
	auto nA = A.NormL2(); long double s2 = 0; for (auto& x : A) s2 += (long double)x * x; c.close(nA, std::sqrt(s2), std::sqrt(s2) * 1e-12L, "NormL2");
}
#endif
MON_MAIN()
