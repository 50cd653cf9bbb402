// C04: direct solvers: residual oracle in long double, singular reports, reuse and input preservation.
#include "mon.h"
#include "la.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "core/LinAlgEqSolvers/LinAlgDirect.h"
#include "core/LinAlgEqSolvers/LinAlgQR.h"
#include "core/LinAlgEqSolvers/LinAlgSVD.h"
using namespace MML; using mon::Case; using la::LD;
static const double EPS = 2.220446049250313e-16;

template<class T> struct LDof { typedef LD t; }; template<> struct LDof<Complex> { typedef std::complex<LD> t; };
static LD ab(LD x) { return fabsl(x); } static LD ab(const std::complex<LD>& x) { return std::abs(x); }
static LD up(Real x) { return x; } static std::complex<LD> up(const Complex& x) { return {x.real(), x.imag()}; }
static Real val(mon::Rng& r, Real) { return r.normal(); } static Complex val(mon::Rng& r, Complex) { return {r.normal(), r.normal()}; }

// well-conditioned random matrix with a random structure: (kind, scale)
struct Gen { la::M a; double cond, scale; };
static Gen genReal(Case& c, int n) {
	Gen g; int kind = c.r.i(0, 5); double sc = c.r.pick({1.0, 1.0, 1.0, 1e-6, 1e6, 1e-20, 1e20, 1e-100, 1e80}); g.cond = 1;
	std::vector<double> s(n); double cd = std::pow(10.0, c.r.uni(0, 5));
	switch (kind) {
	case 0: case 1: { for (int i = 0; i < n; i++) s[i] = std::pow(cd, -c.r.u01()); if (n > 1) { s[0] = 1; s[n - 1] = 1 / cd; } else { s[0] = 1; cd = 1; } g.a = la::usv(la::orth(c.r, n, n), s, la::orth(c.r, n, n)); g.cond = cd; break; }
	case 2: { // permuted diagonal: every pivot must be searched for
		g.a = la::M(n, n); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; c.r.shuffle(p); for (int i = 0; i < n; i++) g.a(i, p[i]) = c.r.coin() ? c.r.uni(0.5, 2) : -c.r.uni(0.5, 2); g.cond = 4; break; }
	case 3: { // strictly dominant with random permutation of rows
		g.a = la::M(n, n); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) if (j != i) { g.a(i, j) = c.r.uni(-1, 1); t += fabsl(g.a(i, j)); } g.a(i, i) = (t + c.r.uni(0.5, 2)) * (c.r.coin() ? 1 : -1); } la::M b = g.a; std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; c.r.shuffle(p); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g.a(i, j) = b(p[i], j); g.cond = 10.0 * n; break; }
	case 4: { // orthogonal
		g.a = la::orth(c.r, n, n); g.cond = 1; break; }
	default: { // small integers, unit triangular product: exactly determinant +-1
		la::M l = la::eye(n), u = la::eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { l(i, j) = c.r.i(-1, 1); u(j, i) = c.r.i(-1, 1); } g.a = la::mul(l, u); la::M x; la::solve(g.a, la::eye(n), x); g.cond = (double)(la::nmax(x) * la::nmax(g.a) * n * n); break; }
	}
	g.scale = sc; for (auto& v : g.a.a) v = (double)(v * sc);
	c.in("n", n); c.in("kind", kind); c.in("scale", sc); c.in("cond", g.cond);
	{ std::vector<double> v(g.a.a.begin(), g.a.a.end()); c.in("A", v); }
	return g;
}
static LD nrmInf(const la::M& a) { LD m = 0; for (int i = 0; i < a.r; i++) { LD s = 0; for (int j = 0; j < a.c; j++) s += fabsl(a(i, j)); m = std::max(m, s); } return m; }

// backward error of x for A x = b
static void resid(Case& c, const la::M& a, const Vector<Real>& x, const Vector<Real>& b, const std::string& key, double slack = 1) {
	int n = a.r; if (!c.check(x.size() == a.c, key + ":size")) return;
	LD na = nrmInf(a), nx = 0, nb = 0, nr = 0; for (int i = 0; i < x.size(); i++) nx = std::max(nx, fabsl((LD)x[i]));
	for (int i = 0; i < n; i++) { LD s = -(LD)b[i]; for (int j = 0; j < a.c; j++) s += a(i, j) * x[j]; nr = std::max(nr, fabsl(s)); nb = std::max(nb, fabsl((LD)b[i])); if (std::isnan((double)s)) { c.fail(key + ":nan", ""); return; } }
	LD tol = 50.0 * (n + 4) * EPS * slack * (na * nx + nb);
	c.close(nr, 0, tol, key); c.ev("residuals");
}
static Vector<Real> rb(Case& c, int n, double scale) {
	Vector<Real> b(n); int k = c.r.i(0, 3); for (int i = 0; i < n; i++) b[i] = k == 0 ? (i == n - 1 ? 1.0 : 0.0) : k == 1 ? (i == 0) : c.r.normal(); double s = c.r.pick({1.0, scale, 1e-5, 1e5}); for (int i = 0; i < n; i++) b[i] *= s; return b;
}
static bool eqV(const Vector<Real>& a, const Vector<Real>& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
static bool eqM(const Matrix<Real>& a, const Matrix<Real>& b) { return a.rows() == b.rows() && a.cols() == b.cols() && [&] { for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (!(a(i, j) == b(i, j))) return false; return true; }(); }
static void invOracle(Case& c, const la::M& a, const Matrix<Real>& inv, double cond, const std::string& key) {
	int n = a.r; if (!c.check(inv.rows() == n && inv.cols() == n, key + ":shape")) return;
	LD tol = 200.0 * (n + 4) * n * EPS * cond; la::M p = la::mul(a, la::from(inv)), q = la::mul(la::from(inv), a); LD e1 = 0, e2 = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { e1 = std::max(e1, fabsl(p(i, j) - (i == j))); e2 = std::max(e2, fabsl(q(i, j) - (i == j))); }
	c.close(e1, 0, tol, key + ":A*inv"); c.close(e2, 0, tol, key + ":inv*A"); c.ev("inverses");
}
static void detOracle(Case& c, const la::M& a, double got, double cond, const std::string& key) {
	LD d = la::det(a); if (fabsl(d) > 1e300L || fabsl(d) < 1e-290L) return; c.close(got, d, fabsl(d) * 200.0 * (a.r + 4) * a.r * EPS * cond, key); c.ev("determinants");
}

#if PART == 1
FAMILY(square, 5000) {
	int n = c.r.coin(0.85) ? c.r.i(1, 8) : c.r.i(9, c.r.coin(.15) ? 48 : 18); Gen g = genReal(c, n); Matrix<Real> A = la::to<Matrix<Real>>(g.a); const Matrix<Real> A0 = A; Vector<Real> b = rb(c, n, g.scale); const Vector<Real> b0 = b;
	int p = c.r.i(1, 4); Matrix<Real> B(n, p); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) B(i, j) = c.r.normal() * g.scale; const Matrix<Real> B0 = B;
	auto cols = [&](const Matrix<Real>& X, const char* key) { if (!c.check(X.rows() == n && X.cols() == p, std::string(key) + ":shape")) return; for (int j = 0; j < p; j++) resid(c, g.a, X.VectorFromColumn(j), B0.VectorFromColumn(j), key); };
	// Gauss-Jordan
	{ resid(c, g.a, GaussJordanSolver<Real>::SolveConst(A, b), b0, "gj-const", g.cond); c.check(eqM(A, A0) && eqV(b, b0), "gj-const-inputs");
	  Matrix<Real> a1 = A; Vector<Real> x = b; GaussJordanSolver<Real>::SolveInPlace(a1, x); resid(c, g.a, x, b0, "gj-inplace", g.cond); invOracle(c, g.a, a1, g.cond, "gj-inplace-inverse");
	  Matrix<Real> a2 = A; resid(c, g.a, GaussJordanSolver<Real>::Solve(a2, b), b0, "gj-solve", g.cond); c.check(eqV(b, b0), "gj-solve-b");
	  Matrix<Real> a3 = A, X = B; GaussJordanSolver<Real>::SolveInPlace(a3, X); for (int j = 0; j < p; j++) resid(c, g.a, X.VectorFromColumn(j), B0.VectorFromColumn(j), "gj-multi", g.cond); }
	// LU
	{ LUSolver<Real> lu(A); c.check(eqM(A, A0), "lu-input"); for (int rep = 0; rep < 2; rep++) { resid(c, g.a, lu.Solve(b), b0, "lu"); Matrix<Real> X(n, p); lu.Solve(B, X); cols(X, "lu-multi"); Matrix<Real> inv; lu.inverse(inv); invOracle(c, g.a, inv, g.cond, "lu-inverse"); detOracle(c, g.a, lu.det(), g.cond, "lu-det"); } c.check(eqM(B, B0) && eqV(b, b0), "lu-rhs"); Vector<Real> x(n); c.check(lu.Solve(b, x), "lu-bool"); resid(c, g.a, x, b0, "lu-2"); x = b; lu.Solve(x, x); resid(c, g.a, x, b0, "lu-alias");
	  Vector<Real> sh(n + 1), sm(n - 1 < 0 ? 0 : n - 1), on(n); c.throws<VectorDimensionError>([&] { lu.Solve(sh); }, "lu-dim"); c.check(!lu.Solve(sh, on) && !lu.Solve(b, sh), "lu-bool-dim"); Matrix<Real> bad(n + 1, p), out(n, p), out2(n, p + 1); c.throws<MatrixDimensionError>([&] { lu.Solve(bad, out); }, "lu-mdim"); c.throws<MatrixDimensionError>([&] { lu.Solve(B, out2); }, "lu-mdim2"); }
	{ Matrix<Real> a1 = A; LUSolverInPlace<Real> lu(a1); resid(c, g.a, lu.Solve(b), b0, "luip"); Matrix<Real> X = lu.Solve(B); cols(X, "luip-multi"); resid(c, g.a, lu.Solve(b), b0, "luip-again"); c.throws<VectorDimensionError>([&] { lu.Solve(Vector<Real>(n + 2)); }, "luip-dim"); Matrix<Real> bad(n + 1, p); c.throws<MatrixDimensionError>([&] { lu.Solve(bad); }, "luip-mdim"); }
	// QR
	{ QRSolver<Real> qr(A); c.check(eqM(A, A0), "qr-input"); c.check(!qr.isSingular() && !qr.IsSingular() && qr.rows() == n && qr.cols() == n, "qr-meta"); resid(c, g.a, qr.Solve(b), b0, "qr"); resid(c, g.a, qr.LeastSquaresSolve(b), b0, "qr-lsq"); Matrix<Real> inv; qr.inverse(inv); invOracle(c, g.a, inv, g.cond, "qr-inverse"); detOracle(c, g.a, qr.det(), g.cond, "qr-det"); resid(c, g.a, qr.Solve(b), b0, "qr-again"); Vector<Real> x = b; qr.Solve(x, x); resid(c, g.a, x, b0, "qr-alias");
	  c.throws<VectorDimensionError>([&] { qr.Solve(Vector<Real>(n + 1)); }, "qr-dim"); }
	// SVD
	{ SVDecompositionSolver<Real> sv(A); c.check(eqM(A, A0), "svd-input"); resid(c, g.a, sv.Solve(b), b0, "svd", 20); Matrix<Real> X(n, p); sv.Solve(B, X); for (int j = 0; j < p; j++) resid(c, g.a, X.VectorFromColumn(j), B0.VectorFromColumn(j), "svd-multi", 20); c.check(sv.Rank() == n && sv.Nullity() == 0, "svd-rank"); c.throws<VectorDimensionError>([&] { sv.Solve(Vector<Real>(n + 1)); }, "svd-dim"); Matrix<Real> bad(n + 1, p); c.throws<MatrixDimensionError>([&] { sv.Solve(bad, X); }, "svd-mdim"); }
	// detailed API
	{ auto r1 = GaussJordanSolveDetailed<Real>(A, b); auto r2 = LUSolveDetailed<Real>(A, b); for (auto* r : {&r1, &r2}) { c.check(r->IsSuccess(), "detail-ok"); resid(c, g.a, r->solution, b0, "detail", g.cond); LD s2 = 0, nx = 0; for (int i = 0; i < n; i++) { LD s = -(LD)b[i]; for (int j = 0; j < n; j++) s += g.a(i, j) * r->solution[j]; s2 += s * s; nx = std::max(nx, fabsl((LD)r->solution[i])); } LD nb = 0; for (int i = 0; i < n; i++) nb = std::max(nb, fabsl((LD)b[i])); if (!(nrmInf(g.a) * nx < 1e-140L)) c.close(r->residual_norm, sqrtl(s2), 20.0 * n * n * EPS * (nrmInf(g.a) * nx + nb), "detail-residual"); } }
	c.check(eqM(A, A0) && eqV(b, b0), "inputs-intact");
}
FAMILY(complexsys, 1200) {
	int n = c.r.sz(1, 7, 24); c.in("n", n); Matrix<Complex> A(n, n); Vector<Complex> b(n); int kind = c.r.i(0, 2); double sc = c.r.pick({1.0, 1e-8, 1e8});
	std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; if (kind) c.r.shuffle(p);
	for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) { A(p[i], j) = kind == 2 ? Complex(0) : val(c.r, Complex()); t += std::abs(A(p[i], j)); } double ph = c.r.uni(0, 6.28); A(p[i], i) = std::polar(t + 1, ph); b[i] = val(c.r, Complex()); for (int j = 0; j < n; j++) A(p[i], j) *= sc; }
	{ std::ostringstream o; o << A << b; c.note(o.str()); }
	auto res = [&](const Vector<Complex>& x, const std::string& key) { LD nr = 0, sz = 0; if (!c.check(x.size() == n, key + ":size")) return; for (int i = 0; i < n; i++) { std::complex<LD> s = -up(b[i]); LD t = ab(up(b[i])); for (int j = 0; j < n; j++) { s += up(A(i, j)) * up(x[j]); t += ab(up(A(i, j))) * ab(up(x[j])); } nr = std::max(nr, ab(s)); sz = std::max(sz, t); } c.close(nr, 0, 2000.0 * n * EPS * sz, key); c.ev("complex_residuals"); };
	const Matrix<Complex> A0 = A; const Vector<Complex> b0 = b;
	res(GaussJordanSolver<Complex>::SolveConst(A, b), "cgj"); { Matrix<Complex> a1 = A; Vector<Complex> x = b; GaussJordanSolver<Complex>::SolveInPlace(a1, x); res(x, "cgj-inplace"); }
	LUSolver<Complex> lu(A); res(lu.Solve(b), "clu"); res(lu.Solve(b), "clu2"); { Matrix<Complex> a1 = A; LUSolverInPlace<Complex> li(a1); res(li.Solve(b), "cluip"); }
	Matrix<Complex> inv; lu.inverse(inv); LD e = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { std::complex<LD> s = i == j ? -1.0L : 0.0L; for (int k = 0; k < n; k++) s += up(A(i, k)) * up(inv(k, j)); e = std::max(e, ab(s)); } c.close(e, 0, 5000.0 * n * EPS * n, "clu-inverse");
	if (n <= 3) { std::complex<LD> d; auto u = [&](int i, int j) { return up(A(i, j)); }; if (n == 1) d = u(0, 0); else if (n == 2) d = u(0, 0) * u(1, 1) - u(0, 1) * u(1, 0); else d = u(0, 0) * (u(1, 1) * u(2, 2) - u(1, 2) * u(2, 1)) - u(0, 1) * (u(1, 0) * u(2, 2) - u(1, 2) * u(2, 0)) + u(0, 2) * (u(1, 0) * u(2, 1) - u(1, 1) * u(2, 0)); c.close(ab(up(lu.det()) - d), 0, 1e-10L * ab(d), "clu-det"); }
	for (int i = 0; i < n; i++) { c.check(b[i] == b0[i], "c-rhs"); for (int j = 0; j < n; j++) c.check(A(i, j) == A0(i, j), "c-input"); }
	// singular complex
	{ Matrix<Complex> S = A; int i = c.r.i(0, n - 1); if (n > 1 && c.r.coin()) { int k = (i + 1) % n; for (int j = 0; j < n; j++) S(i, j) = S(k, j); } else for (int j = 0; j < n; j++) S(i, j) = 0; c.throws<SingularMatrixError>([&] { LUSolver<Complex> x(S); }, "clu-singular"); c.throws<SingularMatrixError>([&] { Matrix<Complex> t = S; LUSolverInPlace<Complex> x(t); }, "cluip-singular"); c.throws<SingularMatrixError>([&] { GaussJordanSolver<Complex>::SolveConst(S, b); }, "cgj-singular"); }
}
FAMILY(singular, 2500) {
	int n = c.r.sz(1, 8, 30); double sc = c.r.pick({1.0, 1e-9, 1e9, 1e-60, 1e60}); int kind = c.r.i(0, 4); la::M a(n, n); for (auto& v : a.a) v = c.r.coin(0.5) ? (double)c.r.i(-5, 5) : c.r.normal();
	int i = c.r.i(0, n - 1), k = n > 1 ? (i + 1 + c.r.i(0, n - 2)) % n : i;
	if (n == 1 || kind == 0) for (int j = 0; j < n; j++) a(i, j) = 0; else if (kind == 1) for (int j = 0; j < n; j++) a(j, i) = 0; else if (kind == 2) for (int j = 0; j < n; j++) a(i, j) = a(k, j) * (c.r.coin() ? 1 : 1); else if (kind == 3) for (int j = 0; j < n; j++) a(j, i) = -a(j, k); else for (auto& v : a.a) v = 0;
	for (auto& v : a.a) v = (double)(v * sc); { std::vector<double> v(a.a.begin(), a.a.end()); c.in("A", v); }
	Matrix<Real> A = la::to<Matrix<Real>>(a); const Matrix<Real> A0 = A; Vector<Real> b = rb(c, n, sc);
	c.ev("singular_matrices");
	c.throws<SingularMatrixError>([&] { GaussJordanSolver<Real>::SolveConst(A, b); }, "gj-singular"); c.throws<SingularMatrixError>([&] { Matrix<Real> t = A; GaussJordanSolver<Real>::Solve(t, b); }, "gj2-singular");
	c.throws<SingularMatrixError>([&] { LUSolver<Real> x(A); }, "lu-singular"); c.throws<SingularMatrixError>([&] { Matrix<Real> t = A; LUSolverInPlace<Real> x(t); }, "luip-singular");
	{ LinearSolverConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r1 = LUSolveDetailed<Real>(A, b, cf); c.check(!r1.IsSuccess() && r1.status == AlgorithmStatus::SingularMatrix && !r1.error_message.empty(), "lu-detail-singular"); auto r2 = GaussJordanSolveDetailed<Real>(A, b, cf); c.check(r2.status == AlgorithmStatus::SingularMatrix, "gj-detail-singular"); auto r3 = LUSolveDetailed<Real>(A, Vector<Real>(n + 1), cf); c.check(!r3.IsSuccess(), "lu-detail-dim"); Matrix<Real> I = Matrix<Real>::Identity(n); c.check(LUSolveDetailed<Real>(I, Vector<Real>(n + 1), cf).status == AlgorithmStatus::InvalidInput, "lu-detail-invalid"); c.check(GaussJordanSolveDetailed<Real>(I, Vector<Real>(n + 1), cf).status == AlgorithmStatus::InvalidInput, "gj-detail-invalid"); }
	// zero column is the case QR must flag exactly
	if (kind == 1 || kind == 4 || n == 1) { QRSolver<Real> q(A); c.check(q.isSingular(), "qr-singular-flag"); c.throws<SingularMatrixError>([&] { q.Solve(b); }, "qr-singular"); c.throws<SingularMatrixError>([&] { Matrix<Real> v; q.inverse(v); }, "qr-singular-inv"); c.check(q.det() == 0, "qr-singular-det"); c.throws<SingularMatrixError>([&] { q.LeastSquaresSolve(b); }, "qr-singular-lsq"); }
	// SVD gives a least-squares answer: residual orthogonal to the columns
	{ SVDecompositionSolver<Real> sv(A); c.check(sv.Rank() < n && sv.Rank() + sv.Nullity() == n, "svd-singular-rank"); Vector<Real> x = sv.Solve(b); LD na = nrmInf(a), nb = 0; for (int r = 0; r < n; r++) nb = std::max(nb, fabsl((LD)b[r])); la::M res(n, 1); for (int r = 0; r < n; r++) { LD s = -(LD)b[r]; for (int j = 0; j < n; j++) s += a(r, j) * x[j]; res(r, 0) = s; } LD nx = 0; for (int j = 0; j < n; j++) nx = std::max(nx, fabsl((LD)x[j])); for (int j = 0; j < n; j++) { LD s = 0; for (int r = 0; r < n; r++) s += a(r, j) * res(r, 0); c.close(s, 0, 1e-12L * n * n * na * (nb + na * nx), "svd-normal-eq"); } }
	c.check(eqM(A, A0), "input-intact");
}
FAMILY(badshape, 400) {
	int n = c.r.i(1, 5), m = n + c.r.i(1, 3); if (c.r.coin()) std::swap(n, m); c.in("n", n); c.in("m", m); Matrix<Real> A(n, m, 1.0); Matrix<Real> S = Matrix<Real>::Identity(n); Vector<Real> b(n, 1.0), e(m, 1.0);
	c.throws<MatrixDimensionError>([&] { LUSolver<Real> x(A); }, "lu"); c.throws<MatrixDimensionError>([&] { Matrix<Real> t = A; LUSolverInPlace<Real> x(t); }, "luip"); c.throws<MatrixDimensionError>([&] { CholeskySolver<Real> x(A); }, "chol"); c.throws<MatrixDimensionError>([&] { GaussJordanSolver<Real>::SolveConst(A, b); }, "gj"); c.throws<MatrixDimensionError>([&] { GaussJordanSolver<Real>::SolveConst(S, e); }, "gj-b"); c.throws<MatrixDimensionError>([&] { Matrix<Real> t = S; GaussJordanSolver<Real>::Solve(t, e); }, "gj-b2"); c.throws<MatrixDimensionError>([&] { Matrix<Real> t = S; Vector<Real> x = e; GaussJordanSolver<Real>::SolveInPlace(t, x); }, "gj-b3"); c.throws<MatrixDimensionError>([&] { Matrix<Real> t = S, B(m, 2, 1.0); GaussJordanSolver<Real>::SolveInPlace(t, B); }, "gj-B");
	if (n < m) c.throws<MatrixDimensionError>([&] { QRSolver<Real> q(A); }, "qr-wide"); else { Matrix<Real> R(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) R(i, j) = c.r.normal(); QRSolver<Real> q(R); c.throws<MatrixDimensionError>([&] { q.Solve(b); }, "qr-solve-tall"); c.throws<MatrixDimensionError>([&] { q.det(); }, "qr-det-tall"); c.throws<MatrixDimensionError>([&] { Matrix<Real> v; q.inverse(v); }, "qr-inv-tall"); c.throws<VectorDimensionError>([&] { q.LeastSquaresSolve(e); }, "qr-lsq-dim"); }
	Matrix<Real> Z; Vector<Real> z; c.throws<MatrixDimensionError>([&] { LUSolver<Real> x(Z); }, "lu0"); c.throws<MatrixDimensionError>([&] { LUSolverInPlace<Real> x(Z); }, "luip0"); c.throws<MatrixDimensionError>([&] { CholeskySolver<Real> x(Z); }, "chol0"); c.throws<MatrixDimensionError>([&] { SVDecompositionSolver<Real> x(Z); }, "svd0"); c.throws<MatrixDimensionError>([&] { QRSolver<Real> x(Z); }, "qr0"); c.throws<MatrixDimensionError>([&] { GaussJordanSolver<Real>::SolveConst(Z, z); }, "gj0");
	// NaN in the input is never turned into a finite-looking success
	Matrix<Real> N(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) N(i, j) = c.r.normal() + (i == j ? n : 0); int ni = c.r.i(0, n - 1), nj = c.r.i(0, n - 1); N(ni, nj) = c.r.pick({NAN, INFINITY, -INFINITY}); c.in("at", ni * 10 + nj); c.in("v", N(ni, nj));
	c.throws<MatrixNumericalError>([&] { LUSolver<Real> x(N); }, "lu-nonfinite"); c.throws<ArgumentError>([&] { LUSolverInPlace<Real> x(N); }, "luip-nonfinite");
	for (int s = 0; s < 2; s++) { try { Vector<Real> x = s ? QRSolver<Real>(N).Solve(b) : GaussJordanSolver<Real>::SolveConst(N, b); bool fin = true; for (int i = 0; i < n; i++) if (!std::isfinite(x[i])) fin = false; if (std::isnan(N(ni, nj))) c.check(!fin, "nonfinite-finite-answer"); } catch (const MMLException&) { c.ev("nonfinite_rejected"); } }
}
#else
FAMILY(spd, 2500) {
	int n = c.r.coin(0.85) ? c.r.i(1, 8) : c.r.i(9, c.r.coin(.15) ? 40 : 16); double cd = std::pow(10.0, c.r.uni(0, 5)), sc = c.r.pick({1.0, 1e-7, 1e7, 1e-40, 1e60}); std::vector<double> s(n); for (auto& x : s) x = std::pow(cd, -c.r.u01()); la::M q = la::orth(c.r, n, n); la::M a = la::usv(q, s, q);
	for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = (double)(a(i, j) * sc); { std::vector<double> v(a.a.begin(), a.a.end()); c.in("A", v); }
	Matrix<Real> A = la::to<Matrix<Real>>(a); const Matrix<Real> A0 = A; Vector<Real> b = rb(c, n, sc); const Vector<Real> b0 = b;
	CholeskySolver<Real> ch(A); c.check(eqM(A, A0), "chol-input"); resid(c, a, ch.Solve(b), b0, "chol"); resid(c, a, ch.Solve(b), b0, "chol-again"); Vector<Real> x = b; ch.Solve(x, x); resid(c, a, x, b0, "chol-alias"); Vector<Real> y; ch.Solve(b, y); resid(c, a, y, b0, "chol-resize"); Matrix<Real> inv; ch.inverse(inv); invOracle(c, a, inv, cd, "chol-inverse");
	const Matrix<Real>& L = ch.L(); la::M l = la::from(L), ll = la::mul(l, la::tr(l)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { c.close(ll(i, j), a(i, j), 20.0 * (n + 2) * EPS * la::nmax(a), "chol-LLt"); if (j > i) c.check(L(i, j) == 0, "chol-lower"); } for (int i = 0; i < n; i++) c.check(L(i, i) > 0, "chol-diag");
	LD d = la::det(a); if (d > 0) c.close(ch.logdet(), logl(d), 1e-10L * (1 + fabsl(logl(d))) * 1 + 200.0 * n * n * EPS * cd, "chol-logdet"); c.throws<VectorDimensionError>([&] { ch.Solve(Vector<Real>(n + 1)); }, "chol-dim");
	auto r = CholeskySolveDetailed<Real>(A, b); c.check(r.IsSuccess(), "chol-detail"); resid(c, a, r.solution, b0, "chol-detail");
	// break it: not positive definite / not symmetric
	{ la::M bad = a; int k = c.r.i(0, n - 1); int kind = c.r.i(0, 3); if (kind == 0) bad(k, k) = 0; else if (kind == 1) bad(k, k) = -bad(k, k); else if (kind == 2 && n > 1) { std::vector<double> t = s; t[k] = -std::max(0.3, (double)t[k]); bad = la::usv(q, t, q); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) bad(i, j) = bad(j, i) = (double)(bad(i, j) * sc); } else for (auto& v : bad.a) v = -v; Matrix<Real> B = la::to<Matrix<Real>>(bad); c.ev("indefinite"); c.throws<SingularMatrixError>([&] { CholeskySolver<Real> z(B); }, "chol-notpd"); LinearSolverConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; c.check(CholeskySolveDetailed<Real>(B, b, cf).status == AlgorithmStatus::SingularMatrix, "chol-detail-notpd"); }
	if (n > 1) { Matrix<Real> N = A; int i = c.r.i(0, n - 1), j = (i + 1) % n; N(i, j) += 1 + std::fabs(N(i, j)); c.throws<MatrixDimensionError>([&] { CholeskySolver<Real> z(N); }, "chol-nonsym"); }
	{ Matrix<Real> N = A; int i = c.r.i(0, n - 1); N(i, i) = NAN; bool threw = false; try { CholeskySolver<Real> z(N); } catch (const MMLException&) { threw = true; } c.check(threw, "chol-nan"); }
}
FAMILY(tall, 2000) {
	int n = c.r.sz(1, 6, 20), m = n + c.r.i(1, 6); double cd = std::pow(10.0, c.r.uni(0, 4)), sc = c.r.pick({1.0, 1e-6, 1e6, 1e-30}); std::vector<double> s(n); for (auto& x : s) x = std::pow(cd, -c.r.u01()); la::M a = la::usv(la::orth(c.r, m, n), s, la::orth(c.r, n, n)); for (auto& v : a.a) v = (double)(v * sc); c.in("m", m); c.in("n", n); { std::vector<double> v(a.a.begin(), a.a.end()); c.in("A", v); }
	Matrix<Real> A = la::to<Matrix<Real>>(a); const Matrix<Real> A0 = A; Vector<Real> b(m); for (int i = 0; i < m; i++) b[i] = c.r.normal(); bool consistent = c.r.coin(0.3); if (consistent) { Vector<Real> t(n); for (int j = 0; j < n; j++) t[j] = c.r.normal(); b = A * t; } const Vector<Real> b0 = b;
	LD na = la::nfro(a), nb = 0; for (int i = 0; i < m; i++) nb += (LD)b[i] * b[i]; nb = sqrtl(nb);
	auto lsq = [&](const Vector<Real>& x, const std::string& key) { if (!c.check(x.size() == n, key + ":size")) return; LD nx = 0; for (int j = 0; j < n; j++) nx = std::max(nx, fabsl((LD)x[j])); std::vector<LD> r(m); for (int i = 0; i < m; i++) { LD t = -(LD)b[i]; for (int j = 0; j < n; j++) t += a(i, j) * x[j]; r[i] = t; } for (int j = 0; j < n; j++) { LD t = 0; for (int i = 0; i < m; i++) t += a(i, j) * r[i]; c.close(t, 0, 500.0 * m * EPS * na * (nb + na * nx), key + ":normal-eq"); } if (consistent) for (int i = 0; i < m; i++) c.close(r[i], 0, 500.0 * m * EPS * (nb + na * nx), key + ":consistent"); c.ev("least_squares"); };
	QRSolver<Real> qr(A); c.check(!qr.isSingular(), "qr-tall-flag"); lsq(qr.LeastSquaresSolve(b), "qr"); lsq(qr.LeastSquaresSolve(b), "qr-again"); SVDecompositionSolver<Real> sv(A); lsq(sv.Solve(b), "svd"); c.check(sv.Rank() == n, "svd-rank");
	la::M Q = la::from(qr.GetQ()), R = la::from(qr.GetR()); c.check(Q.r == m && Q.c == n && R.r == n && R.c == n, "qr-shapes"); la::M p = la::mul(Q, R); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c.close(p(i, j), a(i, j), 100.0 * m * EPS * na, "QR=A"); la::M t = la::mul(la::tr(Q), Q); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { c.close(t(i, j), i == j, 100.0 * m * EPS, "QtQ"); if (j < i) c.check(R(i, j) == 0, "R-upper"); }
	Vector<Real> u, w; qr.QtMultiply(b, u); qr.QMultiply(u, w); for (int i = 0; i < m; i++) c.close(w[i], b[i], 100.0 * m * EPS * nb, "QQtb"); for (int j = 0; j < n; j++) { LD e = 0; for (int i = 0; i < m; i++) e += Q(i, j) * b[i]; c.close(u[j], e, 100.0 * m * EPS * nb, "Qtb"); } c.throws<VectorDimensionError>([&] { qr.QtMultiply(Vector<Real>(m + 1), u); }, "Qt-dim"); c.throws<VectorDimensionError>([&] { qr.QMultiply(Vector<Real>(m + 1), u); }, "Q-dim"); c.throws<VectorDimensionError>([&] { qr.RSolve(Vector<Real>(n + 1), u); }, "R-dim");
	c.check(eqM(A, A0) && eqV(b, b0), "tall-inputs");
}
FAMILY(svd, 2000) {
	int m = c.r.sz(1, 8, 24), n = c.r.sz(1, 8, 24), k = std::min(m, n), rk = c.r.i(0, k); if (c.r.coin(0.4)) rk = k; double sc = c.r.pick({1.0, 1.0, 1e-8, 1e8, 1e-50, 1e60}); std::vector<double> s(rk); for (auto& x : s) x = std::pow(10.0, -c.r.uni(0, 4)); if (rk > 1 && c.r.coin(0.3)) s[1] = s[0]; la::M a(m, n); if (rk) a = la::usv(la::orth(c.r, m, rk), s, la::orth(c.r, n, rk)); for (auto& v : a.a) v = (double)(v * sc); c.in("m", m); c.in("n", n); c.in("rank", rk); c.in("s", s); { std::vector<double> v(a.a.begin(), a.a.end()); c.in("A", v); }
	if (m < n) c.ev("wide"); if (rk < k) c.ev("rank_deficient");
	Matrix<Real> A = la::to<Matrix<Real>>(a); SVDecompositionSolver<Real> sv(A); la::M U = la::from(sv.getU()), V = la::from(sv.getV()); Vector<Real> W = sv.getW(); LD na = la::nfro(a); if (!c.check(U.r == m && U.c == n && V.r == n && V.c == n && W.size() == n, "svd-shapes")) return;
	std::sort(s.rbegin(), s.rend()); for (int j = 0; j < n; j++) { c.check(W[j] >= 0, "w>=0"); if (j) c.check(W[j] <= W[j - 1], "w-sorted"); c.close(W[j], j < rk ? s[j] * sc : 0, 100.0 * (m + n) * EPS * na, "w-values"); }
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD t = 0; for (int q = 0; q < n; q++) t += U(i, q) * W[q] * V(j, q); c.close(t, a(i, j), 100.0 * (m + n) * EPS * na, "UWVt=A"); }
	la::M vv = la::mul(la::tr(V), V); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.close(vv(i, j), i == j, 1e-13L * (m + n) * 4, "VtV"); for (int i = 0; i < rk; i++) for (int j = 0; j < rk; j++) { LD t = 0; for (int q = 0; q < m; q++) t += U(q, i) * U(q, j); c.close(t, i == j, 1e-9, "UtU-range"); }
	LD thr = 1e-9L * na; int r = sv.Rank((double)thr), nl = sv.Nullity((double)thr); c.check(r == rk && nl == n - rk, "svd-rank-thresh"); if (rk < n) c.close(sv.inv_condition(), 0, 1e-10, "inv-cond-0"); else c.close(sv.inv_condition(), s[n - 1] / s[0], 1e-9, "inv-cond");
	Matrix<Real> N = sv.Nullspace((double)thr), R = sv.Range((double)thr); if (n - rk) { c.check(N.rows() == n && N.cols() == n - rk, "null-shape"); la::M z = la::mul(a, la::from(N)); for (auto v : z.a) c.close(v, 0, 1e-12L * (m + n) * na, "A*null"); la::M g = la::mul(la::tr(la::from(N)), la::from(N)); for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) c.close(g(i, j), i == j, 1e-12, "null-orthonormal"); } if (rk) { c.check(R.rows() == m && R.cols() == rk, "range-shape"); la::M rr = la::from(R); la::M pr = la::mul(rr, la::mul(la::tr(rr), a)); for (size_t q = 0; q < pr.a.size(); q++) c.close(pr.a[q], a.a[q], 1e-11L * (m + n) * na, "range-projects"); }
	// minimum-norm least-squares solution
	Vector<Real> b(m); for (int i = 0; i < m; i++) b[i] = c.r.normal(); Vector<Real> x = sv.Solve(b, (double)thr); std::vector<LD> res(m); for (int i = 0; i < m; i++) { LD t = -(LD)b[i]; for (int j = 0; j < n; j++) t += a(i, j) * x[j]; res[i] = t; } for (int j = 0; j < n; j++) { LD t = 0; for (int i = 0; i < m; i++) t += a(i, j) * res[i]; c.close(t, 0, 1e-9L * na * m, "lsq-normal-eq"); } if (n - rk) { la::M nn = la::from(N); LD nx = 0; for (int j = 0; j < n; j++) nx = std::max(nx, fabsl((LD)x[j])); for (int q = 0; q < nn.c; q++) { LD t = 0; for (int j = 0; j < n; j++) t += nn(j, q) * x[j]; c.close(t, 0, 1e-11L * nx * n, "lsq-min-norm"); } }
}
FAMILY(qrsquare, 1200) {
	int n = c.r.sz(1, 8, 30); Gen g = genReal(c, n); Matrix<Real> A = la::to<Matrix<Real>>(g.a); QRSolver<Real> qr(A); la::M Q = la::from(qr.GetQ()), R = la::from(qr.GetR()), p = la::mul(Q, R), t = la::mul(la::tr(Q), Q); LD na = la::nfro(g.a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { c.close(p(i, j), g.a(i, j), 100.0 * n * EPS * na, "QR=A"); c.close(t(i, j), i == j, 100.0 * n * EPS, "QtQ"); if (j < i) c.check(R(i, j) == 0, "R-upper"); }
	Vector<Real> b(n), u, w; for (int i = 0; i < n; i++) b[i] = c.r.normal(); qr.QtMultiply(b, u); qr.QMultiply(u, w); for (int i = 0; i < n; i++) { c.close(w[i], b[i], 1e-13 * n * 10, "QQtb"); LD e = 0; for (int k = 0; k < n; k++) e += Q(k, i) * b[k]; c.close(u[i], e, 1e-13 * n * 10, "Qtb"); }
}
FAMILY(bandsys, 3000) {
	int n = c.r.sz(1, 12, 50), m1 = c.r.i(0, std::min(n + 1, 5)), m2 = c.r.i(0, std::min(n + 1, 5)); double sc = c.r.pick({1.0, 1e-8, 1e8, 1e-40}); int kind = c.r.i(0, 2); Matrix<Real> st(n, m1 + m2 + 1); la::M a(n, n);
	for (int i = 0; i < n; i++) for (int k = 0; k <= m1 + m2; k++) { int j = i + k - m1; double v = c.r.uni(-1, 1); if (j >= 0 && j < n) a(i, j) = v; else st(i, k) = c.r.i(-50, 50); }
	if (kind == 0) for (int i = 0; i < n; i++) { LD t = 0; for (int j = 0; j < n; j++) t += fabsl(a(i, j)); a(i, i) = (double)(t + 0.5) * (c.r.coin() ? 1 : -1); }   // dominant
	for (auto& v : a.a) v = (double)(v * sc); for (int i = 0; i < n; i++) for (int k = 0; k <= m1 + m2; k++) { int j = i + k - m1; if (j >= 0 && j < n) st(i, k) = (double)a(i, j); }
	c.in("n", n); c.in("m1", m1); c.in("m2", m2); { std::vector<double> v(a.a.begin(), a.a.end()); c.in("A", v); }
	la::M inv; double cond = 1e30; if (la::solve(a, la::eye(n), inv)) cond = (double)(nrmInf(a) * nrmInf(inv)); if (!(cond < 1e7)) { c.trivial(); return; }
	if (kind) c.ev("band_needs_pivoting");
	BandDiagonalMatrix B(n, m1, m2, st); BandDiagonalSolver s(B); Vector<Real> b = rb(c, n, sc); const Vector<Real> b0 = b; resid(c, a, s.Solve(b), b0, "band"); resid(c, a, s.Solve(b), b0, "band-again"); int p = c.r.i(1, 3); Matrix<Real> X(n, p); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) X(i, j) = c.r.normal(); Matrix<Real> Y = s.Solve(X); for (int j = 0; j < p; j++) resid(c, a, Y.VectorFromColumn(j), X.VectorFromColumn(j), "band-multi"); detOracle(c, a, s.Det(), cond, "band-det"); c.check(s.GetDimension() == n, "band-dim");
	Vector<Real> on(n), sh(n + 1); c.check(!s.Solve(sh, on) && !s.Solve(b, sh), "band-bool-dim"); c.throws<VectorDimensionError>([&] { s.Solve(sh); }, "band-vdim"); c.throws<MatrixDimensionError>([&] { s.Solve(Matrix<Real>(n + 1, 2)); }, "band-mdim"); Vector<Real> z = b; s.Solve(z, z); resid(c, a, z, b0, "band-alias"); auto d = BandDiagonalSolveDetailed(B, b); c.check(d.IsSuccess(), "band-detail"); resid(c, a, d.solution, b0, "band-detail");
	// exactly singular: zero row, zero column, all zero
	{ Matrix<Real> z = st; int q = c.r.i(0, n - 1), how = c.r.i(0, 2); for (int i = 0; i < n; i++) for (int k = 0; k <= m1 + m2; k++) { int j = i + k - m1; if (how == 2 || (how == 0 && i == q) || (how == 1 && j == q)) z(i, k) = 0; } c.throws<SingularMatrixError>([&] { BandDiagonalSolver t(BandDiagonalMatrix(n, m1, m2, z)); }, "band-singular"); c.ev("band_singular"); LinearSolverConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; c.check(BandDiagonalSolveDetailed(BandDiagonalMatrix(n, m1, m2, z), b, cf).status == AlgorithmStatus::SingularMatrix, "band-detail-singular"); }
}
template<class T> void trisys(Case& c) {
	int n = c.r.i(3, 12); double sc = c.r.pick({1.0, 1e-9, 1e9, 1e-30}); Vector<T> a(n), d(n), g(n), b(n); for (int i = 0; i < n; i++) { a[i] = val(c.r, T()) * sc; g[i] = val(c.r, T()) * sc; d[i] = val(c.r, T()); T u = d[i] / std::abs(d[i]); d[i] = u * (Real)((i ? std::abs(a[i]) : 0) + (i < n - 1 ? std::abs(g[i]) : 0) + c.r.uni(0.1, 1) * sc); b[i] = val(c.r, T()); } { std::ostringstream o; o.precision(17); o << a << d << g << b; c.note(o.str()); }
	const Vector<T> b0 = b; TridiagonalMatrix<T> m(n, a, d, g); auto res = [&](const Vector<T>& x, const char* key) { LD nr = 0, sz = 0; for (int i = 0; i < n; i++) { auto s = -up(b0[i]) + up(d[i]) * up(x[i]); LD t = ab(up(b0[i])) + ab(up(d[i])) * ab(up(x[i])); if (i) { s += up(a[i]) * up(x[i - 1]); t += ab(up(a[i])) * ab(up(x[i - 1])); } if (i < n - 1) { s += up(g[i]) * up(x[i + 1]); t += ab(up(g[i])) * ab(up(x[i + 1])); } nr = std::max(nr, ab(s)); sz = std::max(sz, t); } c.close(nr, 0, 500.0 * EPS * sz, key); c.ev("tri_residuals"); };
	res(m.Solve(b), "tri"); res(m.Solve(b), "tri-again"); Vector<T> x(n); m.Solve(b, x); res(x, "tri-out"); x = b; m.Solve(x, x); res(x, "tri-alias"); for (int i = 0; i < n; i++) c.check(b[i] == b0[i], "tri-rhs");
	Vector<T> sh(n + 1), sm(n - 1); c.throws<VectorDimensionError>([&] { m.Solve(sh); }, "tri-dim"); c.throws<VectorDimensionError>([&] { m.Solve(sm); }, "tri-dim2"); c.throws<VectorDimensionError>([&] { m.Solve(b, sm); }, "tri-dim3");
	Vector<T> z(n), zd = d; int q = c.r.i(0, n - 1); if (c.r.coin(0.3)) zd = z; else zd[q] = T(0); Vector<T> a0 = a, g0 = g; if (q) { g0[q - 1] = T(0); a0[q] = T(0); } else g0[q] = T(0); a0[q] = T(0); if (q < n - 1) { g0[q] = T(0); a0[q + 1] = T(0); } TridiagonalMatrix<T> s(n, a0, zd, g0); c.throws<SingularMatrixError>([&] { s.Solve(b); }, "tri-singular"); c.ev("tri_singular");
}
FAMILY(tri, 1500) { trisys<Real>(c); }
FAMILY(tri_c, 600) { trisys<Complex>(c); }
#endif
MON_MAIN()
