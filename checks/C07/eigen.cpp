// C07: eigenpair oracles: residual, orthogonality, constructed spectrum, power sums tr(A^k).
#include "mon.h"
#include "la.h"
#include "algorithms/EigenSystemSolvers.h"
using namespace MML; using mon::Case; using la::LD;
static const double EPS = 2.220446049250313e-16;
typedef std::complex<LD> CL;
static void rec(Case& c, const Matrix<Real>& A) { std::vector<double> v; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) v.push_back(A(i, j)); c.in("n", A.rows()); c.in("A", v); }

// ---- symmetric
struct Sym { la::M a; std::vector<double> s; double nrm; };
static Sym genSym(Case& c, double scale) {
	Sym g; int n = c.r.sz(1, 9, 30), kind = c.r.i(0, 6); g.s.resize(n);
	for (int i = 0; i < n; i++) g.s[i] = kind == 0 ? c.r.normal() : kind == 1 ? c.r.pick({1.0, 2.0, -1.0}) : kind == 2 ? 1 + c.r.pick({0.0, 1e-9, 2e-9, 1e-12}) : kind == 3 ? (c.r.coin() ? 0 : c.r.normal()) : kind == 4 ? std::pow(10.0, c.r.uni(-8, 2)) : kind == 5 ? c.r.i(-3, 3) : 0.0;
	la::M q = la::orth(c.r, n, n); if (kind == 5 || c.r.coin(0.15)) { q = la::eye(n); if (n > 1 && c.r.coin()) { LD h = sqrtl(0.5L); q(0, 0) = h; q(0, n - 1) = -h; q(n - 1, 0) = h; q(n - 1, n - 1) = h; c.ev("near_diagonal"); } }
	for (auto& v : g.s) v *= scale; g.a = la::usv(q, g.s, q); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) g.a(i, j) = g.a(j, i) = (double)((g.a(i, j) + g.a(j, i)) / 2);
	std::sort(g.s.begin(), g.s.end()); g.nrm = 0; for (auto v : g.s) g.nrm = std::max(g.nrm, std::fabs(v)); c.in("kind", kind); c.in("scale", scale); return g;
}
template<class R> static void symOracle(Case& c, const Sym& g, const R& r, LD e, const std::string& key) {
	int n = g.a.r; if (!c.check(r.eigenvalues.size() == n && r.eigenvectors.rows() == n && r.eigenvectors.cols() == n, key + ":size")) return;
	for (int i = 0; i < n; i++) { c.close(r.eigenvalues[i], g.s[i], e, key + ":eigenvalue"); if (i) c.check(r.eigenvalues[i] >= r.eigenvalues[i - 1], key + ":order"); }
	la::M v = la::from(r.eigenvectors), g2 = la::mul(la::tr(v), v); for (int i = 0; i < n; i++) g2(i, i) -= 1; c.close(la::nmax(g2), 0, 2000 * EPS * n, key + ":orthonormal");
	la::M av = la::mul(g.a, v); LD w = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w = std::max(w, fabsl(av(i, j) - v(i, j) * r.eigenvalues[j])); c.close(w, 0, 2 * e, key + ":residual"); c.ev("sym_eigenpairs", n);
}
static MatrixSym<Real> toSym(const la::M& a) { MatrixSym<Real> S(a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j <= i; j++) S(i, j) = (double)a(i, j); return S; }
FAMILY(symmetric, 2500) {
	double scale = c.r.pick({1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6}); Sym g = genSym(c, scale); int n = g.a.r; MatrixSym<Real> S = toSym(g.a); Matrix<Real> A = la::to<Matrix<Real>>(g.a); rec(c, A); double tol = c.r.pick({1e-13, 1e-10, 1e-7}) * scale * 1.0;
	LD fl = 100 * EPS * n * (g.nrm + 1e-300L); bool useMat = c.r.coin(); Matrix<Real> N = A; if (useMat) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double k = scale * c.r.i(-3, 3) * 0.25; N(i, j) += k; N(j, i) -= k; } }
	{ auto r = useMat ? SymmMatEigenSolverJacobi::Solve(N, tol) : SymmMatEigenSolverJacobi::Solve(S, tol); LD f2 = useMat ? fl + 8 * EPS * scale * n : fl; if (r.converged) { c.ev("jacobi_converged"); c.check(r.residual <= tol, "jacobi:residual<=tol"); } else { c.ev("jacobi_unconverged"); c.check(tol < 1e4 * EPS * g.nrm * n || tol < 1e-14, "jacobi:no-convergence"); } symOracle(c, g, r, r.residual * 2 * n + f2 * 4 + 1e-14 * n, "jacobi"); }
	{ auto r = useMat ? SymmMatEigenSolverQR::Solve(N, tol) : SymmMatEigenSolverQR::Solve(S, tol); LD f2 = useMat ? fl + 8 * EPS * scale * n : fl; c.check(r.converged, "qr:no-convergence"); c.ev("qr_converged"); symOracle(c, g, r, 4 * n * tol * (1 + 2 * g.nrm) + f2 * 4 + 1e-14 * n * 0, "qr"); }
	{ EigenSolverConfig cfg; cfg.tolerance = std::max(tol, 1e-12 * g.nrm); cfg.max_iterations = c.r.coin(0.3) ? 1 : 200; bool jac = c.r.coin(); auto chk = [&](auto r, const char* k) { std::string key = k; c.check((r.status == AlgorithmStatus::Success) == r.converged, key + ":status"); c.check(r.converged == r.error_message.empty(), key + ":message"); c.check(r.iterations <= cfg.max_iterations, key + ":limit"); if (!r.converged) c.ev("limit_hit"); else symOracle(c, g, r, 4 * n * cfg.tolerance * (1 + 2 * g.nrm) + fl * 4 + 1e-14 * n, key); }; if (jac) chk(SymmMatEigenSolverJacobi::Solve(S, cfg), "jacobi-config"); else chk(SymmMatEigenSolverQR::Solve(S, cfg), "qr-config"); }
}

// ---- general
static void general(Case& c, const la::M& a, double nrm, double tol, double cond, const std::string& key) {
	int n = a.r; Matrix<Real> A = la::to<Matrix<Real>>(a); auto r = EigenSolver::Solve(A, tol); if (!r.converged) { c.ev("general_unconverged"); c.ev(("unconv_" + key).c_str()); if (n <= 2) c.fail(key + ":no-convergence", ""); return; } c.ev("general_converged");
	if (!c.check((int)r.eigenvalues.size() == n && r.eigenvectors.rows() == n && (int)r.isComplexPair.size() == n, key + ":size")) return;
	// conjugate pairs are adjacent
	for (int i = 0; i < n; i++) if (r.eigenvalues[i].imag != 0) { if (!c.check(i + 1 < n && r.eigenvalues[i + 1].imag == -r.eigenvalues[i].imag && r.eigenvalues[i + 1].real == r.eigenvalues[i].real, key + ":conjugate")) return; i++; c.ev("complex_pairs"); }
	// power sums
	std::vector<CL> pw(n, CL(1, 0)); la::M p = la::eye(n); LD s = 1, e = (tol * std::max(1.0, nrm) * 4 * n + 1e-12 * nrm) / nrm;
	for (int k = 1; k <= n; k++) { p = la::mul(p, a); for (auto& v : p.a) v /= nrm; LD tr = 0; for (int i = 0; i < n; i++) tr += p(i, i); CL sum = 0; for (int i = 0; i < n; i++) { pw[i] *= CL(r.eigenvalues[i].real, r.eigenvalues[i].imag) / (LD)nrm; sum += pw[i]; } if (!c.close(sum.real(), tr, e * k * n * 30, key + ":power-sum")) break; c.close(sum.imag(), 0, e * k * n * 30, key + ":power-sum-imag"); }
	// eigenvectors
	LD worst = 0; for (int i = 0; i < n; i++) { bool cx = r.eigenvalues[i].imag != 0; LD nv = 0, w = 0; std::vector<CL> v(n); for (int j = 0; j < n; j++) { v[j] = cx ? CL(r.eigenvectors(j, i), r.eigenvectors(j, i + 1)) : CL(r.eigenvectors(j, i), 0); nv += std::norm(v[j]); } nv = sqrtl(nv); CL l(r.eigenvalues[i].real, r.eigenvalues[i].imag); for (int j = 0; j < n; j++) { CL t = -l * v[j]; for (int k = 0; k < n; k++) t += a(j, k) * v[k]; w += std::norm(t); } w = sqrtl(w); if (!c.check(nv > 0.5L && nv < 2, key + ":unit-vector")) return; worst = std::max(worst, w / nv); if (cx) i++; }
	c.close(worst / nrm, 0, e * 1e3 * cond, key + ":eigenvector"); c.close(r.maxResidual, worst, 1e-13L * nrm * n + 1e-9L * worst, key + ":maxResidual"); c.ev("general_pairs", n);
}
FAMILY(general, 2500) {
	int n = c.r.sz(1, 7, 20), kind = c.r.i(0, 4); double scale = c.r.pick({1.0, 1.0, 1e3, 1e-3}); la::M a(n, n); c.in("kind", kind);
	if (kind == 0) for (auto& v : a.a) v = (double)(c.r.normal() * scale);
	else if (kind == 1) for (auto& v : a.a) v = c.r.i(-4, 4) * scale;
	else { la::M d(n, n); for (int i = 0; i < n; i++) { if (kind >= 3 && i + 1 < n && c.r.coin()) { double x = c.r.normal(), y = c.r.uni(0.2, 2); d(i, i) = d(i + 1, i + 1) = x; d(i, i + 1) = y; d(i + 1, i) = -y; i++; } else d(i, i) = (i + 1) * (c.r.coin() ? 1 : -1) + c.r.uni(-0.3, 0.3); } if (c.r.coin()) for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) d(i, j) = c.r.uni(-1, 1); la::M q = la::orth(c.r, n, n); a = la::mul(la::mul(q, d), la::tr(q)); for (auto& v : a.a) v = (double)(v * scale); }
	Matrix<Real> A = la::to<Matrix<Real>>(a); rec(c, A); double nrm = (double)la::nfro(a); if (nrm == 0) { c.trivial(); return; } general(c, a, nrm, 1e-12 * 1, 1, kind == 0 ? "gauss" : kind == 1 ? "int" : kind == 2 ? "realspec" : "complexspec");
}
// structured matrices where QR iterations stall, deflate in the middle or have coinciding roots
FAMILY(structured, 2500) {
	int n = c.r.sz(2, 8, 20), kind = c.r.i(0, 8); la::M a(n, n); c.in("kind", kind); double scale = c.r.pick({1.0, 1.0, 1e-20, 1e20, 1e-5}); double cond = 1;
	switch (kind) {
	case 0: { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; c.r.shuffle(p); for (int i = 0; i < n; i++) a(i, p[i]) = c.r.coin(0.8) ? 1 : -1; break; } // permutations: orthogonal
	case 1: for (int i = 0; i < n; i++) a((i + 1) % n, i) = 1; break; // cyclic
	case 2: for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a(i, j) = c.r.i(-2, 2); break; // triangular, repeated eigenvalues
	case 3: for (int i = 0; i + 1 < n; i++) a(i + 1, i) = 1; for (int i = 0; i < n; i++) a(i, n - 1) = c.r.i(-3, 3); break; // companion
	case 4: { int k = c.r.i(1, n - 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i < k) == (j < k) || c.r.coin(0.5) && i < k) a(i, j) = c.r.normal(); break; } // block triangular
	case 5: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { a(i, j) = c.r.normal(); a(j, i) = -a(i, j); } break; // skew: purely imaginary
	case 6: { la::M q = la::orth(c.r, n, n); a = q; break; } // orthogonal
	case 7: { double l = c.r.i(-2, 2); for (int i = 0; i < n; i++) { a(i, i) = l; if (i + 1 < n) a(i, i + 1) = c.r.pick({0, 1}); } break; } // Jordan blocks
	default: { std::vector<LD> u(n), v(n); for (int i = 0; i < n; i++) { u[i] = c.r.i(-3, 3); v[i] = c.r.i(-3, 3); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = u[i] * v[j]; } } // rank one
	for (auto& v : a.a) v = (double)(v * scale); rec(c, la::to<Matrix<Real>>(a)); double nrm = (double)la::nfro(a); if (nrm == 0) { c.trivial(); return; } la::M b = a; for (auto& v : b.a) v /= nrm; // the oracle works on the normalised matrix
	static const char* nm[] = {"perm", "cyclic", "triangular", "companion", "block", "skew", "orthogonal", "jordan", "rankone"}; general(c, a, nrm, 1e-12, cond, nm[kind]);
}
// honest status on iteration limits, rejected shapes, 2x2 blocks
FAMILY(limits, 1200) {
	int n = c.r.i(3, 7); la::M a(n, n); for (auto& v : a.a) v = c.r.normal(); Matrix<Real> A = la::to<Matrix<Real>>(a); rec(c, A); EigenSolverConfig cfg; cfg.tolerance = 1e-12; cfg.max_iterations = c.r.i(1, 12); c.in("limit", cfg.max_iterations);
	auto r = EigenSolver::Solve(A, cfg); c.check((r.status == AlgorithmStatus::Success) == r.converged, "status"); c.check(r.error_message.empty() == r.converged, "message"); c.check(r.iterations <= cfg.max_iterations + 2, "iterations"); if (r.converged) { c.ev("limit_converged"); c.check(r.maxResidual < 1e-8 * la::nfro(a), "converged-residual"); } else c.ev("limit_not_converged");
	Matrix<Real> W(n, n + c.r.pick({-1, 1, 2})); c.throws<MatrixDimensionError>([&] { EigenSolver::Solve(W); }, "rect-general"); c.throws<MatrixDimensionError>([&] { SymmMatEigenSolverJacobi::Solve(W); }, "rect-jacobi"); c.throws<MatrixDimensionError>([&] { SymmMatEigenSolverQR::Solve(W); }, "rect-qr");
	// the 2x2 formula
	double p = c.r.i(-9, 9), q = c.r.i(-9, 9), s = c.r.i(-9, 9), t = c.r.i(-9, 9); auto e = EigenSolverHelpers::Eigenvalues2x2(p, q, s, t); CL l1(e.real1, e.imag1), l2(e.real2, e.imag2); c.close((l1 + l2).real(), p + t, 1e-12, "2x2:trace"); c.close(std::abs(l1 * l2 - CL(p * t - q * s, 0)), 0, 1e-10, "2x2:det"); c.check(e.isComplex == ((p - t) * (p - t) + 4 * q * s < 0), "2x2:kind"); c.ev("two_by_two");
}
MON_MAIN()
