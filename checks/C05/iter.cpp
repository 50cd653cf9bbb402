// C05: iterative linear solvers: status honesty (independently recomputed residual) and convergence inside the theory's domain.
#include "mon.h"
#include "la.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"
using namespace MML; using mon::Case; using la::LD;
static LD relres(const Matrix<Real>& A, const Vector<Real>& x, const Vector<Real>& b) {
	int n = A.rows(); LD s2 = 0, b2 = 0; for (int i = 0; i < n; i++) { LD s = -(LD)b[i]; for (int j = 0; j < n; j++) s += (LD)A(i, j) * x[j]; s2 += s * s; b2 += (LD)b[i] * b[i]; } return sqrtl(s2) / (b2 == 0 ? 1 : sqrtl(b2));
}
static LD rnd(const Matrix<Real>& A, const Vector<Real>& x, const Vector<Real>& b) { // rounding floor of the relative residual
	int n = A.rows(); LD m = 0, b2 = 0; for (int i = 0; i < n; i++) { LD s = fabsl((LD)b[i]); for (int j = 0; j < n; j++) s += fabsl((LD)A(i, j) * x[j]); m += s * s; b2 += (LD)b[i] * b[i]; } return 4e-16L * (n + 4) * sqrtl(m) / (b2 == 0 ? 1 : sqrtl(b2));
}
static void honest(Case& c, const Matrix<Real>& A, const Vector<Real>& b, const Vector<Real>& x0, const IterativeSolverResult& r, double tol, int maxIter, const std::string& key) {
	int n = A.rows(); if (!c.check(r.solution.size() == n, key + ":size")) return;
	LD rr = relres(A, r.solution, b), fl = rnd(A, r.solution, b); bool fin = std::isfinite((double)rr) && std::isfinite((double)fl);
	c.check(r.iterations >= 0 && r.iterations <= std::max(0, maxIter), key + ":iterations");
	if (r.converged) { c.ev("claimed_converged"); c.check(r.iterations >= 1, key + ":iterations>=1"); if (!c.check(fin, key + ":converged-nonfinite")) return; c.check(rr <= tol * (1 + 1e-6L) + fl, key + ":claims-convergence", "true relative residual " + std::to_string((double)rr) + " tol " + std::to_string(tol)); c.check(r.residual < tol || (tol == 0), key + ":reported<tol"); }
	else { c.ev("reported_failure"); c.check(r.iterations == std::max(0, maxIter), key + ":gave-up-early"); if (maxIter >= 1 && fin && rr < 1e150L) c.check(rr + fl >= tol * (1 - 1e-6L), key + ":denies-convergence"); }
	if (fin && rr < 1e100L) c.close(r.residual, rr, 1e-9L * rr + 10 * fl, key + ":residual"); else c.ev("diverged");
	Vector<Real> s(n); if (x0.size() == n) s = x0; LD r0 = relres(A, s, b); c.close(r.initial_residual, r0, 1e-9L * r0 + 10 * rnd(A, s, b), key + ":initial-residual");
}
struct Sys { Matrix<Real> A; Vector<Real> b, x0; double q; };
static Sys dominant(Case& c) {
	int n = c.r.sz(1, 10, 40); double q = c.r.coin(0.2) ? 0.0 : c.r.uni(0.05, 0.9), sc = c.r.pick({1.0, 1.0, 1e-7, 1e7, 1e-25, 1e30}); Sys s{Matrix<Real>(n, n), Vector<Real>(n), Vector<Real>(), q};
	for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) if (j != i) { s.A(i, j) = c.r.coin(0.3) ? 0 : c.r.uni(-1, 1); t += std::fabs(s.A(i, j)); } double d = (q > 0 ? t / q : 0); if (d == 0) { if (q == 0) for (int j = 0; j < n; j++) s.A(i, j) = 0; d = c.r.uni(0.5, 2); } s.A(i, i) = c.r.coin() ? d : -d; double rs = c.r.coin(0.3) ? std::pow(10.0, c.r.uni(-2, 2)) : 1; for (int j = 0; j < n; j++) s.A(i, j) *= sc * rs; s.b[i] = c.r.normal() * c.r.pick({1.0, 1.0, 0.0}); }
	if (c.r.coin()) { s.x0 = Vector<Real>(n); for (int i = 0; i < n; i++) s.x0[i] = c.r.normal() * c.r.pick({1.0, 100.0}); }
	c.in("A", s.A); c.in("b", s.b); c.in("x0", s.x0); c.in("q", q); return s;
}
static bool same(const Matrix<Real>& a, const Matrix<Real>& b) { for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (!(a(i, j) == b(i, j))) return false; return true; }
FAMILY(dominant_sys, 3000) {
	Sys s = dominant(c); int n = s.A.rows(); double w = c.r.uni(0.3, 1.0); const Matrix<Real> A0 = s.A; const Vector<Real> b0 = s.b, x00 = s.x0;
	// the residual decays at least like q^k in the max norm up to row scaling: give a generous budget from the theory
	Vector<Real> st(n); if (s.x0.size() == n) st = s.x0; LD r0 = relres(s.A, st, s.b); double tol = std::pow(10.0, c.r.uni(-9, -2)); LD floor0 = 0; { la::M x; la::M bb(n, 1); for (int i = 0; i < n; i++) bb(i, 0) = s.b[i]; la::solve(la::from(s.A), bb, x); Vector<Real> xs(n); for (int i = 0; i < n; i++) xs[i] = (double)x(i, 0); floor0 = 100 * rnd(s.A, xs, s.b); }
	if (floor0 > tol) { c.trivial(); return; }
	auto budget = [&](double rate) { if (rate <= 0) return 3; double k = std::log((double)(tol / (std::max((LD)1, r0) * 1e7L * n))) / std::log(rate); return (int)std::min(1e6, std::max(5.0, 3 + k)); };
	auto conv = [&](const IterativeSolverResult& r, int mi, const char* key) { c.check(r.converged, std::string(key) + ":must-converge"); honest(c, s.A, s.b, s.x0, r, tol, mi, key); };
	int mj = budget(s.q), ms = budget(1 - w * (1 - s.q)); conv(JacobiSolver::Solve(s.A, s.b, s.x0, tol, mj), mj, "jacobi"); conv(GaussSeidelSolver::Solve(s.A, s.b, s.x0, tol, mj), mj, "gs"); conv(SORSolver::Solve(s.A, s.b, w, s.x0, tol, ms), ms, "sor");
	c.ev("theory_convergent", 3);
	{ IterativeSolverConfig cf(tol, ms); cf.omega = w; auto r = SORSolver::Solve(s.A, s.b, cf, s.x0); conv(r, ms, "sor-cfg"); c.check(r.omega_used == w && r.status == AlgorithmStatus::Success && r.algorithm_name == "SOR", "sor-cfg-meta"); cf.max_iterations = mj; auto r1 = JacobiSolver::Solve(s.A, s.b, cf, s.x0); conv(r1, mj, "jacobi-cfg"); auto r2 = GaussSeidelSolver::Solve(s.A, s.b, cf, s.x0); conv(r2, mj, "gs-cfg"); c.check(r1.status == AlgorithmStatus::Success && r2.status == AlgorithmStatus::Success, "cfg-status"); }
	if (s.x0.size() == 0) { Vector<Real> x = JacobiSolver::SolveSimple(s.A, s.b, tol, mj); c.check(relres(s.A, x, s.b) <= tol * (1 + 1e-6L) + rnd(s.A, x, s.b), "jacobi-simple"); x = GaussSeidelSolver::SolveSimple(s.A, s.b, tol, mj); c.check(relres(s.A, x, s.b) <= tol * (1 + 1e-6L) + rnd(s.A, x, s.b), "gs-simple"); x = SORSolver::SolveSimple(s.A, s.b, w, tol, ms); c.check(relres(s.A, x, s.b) <= tol * (1 + 1e-6L) + rnd(s.A, x, s.b), "sor-simple"); }
	{ auto a = SORSolver::Solve(s.A, s.b, 1.0, s.x0, tol, mj), g = GaussSeidelSolver::Solve(s.A, s.b, s.x0, tol, mj); c.check(a.converged == g.converged && std::abs(a.iterations - g.iterations) <= 1, "sor(1)=gs"); }
	c.check(same(s.A, A0) && s.b.size() == b0.size() && (s.b - b0).NormL2() == 0 && s.x0.size() == x00.size(), "inputs-intact");
}
FAMILY(spd_sys, 1000) {
	int n = c.r.sz(2, 7, 24); std::vector<double> e(n); for (auto& x : e) x = c.r.uni(1, 15); la::M q = la::orth(c.r, n, n), a = la::usv(q, e, q); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(j, i) = a(i, j); Matrix<Real> A = la::to<Matrix<Real>>(a); Vector<Real> b(n), x0; for (int i = 0; i < n; i++) b[i] = c.r.normal(); c.in("A", A); c.in("b", b); double w = c.r.uni(0.3, 1.7), tol = std::pow(10.0, c.r.uni(-9, -3));
	auto r = GaussSeidelSolver::Solve(A, b, x0, tol, 20000); c.check(r.converged, "gs:must-converge"); honest(c, A, b, x0, r, tol, 20000, "gs"); r = SORSolver::Solve(A, b, w, x0, tol, 20000); c.check(r.converged, "sor:must-converge"); honest(c, A, b, x0, r, tol, 20000, "sor"); c.ev("theory_convergent", 2);
	r = SORSolver::SolveOptimal(A, b, x0, tol, 50000); c.check(r.converged, "sor-opt:must-converge"); honest(c, A, b, x0, r, tol, 50000, "sor-opt"); double o = SORSolver::EstimateOptimalOmega(A, b, c.r.i(1, 10), c.r.i(5, 50)); c.check(o >= 1.0 && o < 2.0, "estimate-omega");
	int mj = c.r.i(1, 200); r = JacobiSolver::Solve(A, b, x0, tol, mj); honest(c, A, b, x0, r, tol, mj, "jacobi");
}
FAMILY(arbitrary, 3000) { // anything goes: non-convergent, singular, nearly zero diagonals; only honesty is required
	int n = c.r.sz(1, 8, 36); Matrix<Real> A(n, n); Vector<Real> b(n), x0; double dg = c.r.uni(0, 3); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A(i, j) = c.r.normal(); A(i, i) *= dg; if (A(i, i) == 0) A(i, i) = 1; b[i] = c.r.coin(0.1) ? 0 : c.r.normal(); } if (c.r.coin(0.3)) for (int i = 0; i < n; i++) b[i] = 0; if (c.r.coin()) { x0 = Vector<Real>(n); for (int i = 0; i < n; i++) x0[i] = c.r.normal(); } double mx = 0, mn = 1e9; for (int i = 0; i < n; i++) { mx = std::max(mx, std::fabs(A(i, i))); mn = std::min(mn, std::fabs(A(i, i))); } if (!(mn > 1e-14 * mx)) { c.trivial(); return; }
	c.in("A", A); c.in("b", b); c.in("x0", x0); double tol = std::pow(10.0, c.r.uni(-14, 1)), w = c.r.uni(0.01, 1.99); int mi = c.r.pick({0, 1, 2, 5, 30, 100, 400}); c.in("tol", tol); c.in("mi", mi); c.in("w", w);
	honest(c, A, b, x0, JacobiSolver::Solve(A, b, x0, tol, mi), tol, mi, "jacobi"); honest(c, A, b, x0, GaussSeidelSolver::Solve(A, b, x0, tol, mi), tol, mi, "gs"); honest(c, A, b, x0, SORSolver::Solve(A, b, w, x0, tol, mi), tol, mi, "sor");
	IterativeSolverConfig cf(tol, mi); cf.omega = w; for (int k = 0; k < 3; k++) { auto r = k == 0 ? JacobiSolver::Solve(A, b, cf, x0) : k == 1 ? GaussSeidelSolver::Solve(A, b, cf, x0) : SORSolver::Solve(A, b, cf, x0); honest(c, A, b, x0, r, tol, mi, "cfg"); c.check(r.converged == (r.status == AlgorithmStatus::Success), "cfg-status"); if (!r.converged) c.check(r.status == AlgorithmStatus::MaxIterationsExceeded && !r.error_message.empty(), "cfg-status-fail"); }
	for (int k = 0; k < 3; k++) { auto r = k == 0 ? JacobiSolver::Solve(A, b, Vector<Real>(), tol, mi) : k == 1 ? GaussSeidelSolver::Solve(A, b, Vector<Real>(), tol, mi) : SORSolver::Solve(A, b, w, Vector<Real>(), tol, mi); bool threw = false; Vector<Real> x; try { x = k == 0 ? JacobiSolver::SolveSimple(A, b, tol, mi) : k == 1 ? GaussSeidelSolver::SolveSimple(A, b, tol, mi) : SORSolver::SolveSimple(A, b, w, tol, mi); } catch (const ConvergenceError&) { threw = true; } c.check(threw == !r.converged, "simple-throws-iff-not-converged"); }
}
FAMILY(iterate, 1200) { // one step equals the textbook step; k steps = k single steps
	Sys s = dominant(c); int n = s.A.rows(); if (s.x0.size() == 0) { s.x0 = Vector<Real>(n); for (int i = 0; i < n; i++) s.x0[i] = c.r.normal(); } double w = c.r.uni(0.1, 1.9); int k = c.r.i(1, 4); std::vector<LD> xj(n), xg(n), xs(n); for (int i = 0; i < n; i++) xj[i] = xg[i] = xs[i] = s.x0[i]; LD sz = 0;
	for (int t = 0; t < k; t++) { auto o = xj; for (int i = 0; i < n; i++) { LD sj = s.b[i], sg = s.b[i], ss = s.b[i]; for (int j = 0; j < n; j++) if (j != i) { sj -= (LD)s.A(i, j) * o[j]; sg -= (LD)s.A(i, j) * xg[j]; ss -= (LD)s.A(i, j) * xs[j]; } xj[i] = sj / s.A(i, i); xg[i] = sg / s.A(i, i); xs[i] = (1 - w) * xs[i] + w * ss / s.A(i, i); } for (int i = 0; i < n; i++) sz = std::max({sz, fabsl(xj[i]), fabsl(xg[i]), fabsl(xs[i]), fabsl((LD)s.x0[i])}); }
	auto a = JacobiSolver::Solve(s.A, s.b, s.x0, 0.0, k), g = GaussSeidelSolver::Solve(s.A, s.b, s.x0, 0.0, k), o = SORSolver::Solve(s.A, s.b, w, s.x0, 0.0, k); if (!c.check(a.solution.size() == n && g.solution.size() == n && o.solution.size() == n, "sizes")) return; for (int i = 0; i < n; i++) { c.close(a.solution[i], xj[i], 1e-12L * sz, "jacobi-iterate"); c.close(g.solution[i], xg[i], 1e-12L * sz, "gs-iterate"); c.close(o.solution[i], xs[i], 1e-12L * sz, "sor-iterate"); } c.ev("iterates_compared", 3);
}
FAMILY(reject, 500) {
	int n = c.r.i(1, 5), m = n + c.r.i(1, 3); if (c.r.coin()) std::swap(n, m); Matrix<Real> A(n, m, 1.0), S = Matrix<Real>::Identity(n); Vector<Real> b(n, 1.0), e(m, 1.0), z; c.in("n", n); c.in("m", m);
	c.throws<MatrixDimensionError>([&] { JacobiSolver::Solve(A, b); }, "j"); c.throws<MatrixDimensionError>([&] { GaussSeidelSolver::Solve(A, b); }, "g"); c.throws<MatrixDimensionError>([&] { SORSolver::Solve(A, b, 1.1); }, "s"); c.throws<MatrixDimensionError>([&] { JacobiSolver::Solve(S, e); }, "jb"); c.throws<MatrixDimensionError>([&] { GaussSeidelSolver::Solve(S, e); }, "gb"); c.throws<MatrixDimensionError>([&] { SORSolver::Solve(S, e, 1.0); }, "sb");
	double bw = c.r.pick({0.0, -0.5, 2.0, 2.5, -1e300, 1e300}); c.throws<NumericalMethodError>([&] { SORSolver::Solve(S, b, bw); }, "omega"); c.throws<NumericalMethodError>([&] { SORSolver::SolveSimple(S, b, bw); }, "omega-simple"); IterativeSolverConfig cf = IterativeSolverConfig::SOR(bw); c.throws<NumericalMethodError>([&] { SORSolver::Solve(S, b, cf); }, "omega-cfg");
	Matrix<Real> Z(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Z(i, j) = c.r.uni(1, 2); int k = c.r.i(0, n - 1); Z(k, k) = 0; c.throws<SingularMatrixError>([&] { JacobiSolver::Solve(Z, b); }, "jz"); c.throws<SingularMatrixError>([&] { GaussSeidelSolver::Solve(Z, b); }, "gz"); c.throws<SingularMatrixError>([&] { SORSolver::Solve(Z, b, 1.0); }, "sz");
	{ Matrix<Real> S1(1, 1, c.r.uni(1, 5)); Vector<Real> b1(1, 2.0); auto r = SORSolver::SolveOptimal(S1, b1); c.check(r.converged, "optimal-1x1"); }
}
MON_MAIN()
