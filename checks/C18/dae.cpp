// C18: index-1 DAE solvers: discrete equations at every stored point, order, constraints, limits, bad inputs
#include "ode.h"
#include "mml/algorithms/DAESolvers.h"
using namespace MML; using namespace ode;
typedef std::vector<VD> MD;
// x' = S(t,x) + B (y - phi(t,x)),  0 = M (y - phi) + beta .* (y - phi)^3 ; exact solution: x = flow of S, y = phi(t,x)
struct Dae : IODESystemDAEWithJacobian {
	Sys S; int m = 1; MD B, Mm, E; VD p0, pt, be, qb; std::vector<int> qi, qj; double nanAfter = 1e300; bool sing = false; mutable long nf = 0;
	int getDiffDim() const override { return S.n; } int getAlgDim() const override { return m; }
	template<class T, class XV> std::vector<T> phi(T t, const XV& x) const { std::vector<T> r(m); for (int k = 0; k < m; k++) { T s = (T)p0[k] + (T)pt[k] * t; for (int j = 0; j < S.n; j++) s += (T)E[k][j] * (T)x[j]; s += (T)qb[k] * (T)x[qi[k]] * (T)x[qj[k]]; r[k] = s; } return r; }
	double dphi(int k, int j, const Vector<Real>& x) const { double s = E[k][j]; if (qi[k] == j) s += qb[k] * x[qj[k]]; if (qj[k] == j) s += qb[k] * x[qi[k]]; return s; }
	void diffEqs(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& d) const override { nf++; S.derivs(t, x, d); auto p = phi<double>(t, x); for (int i = 0; i < S.n; i++) for (int k = 0; k < m; k++) d[i] += B[i][k] * (y[k] - p[k]); if (t > nanAfter) d[0] = NAN; }
	void algConstraints(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& g) const override { auto p = phi<double>(t, x); for (int k = 0; k < m; k++) { double s = 0; for (int l = 0; l < m; l++) s += Mm[k][l] * (y[l] - p[l]); double w = y[k] - p[k]; g[k] = s + be[k] * w * w * w; } if (sing) g[0] = x[0] - .5 * t; }
	void jacobian_fx(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& J) const override { for (int i = 0; i < S.n; i++) for (int j = 0; j < S.n; j++) { double v = S.a[i][j] + (j == 0 ? S.f[i] * t : 0); for (int k = 0; k < m; k++) v -= B[i][k] * dphi(k, j, x); J[i][j] = v; } for (auto& q : S.q) { J[q.i][q.j] += q.b * x[q.k]; J[q.i][q.k] += q.b * x[q.j]; } }
	void jacobian_fy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& J) const override { for (int i = 0; i < S.n; i++) for (int k = 0; k < m; k++) J[i][k] = B[i][k]; }
	void jacobian_gx(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& J) const override { auto p = phi<double>(t, x); for (int k = 0; k < m; k++) for (int j = 0; j < S.n; j++) { double s = 0; for (int l = 0; l < m; l++) s -= Mm[k][l] * dphi(l, j, x); double w = y[k] - p[k]; J[k][j] = s - 3 * be[k] * w * w * dphi(k, j, x); } if (sing) for (int j = 0; j < S.n; j++) J[0][j] = j == 0; }
	void jacobian_gy(Real t, const Vector<Real>& x, const Vector<Real>& y, Matrix<Real>& J) const override { auto p = phi<double>(t, x); for (int k = 0; k < m; k++) for (int l = 0; l < m; l++) J[k][l] = Mm[k][l]; for (int k = 0; k < m; k++) { double w = y[k] - p[k]; J[k][k] += 3 * be[k] * w * w; } if (sing) for (int l = 0; l < m; l++) J[0][l] = 0; }
	void gen(mon::Rng& r, int n, int mm, bool lin = false) { S.gen(r, n, n > 4 ? 1.2 / n : .6); if (lin) S.q.clear(); m = mm; B.assign(n, VD(m)); for (auto& v : B) for (auto& q : v) q = r.uni(-1, 1) / (m > 3 ? m / 2. : 1); Mm.assign(m, VD(m)); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) Mm[i][j] = r.uni(-1, 1) / m + (i == j ? r.uni(1.5, 3) : 0); E.assign(m, VD(n)); for (auto& v : E) for (auto& q : v) q = r.uni(-1, 1) / (n > 4 ? n / 2. : 1); p0 = rnd(r, m); pt = rnd(r, m); be.assign(m, 0); qb.assign(m, 0); qi.assign(m, 0); qj.assign(m, 0); for (int k = 0; k < m; k++) { if (!lin) { be[k] = r.uni(0, 1); qb[k] = r.uni(-.6, .6); } qi[k] = (int)r.i(0, n - 1); qj[k] = (int)r.i(0, n - 1); } }
	void log(mon::Case& c) const { S.log(c); for (auto& v : B) c.in("B", v); for (auto& v : Mm) c.in("M", v); for (auto& v : E) c.in("E", v); c.in("p0", p0); c.in("pt", pt); c.in("be", be); c.in("qb", qb); }
	double gn(double t, const Vector<Real>& x, const Vector<Real>& y) const { Vector<Real> g(m); algConstraints(t, x, y, g); double s = 0; for (int k = 0; k < m; k++) s += g[k] * g[k]; return std::sqrt(s); }
};
static const char* NM[5] = {"backward_euler", "bdf2", "bdf4", "radau", "rodas"};
static DAESolverResult run(int k, IODESystemDAEWithJacobian& s, double a, const Vector<Real>& x, const Vector<Real>& y, double b, const DAESolverConfig& g) { switch (k) { case 0: return SolveDAEBackwardEuler(s, a, x, y, b, g); case 1: return SolveDAEBDF2(s, a, x, y, b, g); case 2: return SolveDAEBDF4(s, a, x, y, b, g); case 3: return SolveDAERadauIIA(s, a, x, y, b, g); } return SolveDAERODAS(s, a, x, y, b, g); }
static Vector<Real> X(const DAESolution& s, int q) { Vector<Real> v(s.getDiffDim()); for (int i = 0; i < v.size(); i++) v[i] = s.getXValue(q, i); return v; }
static Vector<Real> Y(const DAESolution& s, int q) { Vector<Real> v(s.getAlgDim()); for (int i = 0; i < v.size(); i++) v[i] = s.getYValue(q, i); return v; }
static void grid(mon::Case& c, const DAESolverResult& R, double t0, double t1, double h, const std::string& key) { auto& s = R.solution; double q = (t1 - t0) / h; int n = (int)std::ceil(q - 1e-9 * q) + 1; if (!c.check(s.size() == n && s.getTValues().size() == n && R.total_steps == n - 1, key + "_point_count", [&] { return std::to_string(s.size()) + " want " + std::to_string(n); })) return; c.check(s.getNumStepsOK() == n - 1 && s.getNumStepsBad() == 0, key + "_step_count"); c.check(s.getTValue(0) == t0 && s.getTValue(n - 1) == t1 && s.getT1() == t0 && s.getT2() == t1, key + "_ends"); bool ok = true; for (int k = 1; k < n - 1; k++) ok &= std::fabs(s.getTValue(k) - (t0 + k * h)) < 1e-11 * (1 + std::fabs(t0) + q * h); c.check(ok, key + "_time_grid"); }
// every stored point satisfies the scheme's own equations and the constraint; diagnostics agree with the trajectory
FAMILY(discrete_equations, 900) { auto& r = c.r; int k = (int)r.i(0, 4); std::string key = NM[k]; c.in("method", key.c_str()); Dae D; D.gen(r, (int)r.sz(1, 4, 18, .04), (int)r.sz(1, 3, 18, .04)); D.log(c); VD x0 = rnd(r, D.S.n); double t0 = r.uni(-2, 2), T = r.uni(.05, 1.2), t1 = t0 + T; VL ref; c.in("x0", x0); c.in("t", VD{t0, t1}); if (!D.S.flow(t0, toL(x0), t1, ref, 3, .06L)) { c.trivial(); return; }
	Vector<Real> xv = toV(x0), yv = toV(D.phi<double>(t0, x0)); Vector<Real> yi = yv; bool incons = r.coin(.3) && k < 4; if (incons) for (int j = 0; j < D.m; j++) yv[j] += r.uni(-.3, .3); DAESolverConfig g; g.step_size = r.coin(.5) ? T / (double)r.i(1, 40) : T / r.uni(.5, 40); g.newton_tol = std::pow(10, -r.uni(6, 11)); g.constraint_tol = std::pow(10, -r.uni(6, 12)); g.max_newton_iter = 40; c.in("h", g.step_size); c.in("tol", VD{g.newton_tol, g.constraint_tol}); c.note(incons ? "inconsistent start" : "consistent start");
	long nf0 = D.nf; DAESolverResult R(0, 1, 1, 1, 1); try { R = run(k, D, t0, xv, yv, t1, g); } catch (const SingularMatrixError&) { R.status = AlgorithmStatus::SingularMatrix; R.error_message = "singular"; } if (R.status != AlgorithmStatus::Success && (g.step_size > .15 || R.error_message.empty())) { c.check(!R.error_message.empty(), key + "_no_error_message"); c.ev("big_step_failure"); return; } if (!c.check(R.status == AlgorithmStatus::Success && R.error_message.empty(), key + "_failed", [&] { return R.error_message; })) return; grid(c, R, t0, t1, g.step_size, key); auto& s = R.solution; int n = s.size(); c.ev("solved"); if (incons) c.ev("inconsistent_start"); c.check(D.nf > nf0 && R.jacobian_evaluations > 0 && (k == 4) == (R.newton_iterations == 0), key + "_work_counters");
	bool init = true; for (int i = 0; i < D.S.n; i++) init &= s.getXValue(0, i) == x0[i]; for (int j = 0; j < D.m; j++) init &= s.getYValue(0, j) == yv[j]; c.check(init, key + "_initial_point"); double worst = 0; Vector<Real> d(D.S.n);
	for (int q = 1; q < n; q++) { auto x = X(s, q), y = Y(s, q); double t = s.getTValue(q); double gn = D.gn(t, x, y); worst = std::max(worst, gn); if (k < 4) { if (!c.check(gn <= g.constraint_tol, key + "_constraint_violated", [&] { return std::to_string(gn) + " tol " + std::to_string(g.constraint_tol); })) return; } double h = t - s.getTValue(q - 1); L e = 0; D.diffEqs(t, x, y, d); bool eq = true; if (k == 0 || (k == 1 && q == 1)) for (int i = 0; i < D.S.n; i++) e = std::max(e, fabsl((L)x[i] - s.getXValue(q - 1, i) - (L)h * d[i])); else if (k == 1) { L w = (L)h / ((L)s.getTValue(q - 1) - s.getTValue(q - 2)), c0 = (1 + w) * (1 + w) / (1 + 2 * w), c1 = -w * w / (1 + 2 * w), c2 = (1 + w) / (1 + 2 * w); for (int i = 0; i < D.S.n; i++) e = std::max(e, fabsl((L)x[i] - c0 * s.getXValue(q - 1, i) - c1 * s.getXValue(q - 2, i) - c2 * h * d[i])); } else if (k == 2 && q >= 4 && std::fabs(h - g.step_size) < 1e-9 * h) { for (int i = 0; i < D.S.n; i++) e = std::max(e, fabsl(25 * (L)x[i] - 48 * (L)s.getXValue(q - 1, i) + 36 * (L)s.getXValue(q - 2, i) - 16 * (L)s.getXValue(q - 3, i) + 3 * (L)s.getXValue(q - 4, i) - 12 * (L)h * d[i]) / 25); } else eq = false; if (eq) { c.ev("step_equation"); if (!c.check(e <= g.newton_tol * 1.001L + 1e-13L, key + "_step_equation", [&] { return std::to_string((double)e) + " tol " + std::to_string(g.newton_tol) + " step " + std::to_string(q); })) return; } }
	c.close(R.max_constraint_violation, worst, 1e-13 + 1e-9 * worst, key + "_reported_violation"); L ex = diff(s.getXValuesAtEnd(), ref); double hh = g.step_size; L lim = k == 2 || k == 3 ? .1L + (incons ? .6L : 0) : .5L + (incons ? .6L : 0); if (hh < .1) c.check(ex < lim, key + "_far_off", [&] { return std::to_string((double)ex); }); auto ye = D.phi<L>(t1, ref); L ey = diff(s.getYValuesAtEnd(), ye); c.check(ey <= 20 * (ex + 1e-5L) * (1 + ex) + (k == 4 ? .3L * hh : 0), key + "_algebraic_variable_off", [&] { return std::to_string((double)ey) + " vs " + std::to_string((double)ex); }); for (int i = 0; i < D.S.n; i++) c.check(s.getXValuesAtEnd()[i] == s.getXValue(n - 1, i) && s.getXValues(i).size() == n && s.getXValues(i)[n - 1] == s.getXValue(n - 1, i), key + "_accessors"); }
// order of convergence of both variable sets, including a shorter last step
FAMILY(order, 200) { auto& r = c.r; int k = (int)r.i(0, 4); static const int P[5] = {1, 2, 4, 5, 1}; std::string key = NM[k]; c.in("method", key.c_str()); bool frac = r.coin(.5); c.in("last_step_shorter", (int)frac); L E[4] = {0}, Ey[4] = {0}; int used = 0; int N = k == 3 ? 2 : (int)r.i(6, 10); double part = r.uni(.1, .9); for (int b = 0; b < 8; b++) { Dae D; D.gen(r, (int)r.i(1, 3), (int)r.i(1, 3)); D.log(c); VD x0 = rnd(r, D.S.n); double t0 = r.uni(-1, 1), t1 = t0 + r.uni(.5, 1); c.in("x0", x0); c.in("t", VD{t0, t1}); VL ref; if (!D.S.flow(t0, toL(x0), t1, ref, 2.5, .06L)) continue; used++; for (int q = 0; q < 4; q++) { DAESolverConfig g; double n = (N << q) - (frac ? part : 0); g.step_size = (t1 - t0) / n; g.newton_tol = g.constraint_tol = 1e-12; g.max_newton_iter = 60; auto R = run(k, D, t0, toV(x0), toV(D.phi<double>(t0, x0)), t1, g); if (!c.check(R.status == AlgorithmStatus::Success, key + "_failed")) return; grid(c, R, t0, t1, g.step_size, key); E[q] += diff(R.solution.getXValuesAtEnd(), ref); Ey[q] += diff(R.solution.getYValuesAtEnd(), D.phi<L>(t1, ref)); } }
	if (used < 4) { c.trivial(); return; } c.ev("order"); L f = powl(2, -P[k]), fl = 2e-10L; auto bad = [&](L* e) { return e[3] > fl && (e[2] > 2 * f * e[1] + fl || e[3] > 1.7L * f * e[2] + fl) && e[3] > powl(1.75L * f, 3) * e[0] + fl; }; auto ms = [&](L* e) { return [e] { char z[120]; snprintf(z, 120, "%Lg %Lg %Lg %Lg", e[0], e[1], e[2], e[3]); return std::string(z); }; }; c.maxi((key + " x ratio3/f3").c_str(), (double)(std::max(0.0L, E[3] - fl) / (f * f * f * E[0]))); c.check(!bad(E), key + "_order", ms(E)); c.check(!bad(Ey), key + "_algebraic_order", ms(Ey)); }
// linear scalar problems after elimination: the exact stability function, any stiffness
FAMILY(linear_stiff, 400) { auto& r = c.r; int k = (int)r.i(0, 3); std::string key = NM[k]; c.in("method", key.c_str()); Dae D; D.gen(r, 1, (int)r.i(1, 3), true); D.S.zero(1); double lam = -r.pmag(-1, 5), c0 = r.uni(-2, 2); D.S.a[0][0] = lam; D.S.c[0] = c0; for (auto& v : D.pt) v = 0; D.log(c); double x0 = r.uni(-2, 2), T = r.uni(.1, 3), h = T / (double)r.i(1, 30), xs = -c0 / lam; c.in("lambda", lam); c.in("x0", x0); c.in("T", T); c.in("h", h); DAESolverConfig g; g.step_size = h; g.newton_tol = 1e-11 * (1 + h * -lam) * 10; g.constraint_tol = 1e-10; VD xx{x0}; DAESolverResult R(0, 1, 1, 1, 1); R = run(k, D, 0, toV(xx), toV(D.phi<double>(0, xx)), T, g); if (!c.check(R.status == AlgorithmStatus::Success, key + "_linear_failed")) return; grid(c, R, 0, T, h, key); c.ev("linear"); if (h * -lam > 100) c.ev("very_stiff"); L z = (L)h * lam, e = x0 - (L)xs; L rad = (1 + 2 * z / 5 + z * z / 20) / (1 - 3 * z / 5 + 3 * z * z / 20 - z * z * z / 60); std::vector<L> H{e}; for (int q = 1; q < R.solution.size(); q++) { L v; if (k == 0 || (k == 1 && q == 1)) v = H.back() / (1 - z); else if (k == 1) v = (4 * H[q - 1] - H[q - 2]) / (3 - 2 * z); else if (k == 2 && q > 3) v = (48 * H[q - 1] - 36 * H[q - 2] + 16 * H[q - 3] - 3 * H[q - 4]) / (25 - 12 * z); else v = rad * H.back(); H.push_back(v); L er = fabsl(R.solution.getXValue(q, 0) - xs - v), tol = 1e-9L + q * 4 * (L)g.newton_tol; c.maxi((key + " linear").c_str(), (double)(er / tol)); if (!c.check(er <= tol, key + "_stability_function", [&] { return std::to_string((double)er) + " step " + std::to_string(q) + " of " + std::to_string(R.solution.size() - 1); })) return; } }
// linear constraints stay satisfied by the linearly implicit method, too; its reported violation is honest
FAMILY(rodas_linear, 120) { auto& r = c.r; Dae D; D.gen(r, (int)r.i(1, 4), (int)r.i(1, 3), true); for (auto& v : D.be) v = 0; D.log(c); VD x0 = rnd(r, D.S.n); double T = r.uni(.1, 1); c.in("x0", x0); c.in("T", T); DAESolverConfig g; g.step_size = T / r.uni(1, 30); auto R = run(4, D, 0, toV(x0), toV(D.phi<double>(0, x0)), T, g); c.check(R.status == AlgorithmStatus::Success, "rodas_failed"); grid(c, R, 0, T, g.step_size, "rodas"); double w = 0; for (int q = 0; q < R.solution.size(); q++) w = std::max(w, D.gn(R.solution.getTValue(q), X(R.solution, q), Y(R.solution, q))); c.maxi("rodas linear constraint", w / 1e-11); c.check(w < 1e-10, "rodas_linear_constraint"); c.check(R.jacobian_evaluations == R.total_steps, "rodas_work"); c.ev("rodas_linear"); }
// consistent initial values
FAMILY(initial_values, 300) { auto& r = c.r; Dae D; D.gen(r, (int)r.i(1, 4), (int)r.i(1, 4)); D.log(c); VD x0 = rnd(r, D.S.n, 2); double t0 = r.uni(-3, 3); c.in("x0", x0); c.in("t0", t0); auto ye = D.phi<double>(t0, x0); VD ys = ye; for (auto& v : ys) v += r.uni(-1, 1); Vector<Real> y = toV(ys), x = toV(x0); double tol = std::pow(10, -r.uni(5, 11)); c.in("tol", tol); c.check(VerifyConsistentIC(D, t0, x, y, tol) == (D.gn(t0, x, y) < tol), "verify_wrong"); if (c.check(ComputeConsistentIC(D, t0, x, y, 60, tol), "consistent_start_not_found")) { c.check(D.gn(t0, x, y) < tol, "inconsistent_start_reported_consistent"); c.check(VerifyConsistentIC(D, t0, x, y, tol), "verify_rejects_consistent"); for (int j = 0; j < D.m; j++) c.close(y[j], ye[j], 10 * tol + 1e-12, "wrong_consistent_value"); } c.ev("initial"); int it = (int)r.i(0, 3); Vector<Real> y2 = toV(ys); bool ok = ComputeConsistentIC(D, t0, x, y2, it, 1e-13); if (ok) c.check(D.gn(t0, x, y2) < 1e-13, "inconsistent_start_reported_consistent"); double mv = 0; for (int j = 0; j < D.m; j++) mv = std::max(mv, std::fabs(y2[j] - ys[j])); if (it == 0) c.check(!ok && mv == 0, "iteration_limit_ignored");
	Dae Z = D; Z.sing = true; if (std::fabs(x0[0] - .5 * t0) > 1e-3) { Vector<Real> y3 = toV(ys); bool ok3 = false; try { ok3 = ComputeConsistentIC(Z, t0, x, y3); } catch (const std::exception&) {} c.check(!ok3, "singular_constraint_consistent"); } Dae W = D; W.p0[0] = NAN; Vector<Real> y4 = toV(ys); bool o4 = false; try { o4 = ComputeConsistentIC(W, t0, x, y4); } catch (const std::exception&) {} c.check(!o4 && !VerifyConsistentIC(W, t0, x, y4), "nan_constraint_consistent"); }
// limits, failures, bad arguments
FAMILY(failures, 400) { auto& r = c.r; int k = (int)r.i(0, 4); std::string key = NM[k]; c.in("method", key.c_str()); Dae D; D.gen(r, (int)r.i(1, 3), (int)r.i(1, 2)); D.log(c); VD x0 = rnd(r, D.S.n, .5); Vector<Real> x = toV(x0), y = toV(D.phi<double>(0, x0)); DAESolverConfig g; double T = .6; int N = (int)r.i(2, 30); g.step_size = T / N; auto bad = [&](auto f, const char* what) { bool ok = false; std::string msg; try { DAESolverResult R = f(); ok = R.status != AlgorithmStatus::Success; msg = R.error_message; c.check(!ok || !msg.empty(), key + "_no_error_message"); bool fin = true; for (int q = 0; q < R.solution.size(); q++) { for (int i = 0; i < D.S.n && i < R.solution.getDiffDim(); i++) fin &= std::isfinite(R.solution.getXValue(q, i)); } c.check(fin, key + "_stored_nonfinite_point"); c.check(R.solution.size() == 0 || (R.solution.getTValues().size() == R.solution.size() && R.total_steps == R.solution.size() - 1), key + "_failed_size"); } catch (const std::exception&) { ok = true; } c.check(ok, key + what); c.ev("failure"); };
	DAESolverConfig g2 = g; g2.max_steps = (int)r.i(1, N - 1); auto R = run(k, D, 0, x, y, T, g2); c.in("max_steps", g2.max_steps); c.check(R.status == AlgorithmStatus::MaxIterationsExceeded && !R.error_message.empty(), key + "_max_steps_not_reported"); c.check(R.total_steps == g2.max_steps && R.solution.size() == R.total_steps + 1 && std::fabs(R.solution.getTValue(R.total_steps) - R.total_steps * g.step_size) < 1e-12, key + "_max_steps_points", [&] { return std::to_string(R.total_steps) + " of " + std::to_string(g2.max_steps); }); g2.max_steps = N; c.check(run(k, D, 0, x, y, T, g2).status == AlgorithmStatus::Success, key + "_max_steps_too_strict"); c.ev("max_steps");
	Dae Nn = D; Nn.nanAfter = r.uni(0, .55); bad([&] { return run(k, Nn, 0, x, y, T, g); }, "_nan_accepted"); DAESolverConfig b = g; b.step_size = r.pick({0.0, -.01, (double)NAN, 1e-300}); bad([&] { return run(k, D, 0, x, y, T, b); }, "_bad_step_accepted"); bad([&] { return run(k, D, T, x, y, 0, g); }, "_backward_interval_accepted"); bad([&] { return run(k, D, 0, x, y, NAN, g); }, "_nan_interval_accepted"); bad([&] { return run(k, D, 0, Vector<Real>(D.S.n + 1), y, T, g); }, "_wrong_dimension_accepted"); bad([&] { return run(k, D, 0, x, Vector<Real>(D.m + 1), T, g); }, "_wrong_dimension_accepted"); auto e = run(k, D, 1, x, y, 1, g); c.check(e.status == AlgorithmStatus::Success && e.solution.size() == 1 && e.solution.getTValue(0) == 1, key + "_empty_interval");
	if (k < 4) { DAESolverConfig it = g; it.max_newton_iter = 1; it.newton_tol = it.constraint_tol = 1e-15; Vector<Real> yo = y; yo[0] += .5; bad([&] { return run(k, D, 0, x, yo, T, it); }, "_non_convergence_accepted"); } Dae Z = D; Z.sing = true; if (D.m == 1) { Vector<Real> xz = x; bool fail = false; try { auto q = run(k, Z, 0, xz, y, T, g); fail = q.status != AlgorithmStatus::Success; if (!fail) for (int i = 1; i < q.solution.size(); i++) if (k < 4) c.check(Z.gn(q.solution.getTValue(i), X(q.solution, i), Y(q.solution, i)) < 1e-7, key + "_singular_garbage"); } catch (const std::exception&) { fail = true; } if (fail) c.ev("singular_reported"); } }
// trajectory container against a plain model
FAMILY(container, 300) { auto& r = c.r; int n = (int)r.i(1, 3), m = (int)r.i(1, 3), cap = (int)r.i(0, 6); DAESolution s(0, 1, n, m, cap); c.in("dims", std::vector<int>{n, m, cap}); std::map<int, VD> mod; int hi = -1; int ops = (int)r.i(1, 30); for (int o = 0; o < ops; o++) { int ind = r.coin(.6) ? hi + 1 : r.coin(.5) ? (int)r.i(0, std::max(0, hi)) : hi + (int)r.i(1, 40); c.in("ind", ind); VD v{r.uni(-1, 1)}; for (int i = 0; i < n + m; i++) v.push_back(r.uni(-1, 1)); Vector<Real> x(n), y(m); for (int i = 0; i < n; i++) x[i] = v[1 + i]; for (int i = 0; i < m; i++) y[i] = v[1 + n + i]; if (r.coin(.7)) s.fillValues(ind, v[0], x, y); else { s.setTVal(ind, v[0]); for (int i = 0; i < n; i++) s.setXVal(ind, i, x[i]); for (int i = 0; i < m; i++) s.setYVal(ind, i, y[i]); } mod[ind] = v; hi = std::max(hi, ind); c.check(s.size() == hi + 1 && s.getNumSteps() == hi && s.capacity() >= hi + 1 && !s.isEmpty(), "container_size"); }
	if (r.coin(.5)) { s.setFinalSize(hi); c.check(s.size() == hi + 1 && s.getTValues().size() == hi + 1, "container_final_size"); } bool ok = true; for (auto& p : mod) { ok &= s.getTValue(p.first) == p.second[0]; for (int i = 0; i < n; i++) ok &= s.getXValue(p.first, i) == p.second[1 + i] && s.getXValues(i)[p.first] == p.second[1 + i]; for (int i = 0; i < m; i++) ok &= s.getYValue(p.first, i) == p.second[1 + n + i]; } c.check(ok, "container_value"); c.ev("container"); int b = r.coin() ? hi + 1 + (int)r.i(0, 3) : -(int)r.i(1, 3); c.throws<IndexError>([&] { (void)s.getTValue(b); }, "container_bounds"); c.throws<IndexError>([&] { (void)s.getXValue(b, 0); }, "container_bounds"); c.throws<IndexError>([&] { (void)s.getYValue(0, r.coin() ? m : -1); }, "container_bounds"); c.throws<IndexError>([&] { (void)s.getXValue(0, n); }, "container_bounds"); c.throws<std::exception>([&] { s.fillValues(0, 0, Vector<Real>(n + 1), Vector<Real>(m)); }, "container_dim"); c.throws<std::exception>([&] { s.fillValues(-1, 0, Vector<Real>(n), Vector<Real>(m)); }, "container_negative"); }
MON_MAIN()
