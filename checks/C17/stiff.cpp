// C17 (stiff): implicit solvers: exact recurrences on linear problems, order, L-stability, time axis, limits
#include "ode.h"
#include "mml/base/ODESystem.h"
#include "mml/algorithms/ODESolvers/ODESolverStiff.h"
using namespace MML; using namespace ode;
struct JSys : IODESystemWithJacobian { Sys S; mutable long nj = 0; int getDim() const override { return S.n; } void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { S.derivs(t, x, d); } void jacobian(const Real t, const Vector<Real>& x, Vector<Real>& d, Matrix<Real>& J) const override { nj++; S.derivs(t, x, d); J.Resize(S.n, S.n); for (int i = 0; i < S.n; i++) for (int j = 0; j < S.n; j++) J[i][j] = S.a[i][j] + (j == 0 ? S.f[i] * t : 0); for (auto& q : S.q) { J[q.i][q.j] += q.b * x[q.k]; J[q.i][q.k] += q.b * x[q.j]; } } };
// linear y' = V D V^-1 (y - c) with decay rates from 1e-1 to 1e7; V is a random rotation so the spectrum is exact
struct Lin : IODESystemWithJacobian { int n; std::vector<VL> Q; VL lam, cc; std::vector<VD> A; VD b; int getDim() const override { return n; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& d) const override { for (int i = 0; i < n; i++) { double s = b[i]; for (int j = 0; j < n; j++) s += A[i][j] * x[j]; d[i] = s; } } void jacobian(const Real t, const Vector<Real>& x, Vector<Real>& d, Matrix<Real>& J) const override { derivs(t, x, d); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J[i][j] = A[i][j]; }
  void gen(mon::Rng& r, int d, double lmin, double lmax) { n = d; Q.assign(n, VL(n, 0)); for (int i = 0; i < n; i++) Q[i][i] = 1; for (int k = 0; k < 3 * n; k++) { if (n < 2) break; int i = (int)r.i(0, n - 1), j = (int)r.i(0, n - 2); if (j >= i) j++; L th = r.uni(0, 6.28), s = sinl(th), co = cosl(th); for (int q = 0; q < n; q++) { L a = Q[q][i], bb = Q[q][j]; Q[q][i] = co * a - s * bb; Q[q][j] = s * a + co * bb; } } lam.clear(); for (int i = 0; i < n; i++) lam.push_back(-(L)r.pmag(lmin, lmax)); cc.clear(); for (int i = 0; i < n; i++) cc.push_back(r.uni(-1, 1)); A.assign(n, VD(n)); b.assign(n, 0); std::vector<VL> AL(n, VL(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { L s = 0; for (int k = 0; k < n; k++) s += Q[i][k] * lam[k] * Q[j][k]; A[i][j] = (double)s; } for (int i = 0; i < n; i++) { L s = 0; for (int j = 0; j < n; j++) s += A[i][j] * cc[j]; b[i] = -(double)s; } }
  VL modal(const VD& y) const { VL z(n, 0); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) z[k] += Q[i][k] * (y[i] - cc[i]); return z; } VL back(const VL& z) const { VL y = cc; for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) y[i] += Q[i][k] * z[k]; return y; } };
typedef std::function<ODESystemSolution(IODESystemWithJacobian&, double, const Vector<Real>&, double, double)> FX;
static FX solver(int k) { if (k == 0) return [](IODESystemWithJacobian& s, double a, const Vector<Real>& y, double b, double h) { return SolveBackwardEuler(s, a, y, b, h, 25, 1e-11); }; return [](IODESystemWithJacobian& s, double a, const Vector<Real>& y, double b, double h) { return SolveBDF2(s, a, y, b, h, 25, 1e-11); }; }
static const char* NM[3] = {"backward_euler", "bdf2", "rosenbrock"};
static void grid(mon::Case& c, const ODESystemSolution& sol, double t0, double t1, double h, const std::string& key) { double q = (t1 - t0) / h; int n = (int)std::ceil(q - 1e-9 * q) + 1; c.check(sol.size() == n && sol.getTValues().size() == n, key + "_point_count", [&] { return std::to_string(sol.size()) + " want " + std::to_string(n); }); c.check(sol.getTValue(0) == t0, key + "_first_time"); c.check(sol.getTValue(sol.size() - 1) == t1, key + "_stops_before_end", [&] { return std::to_string(sol.getTValue(sol.size() - 1)) + " want " + std::to_string(t1); }); bool ok = true; for (int k = 1; k < sol.size(); k++) ok &= sol.getTValue(k) > sol.getTValue(k - 1) && (k == sol.size() - 1 || std::fabs(sol.getTValue(k) - (t0 + k * h)) < 1e-11 * (1 + std::fabs(t0) + q * h)); c.check(ok, key + "_time_grid"); c.check(sol.getNumStepsOK() == sol.size() - 1 && sol.getNumStepsBad() == 0, key + "_step_count"); }
// linear stiff systems: the numerical solution is a known rational recurrence in every eigen-direction
FAMILY(linear_recurrence, 700) { auto& r = c.r; int k = (int)r.i(0, 1); std::string key = NM[k]; c.in("method", key.c_str()); Lin S; S.gen(r, (int)r.i(1, 5), -1, r.pick({1.0, 3.0, 5.0})); VD y0 = rnd(r, S.n, 2); double t0 = r.uni(-2, 2), T = r.uni(.05, 5), h = r.coin(.5) ? T / (double)r.i(1, 60) : T / r.uni(.6, 60); VD lam; for (auto v : S.lam) lam.push_back((double)v); c.in("lambda", lam); for (auto& v : S.A) c.in("A", v); c.in("b", S.b); c.in("y0", y0); c.in("t", VD{t0, t0 + T}); c.in("h", h); double t1 = t0 + T; ODESystemSolution sol(0, 1, 1, 0); Vector<Real> yi = toV(y0); double mx = 0; for (auto v : lam) mx = std::max(mx, -v); double nt = 1e-12 * (1 + h * mx) * 100;
  if (!c.nothrow([&] { sol = k == 0 ? SolveBackwardEuler(S, t0, yi, t1, h, 25, nt) : SolveBDF2(S, t0, yi, t1, h, 25, nt); }, (key + "_linear_failed").c_str())) return; grid(c, sol, t0, t1, h, key); c.ev("linear"); if (h * mx > 100) c.ev("very_stiff"); for (int i = 0; i < S.n; i++) c.check(sol.getXValue(0, i) == y0[i] && yi[i] == y0[i], key + "_initial"); VL z = S.modal(y0), zp = z; L hp = 0; for (int q = 1; q < sol.size(); q++) { L hh = (L)sol.getTValue(q) - sol.getTValue(q - 1); VL zn(S.n); for (int j = 0; j < S.n; j++) { if (k == 0 || q == 1) zn[j] = z[j] / (1 - hh * S.lam[j]); else { L w = hh / hp, be = (1 + w) / (1 + 2 * w); zn[j] = ((1 + w) * be * z[j] - w * w / (1 + 2 * w) * zp[j]) / (1 - be * hh * S.lam[j]); } } zp = z; z = zn; hp = hh; VL y = S.back(z); L e = 0; for (int i = 0; i < S.n; i++) e = std::max(e, fabsl(sol.getXValue(q, i) - y[i])); L tol = 1e-9L + q * (L)nt * 3 + 1e-13L * q * (1 + mx * hh); c.maxi((key + " linear").c_str(), (double)(e / tol)); if (!c.check(e <= tol, key + (q == sol.size() - 1 ? "_last_step_recurrence" : "_recurrence"), [&] { return "error " + std::to_string((double)e) + " step " + std::to_string(q); })) return; } }
// order on smooth non-autonomous nonlinear systems
FAMILY(order, 200) { auto& r = c.r; int k = (int)r.i(0, 1); int p = k + 1; std::string key = NM[k]; c.in("method", key.c_str()); L E[4] = {0}; int N = (int)r.i(8, 16), used = 0; for (int b = 0; b < 8; b++) { JSys J; { int d = (int)r.sz(1, 3, 18, .03); J.S.gen(r, d, d > 3 ? 1.2 / d : .6); }; J.S.log(c); VD x0 = rnd(r, J.S.n); double t0 = r.uni(-1, 1), t1 = t0 + r.uni(.5, 1.2); c.in("x0", x0); c.in("t", VD{t0, t1}); VL ref; if (!J.S.flow(t0, toL(x0), t1, ref, 3, .06L)) continue; used++; for (int q = 0; q < 4; q++) { int n = N << q; double h = (t1 - t0) / n; auto sol = solver(k)(J, t0, toV(x0), t1, h); grid(c, sol, t0, t1, h, key); L e = diff(sol.getXValuesAtEnd(), ref); E[q] += e; if (q == 3) c.check(e < 0.2, key + "_far_off"); } } if (used < 4) { c.trivial(); return; } c.ev("order"); L f = powl(2, -p), fl = 1e-8L; c.check(!(E[1] > 1.7L * f * E[0] + fl && E[2] > 1.7L * f * E[1] + fl && E[3] > 1.7L * f * E[2] + fl), key + "_order", [&] { char z[120]; snprintf(z, 120, "%Lg %Lg %Lg %Lg", E[0], E[1], E[2], E[3]); return std::string(z); }); }
// Prothero-Robinson: y' = -L (y - phi(t)) + phi'(t): accuracy must not depend on the stiffness L
FAMILY(prothero_robinson, 300) { auto& r = c.r; int k = (int)r.i(0, 2); std::string key = NM[k]; c.in("method", key.c_str()); double Lm = r.pmag(1, k == 2 ? 5 : 7), w = r.uni(.5, 2), ph = r.uni(0, 6), T = r.uni(.5, 3), h = r.uni(.002, .05); c.in("L", Lm); c.in("w", w); c.in("ph", ph); c.in("h", h); ODESystemWithJacobianFromStdFunc S(1, [=](Real t, const Vector<Real>& y, Vector<Real>& d) { d[0] = -Lm * (y[0] - std::sin(w * t + ph)) + w * std::cos(w * t + ph); }, [=](Real t, const Vector<Real>& y, Vector<Real>& d, Matrix<Real>& J) { d[0] = -Lm * (y[0] - std::sin(w * t + ph)) + w * std::cos(w * t + ph); J[0][0] = -Lm; }); Vector<Real> y0(1); y0[0] = std::sin(ph); c.ev("prothero_robinson"); double nt = 1e-9 + 1e-15 * Lm * h * 10; if (k < 2) { auto sol = k ? SolveBDF2(S, 0, y0, T, h, 10, nt) : SolveBackwardEuler(S, 0, y0, T, h, 10, nt); grid(c, sol, 0, T, h, key); double e = 0; for (int q = 0; q < sol.size(); q++) e = std::max(e, std::fabs(sol.getXValue(q, 0) - std::sin(w * sol.getTValue(q) + ph))); double tol = (k ? 3 * h * h * (w * w * w + w * w) + 2 * h * h * w * w : h * w * w) + nt * sol.size(); c.maxi((key + " PR").c_str(), e / tol); c.check(e <= tol * (k ? 2 : 1.1), key + "_stiff_accuracy"); } else { double tl = std::pow(10, -r.uni(3, 6)); c.in("tol", tl); Rosenbrock23Solver R(S, tl, tl); ODESystemSolution sol(0, 1, 1, 0); double hi = r.coin(.5) ? .01 : 1e-4; try { sol = R.Solve(0, y0, T, hi); } catch (const std::runtime_error&) { c.check(Lm > 300 && tl < 1e-4, "rosenbrock_gave_up"); c.ev("rosenbrock_step_limit"); return; } c.ev("rosenbrock_pr"); c.check(sol.getTValue(sol.size() - 1) == T, "rosenbrock_end_time"); double e = 0; bool m = true; for (int q = 0; q < sol.size(); q++) { e = std::max(e, std::fabs(sol.getXValue(q, 0) - std::sin(w * sol.getTValue(q) + ph))); if (q) m &= sol.getTValue(q) > sol.getTValue(q - 1); } c.check(m, "rosenbrock_times_increasing"); double bd = tl * std::min(5.0 + sol.size(), 400.0); c.maxi("rosenbrock PR", e / bd); c.check(e <= 20 * bd, "rosenbrock_stiff_accuracy", [&] { return std::to_string(e) + " tol " + std::to_string(tl); }); } }
// Rosenbrock on linear stiff and smooth nonlinear systems: error follows the tolerance, second order, limits honoured
FAMILY(rosenbrock, 400) { auto& r = c.r; int kind = (int)r.i(0, 2); c.in("kind", kind); c.ev("rosenbrock"); if (kind == 0) { Lin S; S.gen(r, (int)r.sz(1, 4, 24), -1, r.pick({1.0, 4.0, 6.0})); VD y0 = rnd(r, S.n, 2); double T = r.uni(.1, 4), tl = std::pow(10, -r.uni(3, 6)); VD lam; for (auto v : S.lam) lam.push_back((double)v); c.in("lambda", lam); for (auto& v : S.A) c.in("A", v); c.in("b", S.b); c.in("y0", y0); c.in("T", T); c.in("tol", tl); Rosenbrock23Solver R(S, tl, tl); auto sol = R.Solve(0, toV(y0), T, .01); int n = sol.size(); c.check(sol.getTValue(0) == 0 && sol.getTValue(n - 1) == T && sol.getTValues().size() == n, "rosenbrock_end_time"); double tb = 0; VL z0 = S.modal(y0); for (int q = 0; q < n; q++) { VL z = z0; for (int j = 0; j < S.n; j++) z[j] *= expl(S.lam[j] * sol.getTValue(q)); VL y = S.back(z); for (int i = 0; i < S.n; i++) tb = std::max(tb, (double)fabsl(sol.getXValue(q, i) - y[i])); } double bd = tl * 4 * std::min(5.0 + n, 200.0); c.maxi("rosenbrock lin", tb / bd); c.check(tb <= 5 * bd, "rosenbrock_linear_error", [&] { return std::to_string(tb) + " tol " + std::to_string(tl) + " n " + std::to_string(n); }); c.check(sol.getNumStepsOK() == n - 1, "rosenbrock_step_count"); }
  else if (kind == 1) { JSys J; { int d = (int)r.sz(1, 3, 18, .03); J.S.gen(r, d, d > 3 ? 1.2 / d : .6); }; J.S.log(c); VD x0 = rnd(r, J.S.n); double t0 = r.uni(-1, 1), T = r.uni(.3, 1); c.in("x0", x0); VL ref; if (!J.S.flow(t0, toL(x0), t0 + T, ref, 3, .06L)) { c.trivial(); return; } Rosenbrock23Solver R(J, 1e-6, 1e-6); L e[4], x[4]; for (int q = 0; q < 4; q++) { double h = .16 / (1 << q) * .5; Vector<Real> o(J.S.n), er(J.S.n); VL y; J.S.flow(t0, toL(x0), (L)t0 + h, y, 9, .06L); c.check(R.Step(t0, toV(x0), h, o, er), "rosenbrock_step_failed"); e[q] = diff(o, y); x[q] = 0; for (int i = 0; i < J.S.n; i++) x[q] = std::max(x[q], fabsl((L)er[i])); } L f = 1 / 8.0L, fl = 1e-15L; c.check(!(e[1] > 1.7L * f * e[0] + fl && e[2] > 1.7L * f * e[1] + fl && e[3] > 1.7L * f * e[2] + fl), "rosenbrock_local_order", [&] { char z[120]; snprintf(z, 120, "%Lg %Lg %Lg %Lg", e[0], e[1], e[2], e[3]); return std::string(z); }); c.check(!(x[1] > 1.7L / 4 * x[0] + fl && x[2] > 1.7L / 4 * x[1] + fl && x[3] > 1.7L / 4 * x[2] + fl), "rosenbrock_estimate_order"); double tl = std::pow(10, -r.uni(3, 7)); Rosenbrock23Solver R2(J, tl, tl); auto sol = R2.Solve(t0, toV(x0), t0 + T, r.pmag(-4, -1)); L en = diff(sol.getXValuesAtEnd(), ref); c.maxi("rosenbrock nonlin", (double)(en / (tl * sol.size()))); c.check(en <= 100 * tl * (sol.size() + 3), "rosenbrock_error_above_tolerance"); c.ev("rosenbrock_order"); }
  else { JSys J; { int d = (int)r.sz(1, 3, 18, .03); J.S.gen(r, d, d > 3 ? 1.2 / d : .6); }; VD x0 = rnd(r, J.S.n); double T = r.uni(.3, 2); VL ref; if (!J.S.flow(0, toL(x0), T, ref, 3, .06L)) { c.trivial(); return; } J.S.log(c); c.in("x0", x0); c.in("T", T); StiffSolverConfig cf = r.coin(.3) ? StiffSolverConfig::Fast() : r.coin(.3) ? StiffSolverConfig::HighPrecision() : StiffSolverConfig(); if (cf.tolerance < 1e-8) cf.tolerance = 1e-8; cf.step_size = r.pmag(-4, -1); if (r.coin(.5)) cf.max_step_size = T / r.uni(5, 60); if (r.coin(.3)) cf.max_steps = (int)r.i(1, 20); Rosenbrock23Solver R(J); StiffSolverResult S(0, 1, 1, 0); if (!c.nothrow([&] { S = R.Solve(toV(x0), 0, T, cf); }, "rosenbrock_config_threw")) return; c.ev("rosenbrock_config"); if (S.status != AlgorithmStatus::Success) { c.check(cf.max_steps < 100 && !S.error_message.empty(), "rosenbrock_config_failed", [&] { return S.error_message; }); c.ev("rosenbrock_limit"); return; } c.check(S.total_steps <= cf.max_steps && S.total_steps == S.solution.size() - 1, "rosenbrock_max_steps"); double hm = 0; for (int q = 1; q < S.solution.size(); q++) hm = std::max(hm, S.solution.getTValue(q) - S.solution.getTValue(q - 1)); c.check(hm <= cf.max_step_size * (1 + 1e-9), "rosenbrock_max_step_size", [&] { return std::to_string(hm) + " limit " + std::to_string(cf.max_step_size); }); c.check(diff(S.solution.getXValuesAtEnd(), ref) <= 100 * cf.tolerance * (S.total_steps + 3), "rosenbrock_config_error"); } }
// stiff nonlinear kinetics: conserved total and positivity (Robertson)
FAMILY(robertson, 60) { auto& r = c.r; int k = (int)r.i(0, 2); std::string key = NM[k]; c.in("method", key.c_str()); double k1 = r.pmag(-2, -1), k2 = r.pmag(6, 7.5), k3 = r.pmag(3, 4); c.in("k", VD{k1, k2, k3}); auto f = [=](const Vector<Real>& y, Vector<Real>& d) { d[0] = -k1 * y[0] + k3 * y[1] * y[2]; d[2] = k2 * y[1] * y[1]; d[1] = -d[0] - d[2]; }; ODESystemWithJacobianFromStdFunc S(3, [=](Real, const Vector<Real>& y, Vector<Real>& d) { f(y, d); }, [=](Real, const Vector<Real>& y, Vector<Real>& d, Matrix<Real>& J) { f(y, d); J[0][0] = -k1; J[0][1] = k3 * y[2]; J[0][2] = k3 * y[1]; J[2][0] = 0; J[2][1] = 2 * k2 * y[1]; J[2][2] = 0; for (int j = 0; j < 3; j++) J[1][j] = -J[0][j] - J[2][j]; }); Vector<Real> y0(3); y0[0] = 1; double T = r.uni(5, 40), h = T / r.uni(100, 300); c.in("T", T); c.in("h", h); auto go = [&](double hh) { if (k == 2) { Rosenbrock23Solver R(S, 1e-8, 1e-6); return R.Solve(0, y0, T, 1e-4); } return k ? SolveBDF2(S, 0, y0, T, hh, 50, 1e-11) : SolveBackwardEuler(S, 0, y0, T, hh, 50, 1e-11); }; ODESystemSolution sol(0, 1, 1, 0); if (!c.nothrow([&] { sol = go(h); }, (key + "_robertson_failed").c_str())) return; c.ev("robertson"); bool cons = true, pos = true; for (int q = 0; q < sol.size(); q++) { double s = 0; for (int i = 0; i < 3; i++) { s += sol.getXValue(q, i); pos &= sol.getXValue(q, i) > -1e-5; } cons &= std::fabs(s - 1) < 1e-9 * (1 + q * .01); } c.check(cons, key + "_mass_not_conserved"); c.check(pos, key + "_negative_concentration"); if (k < 2) { auto s2 = go(h / 4); double d = 0; for (int i = 0; i < 3; i++) d = std::max(d, std::fabs(sol.getXValuesAtEnd()[i] - s2.getXValuesAtEnd()[i])); c.maxi((key + " robertson refine").c_str(), d); c.check(d < (k ? 2e-3 : 2e-2), key + "_robertson_not_converging"); } }
// configuration front ends and failures
FAMILY(front_ends, 300) { auto& r = c.r; JSys J; { int d = (int)r.sz(1, 3, 18, .03); J.S.gen(r, d, d > 3 ? 1.2 / d : .6); }; J.S.log(c); VD x0 = rnd(r, J.S.n); double T = r.uni(.2, 1); VL ref; if (!J.S.flow(0, toL(x0), T, ref, 3, .06L)) { c.trivial(); return; } int k = (int)r.i(0, 1); std::string key = NM[k]; c.in("method", key.c_str()); c.in("x0", x0); c.in("T", T); ODEStiffConfig cf; auto& g = cf.solver; g.step_size = T / r.uni(3, 40); g.newton_tol = 1e-9; if (r.coin(.2)) g.max_steps = (int)r.i(1, 3); c.in("h", g.step_size); auto call = [&] { return k ? SolveBDF2(J, 0, toV(x0), T, g) : SolveBackwardEuler(J, 0, toV(x0), T, g); }; auto det = [&] { return k ? SolveBDF2Detailed(J, 0, toV(x0), T, cf) : SolveBackwardEulerDetailed(J, 0, toV(x0), T, cf); }; auto S = call(); auto D = det(); c.ev("front_end"); if (g.max_steps < 10) { c.check(S.status != AlgorithmStatus::Success && !D.IsSuccess(), key + "_max_steps_ignored"); return; } c.check(S.status == AlgorithmStatus::Success && D.IsSuccess() && D.solution.has_value(), key + "_status"); grid(c, S.solution, 0, T, g.step_size, key + "_config"); auto P = k ? SolveBDF2(J, 0, toV(x0), T, g.step_size, g.max_newton_iter, g.newton_tol) : SolveBackwardEuler(J, 0, toV(x0), T, g.step_size, g.max_newton_iter, g.newton_tol); bool same = P.size() == S.solution.size() && D.solution->size() == P.size(); for (int q = 0; same && q < P.size(); q++) for (int i = 0; i < J.S.n; i++) same &= P.getXValue(q, i) == S.solution.getXValue(q, i) && P.getXValue(q, i) == D.solution->getXValue(q, i); c.check(same, key + "_front_ends_differ"); c.check(S.total_steps == P.size() - 1 && D.total_steps == P.size() - 1, key + "_total_steps");
  // failures
  ODESystemWithJacobianFromStdFunc B(1, [](Real t, const Vector<Real>&, Vector<Real>& d) { d[0] = t > .05 ? NAN : 0; }, [](Real t, const Vector<Real>&, Vector<Real>& d, Matrix<Real>& M) { d[0] = t > .05 ? NAN : 0; M[0][0] = 0; }); Vector<Real> y1(1); y1[0] = 1; auto F = k ? SolveBDF2(B, 0, y1, T, g) : SolveBackwardEuler(B, 0, y1, T, g); c.check(F.status != AlgorithmStatus::Success && !F.error_message.empty(), key + "_nan_accepted"); Rosenbrock23Solver R(B); auto FR = R.Solve(y1, 0, T, StiffSolverConfig()); c.check(FR.status != AlgorithmStatus::Success && !FR.error_message.empty(), "rosenbrock_nan_accepted"); c.throws<std::exception>([&] { (void)R.Solve(0, y1, T, .01); }, "rosenbrock_nan_not_reported"); c.throws<std::exception>([&] { (void)(k ? SolveBDF2(B, 0, y1, T, .03) : SolveBackwardEuler(B, 0, y1, T, .03)); }, (key + "_nan_not_reported").c_str());
  double bad = r.pick({0.0, -.1, (double)NAN}); c.throws<std::exception>([&] { (void)(k ? SolveBDF2(J, 0, toV(x0), T, bad) : SolveBackwardEuler(J, 0, toV(x0), T, bad)); }, (key + "_bad_step").c_str()); c.throws<std::exception>([&] { (void)(k ? SolveBDF2(J, 1, toV(x0), 0, .1) : SolveBackwardEuler(J, 1, toV(x0), 0, .1)); }, (key + "_end_before_start").c_str()); c.throws<std::exception>([&] { (void)R.Solve(0, y1, T, bad); }, "rosenbrock_bad_step"); auto e = k ? SolveBDF2(J, 1, toV(x0), 1, .1) : SolveBackwardEuler(J, 1, toV(x0), 1, .1); c.check(e.size() == 1 && e.getTValue(0) == 1, key + "_empty_interval"); c.ev("stiff_failures"); }
MON_MAIN()
