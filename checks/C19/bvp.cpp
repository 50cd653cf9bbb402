// C19: shooting solvers for two-point boundary value problems
#include "ode.h"
#include "mml/base/ODESystem.h"
#include "mml/algorithms/ODESolvers/BVPShootingMethod.h"
using namespace MML; using namespace ode;
struct Setup { Sys S; VD x0; double t0, t1; VL end; int N; };
static bool mk(mon::Case& c, Setup& P, bool lin) { auto& r = c.r; if (r.coin(.5)) P.S.gen2(r, (int)r.sz(1, 2, 6, .05), !lin); else { P.S.gen(r, (int)r.i(2, 4)); if (lin) P.S.q.clear(); } P.S.log(c); P.x0 = rnd(r, P.S.n); P.t0 = r.uni(-1, 1); P.t1 = P.t0 + r.uni(.3, 1.5); P.N = (int)r.i(60, 200); c.in("x0", P.x0); c.in("t", VD{P.t0, P.t1}); c.in("N", P.N); return P.S.flow(P.t0, toL(P.x0), P.t1, P.end, 4, .06L); }
// exact sensitivity of the end state to component j of the start state
static VL sens(Setup& P, int j) { const L d = 1e-6L; VL a = toL(P.x0), b = a, ya, yb; a[j] += d; b[j] -= d; if (!P.S.flow(P.t0, a, P.t1, ya, 8, .06L) || !P.S.flow(P.t0, b, P.t1, yb, 8, .06L)) return {}; for (size_t i = 0; i < ya.size(); i++) ya[i] = (ya[i] - yb[i]) / (2 * d); return ya; }
// the trajectory solves the differential equation from its own start, on the uniform grid
static bool traj(mon::Case& c, Setup& P, const ODESystemSolution& s, int ord, const std::string& key) { if (!c.check(s.size() == P.N + 1, key + "_point_count")) return false; c.check(std::fabs(s.getTValue(0) - P.t0) < 1e-15 && std::fabs(s.getTValue(P.N) - P.t1) < 1e-11, key + "_ends"); VL x(P.S.n); for (int i = 0; i < P.S.n; i++) x[i] = s.getXValue(0, i); L h = (P.t1 - P.t0) / P.N, worst = 0, mag = 1; VL y; int stride = std::max(1, P.N / 8); int last = 0; for (int q = stride; last < P.N; q = std::min(q + stride, P.N)) { if (!P.S.flow(P.t0 + last * h, x, P.t0 + q * h, y, 60, .06L)) { c.ev("left_region"); return true; } x = y; last = q; for (int i = 0; i < P.S.n; i++) { worst = std::max(worst, fabsl(y[i] - s.getXValue(q, i))); mag = std::max(mag, fabsl(y[i])); } } L tol = (ord == 2 ? 6 : 1) * powl(h, ord) * powl(mag, ord + 1) + 1e-10L; c.maxi((key + " trajectory").c_str(), (double)(worst / tol)); c.ev("trajectory"); return c.check(worst <= tol, key + "_not_a_solution", [&] { return std::to_string((double)worst) + " tol " + std::to_string((double)tol); }); }
template<class SC> static void oneD(mon::Case& c, int ord, const std::string& key) { auto& r = c.r; Setup P; bool lin = r.coin(.6); c.in("linear", (int)lin); if (!mk(c, P, lin)) { c.trivial(); return; } int n = P.S.n, si = (int)r.i(0, n - 1), ti = (int)r.i(0, n - 1); double s0 = P.x0[si]; VL se = sens(P, si); if (se.empty()) { c.trivial(); return; } double tgt = (double)P.end[ti], slope = (double)se[ti]; double g1 = lin ? s0 + r.uni(-5, 5) : s0 + r.uni(-.3, .3), g2 = g1 + (lin ? r.uni(.1, 4) : r.uni(.05, .3)) * (r.coin() ? 1 : -1); c.in("index", std::vector<int>{si, ti}); c.in("target", tgt); c.in("guess", VD{g1, g2}); double tol = std::pow(10, -r.uni(6, 12)); c.in("tol", tol); Vector<Real> ic = toV(P.x0); ic[si] = r.uni(-9, 9); Vector<Real> keep = ic; BVPShootingSolver<SC> B(P.S, P.N, tol, 100); BVPShootingResult R; bool pos = n == 2 && si == 1 && ti == 0; if (!c.nothrow([&] { R = pos && r.coin() ? B.solvePositionBVP(P.t0, P.t1, P.x0[0], tgt, g1, g2) : B.solve1D(P.t0, P.t1, ic, si, ti, tgt, g1, g2); }, (key + "_threw").c_str())) return; if (pos) c.ev("position"); bool kept = true; for (int i = 0; i < n; i++) kept &= ic[i] == keep[i]; c.check(kept, key + "_modified_input");
	c.check(R.success() == R.converged && R.converged == (R.failureReason == BVPFailureReason::None) && R.converged == (R.status == AlgorithmStatus::Success), key + "_inconsistent_status"); if (!R.converged) { c.check(!R.getFailureDescription().empty() && R.getFailureDescription() != "Success" && !R.failureDetails.empty(), key + "_no_failure_text"); c.ev("failed_1d"); c.check(!(lin && std::fabs(slope) > .02), key + "_solvable_linear_failed", [&] { return R.getFailureDescription(); }); return; }
	c.ev("solved_1d"); if (!traj(c, P, R.solution, ord, key)) return; bool ini = R.shootingParams.size() == 1 && R.solution.getXValue(0, si) == R.shootingParams[0]; for (int i = 0; i < n; i++) if (i != si) ini &= R.solution.getXValue(0, i) == P.x0[i]; c.check(ini, key + "_initial_condition"); double res = std::fabs(R.solution.getXValue(P.N, ti) - tgt); c.close(R.residual, res, 1e-15, key + "_residual_reported"); double lim = std::sqrt(tol) * (1 + std::fabs(tgt)); c.check(res <= lim, key + "_boundary_missed", [&] { return std::to_string(res); }); L h = (P.t1 - P.t0) / P.N; if (lin && std::fabs(slope) > .02) { double st = 2 * tol + 4e-16 * 100 + (60 * powl(h, ord) * 4096 + 1e-10) / std::fabs(slope); c.check(res <= (2 * tol * (1 + std::fabs(s0)) + 1e-14) * std::max(1.0, std::fabs(slope)) * 3 + 1e-13, key + "_boundary_not_to_tolerance", [&] { return std::to_string(res) + " tol " + std::to_string(tol); }); c.close(R.shootingParams[0], s0, st, key + "_wrong_parameter"); c.ev("linear_1d"); } }
FAMILY(single_parameter, 600) { int k = (int)c.r.i(0, 2); c.in("stepper", k); if (k == 0) oneD<RungeKutta4_StepCalculator>(c, 4, "rk4"); else if (k == 1) oneD<DormandPrince5_StepCalculator>(c, 5, "dp5"); else oneD<Midpoint_StepCalculator>(c, 2, "midpoint"); }
template<class SC> static void nD(mon::Case& c, int ord, const std::string& key) { auto& r = c.r; Setup P; bool lin = r.coin(.4); c.in("linear", (int)lin); if (!mk(c, P, lin)) { c.trivial(); return; } int n = P.S.n, k = (int)r.i(1, n); std::vector<int> a(n), b(n); for (int i = 0; i < n; i++) a[i] = b[i] = i; r.shuffle(a); r.shuffle(b); ShootingConfig g; double dist = lin ? 3 : .2; for (int i = 0; i < k; i++) { g.unknownIndices.push_back(a[i]); g.targetIndices.push_back(b[i]); g.unknownGuesses.push_back(P.x0[a[i]] + r.uni(-dist, dist)); g.targetValues.push_back((double)P.end[b[i]]); } c.in("unknown", g.unknownIndices); c.in("target", g.targetIndices); c.in("guess", g.unknownGuesses); c.in("values", g.targetValues);
	// conditioning of the exact boundary map: smallest singular value via determinant bound is avoided; use its inverse by elimination
	std::vector<VL> J(k, VL(2 * k, 0)); for (int j = 0; j < k; j++) { VL s = sens(P, a[j]); if (s.empty()) { c.trivial(); return; } for (int i = 0; i < k; i++) J[i][j] = s[b[i]]; J[j][k + j] = 1; } L inv = 0; bool sg = false; for (int q = 0; q < k && !sg; q++) { int m = q; for (int i = q; i < k; i++) if (fabsl(J[i][q]) > fabsl(J[m][q])) m = i; std::swap(J[m], J[q]); if (fabsl(J[q][q]) < 1e-9L) { sg = true; break; } L d = J[q][q]; for (auto& v : J[q]) v /= d; for (int i = 0; i < k; i++) if (i != q) { L f = J[i][q]; for (int j = 0; j < 2 * k; j++) J[i][j] -= f * J[q][j]; } } if (!sg) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) inv = std::max(inv, fabsl(J[i][k + j]));
	BVPSolverConfig cf; cf.tolerance = std::pow(10, -r.uni(6, 10)); cf.num_integration_steps = P.N; cf.max_iterations = r.coin(.2) ? (int)r.i(1, 3) : 60; cf.jacobian_delta = r.pick({1e-6, 1e-7, 1e-8}); c.in("tol", cf.tolerance); c.in("max_iter", cf.max_iterations); Vector<Real> ic = toV(P.x0); for (int i = 0; i < k; i++) ic[a[i]] = r.uni(-9, 9); Vector<Real> keep = ic; BVPShootingSolverND<SC> B(P.S, cf); ShootingResultND R; if (!c.nothrow([&] { R = B.solve(P.t0, P.t1, ic, g); }, (key + "_nd_threw").c_str())) return; bool kept = true; for (int i = 0; i < n; i++) kept &= ic[i] == keep[i]; c.check(kept, key + "_nd_modified_input"); c.check(R.success() == R.converged && R.converged == (R.failureReason == BVPFailureReason::None) && R.converged == (R.status == AlgorithmStatus::Success), key + "_nd_inconsistent_status"); c.check(R.iterations <= cf.max_iterations, key + "_nd_iteration_limit");
	if (!R.converged) { c.ev("failed_nd"); c.check(!R.failureDetails.empty(), key + "_nd_no_failure_text"); c.check(!(lin && !sg && inv < 20 && cf.max_iterations > 3), key + "_nd_solvable_linear_failed", [&] { return R.getFailureDescription(); }); if (!lin && !sg && inv < 5 && cf.max_iterations > 3) c.ev("nonlinear_failed"); return; }
	c.ev("solved_nd"); if (!lin) c.ev("solved_nonlinear"); if (!traj(c, P, R.solution, ord, key + "_nd")) return; bool ini = R.shootingParams.size() == k && R.residuals.size() == k; for (int i = 0; i < n; i++) ini &= R.solution.getXValue(0, i) == (std::find(a.begin(), a.begin() + k, i) == a.begin() + k ? P.x0[i] : R.shootingParams[(int)(std::find(a.begin(), a.begin() + k, i) - a.begin())]); c.check(ini, key + "_nd_initial_condition"); L s2 = 0; for (int i = 0; i < k; i++) { L d = R.solution.getXValue(P.N, b[i]) - g.targetValues[i]; s2 += d * d; c.close(R.residuals[i], (double)d, 1e-14, key + "_nd_residual_vector"); } c.close(R.residualNorm, (double)sqrtl(s2), 1e-14, key + "_nd_residual_norm"); c.check(sqrtl(s2) < cf.tolerance * 1.0001L, key + "_nd_boundary_missed", [&] { return std::to_string((double)sqrtl(s2)); }); if (lin && !sg && inv < 20) { L h = (P.t1 - P.t0) / P.N; double st = (double)((cf.tolerance + 60 * powl(h, ord) * 4096 + 1e-10L) * inv * k); for (int i = 0; i < k; i++) c.close(R.shootingParams[i], P.x0[a[i]], st, key + "_nd_wrong_parameter"); c.ev("linear_nd"); } }
FAMILY(several_parameters, 500) { int k = (int)c.r.i(0, 2); c.in("stepper", k); if (k == 0) nD<RungeKutta4_StepCalculator>(c, 4, "rk4"); else if (k == 1) nD<DormandPrince5_StepCalculator>(c, 5, "dp5"); else nD<Midpoint_StepCalculator>(c, 2, "midpoint"); }
// Newton converges on most mildly nonlinear, well-conditioned problems started nearby
FAMILY(newton_batch, 12) { auto& r = c.r; int tot = 0, ok = 0; for (int b = 0; b < 20; b++) { Setup P; if (!mk(c, P, false)) continue; int n = P.S.n, j = (int)r.i(0, n - 1); VL s = sens(P, j); if (s.empty()) continue; int ti = 0; for (int i = 0; i < n; i++) if (fabsl(s[i]) > fabsl(s[ti])) ti = i; if (fabsl(s[ti]) < .3L) continue; tot++; double g = P.x0[j] + r.uni(-.1, .1); BVPShootingSolverND<> B(P.S, P.N, 1e-9); ShootingConfig q{{j}, {g}, {ti}, {(double)P.end[ti]}}; auto R = B.solve(P.t0, P.t1, toV(P.x0), q); if (R.converged && R.iterations <= 12) ok++; BVPShootingSolver<> C(P.S, P.N, 1e-10); auto Q = C.solve1D(P.t0, P.t1, toV(P.x0), j, ti, (double)P.end[ti], g, g + .05); if (R.converged && Q.converged && std::fabs(R.shootingParams[0] - Q.shootingParams[0]) > 1e-6) c.ev("different_roots"); } if (tot < 8) { c.trivial(); return; } c.ev("newton_batch"); c.maxi("newton failures", double(tot - ok) / tot); c.check(ok * 10 >= tot * 7, "newton_rarely_converges", [&] { return std::to_string(ok) + " of " + std::to_string(tot); }); }
// problems without a solution and bad specifications
FAMILY(failures, 400) { auto& r = c.r; int kind = (int)r.i(0, 5); c.in("kind", kind); BVPShootingSolver<> *p1 = nullptr; (void)p1;
	auto f1 = [&](const BVPShootingResult& R, const char* key) { c.check(!R.success() && !R.converged && R.failureReason != BVPFailureReason::None && R.status != AlgorithmStatus::Success && !R.failureDetails.empty(), key); c.ev("failure"); }; auto fn = [&](const ShootingResultND& R, const char* key) { c.check(!R.success() && !R.converged && R.failureReason != BVPFailureReason::None && R.status != AlgorithmStatus::Success && !R.failureDetails.empty(), key); c.ev("failure"); };
	auto any = [&](auto f, const char* key) { try { f(); } catch (const std::exception&) { c.ev("failure"); } };
	if (kind == 0) { // target does not depend on the unknown
		Sys S; S.zero(3); S.a[0][1] = r.uni(-1, 1); S.a[1][0] = r.uni(-1, 1); S.c[0] = r.uni(-1, 1); S.a[2][2] = r.uni(-1, 1); S.a[2][0] = r.uni(-1, 1); S.log(c); Vector<Real> x(3); x[0] = r.uni(-1, 1); x[1] = r.uni(-1, 1); c.in("x", VD{x[0], x[1]}); double tg = 20 + r.uni(0, 5); f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, x, 2, (int)r.i(0, 1), tg, r.uni(-2, 0), r.uni(.1, 2)), "unreachable_target_solved"); fn(BVPShootingSolverND<>(S, 50).solve(0, 1, x, ShootingConfig{{2}, {r.uni(-1, 1)}, {(int)r.i(0, 1)}, {tg}}), "unreachable_target_solved_nd"); c.ev("unreachable"); }
	else if (kind == 1) { // target below the range of the end value: x' = s^2 + ... with s constant
		Sys S; S.zero(2); S.q.push_back({0, 1, 1, 1.0}); S.log(c); Vector<Real> x(2); x[0] = r.uni(-1, 1); double T = r.uni(.5, 2), tg = x[0] - r.uni(.1, 3); c.in("T", T); c.in("target", tg); f1(BVPShootingSolver<>(S, 50).solve1D(0, T, x, 1, 0, tg, r.uni(.1, 1), r.uni(1.1, 2)), "no_solution_solved"); fn(BVPShootingSolverND<>(S, 50).solve(0, T, x, ShootingConfig{{1}, {r.uni(.2, 1)}, {0}, {tg}}), "no_solution_solved_nd"); c.ev("no_solution"); }
	else if (kind == 2) { // the end value jumps over the target as the unknown changes sign
		ODESystemFromStdFunc S(2, [](Real, const Vector<Real>& x, Vector<Real>& d) { d[0] = x[1] > 0 ? 1 : -1; d[1] = 0; }); Vector<Real> x(2); double tg = r.uni(-.5, .5); c.in("target", tg); f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, x, 1, 0, tg, -r.uni(.1, 1), r.uni(.1, 1)), "jump_accepted_as_solution"); fn(BVPShootingSolverND<>(S, 50).solve(0, 1, x, ShootingConfig{{1}, {r.uni(-1, 1)}, {0}, {tg}}), "jump_accepted_as_solution_nd"); c.ev("jump"); }
	else if (kind == 3) { // pole: x' = x^2, end value s / (1 - s T)
		Sys S; S.zero(1); S.q.push_back({0, 0, 0, 1.0}); Vector<Real> x(1); double tg = r.uni(-3, 3); double a = r.uni(.6, .95), b = r.uni(1.05, 3); c.in("target", tg); c.in("guess", VD{a, b}); auto R = BVPShootingSolver<>(S, (int)r.i(20, 100)).solve1D(0, 1, x, 0, 0, tg, a, b); c.check(R.converged == (R.status == AlgorithmStatus::Success), "pole_status"); if (R.converged) c.close(R.solution.getXValue(R.solution.size() - 1, 0), tg, 1e-4, "pole_accepted"); auto Q = BVPShootingSolverND<>(S, 60).solve(0, 1, x, ShootingConfig{{0}, {b}, {0}, {tg}}); if (Q.converged) c.close(Q.solution.getXValue(60, 0), tg, 1e-9, "pole_accepted_nd"); c.ev("pole"); }
	else if (kind == 4) { // right-hand side undefined
		ODESystemFromStdFunc S(2, [](Real t, const Vector<Real>& x, Vector<Real>& d) { d[0] = x[1]; d[1] = t > .5 ? NAN : 0; }); Vector<Real> x(2); f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, x, 1, 0, 1, 0, 1), "nan_solved"); fn(BVPShootingSolverND<>(S, 50).solve(0, 1, x, ShootingConfig{{1}, {0}, {0}, {1}}), "nan_solved_nd"); ODESystemFromStdFunc E(2, [](Real, const Vector<Real>&, Vector<Real>&) { throw std::runtime_error("rhs"); }); any([&] { auto R = BVPShootingSolver<>(E, 50).solve1D(0, 1, x, 1, 0, 1, 0, 1); f1(R, "throwing_rhs_solved"); }, ""); any([&] { fn(BVPShootingSolverND<>(E, 50).solve(0, 1, x, ShootingConfig{{1}, {0}, {0}, {1}}), "throwing_rhs_solved_nd"); }, ""); c.ev("nan_rhs"); }
	else { Sys S; S.gen(r, 2); S.q.clear(); Vector<Real> x(2); int bad = r.coin() ? (int)r.i(2, 5) : -(int)r.i(1, 4); c.in("index", bad); any([&] { f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, x, bad, 0, 1, 0, 1), "bad_index_accepted"); }, ""); any([&] { f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, x, 0, bad, 1, 0, 1), "bad_index_accepted"); }, ""); any([&] { f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, Vector<Real>((int)r.pick({0, 1, 3})), 0, 0, 1, 0, 1), "bad_start_accepted"); }, ""); any([&] { f1(BVPShootingSolver<>(S, -(int)r.i(0, 3)).solve1D(0, 1, x, 1, 0, 1, 0, 1), "bad_steps_accepted"); }, ""); any([&] { f1(BVPShootingSolver<>(S, 50).solve1D(0, 1, x, 1, 0, NAN, 0, 1), "nan_target_accepted"); }, ""); std::vector<ShootingConfig> C = {{{}, {}, {}, {}}, {{0, 1}, {0}, {0}, {1}}, {{0}, {0}, {0, 1}, {1}}, {{0}, {0}, {0}, {}}, {{bad}, {0}, {0}, {1}}, {{0}, {0}, {bad}, {1}}, {{0}, {0}, {0}, {NAN}}, {{0, 0}, {0, 0}, {0, 1}, {9, 9}}}; int q = (int)r.i(0, (int)C.size() - 1); c.in("config", q); any([&] { fn(BVPShootingSolverND<>(S, 50).solve(0, 1, x, C[q]), "bad_config_accepted"); }, ""); any([&] { fn(BVPShootingSolverND<>(S, 50).solve(0, 1, Vector<Real>(r.coin() ? 1 : 3), ShootingConfig{{0}, {0}, {0}, {1}}), "bad_start_accepted_nd"); }, ""); any([&] { fn(BVPShootingSolverND<>(S, 0).solve(0, 1, x, ShootingConfig{{0}, {0}, {0}, {1}}), "bad_steps_accepted_nd"); }, ""); c.ev("bad_spec"); } }
MON_MAIN()
