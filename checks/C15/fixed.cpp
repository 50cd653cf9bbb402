// C15: fixed-step ODE methods: order of accuracy, exactness, invariants and history monitors
#include "ode.h"
#include "mml/base/ODESystem.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/algorithms/ODESolvers/ODEStepCalculators.h"
#include "mml/algorithms/ODESolvers/ODESolverFixedStep.h"
using namespace MML; using namespace ode;
struct M { const IODESystemStepCalculator* s; const char* n; int p; int pe; bool second; double H; };
static const M MS[9] = {{&StepCalculators::EulerStepCalc, "euler", 1, 0, false, .04}, {&StepCalculators::EulerCromerStepCalc, "heun", 2, 1, false, .08}, {&StepCalculators::VelocityVerletStepCalc, "velocity_verlet", 2, 0, true, .08}, {&StepCalculators::LeapfrogStepCalc, "leapfrog", 2, 0, true, .08}, {&StepCalculators::MidpointStepCalc, "midpoint", 2, 0, false, .08}, {&StepCalculators::RK4_Basic, "rk4", 4, 0, false, .15}, {&StepCalculators::RK5_CashKarp, "cash_karp", 5, 4, false, .2}, {&StepCalculators::DormandPrince5StepCalc, "dormand_prince5", 5, 4, false, .2}, {&StepCalculators::DormandPrince8StepCalc, "dormand_prince8", 8, 7, false, .35}};
static void gsys(mon::Rng& r, const M& m, Sys& S) { if (m.second) S.gen2(r, (int)r.sz(1, 3, 10, .04)); else { int d = (int)r.sz(1, 5, 20, .04); S.gen(r, d, .8 / std::sqrt((double)d)); } }
// local error over a batch of random systems must shrink like h^(p+1); embedded error estimates like h^(pe+1)
FAMILY(local_order, 900) {
  auto& r = c.r; const M& m = MS[r.i(0, 8)]; c.in("method", m.n); double H = m.H * r.uni(.7, 1); c.in("h", H); L e[4] = {0}, x[4] = {0}, y[4] = {0}; std::string key = m.n; int N = 10;
  for (int b = 0; b < N; b++) { Sys S; gsys(r, m, S); S.log(c); VD x0 = rnd(r, S.n); double t0 = r.uni(-1, 1); double h = (b & 1) ? -H : H; c.in("x0", x0); c.in("t0", t0); for (int k = 0; k < 4; k++) { double hh = h / (1 << k); Vector<Real> X = toV(x0), d(S.n), out(S.n), err(S.n); for (int i = 0; i < S.n; i++) { out[i] = 7; err[i] = 7; } S.derivs(t0, X, d); Vector<Real> d0 = d; S.tlo = 1e300; S.thi = -1e300; S.calls = 0; m.s->calcStep(S, t0, X, d, hh, out, err); for (int i = 0; i < S.n; i++) c.check(X[i] == x0[i] && d[i] == d0[i], key + "_input_modified"); if (S.calls) c.check(S.tlo >= std::min(t0, t0 + hh) - 1e-14 && S.thi <= std::max(t0, t0 + hh) + 1e-14, key + "_stage_time_outside_step");
      VL ref; S.flow(t0, toL(x0), (L)t0 + hh, ref, 1e9L, 0.1L); e[k] += diff(out, ref); L xe = 0, ye = 0; for (int i = 0; i < S.n; i++) { xe = std::max(xe, fabsl((L)err[i])); ye = std::max(ye, fabsl(out[i] - err[i] - ref[i])); } x[k] += xe; y[k] += ye; if (!m.pe) c.check(xe == 0, key + "_nonzero_error_without_estimate"); } }
  L f = powl(2, -(m.p + 1)), fl = 3e-16L * 3 * N; auto str = [&](const L* v) { char b[120]; snprintf(b, 120, "h: %Lg  h/2: %Lg  h/4: %Lg", v[0], v[1], v[2]); return std::string(b); };
  // the leading term may cancel at one step size: three successive halvings must all show too low an order
  auto low = [&](const L* v, L f) { return v[1] > 1.75L * f * v[0] + fl && v[2] > 1.75L * f * v[1] + fl && v[3] > 1.75L * f * v[2] + fl; }; auto high = [&](const L* v, L f) { return v[1] < f / 1.9L * v[0] - fl && v[2] < f / 1.9L * v[1] - fl && v[3] < f / 1.9L * v[2] - fl; };
  c.ev(m.n); c.check(!low(e, f), key + "_order", [&] { return str(e); }); if (e[1] > 100 * fl) c.ev("order_resolved");
  if (m.pe) { L g = powl(2, -(m.pe + 1)); c.check(!low(x, g) && !high(x, g), key + "_error_estimate_order", [&] { return str(x); }); c.check(!low(y, g), key + "_embedded_solution_order", [&] { return str(y); }); c.check(x[0] >= e[0] * .1L || x[1] >= e[1] * .1L, key + "_error_estimate_below_error"); } }
// x' = polynomial in t of degree p-1 is integrated exactly (quadrature conditions), any interval, any step count
FAMILY(quadrature_exact, 900) {
  auto& r = c.r; const M& m = MS[r.i(0, 8)]; int deg = m.second ? (int)r.i(0, 0) : (int)r.i(0, m.p - 1), n = (int)r.sz(1, 3, 24); std::vector<VD> q(n); for (auto& v : q) v = rnd(r, deg + 1, 2); double t1 = r.uni(-2, 2), t2 = t1 + r.uni(-3, 3); int N = (int)r.i(1, 12); c.in("method", m.n); for (auto& v : q) c.in("q", v); c.in("t", VD{t1, t2}); c.in("steps", N); auto ev = [&](int i, L t) { L s = 0; for (int k = deg; k >= 0; k--) s = s * t + q[i][k]; return s; }; auto an = [&](int i, L t) { L s = 0; for (int k = deg; k >= 0; k--) s = s * t + q[i][k] / (L)(k + 1); return s * t; };
  if (m.second) { // constant acceleration is integrated exactly by both symplectic schemes
    ODESystemFromStdFunc S(2 * n, [&](Real t, const Vector<Real>& x, Vector<Real>& d) { for (int i = 0; i < n; i++) { d[i] = x[n + i]; d[n + i] = q[i][0]; } }); VD x0 = rnd(r, 2 * n, 3); ODESystemFixedStepSolver s(S, *m.s); auto sol = s.integrate(toV(x0), t1, t2, N); c.ev("const_acc"); for (int k = 0; k <= N; k++) { L T = sol.getTValue(k) - (L)t1; for (int i = 0; i < n; i++) { c.close(sol.getXValue(k, i), (double)(x0[i] + x0[n + i] * T + q[i][0] * T * T / 2), 1e-12 * 40, std::string(m.n) + "_constant_acceleration"); c.close(sol.getXValue(k, n + i), (double)(x0[n + i] + q[i][0] * T), 1e-12 * 40, std::string(m.n) + "_constant_acceleration"); } } return; }
  ODESystemFromStdFunc S(n, [&](Real t, const Vector<Real>&, Vector<Real>& d) { for (int i = 0; i < n; i++) d[i] = (double)ev(i, t); }); VD x0 = rnd(r, n, 3); ODESystemFixedStepSolver s(S, *m.s); auto sol = s.integrate(toV(x0), t1, t2, N); c.ev("quadrature"); double mag = 10 * std::pow(6, deg); for (int k = 0; k <= N; k++) for (int i = 0; i < n; i++) c.close(sol.getXValue(k, i), (double)(x0[i] + an(i, sol.getTValue(k)) - an(i, t1)), 1e-13 * mag, std::string(m.n) + "_quadrature_degree"); }
// linear constant-coefficient systems: one step equals the Taylor polynomial of exp(hA) through order p (nilpotent A: exact)
FAMILY(nilpotent_exact, 400) { auto& r = c.r; const M& m = MS[r.i(0, 8)]; if (m.second) { c.trivial(); return; } int n = (int)r.i(1, m.p); Sys S; S.zero(n); for (int i = 0; i < n; i++) { if (n < m.p) S.c[i] = r.uni(-2, 2); for (int j = i + 1; j < n; j++) S.a[i][j] = r.uni(-2, 2); } if (n == m.p) S.c[n - 1] = r.uni(-2, 2); S.log(c); c.in("method", m.n); VD x0 = rnd(r, n, 2); c.in("x0", x0); double T = r.uni(-1.5, 1.5); int N = (int)r.i(1, 5); // nilpotency index n (+1 with a constant term) <= p
  ODESystemFixedStepSolver s(S, *m.s); auto sol = s.integrate(toV(x0), 0, T, N); VL ref = S.step(0, toL(x0), T); c.ev("nilpotent"); L mg = 1; for (auto v : ref) mg = std::max(mg, fabsl(v)); for (int i = 0; i < n; i++) c.close(sol.getXValue(N, i), (double)ref[i], (double)(2e-11L * mg), std::string(m.n) + "_linear_order_conditions"); }
// trajectories: grid, first and last point, inputs untouched, global order, accessors
FAMILY(trajectory, 500) {
  auto& r = c.r; const M& m = MS[r.i(0, 8)]; std::string key = m.n; c.in("method", m.n); L E[4] = {0}; int N = (int)r.i(6, 14); if (m.p == 1) N *= 6; else if (m.p == 2) N *= 3; c.in("steps", N); int used = 0;
  for (int b = 0; b < 8; b++) { Sys S; gsys(r, m, S); S.log(c); VD x0 = rnd(r, S.n); double t1 = r.uni(-3, 3), t2 = t1 + (r.coin(.3) ? -1 : 1) * r.uni(.4, 1); c.in("x0", x0); c.in("t", VD{t1, t2}); VL ref; if (!S.flow(t1, toL(x0), t2, ref, 4)) continue; used++; Vector<Real> xi = toV(x0);
    for (int k = 0; k < 4; k++) { int n = N << k; S.tlo = 1e300; S.thi = -1e300; ODESystemFixedStepSolver s(S, *m.s); ODESystemSolution sol = s.integrate(xi, t1, t2, n); for (int i = 0; i < S.n; i++) c.check(xi[i] == x0[i], key + "_initial_state_modified");
      double sl = 1e-13 * (std::fabs(t1) + std::fabs(t2) + 1) * n / 10; c.check(sol.size() == n + 1 && sol.getNumSteps() == n && sol.getSysDim() == S.n && !sol.isEmpty(), key + "_point_count"); c.check(sol.getT1() == t1 && sol.getT2() == t2, key + "_interval"); c.check(sol.getTValue(0) == t1, key + "_first_time"); bool g = true; for (int j = 0; j <= n; j++) g &= std::fabs(sol.getTValue(j) - (t1 + (t2 - t1) * (double)j / n)) <= sl; c.check(g, key + "_time_grid"); for (int i = 0; i < S.n; i++) c.check(sol.getXValue(0, i) == x0[i], key + "_first_state"); c.check(S.tlo >= std::min(t1, t2) - sl && S.thi <= std::max(t1, t2) + sl, key + "_times_outside_interval");
      Vector<Real> xe = sol.getXValuesAtEnd(); L e = diff(xe, ref); E[k] += e; c.check(e < 1, key + "_far_off");
      if (b == 0) { Vector<Real> tv = sol.getTValues(); Matrix<Real> xv = sol.getXValues(); c.check(tv.size() == n + 1 && xv.rows() == S.n && xv.cols() == n + 1, key + "_bulk_shape"); int j = (int)r.i(0, n), i = (int)r.i(0, S.n - 1); Vector<Real> row = sol.getXValues(i); c.check(tv[j] == sol.getTValue(j) && xv[i][j] == sol.getXValue(j, i) && row.size() == n + 1 && row[j] == xv[i][j] && xe[i] == sol.getXValue(n, i), key + "_bulk_values"); c.throws<IndexError>([&] { (void)sol.getTValue(n + 1); }, "solution_bounds"); c.throws<IndexError>([&] { (void)sol.getXValue(-1, 0); }, "solution_bounds"); c.throws<IndexError>([&] { (void)sol.getXValue(0, S.n); }, "solution_bounds"); c.throws<IndexError>([&] { (void)sol.getXValues(-1); }, "solution_bounds");
        if (t2 > t1) { auto li = sol.getSolAsLinInterp(i); c.close(li(sol.getTValue(j)), sol.getXValue(j, i), 1e-12 * 10, "solution_linear_interp_node"); auto sp = sol.getSolAsSplineInterp(i); c.close(sp(sol.getTValue(j)), sol.getXValue(j, i), 1e-12 * 10, "solution_spline_node"); double tm = (sol.getTValue(j ? j - 1 : 0) + sol.getTValue(j ? j : 1)) / 2; c.close(li(tm), (sol.getXValue(j ? j - 1 : 0, i) + sol.getXValue(j ? j : 1, i)) / 2, 1e-11, "solution_linear_interp_mid"); auto pi = sol.getSolAsPolyInterp(i, 3); c.close(pi(sol.getTValue(j)), sol.getXValue(j, i), 1e-11, "solution_poly_node"); if (S.n >= 2) { auto pc = sol.getSolAsParamCurve2D(0, 1); auto p0 = pc(t1), p1 = pc(t2); c.close(p0[0], sol.getXValue(0, 0), 1e-10, "solution_curve_start"); c.close(p1[1], sol.getXValue(n, 1), 1e-10, "solution_curve_end"); } if (S.n >= 3) { auto pc = sol.getSolAsParamCurve3D(0, 1, 2); auto p0 = pc(t1), p1 = pc(t2); c.close(p0[2], sol.getXValue(0, 2), 1e-10, "solution_curve_start"); c.close(p1[0], sol.getXValue(n, 0), 1e-10, "solution_curve_end"); } c.ev("solution_interp"); } } } }
  if (used < 4) { c.trivial(); return; } c.ev("trajectory"); c.ev(std::string(key + "_traj").c_str()); L f = powl(2, -m.p), fl = 4e-14L; c.check(!(E[1] > 1.75L * f * E[0] + fl && E[2] > 1.75L * f * E[1] + fl && E[3] > 1.75L * f * E[2] + fl), key + "_global_order", [&] { char b[120]; snprintf(b, 120, "N: %Lg 2N: %Lg 4N: %Lg", E[0], E[1], E[2]); return std::string(b); }); }
// structure preservation: time reversibility, the modified harmonic energy, angular momentum of central forces, bounded energy
FAMILY(symplectic, 600) {
  auto& r = c.r; const M& m = MS[r.i(2, 3)]; std::string key = m.n; c.in("method", m.n); int kind = (int)r.i(0, 2); c.in("kind", kind);
  if (kind == 0) { Sys S; S.gen2(r, (int)r.i(1, 3), true, false); S.log(c); VD x0 = rnd(r, S.n); c.in("x0", x0); double T = r.uni(.3, 1.5); int N = (int)r.i(5, 60); VL ref; if (!S.flow(0, toL(x0), T, ref, 4)) { c.trivial(); return; } ODESystemFixedStepSolver s(S, *m.s); auto a = s.integrate(toV(x0), 0, T, N); auto b = s.integrate(a.getXValuesAtEnd(), T, 0, N); c.ev("reversible"); c.check(diff(b.getXValuesAtEnd(), toL(x0)) < 1e-10L, key + "_not_time_reversible"); }
  else if (kind == 1) { double w = r.uni(.2, 3), h = r.uni(.02, 1.2) / w, x0 = r.uni(-2, 2), v0 = r.uni(-2, 2); int N = (int)r.i(50, 800); c.in("osc", VD{w, h, x0, v0, (double)N}); ODESystemFromStdFunc S(2, [&](Real, const Vector<Real>& x, Vector<Real>& d) { d[0] = x[1]; d[1] = -w * w * x[0]; }); ODESystemFixedStepSolver s(S, *m.s); auto a = s.integrate(toV({x0, v0}), 0, h * N, N); L h2 = 1 - (L)(w * h) * (w * h) / 4, E0 = (L)v0 * v0 + (L)w * w * x0 * x0 * h2; c.ev("oscillator"); bool ok = true; for (int k = 0; k <= N; k++) { L x = a.getXValue(k, 0), v = a.getXValue(k, 1); if (fabsl(v * v + (L)w * w * x * x * h2 - E0) > 1e-11L * (E0 + 1e-3L)) ok = false; } c.check(ok, key + "_modified_energy_not_conserved"); }
  else { double k = r.uni(.3, 2), pw = r.uni(-1, 2); VD x0 = {r.uni(.6, 1.5), r.uni(-.3, .3), r.uni(-.3, .3), r.uni(-.3, .3), r.uni(.5, 1.2), r.uni(-.3, .3)}; c.in("x0", x0); c.in("force", VD{k, pw}); ODESystemFromStdFunc S(6, [&](Real, const Vector<Real>& x, Vector<Real>& d) { double rr = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), g = -k * std::pow(rr, -pw - 1); for (int i = 0; i < 3; i++) { d[i] = x[3 + i]; d[3 + i] = g * x[i]; } }); int N = (int)r.i(50, 400); double h = r.uni(.005, .03); ODESystemFixedStepSolver s(S, *m.s); auto a = s.integrate(toV(x0), 0, h * N, N); auto am = [&](int q, int i) { auto X = [&](int j) { return (L)a.getXValue(q, j); }; int u = (i + 1) % 3, v = (i + 2) % 3; return X(u) * X(3 + v) - X(v) * X(3 + u); }; c.ev("central"); bool ok = true; for (int q = 0; q <= N; q++) for (int i = 0; i < 3; i++) if (!(fabsl(am(q, i) - am(0, i)) < 1e-11L * 10)) ok = false; c.check(ok, key + "_angular_momentum_not_conserved"); } }
// hostile arguments and the solution container driven as a growable log
FAMILY(container, 500) {
  auto& r = c.r; int dim = (int)r.i(1, 5), cap = (int)r.i(0, 20); ODESystemSolution s(0, 1, dim, cap); c.in("dim", dim); c.in("cap", cap); std::map<int, VD> x; std::map<int, double> t; int top = -1; int ops = (int)r.i(1, 40); VD log; c.check(s.isEmpty() && s.size() == 0 && s.getNumSteps() == 0, "new_not_empty"); c.throws<IndexError>([&] { (void)s.getXValuesAtEnd(); }, "empty_end"); int next = 0, ok = 0, bad = 0;
  for (int o = 0; o < ops; o++) { int k = (int)r.i(0, 7); int ind = r.coin(.7) ? next : (int)r.i(0, r.coin(.1) ? 400 : 2 * cap + 10); log.push_back(k); log.push_back(ind); switch (k) { case 0: case 1: case 2: { VD v = rnd(r, dim); double tt = r.uni(-1, 1); c.nothrow([&] { s.fillValues(ind, tt, toV(v)); }, "fill"); x[ind] = v; t[ind] = tt; top = std::max(top, ind); next = top + 1; break; } case 3: { double tt = r.uni(-1, 1); s.setTVal(ind, tt); t[ind] = tt; top = std::max(top, ind); next = top + 1; break; } case 4: { int q = (int)r.i(0, dim - 1); double v = r.uni(-1, 1); s.setXVal(ind, q, v); if (!x.count(ind)) x[ind] = VD(dim, NAN); x[ind][q] = v; top = std::max(top, ind); next = top + 1; break; } case 5: s.reserve((int)r.i(0, 60)); break; case 6: if (r.coin(.5)) { s.incrementSuccessfulSteps(); ok++; } else { s.incrementRejectedSteps(); bad++; } break; default: c.throws<IndexError>([&] { s.fillValues(-1, 0, toV(VD(dim))); }, "fill_negative"); c.throws<ArgumentError>([&] { s.fillValues(0, 0, toV(VD(dim + 1))); }, "fill_wrong_size"); c.throws<IndexError>([&] { s.setTVal(-1, 0); }, "settval_negative"); c.throws<IndexError>([&] { s.setXVal(0, dim, 0); }, "setxval_component"); c.throws<IndexError>([&] { s.setXVal(-2, 0, 0); }, "setxval_negative"); }
    c.check(s.size() == top + 1 && s.capacity() >= s.size() && s.isEmpty() == (top < 0) && s.getNumStepsOK() == ok && s.getNumStepsBad() == bad && s.getTotalNumSteps() == ok + bad, "container_counts"); }
  c.in("ops", log); c.ev("container"); auto verify = [&](const char* k) { for (auto& kv : t) if (kv.first < s.size()) c.check(s.getTValue(kv.first) == kv.second, std::string(k) + "_time"); for (auto& kv : x) if (kv.first < s.size()) for (int i = 0; i < dim; i++) if (!std::isnan(kv.second[i])) c.check(s.getXValue(kv.first, i) == kv.second[i], std::string(k) + "_state"); }; verify("container"); c.throws<IndexError>([&] { (void)s.getTValue(s.size()); }, "container_read_past_end"); if (top >= 1) { int n = (int)r.i(0, top); s.setFinalSize(n); c.check(s.size() == n + 1 && s.getTValues().size() == n + 1 && s.getXValues().cols() == n + 1, "final_size"); verify("final_size"); } }
FAMILY(bad_arguments, 200) { auto& r = c.r; const M& m = MS[r.i(0, 8)]; c.in("method", m.n); Sys S; gsys(r, m, S); int wrong = S.n + (int)r.i(1, 3); ODESystemFixedStepSolver s(S, *m.s); c.throws<MMLException>([&] { s.integrate(toV(VD(wrong, .1)), 0, 1, 5); }, "initial_state_dimension"); auto z = s.integrate(toV(VD(S.n, .1)), 0, 1, 0); c.check(z.size() == 1 && z.getTValue(0) == 0, "zero_steps"); auto e = s.integrate(toV(VD(S.n, .1)), 1, 1, 4); bool same = true; for (int k = 0; k <= 4; k++) for (int i = 0; i < S.n; i++) same &= e.getXValue(k, i) == .1; c.check(same, "empty_interval_moves"); ODESystem nul; Vector<Real> x(0), d(0); c.throws<std::runtime_error>([&] { nul.derivs(0, x, d); }, "null_system"); c.ev("bad_arguments"); }
MON_MAIN()
