// C16: adaptive ODE integration: error versus tolerance, time axis, limits, statistics, failure reporting
#include "ode.h"
#include "mml/base/ODESystem.h"
#include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
using namespace MML; using namespace ode;
static const char* NM[5] = {"dormand_prince5", "cash_karp", "dormand_prince8", "bulirsch_stoer", "bulirsch_stoer_rational"};
template <class F> static void disp(int k, F f) { switch (k) { case 0: f((DormandPrince5_Stepper*)0); break; case 1: f((CashKarp_Stepper*)0); break; case 2: f((DormandPrince8_Stepper*)0); break; case 3: f((BulirschStoer_Stepper*)0); break; default: f((BulirschStoerRational_Stepper*)0); } }
// a random problem with its reference trajectory on a fine grid, an error-amplification estimate and a bound on the fourth derivative
struct Prob { Sys S; VD x0; double t0, t1; std::vector<VL> tr; std::vector<L> tt; L G = 1, M4 = 0, X = 1; int N = 24;
  bool gen(mon::Rng& r, double tmax = 2.5) { int d = (int)r.sz(1, 4, 20, .025); if (d < 5 && r.coin(.3)) S.gen2(r, (int)r.i(1, 2)); else S.gen(r, d, .8 / std::sqrt((double)d)); x0 = rnd(r, S.n); if (r.coin(.2)) x0[0] = 0; t0 = r.uni(-3, 3); t1 = t0 + r.uni(.3, tmax); VL x = toL(x0); tr = {x}; tt = {t0};
    for (int k = 0; k < N; k++) { L a = (L)t0 + ((L)t1 - t0) * k / N, b = (L)t0 + ((L)t1 - t0) * (k + 1) / N; auto s = S.series(a, x, 5); for (auto& v : s) M4 = std::max(M4, 24 * fabsl(v[4])); VL y; if (!S.flow(a, x, b, y, 4, .06L)) return false; x = y; tr.push_back(x); tt.push_back(b); for (auto v : x) X = std::max(X, fabsl(v)); }
    for (int k = 0; k < N; k += 6) for (int j = 0; j < S.n; j++) { VL p = tr[k]; p[j] += 1e-7L; for (int q = k; q < N; q += 4) { VL y; if (!S.flow(tt[q], p, tt[std::min(N, q + 4)], y, 8, .12L)) return false; p = y; L m = 0; for (int i = 0; i < S.n; i++) m = std::max(m, fabsl(p[i] - tr[std::min(N, q + 4)][i])); G = std::max(G, m / 1e-7L); } } return G < 300; }
  bool at(double t, VL& y) const { int k = 0; while (k < N && tt[k + 1] <= t) k++; return S.flow(tt[k], tr[k], t, y, 8, .06L); }
  void log(mon::Case& c) const { S.log(c); c.in("x0", x0); c.in("t", VD{t0, t1}); c.in("growth", (double)G); } };
static double tol(mon::Rng& r) { return std::pow(10, -r.uni(4, 10.5)); }
// whole integrations over a grid of output times: batches, so that a local error estimate that happens to vanish in one problem does not matter
template <class St> static void global(mon::Case& c, const std::string& key) { auto& r = c.r; VD ratios, dens;
  for (int b = 0; b < 6; b++) { Prob P; if (!P.gen(r)) continue; P.log(c); double eps = tol(r), T = P.t1 - P.t0; int nd = (int)r.i(1, 30); double iv = r.coin(.5) ? T / nd : (r.coin(.15) ? T * r.uni(1.01, 5) : T / r.uni(1, 40)); double h0 = r.coin(.6) ? 0 : T * std::pow(10, r.uni(-5, .5)); c.in("eps", eps); c.in("interval", iv); c.in("h0", h0); Vector<Real> xi = toV(P.x0); P.S.calls = 0; P.S.tlo = 1e300; P.S.thi = -1e300; P.S.rec = true; P.S.ts.clear();
    ODEAdaptiveIntegrator<St> in(P.S); ODESystemSolution sol(0, 1, 1, 0); if (!c.nothrow([&] { sol = in.integrate(xi, P.t0, P.t1, iv, eps, h0); }, (key + "_failed").c_str())) continue; auto& st = in.getStatistics(); c.ev("global");
    for (int i = 0; i < P.S.n; i++) c.check(xi[i] == P.x0[i], key + "_initial_state_modified");
    double q = T / iv; long want = (long)std::ceil(q - 1e-9 * q) + 1; int n = sol.size(); c.check(n == want && sol.getTValues().size() == n, key + "_point_count", [&] { return "got " + std::to_string(n) + " want " + std::to_string(want); }); c.check(sol.getTValue(0) == P.t0, key + "_first_time"); c.check(sol.getTValue(n - 1) == P.t1, key + "_last_time"); bool mono = true, grid = true; for (int k = 0; k < n; k++) { if (k && !(sol.getTValue(k) > sol.getTValue(k - 1))) mono = false; if (k < n - 1 && std::fabs(sol.getTValue(k) - (P.t0 + k * iv)) > 1e-13 * (1 + std::fabs(P.t0) + T)) grid = false; } c.check(mono, key + "_times_not_increasing"); c.check(grid, key + "_times_off_grid"); for (int i = 0; i < P.S.n; i++) c.check(sol.getXValue(0, i) == P.x0[i], key + "_first_state");
    double sl = 1e-13 * (std::fabs(P.t0) + std::fabs(P.t1)); c.check(P.S.tlo >= P.t0 - sl && P.S.thi <= P.t1 + sl, key + "_evaluated_outside_interval"); c.check(st.totalFuncEvals == P.S.calls, key + "_evaluation_count", [&] { return "reported " + std::to_string(st.totalFuncEvals) + " observed " + std::to_string(P.S.calls); });
    c.check(st.acceptedSteps >= 1 && st.rejectedSteps >= 0 && st.status == AlgorithmStatus::Success && st.minStepSize > 0 && st.minStepSize <= st.maxStepSize * (1 + 1e-12) && st.maxStepSize <= T * (1 + 1e-12) && st.acceptedSteps * st.maxStepSize >= T * (1 - 1e-9) && st.acceptedSteps * st.minStepSize <= T * (1 + 1e-9), key + "_step_statistics"); if (st.rejectedSteps) c.ev("rejections");
    L e = 0; for (int i = 0; i < P.S.n; i++) e = std::max(e, fabsl(sol.getXValue(n - 1, i) - P.tr[P.N][i])); L floor_ = 4e-15L * st.acceptedSteps * P.X * P.G * (P.S.n + 4) + 4e-16L * P.S.n * std::sqrt((double)P.S.calls), ref = eps * P.X * P.G * (st.acceptedSteps + 2); c.maxi((key + " end error/(eps*steps*growth)").c_str(), (double)((e > floor_ ? e - floor_ : 0) / ref)); c.check(e <= 60 * ref + floor_, key + "_error_far_above_tolerance", [&] { char z[120]; snprintf(z, 120, "err %Lg eps %g steps %d growth %Lg", e, eps, st.acceptedSteps, P.G); return std::string(z); }); ratios.push_back((double)((e > floor_ ? e - floor_ : 0) / ref));
    L hb = st.maxStepSize, dense = powl(hb, 4) / 384 * P.M4 * 3; for (int k = 1; k < n - 1; k++) if (n < 12 || r.coin(8.0 / n)) { VL y; if (!P.at(sol.getTValue(k), y)) continue; L d = 0; for (int i = 0; i < P.S.n; i++) d = std::max(d, fabsl(sol.getXValue(k, i) - y[i])); c.maxi((key + " dense").c_str(), (double)(d / (dense + 60 * ref + floor_))); c.check(d <= dense * 2 + 60 * ref + floor_, key + "_dense_output_off", [&] { char z[120]; snprintf(z, 120, "err %Lg hermite %Lg tol %Lg", d, dense, ref); return std::string(z); }); c.ev("dense"); } }
  if (ratios.size() >= 4) { std::sort(ratios.begin(), ratios.end()); double med = ratios[ratios.size() / 2]; c.maxi((key + " median").c_str(), med); c.check(med <= (key[0] == 98 ? 5 : 1), key + "_error_above_tolerance", [&] { return "median error/(eps*steps*growth) " + std::to_string(med); }); } }
FAMILY(global_error, 200) { int k = (int)c.r.i(0, 4); c.in("stepper", NM[k]); c.ev(NM[k]); disp(k, [&](auto* s) { global<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// user-chosen output times: exactly those times, full accuracy at each, any spacing
template <class St> static void at(mon::Case& c, const std::string& key) { auto& r = c.r; Prob P; if (!P.gen(r)) { c.trivial(); return; } P.log(c); double eps = tol(r); int n = (int)r.i(2, 25); std::vector<double> ts = {P.t0, P.t1}; while ((int)ts.size() < n) ts.push_back(r.coin(.15) ? ts[r.i(0, ts.size() - 1)] + r.pick({1e-9, 1e-6, 1e-4, 1e-12}) : r.uni(P.t0, P.t1)); std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end()); while (ts.back() > P.t1) ts.pop_back(); n = ts.size(); c.in("times", ts); c.in("eps", eps); double h0 = r.coin(.6) ? 0 : r.logmag(-5, .5); P.S.calls = 0;
  ODEAdaptiveIntegrator<St> in(P.S); ODESystemSolution sol(0, 1, 1, 0); if (!c.nothrow([&] { sol = in.integrateAt(toV(P.x0), toV(ts), eps, h0, r.coin(.5) ? 1e-15 : 1e-10); }, (key + "_at_failed").c_str())) return; auto& st = in.getStatistics(); c.check(sol.size() == n, key + "_at_point_count"); bool ok = true; for (int k = 0; k < n; k++) ok &= sol.getTValue(k) == ts[k]; c.check(ok, key + "_at_times"); c.check(st.totalFuncEvals == P.S.calls, key + "_at_evaluation_count"); c.ev("at_times"); for (int k = 0; k < n; k++) { VL y; if (!P.at(ts[k], y)) continue; L e = 0; for (int i = 0; i < P.S.n; i++) e = std::max(e, fabsl(sol.getXValue(k, i) - y[i])); L floor_ = 1e-14L * st.acceptedSteps * P.X * P.G * (P.S.n + 4), ref = eps * P.X * P.G * (st.acceptedSteps + 2); c.maxi((key + " at").c_str(), (double)((e > floor_ ? e - floor_ : 0) / ref)); c.check(e <= 60 * ref + floor_, key + "_at_error"); } }
FAMILY(at_times, 400) { int k = (int)c.r.i(0, 4); c.in("stepper", NM[k]); disp(k, [&](auto* s) { at<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// the steppers by themselves, forwards and backwards
template <class St> static void steps(mon::Case& c, const std::string& key) { auto& r = c.r; Prob P; if (!P.gen(r, 1)) { c.trivial(); return; } P.log(c); St s(P.S); c.throws<ODESolverError>([&] { (void)s.interpolate(0); }, (key + "_interpolate_before_step").c_str()); double eps = tol(r), t = P.t0, sg = r.coin(.7) ? 1 : -1; Vector<Real> x = toV(P.x0), d(P.S.n); P.S.derivs(t, x, d); double h = sg * std::pow(10, r.uni(-3, -.3)); c.in("eps", eps); c.in("h", h); int N = (int)r.i(1, 6); s.resetFSAL();
  for (int q = 0; q < N; q++) { Vector<Real> xo = x, dold = d; P.S.calls = 0; StepResult R; try { R = s.doStep(t, x, d, h, eps); } catch (const ODESolverError& e) { c.fail(key + "_step_threw", e.what()); return; } c.check(R.funcEvals == P.S.calls, key + "_step_evaluations"); if (!R.accepted) { bool same = true; for (int i = 0; i < P.S.n; i++) same &= x[i] == xo[i] && d[i] == dold[i]; c.check(same, key + "_rejected_step_moved"); c.check(std::fabs(R.hNext) < std::fabs(h) && R.hNext * sg > 0, key + "_rejected_step_size"); h = R.hNext; c.ev("stepper_reject"); continue; }
    c.ev("stepper_step"); c.check(R.hDone * sg > 0 && std::fabs(R.hDone) <= std::fabs(h) * (1 + 1e-15), key + "_step_longer_than_asked"); c.check(R.hNext * sg > 0 && std::isfinite(R.hNext) && R.errMax >= 0 && R.errMax <= 1, key + "_step_result"); VL y; VL xl(P.S.n); for (int i = 0; i < P.S.n; i++) xl[i] = xo[i]; if (!P.S.flow(t, xl, (L)t + R.hDone, y, 30, .06L)) return; L mg = 1e-30L; L e = 0; for (int i = 0; i < P.S.n; i++) { mg = std::max({mg, fabsl((L)xo[i]) + fabsl((L)R.hDone * dold[i]), fabsl(y[i])}); e = std::max(e, fabsl(x[i] - y[i])); } c.maxi((key + " local").c_str(), (double)(e / (eps * mg + 2e-15L * mg))); c.check(e <= 60 * eps * mg + 2e-14L * (1 + mg), key + "_local_error");
    Vector<Real> f(P.S.n); double tn = t + R.hDone; P.S.derivs(tn, x, f); bool dv = true; for (int i = 0; i < P.S.n; i++) dv &= std::fabs(f[i] - d[i]) <= 1e-13 * (1 + std::fabs(f[i])) && s.getFinalDeriv()[i] == d[i]; c.check(dv, key + "_final_derivative");
    auto close = [&](const Vector<Real>& a, const Vector<Real>& b, L tl) { L m = 0; for (int i = 0; i < P.S.n; i++) m = std::max(m, fabsl((L)a[i] - b[i])); return m <= tl; }; c.check(close(s.interpolate(t), xo, 1e-12L * (1 + mg)), key + "_interpolate_start"); c.check(close(s.interpolate(tn), x, 1e-12L * (1 + mg) * (1 + (std::fabs(t) + 1) * 1e-3 / std::fabs(R.hDone))), key + "_interpolate_end"); double th = r.u01(), tm = t + th * R.hDone; VL ym; if (P.S.flow(t, xl, tm, ym, 30, .06L)) { auto se = P.S.series(t, xl, 8); L m4 = 0; for (auto& v : se) { L w = 0, hp = 1; for (int k = 4; k <= 8; k++) { w += fabsl(v[k]) * k * (k - 1) * (k - 2) * (k - 3) * hp; hp *= fabsl((L)R.hDone); } m4 = std::max(m4, w); } if (std::fabs(R.hDone) < .4) { L b = powl(fabsl((L)R.hDone), 4) / 384 * m4 * 3 + 60 * eps * mg + 1e-12L * (1 + mg) * (1 + (std::fabs(t) + 1) * 1e-3 / std::fabs(R.hDone)); L m = diff(s.interpolate(tm), ym); c.maxi((key + " interp").c_str(), (double)(m / b)); c.check(m <= b, key + "_interpolate_inside"); c.ev("stepper_interp"); } }
    for (int i = 0; i < P.S.n; i++) if (std::fabs(x[i]) > 5) return; t = tn; h = R.hNext; if (std::fabs(h) > .6) h = sg * .6; } 
  c.check(s.order() >= 5 && s.stageCount() >= 6, key + "_metadata"); }
FAMILY(stepper, 700) { int k = (int)c.r.i(0, 4); c.in("stepper", NM[k]); disp(k, [&](auto* s) { steps<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// configuration: step limits, defaults and the status-reporting front end
template <class St> static void config(mon::Case& c, const std::string& key) { auto& r = c.r; Prob P; if (!P.gen(r)) { c.trivial(); return; } P.log(c); ODEAdaptiveConfig cf; auto& g = cf.integrator; double T = P.t1 - P.t0; g.tolerance = tol(r); int kind = (int)r.i(0, 3); c.in("kind", kind); c.in("tol", g.tolerance); if (r.coin(.4)) g.output_interval = T / r.uni(2, 20); if (kind == 1) g.max_step_size = T / r.uni(5, 80); if (kind == 2) g.max_steps = (int)r.i(1, 6); if (kind == 3) g.initial_step_size = T * r.uni(1e-6, 2); cf.exception_policy = r.coin(.5) ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus;
  ODEAdaptiveIntegrator<St> in(P.S); P.S.calls = 0; ODESystemSolution sol(0, 1, 1, 0); if (!c.nothrow([&] { sol = in.integrate(toV(P.x0), P.t0, P.t1, g); }, (key + "_config_failed").c_str())) return; auto& st = in.getStatistics(); long calls = P.S.calls; c.ev("config"); int full = (int)std::ceil(g.output_interval > 0 ? T / g.output_interval - 1e-9 : 100) + 1; bool cut = st.status != AlgorithmStatus::Success;
  if (cut) { c.check(kind == 2 && st.status == AlgorithmStatus::MaxIterationsExceeded && !st.error_message.empty(), key + "_config_status"); c.ev("max_steps_hit"); c.check(sol.size() < full, key + "_stopped_but_complete"); } else c.check(sol.size() == full && sol.getTValue(full - 1) == P.t1, key + "_config_points"); c.check(st.acceptedSteps <= g.max_steps, key + "_max_steps_exceeded"); c.check(sol.getTValues().size() == sol.size() && sol.size() >= 1, key + "_bulk_size"); if (kind == 1) { c.ev("max_step"); c.check(st.maxStepSize <= g.max_step_size * (1 + 1e-12), key + "_max_step_exceeded"); }
  for (int k = 0; k < sol.size(); k++) { VL y; if (!P.at(sol.getTValue(k), y)) continue; L e = 0; for (int i = 0; i < P.S.n; i++) e = std::max(e, fabsl(sol.getXValue(k, i) - y[i])); c.check(e <= 60 * g.tolerance * P.X * P.G * (st.acceptedSteps + 2) + powl(st.maxStepSize, 4) / 384 * P.M4 * 6 + 1e-12L * P.G * P.X, key + "_config_values"); }
  P.S.calls = 0; auto R = ODEAdaptiveIntegrateDetailed<St>(P.S, toV(P.x0), P.t0, P.t1, cf); c.check(R.IsSuccess() == !cut && R.status == st.status && R.error_message.empty() == !cut, key + "_detailed_status"); c.check(R.solution.has_value(), key + "_detailed_solution"); if (R.solution) { bool same = R.solution->size() == sol.size(); if (same) for (int k = 0; k < sol.size(); k++) for (int i = 0; i < P.S.n; i++) same &= R.solution->getXValue(k, i) == sol.getXValue(k, i) && R.solution->getTValue(k) == sol.getTValue(k); c.check(same, key + "_detailed_differs"); } c.check(R.accepted_steps == st.acceptedSteps && R.rejected_steps == st.rejectedSteps && R.total_func_evals == P.S.calls && R.function_evaluations == P.S.calls && calls == P.S.calls && R.min_step_size == st.minStepSize && R.max_step_size == st.maxStepSize, key + "_detailed_counts");
  // the same integrator object can be used again and gives the same answer
  auto again = in.integrate(toV(P.x0), P.t0, P.t1, g); bool same = again.size() == sol.size(); for (int k = 0; same && k < sol.size(); k++) for (int i = 0; i < P.S.n; i++) same &= again.getXValue(k, i) == sol.getXValue(k, i); c.check(same, key + "_reuse_differs"); // statistics of a run belong to that run only
  if (T > 1e-6) { double te = P.t0 + T * .03; ODEAdaptiveIntegrator<St> fresh(P.S); auto s1 = fresh.integrate(toV(P.x0), P.t0, te, T * .01, g.tolerance); auto s2 = in.integrate(toV(P.x0), P.t0, te, T * .01, g.tolerance); auto &u = fresh.getStatistics(), &w = in.getStatistics(); c.check(u.acceptedSteps == w.acceptedSteps && u.rejectedSteps == w.rejectedSteps && u.totalFuncEvals == w.totalFuncEvals && u.minStepSize == w.minStepSize && u.maxStepSize == w.maxStepSize && u.status == w.status && u.error_message == w.error_message, key + "_reuse_statistics"); c.ev("reused"); } }
FAMILY(config, 500) { int k = (int)c.r.i(0, 4); c.in("stepper", NM[k]); disp(k, [&](auto* s) { config<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// failures are reported: blow-up, NaN right-hand sides, nonsense arguments
template <class St> static void fails(mon::Case& c, const std::string& key) { auto& r = c.r; int kind = (int)r.i(0, 5); c.in("kind", kind); double a = r.uni(.3, 2), tb = r.uni(.2, 1.5); c.in("a", a); c.in("tb", tb); int n = (int)r.sz(1, 3, 24); int bad = (int)r.i(0, n - 1); long calls = 0; double big = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY});
  ODESystemFromStdFunc S(n, [&, kind](Real t, const Vector<Real>& x, Vector<Real>& d) { calls++; for (int i = 0; i < n; i++) d[i] = -x[i] * .5; switch (kind) { case 0: d[bad] = a * x[bad] * x[bad]; break; case 1: if (t > tb) d[bad] = big; break; case 2: d[bad] = big; break; case 3: d[bad] = x[bad] < 1 + tb ? 1 : NAN; break; default: break; } }); ODEAdaptiveIntegrator<St> in(S); Vector<Real> x0(n); for (int i = 0; i < n; i++) x0[i] = r.uni(.6, 1); double pole = 1 / (a * x0[bad]); double T = kind == 0 ? pole * r.uni(1.1, 3) : 4; double eps = tol(r); c.in("eps", eps); c.in("T", T);
  if (kind <= 3) { c.ev("failing_rhs"); c.throws<ODESolverError>([&] { auto s = in.integrate(x0, 0, T, T / 10, eps); }, (key + "_failure_not_reported").c_str()); c.throws<ODESolverError>([&] { auto s = in.integrateAt(x0, toV({0, T / 2, T}), eps); }, (key + "_at_failure_not_reported").c_str()); ODEAdaptiveConfig cf; cf.integrator.tolerance = eps; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto R = ODEAdaptiveIntegrateDetailed<St>(S, x0, 0, T, cf); c.check(!R.IsSuccess() && !R.error_message.empty() && !R.solution.has_value(), key + "_detailed_failure_not_reported"); cf.exception_policy = EvaluationExceptionPolicy::Propagate; c.throws<ODESolverError>([&] { (void)ODEAdaptiveIntegrateDetailed<St>(S, x0, 0, T, cf); }, (key + "_detailed_policy").c_str()); }
  else { c.ev("bad_arguments"); c.throws<ODESolverError>([&] { (void)in.integrate(x0, 0, 1, r.pick({0.0, -.1, (double)NAN})); }, (key + "_bad_interval").c_str()); c.throws<ODESolverError>([&] { (void)in.integrate(x0, 1, r.uni(-1, .99), .1); }, (key + "_end_before_start").c_str()); c.throws<ODESolverError>([&] { (void)in.integrate(x0, 0, r.pick({(double)NAN, (double)INFINITY}), .1); }, (key + "_end_not_finite").c_str()); c.throws<ODESolverError>([&] { (void)in.integrateAt(x0, toV({0})); }, (key + "_at_one_time").c_str()); c.throws<ODESolverError>([&] { (void)in.integrateAt(x0, toV({0, .5, .4, 1})); }, (key + "_at_unsorted").c_str()); c.throws<MMLException>([&] { (void)in.integrate(Vector<Real>(n + 1), 0, 1, .1); }, (key + "_dimension").c_str()); c.throws<MMLException>([&] { (void)in.integrate(Vector<Real>(n - 1), 0, 1, .1); }, (key + "_dimension").c_str()); c.throws<MMLException>([&] { (void)in.integrateAt(Vector<Real>(n - 1), toV({0, 1})); }, (key + "_dimension").c_str()); auto s = in.integrate(x0, 1, 1, .1); bool ok = s.size() == 1 && s.getTValue(0) == 1; for (int i = 0; ok && i < n; i++) ok = s.getXValue(0, i) == x0[i]; c.check(ok, key + "_empty_interval"); ODEIntegratorConfig cf; auto s2 = in.integrate(x0, 2, 2, cf); c.check(s2.size() >= 1 && s2.getTValue(0) == 2, key + "_empty_interval_config"); }
  c.check(calls < 4000000, key + "_runaway"); }
FAMILY(failures, 250) { int k = (int)c.r.i(0, 4); c.in("stepper", NM[k]); disp(k, [&](auto* s) { fails<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// Kepler orbits of any eccentricity: the step size must follow the motion; state from Kepler's equation
template <class St> static void kepler(mon::Case& c, const std::string& key) { auto& r = c.r; double e = r.uni(0, .9), T = 2 * M_PI * r.uni(.3, 2.2), eps = std::pow(10, -r.uni(6, 10)); c.in("ecc", e); c.in("T", T); c.in("eps", eps); ODESystemFromStdFunc S(4, [](Real, const Vector<Real>& x, Vector<Real>& d) { double q = x[0] * x[0] + x[1] * x[1], g = -1 / (q * std::sqrt(q)); d[0] = x[2]; d[1] = x[3]; d[2] = g * x[0]; d[3] = g * x[1]; }); auto ex = [&](L t) { L E = t; for (int k = 0; k < 200; k++) E -= (E - e * sinl(E) - t) / (1 - e * cosl(E)) * (k < 60 ? .7L : 1); L f = sqrtl(1 - (L)e * e), D = 1 - e * cosl(E); return VL{cosl(E) - e, f * sinl(E), -sinl(E) / D, f * cosl(E) / D}; }; VL i0 = ex(0); ODEAdaptiveIntegrator<St> in(S); auto sol = in.integrateAt(toV({(double)i0[0], 0, 0, (double)i0[3]}), toV({0, T / 3, T}), eps); auto& st = in.getStatistics(); c.ev("kepler"); L w = 0; for (int k = 1; k < 3; k++) w = std::max(w, diff(Vector<Real>({sol.getXValue(k, 0), sol.getXValue(k, 1), sol.getXValue(k, 2), sol.getXValue(k, 3)}), ex(sol.getTValue(k)))); L g = 30 * (1 + T) / powl(1 - e, 3.5L); c.maxi((key + " kepler").c_str(), (double)(w / (eps * st.acceptedSteps * g + 1e-13L * g))); c.check(w <= eps * st.acceptedSteps * g * 3 + 1e-13L * g, key + "_kepler_error"); }
FAMILY(kepler_orbit, 150) { int k = (int)c.r.i(0, 4); c.in("stepper", NM[k]); disp(k, [&](auto* s) { kepler<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
MON_MAIN()
