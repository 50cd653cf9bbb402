// C13: one-dimensional quadrature against closed-form integrals, with recorded evaluation points
#include "mon.h"
#include <limits>
#include "mml/base/Function.h"
#include "mml/core/Integration/Integration1D.h"
#include "mml/core/Integration/GaussKronrod.h"
#include "mml/core/Integration/GaussianQuadrature.h"
#include "mml/core/Integration/IntegrationImproper.h"
#include "mml/core/SingularityHandling.h"
using namespace MML;
typedef long double L; typedef std::vector<double> VD;
static const L EPS = 2.3e-16L;
static const double NaN_ = std::numeric_limits<double>::quiet_NaN(), Inf_ = std::numeric_limits<double>::infinity();
// smooth integrand with a closed-form antiderivative, in the local variable s=(x-m)/q of the interval
struct Fn { struct T { int k; L a, w, p; }; std::vector<T> t; L m = 0, q = 1;
  void gen(mon::Rng& r, double a, double b, double freq) { m = ((L)a + b) / 2; q = std::max((L)std::fabs(b - a) / 2, 1e-300L); if (a == b) q = 1; int n = (int)r.i(1, 4); double s = r.logmag(-6, 6); for (int i = 0; i < n; i++) { T v; v.k = (int)r.i(0, 4); v.a = s * r.uni(-2, 2); v.p = r.uni(-1, 1); switch (v.k) { case 0: v.w = r.i(0, 5); break; case 1: v.w = r.uni(0, freq); break; case 2: v.w = r.uni(-3, 3); break; case 3: v.w = r.uni(3 / (1 + freq / 2), 4); break; default: v.w = r.uni(.5, 3); } t.push_back(v); } }
  L val(L x) const { L s = (x - m) / q, y = 0; for (auto& v : t) switch (v.k) { case 0: y += v.a * powl(s, v.w); break; case 1: y += v.a * cosl(v.w * s + v.p); break; case 2: y += v.a * expl(v.w * s); break; case 3: { L u = (s - v.p) / v.w; y += v.a / (1 + u * u); break; } default: y += v.a * s * expl(-v.w * s); } return y; }
  L anti(L x) const { L s = (x - m) / q, y = 0; for (auto& v : t) switch (v.k) { case 0: y += v.a * powl(s, v.w + 1) / (v.w + 1); break; case 1: y += v.w == 0 ? v.a * cosl(v.p) * s : v.a * sinl(v.w * s + v.p) / v.w; break; case 2: y += fabsl(v.w) < 1e-12L ? v.a * s : v.a * expm1l(v.w * s) / v.w; break; case 3: y += v.a * v.w * atanl((s - v.p) / v.w); break; default: y += -v.a * expl(-v.w * s) * (s / v.w + 1 / (v.w * v.w)); } return y * q; }
  L mag() const { L y = 0; for (auto& v : t) y += fabsl(v.a) * (v.k == 2 || v.k == 4 ? expl(fabsl(v.w)) : 1); return y; } };
struct Rec : IRealFunction { const Fn& f; mutable VD xs; Rec(const Fn& f) : f(f) {} Real operator()(Real x) const override { xs.push_back(x); return (double)f.val(x); } };
struct LF : IRealFunction { std::function<L(L)> f; mutable long n = 0; mutable double lo = Inf_, hi = -Inf_; template<class F> LF(F g) : f(g) {} Real operator()(Real x) const override { n++; lo = std::min(lo, x); hi = std::max(hi, x); return (double)f((L)x); } };
static void inside(mon::Case& c, const VD& xs, double a, double b, bool open, const std::string& key) { double lo = std::min(a, b), hi = std::max(a, b); L sl = 8 * EPS * std::max(std::fabs(a), std::fabs(b)) * (1 + xs.size() / 50.); for (double x : xs) if (!((L)x >= lo - sl && (L)x <= hi + sl) || (open && lo < hi && hi - lo > 1e-9 * std::fabs(hi + lo) && (x <= lo || x >= hi))) { c.fail(key, "evaluated at " + std::to_string(x)); return; } }
static void genAB(mon::Case& c, double& a, double& b) { auto& r = c.r; double s = r.coin(.8) ? 1 : r.logmag(-6, 6); a = s * (r.coin(.3) ? (double)r.i(-5, 5) : r.uni(-5, 5)); b = r.coin(.03) ? a : a + s * (r.coin(.3) ? (double)r.i(-5, 5) : r.uni(-6, 6)); c.in("a", a); c.in("b", b); }
#if PART == 1
FAMILY(adaptive, 2500) {
  auto& r = c.r; double a, b; genAB(c, a, b); int m = (int)r.i(0, 3); Fn f; f.gen(r, a, b, m == 2 ? 3 : 6); double eps = pow(10, m == 0 ? r.uni(-7, -3) : r.uni(-10, -4)); c.in("method", m); c.in("eps", eps); L I = f.anti(b) - f.anti(a); L A = f.mag() * fabsl((L)b - a); bool dflt = r.coin(.2); if (dflt) eps = m == 0 ? 1e-4 : m == 1 ? 1e-5 : 1e-10;
  auto& ms = Defaults::RombergIntegrationMaxSteps; int old_ms = ms; if (m >= 2) ms = m == 2 ? 16 : 11; static const char* nm[4] = {"trapezoid", "simpson", "romberg", "open"}; std::string key = nm[m]; Rec g(f);
  auto run = [&](const IRealFunction& g, double a, double b, double eps) { switch (m) { case 0: return IntegrateTrap(g, a, b, eps); case 1: return IntegrateSimpson(g, a, b, eps); case 2: return IntegrateRomberg(g, a, b, eps); default: return IntegrateOpen(g, a, b, eps); } };
  auto judge = [&](const IntegrationResult& R, const char* what) { if (!R.converged) { c.ev("not_converged"); return; } L tol = (m <= 1 ? 2 : 200) * (eps * fabsl(I) + eps * 2.3e-16L) + (m <= 1 ? 2e-14L : 2e-13L) * A; c.close(R.value, I, tol, key + what); c.check(R.error_estimate >= 0 && R.error_estimate <= 1.01L * eps * (fabsl((L)R.value) + (m <= 1 ? fabsl((L)R.value) * eps * 2 : 0)) + 2.3e-16L * eps, key + ".estimate-exceeds-tolerance", [&] { return std::to_string((double)R.error_estimate) + " for value " + std::to_string((double)R.value); }); c.check(R.iterations >= 1 && R.iterations <= 21, key + ".iterations"); };
  auto R = dflt ? (m == 0 ? IntegrateTrap(g, a, b) : m == 1 ? IntegrateSimpson(g, a, b) : m == 2 ? IntegrateRomberg(g, a, b) : IntegrateOpen(g, a, b)) : run(g, a, b, eps); if (dflt) { if (m == 0) eps = Defaults::TrapezoidIntegrationEPS; if (m == 1) eps = Defaults::SimpsonIntegrationEPS; if (m >= 2) eps = Defaults::RombergIntegrationEPS; }
  judge(R, ".value"); if (fabsl(I) > 1e-3L * A) c.check(R.converged || eps < 1e-9, key + ".no-convergence-on-smooth"); inside(c, g.xs, a, b, m == 3, key + ".evaluation-point"); c.check((Real)R == R.value, key + ".conversion");
  { Rec h(f); auto Q = run(h, b, a, eps); c.check(Q.converged == R.converged || fabsl(I) < 1e-3L * A || eps < 1e-9, key + ".reversed-convergence"); judge(IntegrationResult(-Q.value, Q.error_estimate, Q.iterations, Q.converged), ".reversed"); inside(c, h.xs, a, b, m == 3, key + ".evaluation-point"); }
  if (m <= 2) { IntegrationMethod M = m == 0 ? TRAP : m == 1 ? SIMPSON : ROMBERG; Rec h(f); auto Q = Integrate(h, a, b, M, eps); c.check(Q.value == R.value && Q.converged == R.converged, key + ".dispatch"); Q = m == 0 ? Integrate<TRAP>(h, a, b, eps) : m == 1 ? Integrate<SIMPSON>(h, a, b, eps) : Integrate<ROMBERG>(h, a, b, eps); c.check(Q.value == R.value && Q.iterations == R.iterations, key + ".dispatch-template"); }
  { Rec h(f); IntegrationConfig cf; cf.exception_policy = r.coin() ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; auto D = m == 0 ? IntegrateTrapDetailed(h, a, b, cf, eps) : m == 1 ? IntegrateSimpsonDetailed(h, a, b, cf, eps) : m == 2 ? IntegrateRombergDetailed(h, a, b, cf, eps) : IntegrateOpenDetailed(h, a, b, cf, eps); c.check(D.value == R.value && D.error_estimate == R.error_estimate && D.iterations == R.iterations && D.converged == R.converged && (D.status == AlgorithmStatus::Success) == R.converged && D.error_message.empty() == R.converged, key + ".detailed"); }
  ms = old_ms; c.ev(m == 3 ? "open" : "adaptive"); }
FAMILY(hard, 300) { // integrands that cannot be resolved within the step limit: failure must be visible
  auto& r = c.r; auto& ms = Defaults::RombergIntegrationMaxSteps; int old[3] = {Defaults::TrapezoidIntegrationMaxSteps, Defaults::SimpsonIntegrationMaxSteps, ms}; int lim = (int)r.i(7, 10); Defaults::TrapezoidIntegrationMaxSteps = Defaults::SimpsonIntegrationMaxSteps = Defaults::RombergIntegrationMaxSteps = lim; int m = (int)r.i(0, 3); double a = r.uni(-2, 2), b = a + r.uni(.5, 3), cc = a + (b - a) * r.uni(.3, .7), eps = pow(10, r.uni(-13, -11)); int kind = (int)r.i(0, 1); c.in("kind", kind); c.in("method", m); c.in("a", a); c.in("b", b); c.in("c", cc); c.in("limit", lim);
  LF g([&](L x) { return kind == 0 ? (x < cc ? 1.0L : 2.5L) : sqrtl(fabsl(x - cc)); }); auto R = m == 0 ? IntegrateTrap(g, a, b, eps) : m == 1 ? IntegrateSimpson(g, a, b, eps) : m == 2 ? IntegrateRomberg(g, a, b, eps) : IntegrateOpen(g, a, b, eps);
  L I = kind == 0 ? ((L)cc - a) + 2.5L * ((L)b - cc) : (powl((L)cc - a, 1.5L) + powl((L)b - cc, 1.5L)) * 2 / 3; long cap = m == 3 ? (long)powl(3, lim - 1) : (1L << (lim - 1)) + 1; c.check(g.n <= cap, "hard.step-limit-ignored", [&] { return std::to_string(g.n); });
  if (R.converged) c.check(fabsl((L)R.value - I) <= .05L * fabsl(I), "hard.false-convergence", [&] { return std::to_string((double)R.value) + " want " + std::to_string((double)I); }); else { c.check(R.iterations == lim, "hard.iterations"); c.check(m >= 2 || R.error_estimate > 0 && fabsl((L)R.value - I) <= 300 * R.error_estimate + 1e-9L, "hard.error-estimate", [&] { return "error " + std::to_string((double)fabsl((L)R.value - I)) + " reported estimate " + std::to_string((double)R.error_estimate); }); c.ev("limit_hit"); }
  { auto D = m == 0 ? IntegrateTrapDetailed(g, a, b, {}, eps) : m == 1 ? IntegrateSimpsonDetailed(g, a, b, {}, eps) : m == 2 ? IntegrateRombergDetailed(g, a, b, {}, eps) : IntegrateOpenDetailed(g, a, b, {}, eps); c.check((D.status == AlgorithmStatus::Success) == D.converged && D.converged == R.converged, "hard.detailed-status"); }
  Defaults::TrapezoidIntegrationMaxSteps = old[0]; Defaults::SimpsonIntegrationMaxSteps = old[1]; ms = old[2]; c.ev("hard"); }
FAMILY(kronrod, 3000) {
  using namespace MML::Integration; auto& r = c.r; double a, b; genAB(c, a, b); Fn f; f.gen(r, a, b, 20); L I = f.anti(b) - f.anti(a), A = f.mag() * fabsl((L)b - a); double ta = (double)A * pow(10, r.uni(-13, -4)), tr = pow(10, r.uni(-11, -5)); int rule = (int)r.i(0, 2), depth = r.coin(.2) ? (int)r.i(0, 4) : 50; c.in("rule", rule); c.in("tol_abs", ta); c.in("tol_rel", tr); c.in("depth", depth); if (A == 0) ta = 1e-300;
  Rec g(f); auto fn = [&](Real x) { return g(x); }; auto R = IntegrateGKAdaptive(fn, a, b, ta, tr, depth, rule == 0 ? GKRule::GK15 : rule == 1 ? GKRule::GK21 : GKRule::GK31); inside(c, g.xs, a, b, true, "kronrod.evaluation-point"); c.check(R.function_evals == (int)g.xs.size() && (int)g.xs.size() % (rule == 0 ? 15 : rule == 1 ? 21 : 31) == 0, "kronrod.evaluation-count"); c.check(R.error_estimate >= 0, "kronrod.negative-error");
  L tol = ta + tr * A + 2e-14L * A; if (R.converged) { c.close(R.value, I, 20 * tol, "kronrod.adaptive"); c.check(R.error_estimate <= tol * 1.0001L, "kronrod.estimate-exceeds-tolerance"); c.ev("gk_converged"); } else { c.check(depth < 50, "kronrod.adaptive-not-converged"); c.ev("gk_depth_limit"); }
  { auto D = IntegrateGKAdaptiveDetailed(fn, a, b, {}, ta, tr, depth, rule == 0 ? GKRule::GK15 : rule == 1 ? GKRule::GK21 : GKRule::GK31); c.check(D.value == R.value && D.converged == R.converged && (D.status == AlgorithmStatus::Success) == R.converged && D.function_evaluations == R.function_evals, "kronrod.detailed"); }
  // polynomial exactness of each fixed rule: 3n+1 style degrees (K15: 23, K21: 31, K31: 47), embedded Gauss 13 / 19 / 29
  { int rl = (int)r.i(0, 2), n = rl == 0 ? 15 : rl == 1 ? 21 : 31, deg = (int)r.i(0, rl == 0 ? 23 : rl == 1 ? 31 : 47), gd = rl == 0 ? 13 : rl == 1 ? 19 : 29; std::vector<L> cf(deg + 1); for (auto& v : cf) v = r.uni(-1, 1); double sc = r.logmag(-6, 6); // Chebyshev series on the interval
    L m = ((L)a + b) / 2, q = ((L)b - a) / 2; LF p([&](L x) { L s = q == 0 ? 0 : (x - m) / q, y = 0, t0 = 1, t1 = s; for (int k = 0; k <= deg; k++) { y += cf[k] * t0; L t2 = 2 * s * t1 - t0; t0 = t1; t1 = t2; } return y * sc; }); L J = 0; for (int k = 0; k <= deg; k += 2) J += cf[k] * 2 / (1.0L - (L)k * k) * q * sc; c.in("degree", deg); auto pf = [&](Real x) { return p(x); }; auto G = rl == 0 ? IntegrateGK15(pf, a, b) : rl == 1 ? IntegrateGK21(pf, a, b) : IntegrateGK31(pf, a, b);
    L B = fabsl(q * sc) * (deg + 1) * (1 + (deg + 1.0L) * (deg + 1) * (fabsl(m) / (fabsl(q) + 1e-300L)) * .01L); c.close(G.value, J, 5e-14L * B, "kronrod.polynomial-exactness"); c.check(p.n == n && G.function_evals == n, "kronrod.fixed-count"); if (deg <= gd) c.check(G.error_estimate <= 1e-13L * B, "kronrod.embedded-gauss-exactness", [&] { return std::to_string((double)(G.error_estimate)); });
    Real v = rl == 0 ? IntegrateGaussKronrod15(pf, a, b) : rl == 1 ? IntegrateGaussKronrod21(pf, a, b) : IntegrateGaussKronrod31(pf, a, b); c.check(v == G.value, "kronrod.alias"); auto D = rl == 0 ? IntegrateGK15Detailed(pf, a, b) : rl == 1 ? IntegrateGK21Detailed(pf, a, b) : IntegrateGK31Detailed(pf, a, b); c.check(D.value == G.value && D.error_estimate == G.error_estimate && D.function_evaluations == n && D.converged, "kronrod.fixed-detailed"); if (rl == 1) { auto W = MML::IntegrateGK21(p, a, b); auto W2 = Integrate(p, a, b, GAUSS10KRONROD21); auto W3 = Integrate<GAUSS10KRONROD21>(p, a, b); c.check(W.value == G.value && W2.value == G.value && W3.value == G.value, "kronrod.integrate-dispatch"); }
    if (deg <= 19) { auto W = IntegrateGauss10(p, a, b); c.close(W.value, J, 5e-14L * B, "gauss10.polynomial-exactness"); c.check(Integrate(p, a, b, GAUSS10).value == W.value && Integrate<GAUSS10>(p, a, b).value == W.value, "gauss10.dispatch"); c.ev("gauss10"); }
    c.ev("kronrod"); }
  { double e = -1, t = 1e-9 * ((double)A + 1e-300); double v = IntegrateGaussKronrod(fn, a, b, &e, 1e-9); c.close(v, I, 20 * (1e-9L + 1e-9L * A) + 2e-14L * A, "kronrod.simple-interface"); c.check(e >= 0 && e <= 1e-9L + 1e-9L * A * 1.01L + 1e-300L, "kronrod.simple-error"); (void)t; }
  // additivity
  { double s = a + (b - a) * r.u01(); auto P = IntegrateGKAdaptive(fn, a, s, ta, tr), Q = IntegrateGKAdaptive(fn, s, b, ta, tr); if (P.converged && Q.converged) c.close(P.value + Q.value, I, 40 * tol, "kronrod.additive"); else c.fail("kronrod.additive-not-converged"); }
}
// a tolerance below what rounding allows: the adaptive rules must come back and say that they missed it
FAMILY(unreachable, 40) { using namespace MML::Integration; auto& r = c.r; int k = (int)r.i(0, 2); double a = r.uni(-2, 2), b = a + r.uni(.5, 4), sc = r.pmag(0, 12), w = r.uni(1, 9); c.in("a", a); c.in("b", b); c.in("scale", sc); c.in("w", w); double tr = r.coin() ? 0.0 : 1e-18, ta = r.coin() ? 0.0 : 1e-17 * sc; c.in("ta", ta); c.in("tr", tr); long n = 0; auto f = [&](Real x) { if (++n > 20000000) throw std::runtime_error("evaluation budget"); return sc * std::sin(w * x); };
  try { auto R = IntegrateGKAdaptive(f, a, b, ta, tr, 50, k == 0 ? GKRule::GK15 : k == 1 ? GKRule::GK21 : GKRule::GK31); double I = (double)((cosl((long double)w * a) - cosl((long double)w * b)) * sc / w); c.close(R.value, I, 1e-12 * sc * (b - a), "value"); c.check(R.error_estimate <= std::max(ta, tr * std::fabs(I)) * 1.001 || !R.converged, "claims_convergence"); c.ev(R.converged ? "tolerance_met" : "budget_used"); c.check(n == R.function_evals, "count"); } catch (const std::runtime_error& e) { if (std::string(e.what()) == "evaluation budget") c.fail("never_ends"); else throw; } }
FAMILY(nonfinite, 200) { using namespace MML::Integration; auto& r = c.r; double a = r.uni(-2, 2), b = a + r.uni(.1, 3); int k = (int)r.i(0, 2); double bad = r.pick({NaN_, Inf_, -Inf_}); double z = a + (b - a) * r.u01(), w = (b - a) * r.pick({1.0, .3}); c.in("a", a); c.in("b", b); c.in("bad", bad); c.in("z", z); c.in("w", w); long n = 0; auto f = [&](Real x) { if (++n > 4000000) throw std::runtime_error("evaluation budget"); return std::fabs(x - z) < w ? bad : 1.0; };
  try { auto R = IntegrateGKAdaptive(f, a, b, 1e-10, 1e-10, 50, k == 0 ? GKRule::GK15 : k == 1 ? GKRule::GK21 : GKRule::GK31); c.check(!R.converged, "nonfinite.kronrod-claims-convergence"); } catch (const std::runtime_error& e) { if (std::string(e.what()) == "evaluation budget") c.fail("nonfinite.kronrod-never-ends"); else throw; }
  { double q = r.pick({1.0, 2.0, .5}); auto R = IntegrateGKAdaptive([&](Real x) { return 1 / std::sqrt(std::fabs(x)); }, -q, q, 1e-7, 1e-7, 60, k == 0 ? GKRule::GK15 : k == 1 ? GKRule::GK21 : GKRule::GK31); c.close(R.value, 4 * sqrtl(q), 1e-5L, "nonfinite.isolated-singularity"); }
  LF g([&](L x) { return fabsl(x - z) < w ? (L)bad : 1.0L; }); auto& ms = Defaults::RombergIntegrationMaxSteps; int o1 = Defaults::TrapezoidIntegrationMaxSteps, o2 = Defaults::SimpsonIntegrationMaxSteps, o3 = ms; Defaults::TrapezoidIntegrationMaxSteps = Defaults::SimpsonIntegrationMaxSteps = ms = 9; c.check(!IntegrateTrap(g, a, b, 1e-6).converged, "nonfinite.trap"); c.check(!IntegrateSimpson(g, a, b, 1e-6).converged, "nonfinite.simpson"); c.check(!IntegrateRomberg(g, a, b, 1e-6).converged, "nonfinite.romberg"); c.check(!IntegrateOpen(g, a, b, 1e-6).converged, "nonfinite.open"); Defaults::TrapezoidIntegrationMaxSteps = o1; Defaults::SimpsonIntegrationMaxSteps = o2; ms = o3;
  LF th([&](L) -> L { throw std::runtime_error("user"); }); IntegrationConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto D = IntegrateTrapDetailed(th, a, b, cf); c.check(D.status == AlgorithmStatus::AlgorithmSpecificFailure && !D.converged, "nonfinite.user-exception-status"); cf.exception_policy = EvaluationExceptionPolicy::Propagate; c.throws<std::runtime_error>([&] { IntegrateRombergDetailed(th, a, b, cf); }, "nonfinite.user-exception-propagates"); c.throws<std::runtime_error>([&] { IntegrateGK15Detailed([&](Real) -> Real { throw std::runtime_error("user"); }, a, b, cf); }, "nonfinite.user-exception-propagates"); cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; double p = r.coin() ? a : b + 1; auto E = IntegrateInteriorSingularDetailed(g, a, b, p, cf); c.check(E.status == AlgorithmStatus::InvalidInput && !E.converged, "interior-singular.bad-point-status"); c.throws<std::exception>([&] { IntegrateInteriorSingular(g, a, b, p); }, "interior-singular.bad-point"); c.ev("nonfinite"); }
#endif
#if PART == 2
static L lg(L x) { int s; return lgammal_r(x, &s); }
FAMILY(legendre, 1500) { auto& r = c.r; int n = r.coin(.8) ? (int)r.i(1, 40) : (int)r.i(41, 300); double a, b; genAB(c, a, b); if (a == b) b = a + 1; c.in("n", n); auto R = GaussLegendreRule(n, a, b); c.check(R.n == n && (int)R.nodes.size() == n && (int)R.weights.size() == n, "legendre.size"); L m = ((L)a + b) / 2, q = ((L)b - a) / 2; L off = 1 + fabsl(m / q) * .1L;
  for (int i = 0; i < n; i++) { L s = (R.nodes[i] - m) / q; c.check(s > -1 && s < 1, "legendre.node-outside"); c.check(R.weights[i] / q > 0, "legendre.weight-not-positive"); if (i && fabsl(m / q) < 1e6L) c.check((R.nodes[i] - R.nodes[i - 1]) / q > 0, "legendre.nodes-not-ordered"); }
  auto mom = [&](int k) { L s = 0; for (int i = 0; i < n; i++) s += R.weights[i] * std::legendre((unsigned)k, (L)((R.nodes[i] - m) / q > 1 ? 1 : (R.nodes[i] - m) / q < -1 ? -1 : (R.nodes[i] - m) / q)); return s / q; };
  c.close(mom(0), 2, 1e-12L * off, "legendre.exactness"); for (int t = 0; t < 6; t++) { int k = t == 0 ? 2 * n - 1 : (int)r.i(1, 2 * n - 1); c.close(mom(k), 0, 1e-12L * off * (1 + k * .3L), "legendre.exactness"); } L nx = mom(2 * n); c.check(fabsl(nx) > 1e-3L / n || off > 100, "legendre.degree-2n-should-fail"); // reference sanity: Gauss rules are never exact at 2n
  if (n <= 60) { Fn f; f.gen(r, a, b, 4); Rec g(f); int N = (int)r.i(24, 60); auto V = IntegrateGaussLegendre(g, a, b, N); L I = f.anti(b) - f.anti(a), A = f.mag() * fabsl((L)b - a); c.close(V.value, I, (1e-9L + 1e-13L * off) * A, "legendre.integrate"); c.check((int)g.xs.size() == N, "legendre.count"); inside(c, g.xs, a, b, true, "legendre.evaluation-point"); auto D = IntegrateGaussLegendreDetailed(g, a, b, N); c.check(D.value == V.value && D.function_evaluations == N && D.converged, "legendre.detailed"); auto W = IntegrateGaussLegendre(g, b, a, N); c.close(W.value, -I, (1e-9L + 1e-13L * off) * A, "legendre.reversed"); }
  { std::vector<Real> x(n), w(n + 1); c.throws<VectorDimensionError>([&] { GaussLegendre(x, w); }, "legendre.size-mismatch"); c.throws<VectorDimensionError>([&] { GaussLaguerre(x, w); }, "laguerre.size-mismatch"); c.throws<VectorDimensionError>([&] { GaussHermite(x, w); }, "hermite.size-mismatch"); c.throws<VectorDimensionError>([&] { GaussJacobi(x, w, 0, 0); }, "jacobi.size-mismatch"); c.throws<VectorDimensionError>([&] { GaussChebyshev1(x, w); }, "chebyshev1.size-mismatch"); c.throws<VectorDimensionError>([&] { GaussChebyshev2(x, w); }, "chebyshev2.size-mismatch"); }
  c.ev("legendre"); }
// nodes and weights of a rule on (lo,hi) must be inside, distinct, positive and reproduce positive moments relatively
template<class F> void rule(mon::Case& c, const std::string& key, const GaussQuadratureRule& R, int n, L lo, L hi, F testpolys) { c.check((int)R.nodes.size() == n && R.n == n, key + ".size"); VD s(R.nodes.begin(), R.nodes.end()); std::sort(s.begin(), s.end()); for (int i = 0; i < n; i++) { c.check(s[i] > lo && s[i] < hi, key + ".node-outside", [&] { return std::to_string(s[i]); }); c.check(R.weights[i] > 0 && std::isfinite(R.weights[i]), key + ".weight-not-positive", [&] { return std::to_string(R.weights[i]); }); if (i) c.check(s[i] > s[i - 1], key + ".repeated-node", [&] { return std::to_string(s[i]); }); } testpolys(); c.ev(("rule_" + key).c_str()); }
FAMILY(laguerre, 1500) { auto& r = c.r; int n = r.coin(.8) ? (int)r.i(1, 30) : (int)r.i(31, 80); double al = r.coin(.4) ? 0 : r.coin(.3) ? (double)r.i(0, 5) : r.uni(-.9, 6); c.in("n", n); c.in("alpha", al); GaussQuadratureRule R(0); try { R = GaussLaguerreRule(n, al); } catch (const IntegrationTooManySteps&) { c.ev("laguerre_refused"); c.check(n > 20 || al != 0, "laguerre.refused"); return; }
  rule(c, "laguerre", R, n, 0, 1e5L, [&] { for (int t = 0; t < 6; t++) { int k = t == 0 ? 2 * n - 1 : t == 1 ? 0 : (int)r.i(0, 2 * n - 1); L s = 0; for (int i = 0; i < n; i++) s += R.weights[i] * expl(k * logl((L)R.nodes[i]) - lg(k + al + 1)); c.close(s, 1, 1e-11L * (1 + k + n), "laguerre.exactness"); } });
  if (n >= 20) { double k = r.uni(-.5, 1.5), p = r.uni(-2, 2); LF f([&](L x) { return cosl(p) * (x * 0 + 1) + k * x; }); auto V = IntegrateGaussLaguerre(f, n, al); L g = expl(lg(al + 1)); c.close(V.value, g * (cosl(p) + k * (al + 1)), 1e-10L * g * 10, "laguerre.integrate"); c.check(f.n == n, "laguerre.count"); auto D = IntegrateGaussLaguerreDetailed(f, n, al); c.check(D.value == V.value && D.function_evaluations == n, "laguerre.detailed"); } }
FAMILY(hermite, 1200) { auto& r = c.r; int n = r.coin(.8) ? (int)r.i(1, 40) : (int)r.i(41, 150); c.in("n", n); GaussQuadratureRule R(0); try { R = GaussHermiteRule(n); } catch (const IntegrationTooManySteps&) { c.ev("hermite_refused"); c.check(n > 40, "hermite.refused"); return; }
  rule(c, "hermite", R, n, -1e4L, 1e4L, [&] { L w0 = 0; for (auto w : R.weights) w0 += w; c.close(w0, sqrtl(M_PIl), 1e-11L, "hermite.weight-sum"); for (int t = 0; t < 5; t++) { int k = t == 0 ? n - 1 : (int)r.i(0, n - 1); L s = 0; for (int i = 0; i < n; i++) if (R.nodes[i] != 0 || k == 0) s += R.weights[i] * expl((k == 0 ? 0 : 2 * k * logl(fabsl((L)R.nodes[i]))) - lg(k + .5L)); c.close(s, 1, 1e-11L * (1 + k + n), "hermite.exactness"); } for (int i = 0; i < n; i++) { c.check(R.nodes[i] == -R.nodes[n - 1 - i] || std::fabs(R.nodes[i]) < 1e-12, "hermite.symmetry"); c.check(R.weights[i] == R.weights[n - 1 - i], "hermite.symmetry"); } });
  { double k = r.uni(-2, 2); LF f([&](L x) { return cosl((L)k * x); }); if (n >= 24) { auto V = IntegrateGaussHermite(f, n); c.close(V.value, sqrtl(M_PIl) * expl(-(L)k * k / 4), 1e-9L, "hermite.integrate"); auto D = IntegrateGaussHermiteDetailed(f, n); c.check(D.value == V.value && D.function_evaluations == n, "hermite.detailed"); } } }
FAMILY(jacobi, 2000) { auto& r = c.r; int n = r.coin(.8) ? (int)r.i(1, 25) : (int)r.i(26, 60); double al = r.coin(.3) ? (double)r.i(0, 3) : r.coin(.3) ? -.5 : r.uni(-.9, 5), be = r.coin(.3) ? al : r.coin(.3) ? (double)r.i(0, 3) : r.uni(-.9, 5); c.in("n", n); c.in("alpha", al); c.in("beta", be); c.throws<NumericalMethodError>([&] { GaussJacobiRule(n, -1, be); }, "jacobi.bad-alpha"); c.throws<NumericalMethodError>([&] { GaussJacobiRule(n, al, -1.5); }, "jacobi.bad-beta"); GaussQuadratureRule R(0); try { R = GaussJacobiRule(n, al, be); } catch (const IntegrationTooManySteps&) { c.ev("jacobi_refused"); c.check(n > 20 || al > 3 || be > 3 || al < -.5 || be < -.5, "jacobi.refused"); return; }
  rule(c, "jacobi", R, n, -1, 1, [&] { for (int t = 0; t < 6; t++) { int d = t == 0 ? 2 * n - 1 : (int)r.i(0, 2 * n - 1), i = (int)r.i(0, d), j = d - i; L s = 0, la = lg(al + i + 1) + lg(be + j + 1) - lg(al + be + d + 2) + (al + be + d + 1) * logl(2); L cond = 0; for (int q = 0; q < n; q++) { L x = R.nodes[q], v = expl(i * log1pl(-x) + j * log1pl(x) - la) * R.weights[q]; s += v; cond += v * (i / (1 - x) + j / (1 + x)) * 4e-14L; } c.close(s, 1, 4e-11L * (1 + n) + cond * 8, "jacobi.exactness"); } });
  { double k = r.uni(-1, 1); LF f([&](L x) { return 1 + k * x; }); auto V = IntegrateGaussJacobi(f, al, be, n); L m0 = expl(lg(al + 1) + lg(be + 1) - lg(al + be + 2) + (al + be + 1) * logl(2)); c.close(V.value, m0 * (1 + k * (be - al) / (al + be + 2)), 1e-10L * m0 * (1 + n), "jacobi.integrate"); auto D = IntegrateGaussJacobiDetailed(f, al, be, n); c.check(D.value == V.value && D.function_evaluations == n, "jacobi.detailed"); } }
FAMILY(chebyshev, 800) { auto& r = c.r; int n = (int)r.i(1, 80); c.in("n", n); auto R1 = GaussChebyshev1Rule(n), R2 = GaussChebyshev2Rule(n); rule(c, "chebyshev1", R1, n, -1, 1, [&] { for (int k = 0; k < 2 * n; k++) { L s = 0; for (int i = 0; i < n; i++) s += R1.weights[i] * cosl(k * acosl((L)R1.nodes[i])); c.close(s, k ? 0 : M_PIl, 1e-13L * (1 + k * 3) * sqrtl(n), "chebyshev1.exactness"); } }); rule(c, "chebyshev2", R2, n, -1, 1, [&] { for (int k = 0; k < 2 * n; k++) { L s = 0; for (int i = 0; i < n; i++) { L th = acosl((L)R2.nodes[i]); s += R2.weights[i] * sinl((k + 1) * th) / sinl(th); } c.close(s, k ? 0 : M_PIl / 2, 1e-13L * (1 + k * 3) * n, "chebyshev2.exactness"); } }); LF f([&](L x) { return x * x; }); if (n >= 2) { c.close(IntegrateGaussChebyshev1(f, n).value, M_PIl / 2, 1e-12L, "chebyshev1.integrate"); c.close(IntegrateGaussChebyshev2(f, n).value, M_PIl / 8, 1e-12L, "chebyshev2.integrate"); c.check(IntegrateGaussChebyshev1Detailed(f, n).function_evaluations == n && IntegrateGaussChebyshev2Detailed(f, n).function_evaluations == n, "chebyshev.detailed"); } }
FAMILY(improper, 500) { auto& r = c.r; auto& ms = Defaults::RombergIntegrationMaxSteps; int old = ms; ms = 11; int off = 0, conv = 0; VD worst; for (int rep = 0; rep < 8; rep++) { int k = (int)r.i(0, 3); double eps = pow(10, r.uni(-9, -4)), a = r.coin(.3) ? 0 : r.uni(-3, 3), s = r.uni(.4, 2.5), amp = r.uni(.5, 3) * r.pick({-1, 1}) * r.logmag(-4, 4); int side = (int)r.i(0, 3); c.in("kind", k); c.in("eps", eps); c.in("a", a); c.in("s", s); c.in("amp", amp); c.in("side", side);
  // even-decaying integrands centred at z, tail integral known
  double z = side <= 1 ? a + r.uni(-1, 1) : side == 2 ? r.uni(-1, 1) : a + r.uni(-1, 1); c.in("z", z); auto fun = [&](L x) { L u = (x - z) / s; return amp * (k == 0 ? 1 / (1 + u * u) : k == 1 ? expl(-u * u) : k == 2 ? 1 / ((1 + u * u) * (1 + u * u)) : 1 / coshl(u)); }; auto cdf = [&](L x) { L u = (x - z) / s; return amp * s * (k == 0 ? atanl(u) + M_PIl / 2 : k == 1 ? sqrtl(M_PIl) / 2 * erfcl(-u) : k == 2 ? (u / (1 + u * u) + atanl(u)) / 2 + M_PIl / 4 : 2 * atanl(expl(u))); }; L tot = amp * s * (k == 0 ? M_PIl : k == 1 ? sqrtl(M_PIl) : k == 2 ? M_PIl / 2 : M_PIl);
  LF f(fun); IntegrationResult R; L want; switch (side) { case 0: R = IntegrateUpperInf(f, a, eps); want = tot - cdf(a); c.check(f.lo >= a - 1e-12, "improper.evaluation-outside"); break; case 1: R = IntegrateLowerInf(f, a, eps); want = cdf(a); c.check(f.hi <= a + 1e-12, "improper.evaluation-outside"); break; case 2: R = IntegrateInf(f, eps); want = tot; break; default: R = IntegrateInfSplit(f, a, eps); want = tot; }
  if (R.converged) { L d = fabsl((L)R.value - want); conv++; off += !(d <= 300 * eps * fabsl(want) + 1e-12L * fabsl(tot)); c.check(d <= .02L * fabsl(tot), "improper.value"); c.ev("improper"); } else c.ev("improper_not_converged"); c.check(R.error_estimate >= 0, "improper.error-estimate"); { IntegrationDetailedResult D = side == 0 ? IntegrateUpperInfDetailed(f, a, {}, eps) : side == 1 ? IntegrateLowerInfDetailed(f, a, {}, eps) : side == 2 ? IntegrateInfDetailed(f, {}, eps) : IntegrateInfSplitDetailed(f, a, {}, eps); c.check(D.value == R.value && D.converged == R.converged && (D.status == AlgorithmStatus::Success) == R.converged, "improper.detailed"); } } ms = old; c.check(off <= 2, "improper.accuracy", [&] { return std::to_string(off) + " of " + std::to_string(conv) + " beyond tolerance"; }); c.maxi("improper_off", off); c.check(conv >= 1, "improper.never-converges"); }
FAMILY(singular, 500) { auto& r = c.r; auto& ms = Defaults::RombergIntegrationMaxSteps; int old = ms; ms = 11; int off = 0; for (int rep = 0; rep < 4; rep++) { double eps = pow(10, r.uni(-8, -4)), a = r.coin(.4) ? 0 : r.uni(-3, 3), b = a + r.uni(.2, 4), p = r.pick({-.5, -.5, -.5, 0.0, .5, -1. / 3}), amp = r.uni(.5, 3) * r.logmag(-4, 4); int side = (int)r.i(0, 3); c.in("eps", eps); c.in("a", a); c.in("b", b); c.in("p", p); c.in("amp", amp); c.in("side", side); double q0 = r.uni(0, 1), q1 = r.uni(0, 1), cc = a + (b - a) * r.uni(.1, .9); c.in("c", cc);
  // amp * d^p * (q0 + 1 + q1 d) with d the distance from the singular end
  auto near = [&](L d) { return amp * powl(d, p) * (1 + q0 + q1 * d); }; auto mass = [&](L d) { return amp * ((1 + q0) * powl(d, p + 1) / (p + 1) + q1 * powl(d, p + 2) / (p + 2)); }; bool hitl = false; L mid = .5 * (a + b); LF f([&](L x) { L d = side == 0 ? x - a : side == 1 ? b - x : side == 2 ? (x < mid ? x - a : b - x) : fabsl(x - cc); if (d <= 0) hitl = true; return near(d); }); L want = side <= 1 ? mass((L)b - a) : side == 2 ? mass(mid - a) + mass(b - mid) : mass((L)cc - a) + mass((L)b - cc);
  IntegrationResult R = side == 0 ? IntegrateLowerSingular(f, a, b, eps) : side == 1 ? IntegrateUpperSingular(f, a, b, eps) : side == 2 ? IntegrateBothSingular(f, a, b, eps) : IntegrateInteriorSingular(f, a, b, cc, eps); c.check(!hitl || !R.converged || a != 0, "singular.evaluated-at-singularity"); c.check(f.lo >= a - 1e-12 && f.hi <= b + 1e-12, "singular.evaluation-outside"); if (R.converged) { L d = fabsl((L)R.value - want); if (p == -1. / 3) c.check(d <= .01L * fabsl(want), "singular.value"); else { off += !(d <= 100 * eps * fabsl(want)); c.close(R.value, want, 1e-3L * fabsl(want), "singular.value"); } c.ev("singular"); } else { c.ev("singular_not_converged"); c.check(p == -1. / 3 || eps < 1e-6 , "singular.no-convergence"); }
  { IntegrationDetailedResult D = side == 0 ? IntegrateLowerSingularDetailed(f, a, b, {}, eps) : side == 1 ? IntegrateUpperSingularDetailed(f, a, b, {}, eps) : side == 2 ? IntegrateBothSingularDetailed(f, a, b, {}, eps) : IntegrateInteriorSingularDetailed(f, a, b, cc, {}, eps); c.check(D.value == R.value && D.converged == R.converged && (D.status == AlgorithmStatus::Success) == R.converged, "singular.detailed"); } } ms = old; c.check(off <= 2, "singular.accuracy", [&] { return std::to_string(off) + " of 4 beyond tolerance"; }); c.maxi("singular_off", off); }
FAMILY(safe_divide, 1500) { using namespace MML::Singularity; auto& r = c.r; double num = r.uni(-3, 3), tol = pow(10, r.uni(-12, -3)), den = r.coin() ? r.uni(-2, 2) : tol * r.pick({0.0, .5, -.5, .999, -.999, 1.0, -1.0, 1.5}); c.in("num", num); c.in("den", den); c.in("tol", tol); bool z = std::fabs(den) < tol; c.check(IsNearZero(den, tol) == z, "near-zero"); if (!z) { for (auto P : {SingularityPolicy::Throw, SingularityPolicy::ReturnNaN, SingularityPolicy::ReturnInf, SingularityPolicy::Clamp, SingularityPolicy::ReturnZero}) c.check(SafeDivide(num, den, P, "x", tol) == num / den, "safe-divide.regular"); } else { c.throws<DomainError>([&] { SafeDivide(num, den, SingularityPolicy::Throw, r.coin() ? "ctx" : nullptr, tol); }, "safe-divide.throw"); c.check(std::isnan(SafeDivide(num, den, SingularityPolicy::ReturnNaN, nullptr, tol)), "safe-divide.nan"); double v = SafeDivide(num, den, SingularityPolicy::ReturnInf, nullptr, tol); c.check(std::isinf(v) && (v > 0) == (num >= 0), "safe-divide.inf"); c.close(SafeDivide(num, den, SingularityPolicy::Clamp, nullptr, tol), (L)num / (den >= 0 ? tol : -tol), 1e-12L * std::fabs(num) / tol, "safe-divide.clamp"); c.check(SafeDivide(num, den, SingularityPolicy::ReturnZero, nullptr, tol) == 0, "safe-divide.zero"); }
  double R = r.uni(.1, 3), th = r.uni(.1, 3); c.close(SafeInverseR(R), 1 / R, 1e-14 / R, "inverse-r"); c.close(SafeInverseR2(R), 1 / (R * R), 1e-13 / (R * R), "inverse-r2"); L s = sinl(th), k = 1 / (R * fabsl(s)); c.close(SafeInverseRSinTheta(R, th), 1 / (R * s), 1e-13L * k * 10, "inverse-r-sin"); c.close(SafeInverseR2Sin2Theta(R, th), 1 / (R * R * s * s), 1e-13L * k * k * 20, "inverse-r2-sin2"); c.close(SafeCotThetaOverR2(R, th), cosl(th) / s / (R * R), 1e-13L * k / R * 20, "cot-over-r2"); c.check(IsAtSphericalOrigin(tol / 2, tol) && !IsAtSphericalOrigin(tol * 2, tol) && IsAtSphericalPole(0, tol) && IsAtSphericalPole(Constants::PI, tol) && !IsAtSphericalPole(1, tol) && IsAtCylindricalAxis(0, tol) && IsAtSphericalSingularity(0, 1) && IsAtSphericalSingularity(1, 0) && !IsAtSphericalSingularity(1, 1), "predicates"); c.ev("safe_divide"); }
#endif
MON_MAIN()
