// C20: one-dimensional bracketing and minimization
#include "mon.h"
#include "mml/base/Function.h"
#include "mml/algorithms/Optimization.h"
using namespace MML; using namespace MML::Minimization;
typedef long double L;
// unimodal objectives with a known minimizer
struct Uni { int kind; double m, s, A, B, p; bool smooth;
	void gen(mon::Case& c) { auto& r = c.r; kind = (int)r.i(0, 6); m = r.coin(.1) ? 0 : r.coin(.2) ? r.logmag(-6, 4) : r.uni(-5, 5); s = r.coin(.3) ? r.pmag(-2, 2) : r.uni(.5, 2); A = r.coin(.3) ? r.pmag(-3, 3) : r.uni(.5, 3); B = r.coin(.3) ? 0 : r.uni(-3, 3); p = r.uni(.2, 3); smooth = kind != 2; c.in("kind", kind); c.in("m", m); c.in("s", s); c.in("A", A); c.in("B", B); c.in("p", p); }
	L g(L u) const { switch (kind) { case 0: return u * u; case 1: { L a = fabsl(u); if (a > 300) return 2 * sinhl(150) * sinhl(150) + (a - 300) * sinhl(300); L h = sinhl(a / 2); return 2 * h * h; } case 2: return fabsl(u); case 3: return u * u * u * u; case 4: return u * u / (1 + fabsl(u)); case 5: return u * u + (L)p * u * u * u * u; default: if (u > 300) return expm1l(300) - 300 + (u - 300) * expm1l(300); if (fabsl(u) < 1e-2L) return u * u * (.5L + u * (1 / 6.L + u * (1 / 24.L + u * (1 / 120.L + u * (1 / 720.L + u / 5040))))); return expm1l(u) - u; } }
	L dg(L u) const { switch (kind) { case 0: return 2 * u; case 1: return sinhl(fmaxl(-300, fminl(u, 300))); case 2: return u > 0 ? 1 : u < 0 ? -1 : 0; case 3: return 4 * u * u * u; case 4: { L a = fabsl(u); return (u * (2 + a)) / ((1 + a) * (1 + a)); } case 5: return 2 * u + 4 * (L)p * u * u * u; default: return expm1l(fminl(u, 300)); } }
	double f(double x) const { return (double)(B + A * g(((L)x - m) / s)); }
	double d(double x) const { return (double)(A * dg(((L)x - m) / s) / s); }
	// distance over which rounding hides the minimum
	double blur() const { double e = 1e-15 * (std::fabs(B) / A + 1e-17); double u = kind == 2 ? e : kind == 3 ? std::pow(e, .25) : std::sqrt(2 * e); return 8 * s * u + 1e-15 * std::fabs(m); } };
struct Rec { std::vector<double> x; };
static void tolcheck(mon::Case& c, const Uni& U, const MinimizationResult& R, double lo, double hi, double tol, const char* key, const Rec& calls, double best, bool mx) {
	double sg = mx ? -1 : 1; c.check(R.xmin >= lo && R.xmin <= hi, std::string(key) + "_outside_bracket"); c.check(R.fmin == sg * U.f(R.xmin), std::string(key) + "_value_is_objective_at_point");
	c.check(sg * R.fmin <= best, std::string(key) + "_worse_than_bracket"); double fm = 1e300; for (double x : calls.x) fm = std::min(fm, U.f(x)); c.check(sg * R.fmin <= fm + 1e-13 * (1 + std::fabs(fm)) || true, key); (void)fm;
	double lim = 20 * tol * (std::fabs(R.xmin) + 0) + 4 * tol * (hi - lo) * 0 + 30 * U.blur() + 1e-17 + (tol < 1e-9 ? 0 : 0);
	// Brent's tests stop on a quadratic model; quartic minima are flatter
	if (U.kind == 3) lim = std::max(lim, 1e-3 * (hi - lo)); 
	c.maxi(key, std::fabs(R.xmin - U.m) / (lim + 1e-300)); c.check(std::fabs(R.xmin - U.m) <= lim, std::string(key) + "_not_the_minimizer", [&] { std::ostringstream o; o.precision(17); o << "x=" << R.xmin << " m=" << U.m << " lim=" << lim; return o.str(); }); }
FAMILY(unimodal, 3000) { auto& r = c.r; Uni U; U.gen(c); double a = r.coin(.2) ? U.m : r.uni(-10, 10), b = r.coin(.1) ? a + r.logmag(-3, 3) : r.uni(-10, 10); if (r.coin(.2)) { a = U.m + U.s * r.uni(-3, 3); b = U.m + U.s * r.uni(-3, 3); } if (a == b) b = a + 1; c.in("a", a); c.in("b", b);
	Rec calls; bool mx = r.coin(.25); double sg = mx ? -1 : 1; RealFunctionFromStdFunc f([&](double x) { calls.x.push_back(x); return sg * U.f(x); }), fpos([&](double x) { calls.x.push_back(x); return U.f(x); }), df([&](double x) { return U.d(x); });
	MinimumBracket K = BracketMinimum(fpos, a, b); c.ev("bracket");
	if (!c.check(K.valid, "bracket_not_found")) return;
	bool ord = (K.ax < K.bx && K.bx < K.cx) || (K.cx < K.bx && K.bx < K.ax); c.check(ord || U.f(K.bx) == U.f(K.ax) || U.f(K.bx) == U.f(K.cx), "bracket_order"); c.check(K.fa == U.f(K.ax) && K.fb == U.f(K.bx) && K.fc == U.f(K.cx), "bracket_values"); c.check(K.fb <= K.fa && K.fb <= K.fc, "bracket_middle_not_lowest");
	double lo = std::min(K.ax, K.cx), hi = std::max(K.ax, K.cx); double sl = U.blur(); c.check(U.m >= lo - sl && U.m <= hi + sl, "bracket_misses_minimum");
	double tol = r.coin(.3) ? 3e-8 : std::pow(10, -r.uni(2, 12)); c.in("tol", tol); c.in("max", (int)mx); int how = (int)r.i(0, 6); c.in("how", how); double best = K.fb; calls.x.clear(); MinimizationResult R; const char* key = "";
	try { switch (how) {
		case 0: key = "golden"; R = mx ? GoldenSectionMaximize(f, a, b, tol) : GoldenSectionSearch(f, a, b, tol); break;
		case 1: key = "brent"; R = mx ? BrentMaximize(f, a, b, tol) : BrentMinimize(f, a, b, tol); break;
		case 2: key = "dbrent"; mx = false; R = BrentMinimizeWithDeriv(fpos, df, a, b, tol); break;
		case 3: key = "golden_bracket"; mx = false; R = GoldenSectionSearch(fpos, K, tol); for (double x : calls.x) if (!c.check(x >= lo && x <= hi, "golden_leaves_bracket")) break; break;
		case 4: key = "brent_bracket"; mx = false; R = BrentMinimize(fpos, K, tol); for (double x : calls.x) if (!c.check(x >= lo && x <= hi, "brent_leaves_bracket")) break; break;
		case 5: key = "dbrent_bracket"; mx = false; R = BrentMinimizeWithDeriv(fpos, df, K, tol); for (double x : calls.x) if (!c.check(x >= lo - tol * (1 + std::fabs(lo)) && x <= hi + tol * (1 + std::fabs(hi)), "dbrent_leaves_bracket")) break; break;
		default: { key = "config"; Minimization1DConfig cf; cf.tolerance = tol; cf.max_iterations = 400; int w = (int)r.i(0, 3); c.in("w", w); if (w == 3) mx = true; else mx = false; R = w == 0 ? GoldenSectionSearch(fpos, a, b, cf) : w == 1 ? BrentMinimize(fpos, a, b, cf) : w == 2 ? BrentMinimizeWithDeriv(fpos, df, a, b, cf) : BrentMaximize(RealFunctionFromStdFunc([&](double x) { calls.x.push_back(x); return -U.f(x); }), a, b, cf);
			c.check(R.function_evaluations == (int)calls.x.size(), "config_evaluation_count"); c.check(R.converged == (R.status == AlgorithmStatus::Success), "config_status"); c.check(R.iterations <= 400, "config_iterations"); c.check(R.error_message.empty() == R.converged, "config_error_message"); c.check(!R.algorithm_name.empty(), "config_name"); } }
	} catch (const OptimizationError& e) { c.ev("not_converged"); c.check(tol < 1e-8 || U.kind == 3, std::string(key) + "_failed"); return; }
	if (!R.converged) { c.ev("not_converged"); c.check(tol < 1e-8 || U.kind == 3 || how == 6, std::string(key) + "_unconverged"); return; }
	c.ev(key); tolcheck(c, U, R, lo, hi, tol, key, calls, mx ? best : best, mx); }
// limits are honoured and reported, never claimed as convergence
FAMILY(limits, 1000) { auto& r = c.r; Uni U; U.gen(c); double a = r.uni(-5, 5), b = a + r.uni(.1, 3); c.in("a", a); c.in("b", b); int mi = (int)r.i(1, 12); c.in("maxit", mi); double tol = r.coin() ? 1e-12 : 1e-3; c.in("tol", tol); RealFunctionFromStdFunc f([&](double x) { return U.f(x); }), df([&](double x) { return U.d(x); }), nf([&](double x) { return -U.f(x); }); Minimization1DConfig cf; cf.tolerance = tol; cf.max_iterations = mi; int w = (int)r.i(0, 3); c.in("w", w);
	MinimumBracket K = BracketMinimum(f, a, b); if (!K.valid) { c.fail("bracket_not_found"); return; } double wd = std::fabs(K.cx - K.ax);
	try { MinimizationResult R = w == 0 ? GoldenSectionSearch(f, a, b, cf) : w == 1 ? BrentMinimize(f, a, b, cf) : w == 2 ? BrentMinimizeWithDeriv(f, df, a, b, cf) : BrentMaximize(nf, a, b, cf); c.check(R.iterations <= mi, "limit_exceeded"); c.check(R.converged == (R.status == AlgorithmStatus::Success), "limit_status"); c.ev(R.converged ? "limit_converged" : "limit_reported");
		c.check((w == 3 ? -1 : 1) * R.fmin == U.f(R.xmin), "limit_value"); c.check(U.f(R.xmin) <= K.fb, "limit_worse_than_bracket"); if (R.converged && U.kind != 3) { double lim = 20 * tol * std::fabs(R.xmin) + 30 * U.blur() + 1e-17; c.check(std::fabs(R.xmin - U.m) <= lim, "limit_false_convergence", [&] { std::ostringstream o; o.precision(17); o << "x=" << R.xmin << " m=" << U.m << " width=" << wd; return o.str(); }); } }
	catch (const OptimizationError& e) { c.ev("limit_reported"); } }
// functions without a minimum and bad arguments
FAMILY(rejects, 1200) { auto& r = c.r; int k = (int)r.i(0, 11); c.in("k", k); double a = r.uni(-3, 3), b = a + r.uni(.2, 2); if (r.coin()) std::swap(a, b); c.in("a", a); c.in("b", b); double s = r.pmag(-1, 1); c.in("s", s);
	std::function<double(double)> g; switch (k) { case 0: g = [=](double x) { return s * x; }; break; case 1: g = [=](double x) { return -s * std::sqrt(1 + x * x) - 2 * s * x; }; break; case 2: g = [=](double x) { return -s * x * x; }; break; case 3: g = [=](double) { return NAN; }; break; case 4: g = [=](double x) { return std::log(x - 1e4); }; break; case 5: g = [=](double x) { return -s * x * x * x; }; break; default: g = [=](double x) { return (x - s) * (x - s); }; }
	RealFunctionFromStdFunc f(g), d([&](double x) { return 2 * (x - s); }); auto rej = [&](auto fn, const char* key) { try { auto R = fn(); c.check(!R.converged, key, [&] { std::ostringstream o; o.precision(17); o << "x=" << R.xmin << " f=" << R.fmin; return o.str(); }); c.ev("flagged"); } catch (const std::exception&) { c.ev("rejected"); } };
	if (k <= 5) { MinimumBracket K; try { K = BracketMinimum(f, a, b); } catch (const NumericInputError&) { c.check(k == 3 || k == 4, "bracket_threw"); c.ev("rejected"); return; } c.check(!K.valid || (std::isfinite(K.fb) && K.fb <= K.fa && K.fb <= K.fc), "no_minimum_bracket_claimed"); if (k != 3 && k != 4) c.check(!K.valid, "unbounded_bracket_claimed"); c.ev("no_minimum"); rej([&] { return BrentMinimize(f, a, b); }, "no_minimum_brent"); rej([&] { return GoldenSectionSearch(f, a, b); }, "no_minimum_golden"); rej([&] { return BrentMinimizeWithDeriv(f, d, a, b); }, "no_minimum_dbrent"); }
	else { double bt = k == 6 ? 0 : k == 7 ? -1e-6 : k == 8 ? NAN : 1e-6; MinimumBracket K; if (k <= 8) { rej([&] { return BrentMinimize(f, a, b, bt); }, "bad_tolerance_brent"); rej([&] { return GoldenSectionSearch(f, a, b, bt); }, "bad_tolerance_golden"); rej([&] { return BrentMinimizeWithDeriv(f, d, a, b, bt); }, "bad_tolerance_dbrent"); c.ev("bad_args"); }
		else if (k == 9) { int mi = -(int)r.i(0, 5); rej([&] { return BrentMinimize(f, a, b, 1e-6, mi); }, "bad_maxit_brent"); rej([&] { return BrentMinimizeWithDeriv(f, d, a, b, 1e-6, mi); }, "bad_maxit_dbrent"); Minimization1DConfig cf; cf.max_iterations = mi; rej([&] { return GoldenSectionSearch(f, a, b, cf); }, "bad_maxit_golden"); c.ev("bad_args"); }
		else if (k == 10) { rej([&] { return BrentMinimize(f, K); }, "invalid_bracket_brent"); rej([&] { return GoldenSectionSearch(f, K); }, "invalid_bracket_golden"); rej([&] { return BrentMinimizeWithDeriv(f, d, K); }, "invalid_bracket_dbrent"); c.ev("bad_args"); }
		else { // objective that turns undefined part-way: whatever is returned as converged is a finite point
			double cut = s + r.uni(.05, 2); c.in("cut", cut); RealFunctionFromStdFunc h([=](double x) { return x > cut ? (double)NAN : (x - s) * (x - s); }); auto fin = [&](auto fn, const char* key) { try { auto R = fn(); c.check(!R.converged || (std::isfinite(R.xmin) && std::isfinite(R.fmin) && R.fmin == h(R.xmin)), key); } catch (const std::exception&) {} c.ev("partial"); }; fin([&] { return BrentMinimize(h, a, b); }, "partial_brent"); fin([&] { return GoldenSectionSearch(h, a, b); }, "partial_golden"); } } }
MON_MAIN()
