// C20: multidimensional minimization
#include "mon.h"
#include "mml/base/Function.h"
#include "mml/algorithms/OptimizationMultidim.h"
using namespace MML; using namespace MML::Optimization;
typedef long double L;
// smooth convex objectives: value B + A*phi with known minimizer m; kinds: quadratic, quadratic + quartic, softplus-like, log barrier, Rosenbrock-like valley (not convex, unimodal)
struct Obj { int n = 0, kind = 0; double m[8]{}, H[8][8]{}, A = 1, B = 0, q = 0; double cond = 1; mutable long nf = 0, ng = 0; mutable double best = INFINITY; bool tr = false;
	void gen(mon::Case& c, int n_) { auto& r = c.r; n = n_; kind = (int)r.i(0, 4); if (kind == 4 && n < 2) kind = 0; A = r.coin(.2) ? r.pmag(-2, 2) : r.uni(.5, 2); B = r.coin(.4) ? 0 : r.uni(-3, 3); q = r.uni(.05, 1); double lc = r.uni(0, 1.7); cond = std::pow(10, lc);
		double V[8][8]; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) V[i][j] = i == j; m[i] = r.coin(.1) ? 0 : r.uni(-2, 2); }
		for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { double t = r.uni(0, 6.3), cs = cos(t), sn = sin(t); for (int k = 0; k < n; k++) { double x = V[a][k], y = V[b][k]; V[a][k] = cs * x - sn * y; V[b][k] = sn * x + cs * y; } }
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { H[i][j] = 0; for (int k = 0; k < n; k++) H[i][j] += V[k][i] * V[k][j] * (n == 1 ? 1 : std::pow(cond, (double)k / (n - 1))); }
		c.in("n", n); c.in("kind", kind); c.in("A", A); c.in("B", B); c.in("cond", cond); c.in("m", std::vector<double>(m, m + n)); }
	L phi(const double* x) const { L s = 0; L u[8]; for (int i = 0; i < n; i++) u[i] = (L)x[i] - m[i]; if (kind == 4) { L s1 = 0; for (int i = 0; i + 1 < n; i++) { L a = u[i + 1] - (u[i] * u[i] + 2 * u[i]), b = u[i]; s1 += 5 * a * a + b * b; } return s1; }
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += .5L * u[i] * H[i][j] * u[j]; if (kind == 1) { L w = 0; for (int i = 0; i < n; i++) w += u[i] * u[i]; s += q * w * w; } if (kind == 2) for (int i = 0; i < n; i++) s += q * (sqrtl(1 + u[i] * u[i]) - 1); if (kind == 3) for (int i = 0; i < n; i++) { L d = 4 - u[i]; if (d <= 0) return INFINITY; s += q * (-logl(d / 4) - u[i] / 4); } return s; }
	void dphi(const double* x, L* g) const { L u[8]; for (int i = 0; i < n; i++) { u[i] = (L)x[i] - m[i]; g[i] = 0; } if (kind == 4) { for (int i = 0; i + 1 < n; i++) { L a = u[i + 1] - (u[i] * u[i] + 2 * u[i]); g[i + 1] += 10 * a; g[i] += -10 * a * (2 * u[i] + 2) + 2 * u[i]; } return; }
		L w = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) g[i] += H[i][j] * u[j]; w += u[i] * u[i]; } for (int i = 0; i < n; i++) { if (kind == 1) g[i] += 4 * q * w * u[i]; if (kind == 2) g[i] += q * u[i] / sqrtl(1 + u[i] * u[i]); if (kind == 3) g[i] += q * (1 / (4 - u[i]) - .25L); } }
	double val(const double* x) const { return (double)(B + A * phi(x)); }
	double lip() const { return A * (kind == 4 ? 40 : cond + 1); } };
template<int N> struct F : IScalarFunction<N> { const Obj& o; double sg; F(const Obj& O, double s = 1) : o(O), sg(s) {} Real operator()(const VectorN<Real, N>& x) const override { double b[8]; for (int i = 0; i < N; i++) b[i] = x[i]; o.nf++; double v = o.val(b); o.best = std::min(o.best, v); return sg * v; } };
template<int N> struct DF : IDifferentiableScalarFunction<N> { const Obj& o; DF(const Obj& O) : o(O) {} Real operator()(const VectorN<Real, N>& x) const override { double b[8]; for (int i = 0; i < N; i++) b[i] = x[i]; o.nf++; double v = o.val(b); o.best = std::min(o.best, v); return v; } void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& g) const override { double b[8]; L d[8]; for (int i = 0; i < N; i++) b[i] = x[i]; o.dphi(b, d); o.ng++; for (int i = 0; i < N; i++) g[i] = (double)(o.A * d[i]); } };
static const char* nm[] = {"simplex", "simplex_deltas", "simplex_matrix", "simplex_max", "powell", "cg_pr", "cg_fr", "bfgs", "lbfgs", "cfg_simplex", "cfg_simplex_max", "cfg_powell", "cfg_cg", "cfg_bfgs", "cfg_lbfgs"};
template<int N> static MultidimMinimizationResult go(mon::Case& c, const Obj& o, int how, const VectorN<Real, N>& x0, double tol, int maxit, double delta) { auto& r = c.r; F<N> f(o), nf(o, -1); DF<N> d(o); MultidimOptimizationConfig cf(tol, maxit); cf.initial_delta = delta; cf.lbfgs_memory_size = (int)r.i(1, 12); double gt = 1e-8;
	switch (how) { case 0: { NelderMead m(tol, maxit); return m.Minimize(f, x0, delta); } case 1: { NelderMead m(tol, maxit); Vector<Real> dl(N); for (int i = 0; i < N; i++) dl[i] = delta * r.uni(.5, 2) * (r.coin() ? 1 : -1); return m.Minimize(f, x0, dl); }
	case 2: { NelderMead m(tol, maxit); Matrix<Real> S(N + 1, N); for (int i = 0; i <= N; i++) for (int j = 0; j < N; j++) S(i, j) = x0[j] + (i == j + 1 ? delta : 0) + r.uni(-.1, .1) * delta * (i > 0); return m.Minimize(f, S); }
	case 3: return NelderMeadMaximize<N>(nf, x0, delta, tol); case 4: { Powell m(tol, maxit); return m.Minimize(f, x0); } case 5: case 6: { ConjugateGradient m(tol, gt, maxit, how == 5 ? ConjugateGradient::Method::PolakRibiere : ConjugateGradient::Method::FletcherReeves); return m.Minimize(d, x0); }
	case 7: { BFGS m(tol, gt, maxit); return m.Minimize(d, x0); } case 8: { LBFGS m(tol, gt, maxit, cf.lbfgs_memory_size); return m.Minimize(d, x0); } case 9: return NelderMeadMinimize<N>(f, x0, cf); case 10: return NelderMeadMaximize<N>(nf, x0, cf); case 11: return PowellMinimize<N>(f, x0, cf); case 12: return ConjugateGradientMinimize<N>(d, x0, cf, r.coin() ? ConjugateGradient::Method::PolakRibiere : ConjugateGradient::Method::FletcherReeves); case 13: return BFGSMinimize<N>(d, x0, cf); default: return LBFGSMinimize<N>(d, x0, cf); } }
// runs one minimization and checks everything that must always hold; returns excess over the true minimum, or -1 when it reported failure
template<int N> static double one(mon::Case& c, Obj& o, int how, const VectorN<Real, N>& x0, double tol, int maxit, double delta) { std::string key = nm[how]; double b[8]; for (int i = 0; i < N; i++) b[i] = x0[i]; double f0 = o.val(b); o.nf = o.ng = 0; o.best = INFINITY; MultidimMinimizationResult R;
	try { R = go<N>(c, o, how, x0, tol, maxit, delta); } catch (const std::exception& e) { c.ev("threw"); c.check(!std::isfinite(f0) || o.kind == 3, key + "_threw", e.what()); return -2; }
	double sg = how == 3 || how == 10 ? -1 : 1; c.check(R.xmin.size() == N, key + "_dimension"); if (R.xmin.size() != N) return -1; for (int i = 0; i < N; i++) b[i] = R.xmin[i]; double v = o.val(b), lim = 1e-13 * (std::fabs(v) + 1) ; bool line = how >= 4 && how != 9 && how != 10;
	for (int i = 0; i < N; i++) if (!c.check(std::isfinite(b[i]), key + "_point_finite")) return -1;
	// the reported value is the objective at the reported point (line searches re-add the step, so a rounding of the point is allowed)
	double hr = 0; for (int i = 0; i < N; i++) hr = std::max(hr, std::fabs(b[i])); c.check(line ? std::fabs(R.fmin - v) <= lim + 1e-13 * o.lip() * (1 + hr) * (1 + hr + 5) * 10 : sg * R.fmin == v, key + "_value_is_objective_at_point", [&] { std::ostringstream s; s.precision(17); s << R.fmin << " vs " << v; return s.str(); });
	if (how != 2) c.check(v <= f0 + lim, key + "_worse_than_start"); c.check(v >= o.best - (line ? 1e300 : 0) && v >= o.B - 1e-12 * (1 + std::fabs(o.B)), key + "_below_all_evaluations"); if (!line) c.check(v <= o.best, key + "_best_vertex_not_returned");
	bool nm_ = how <= 3 || how == 9 || how == 10; if (how != 3) c.check(R.iterations <= maxit + (nm_ ? 2 * N + 3 : 0) || (nm_ && R.iterations <= N + 1), key + "_iteration_limit", [&] { return std::to_string(R.iterations); }); if (!R.converged && !nm_) c.check(R.iterations == maxit, key + "_unconverged_iterations");
	if (how >= 9) { c.check(R.function_evaluations == (int)o.nf, key + "_evaluation_count", [&] { return std::to_string(R.function_evaluations) + " vs " + std::to_string(o.nf); }); c.check(R.converged == (R.status == AlgorithmStatus::Success), key + "_status"); c.check(R.error_message.empty() == R.converged, key + "_message"); } else if (nm_) c.check(R.iterations == (int)o.nf, key + "_evaluation_count");
	c.ev(R.converged ? "converged" : "unconverged"); return R.converged ? std::max(0., v - (o.B + 0.)) : -1; }
template<class Fn> static void dim(int n, Fn f) { switch (n) { case 1: f(std::integral_constant<int, 1>()); break; case 2: f(std::integral_constant<int, 2>()); break; case 3: f(std::integral_constant<int, 3>()); break; case 4: f(std::integral_constant<int, 4>()); break; default: f(std::integral_constant<int, 5>()); } }
// batches of convex problems: reported convergence means the true minimum was reached
FAMILY(convex, 300) { auto& r = c.r; int how = (int)r.i(0, 14); c.in("how", how); double tol = r.coin(.3) ? 1e-8 : std::pow(10, -r.uni(5, 12)); c.in("tol", tol); int conv = 0, good = 0, tot = 0; dim((int)r.i(1, 5), [&](auto I) { constexpr int N = decltype(I)::value; for (int k = 0; k < 20; k++) { Obj o; o.gen(c, N); VectorN<Real, N> x0; double rad = r.coin(.2) ? r.pmag(-2, 2) : 2; for (int i = 0; i < N; i++) x0[i] = o.m[i] + rad * r.uni(-1, 1); if (o.kind == 3) for (int i = 0; i < N; i++) x0[i] = std::min(x0[i], o.m[i] + 3.9); double b[8]; for (int i = 0; i < N; i++) b[i] = x0[i]; double f0 = o.val(b); c.in("x0", std::vector<double>(b, b + N));
	double ex = one<N>(c, o, how, x0, tol, 5000, r.pick({.3, 1., 2.})); tot++; if (ex == -2) { tot--; continue; } if (ex < 0) { continue; } conv++; double lim = 1e3 * tol * (1 + std::fabs(o.B)) + 1e-11 * (1 + std::fabs(o.B) + o.A); if (ex <= lim) good++; c.maxi(nm[how], ex / lim); bool gross = ex <= 1e-2 * (f0 - o.B) + 1e3 * lim; if (how <= 3 || how == 9 || how == 10) { if (!gross) c.ev("gross_simplex"); } else if (o.kind != 4) c.check(gross, std::string(nm[how]) + "_false_convergence", [&] { std::ostringstream s; s << "excess " << ex << " from " << f0 - o.B; return s.str(); }); } });
	c.ev("batch"); c.check(conv >= .6 * tot, std::string(nm[how]) + "_batch_convergence_rate", [&] { return std::to_string(conv); }); c.check(good >= (how == 5 || how == 6 || how == 12 ? .65 : .8) * conv, std::string(nm[how]) + "_batch_minimum_reached", [&] { return std::to_string(good) + " of " + std::to_string(conv); }); }
// objectives whose values are tiny throughout: a relative tolerance stays relative
FAMILY(tiny_values, 60) { auto& r = c.r; int how = r.pick({0, 1, 3, 4, 9, 11}); c.in("how", how); double tol = std::pow(10, -r.uni(6, 12)), sc = std::pow(10, -r.uni(7, 12)); c.in("tol", tol); c.in("sc", sc); int conv = 0, good = 0, tot = 0; dim((int)r.i(1, 4), [&](auto I) { constexpr int N = decltype(I)::value; for (int k = 0; k < 20; k++) { Obj o; o.gen(c, N); o.kind = (int)r.i(0, 2); o.A *= sc; o.B *= sc; VectorN<Real, N> x0; for (int i = 0; i < N; i++) x0[i] = o.m[i] + r.uni(-2, 2); double ex = one<N>(c, o, how, x0, tol, 20000, r.pick({.3, 1., 2.})); tot++; if (ex < 0) continue; conv++; double lim = 1e3 * tol * (std::fabs(o.B) + (how == 4 || how == 11 ? 0 : 1e-10)) + 1e-8 * o.A; c.maxi("tiny", ex / lim); good += ex <= lim; } }); c.ev("tiny_batch"); c.check(conv >= .6 * tot, std::string(nm[how]) + "_tiny_convergence_rate", [&] { return std::to_string(conv); }); c.check(good >= .8 * conv, std::string(nm[how]) + "_tiny_minimum_reached", [&] { return std::to_string(good) + " of " + std::to_string(conv); }); }
// small iteration limits are honoured and reported
FAMILY(limits, 800) { auto& r = c.r; int how = (int)r.i(0, 14); c.in("how", how); int mi = (int)r.i(1, 15); c.in("maxit", mi); dim((int)r.i(2, 5), [&](auto I) { constexpr int N = decltype(I)::value; Obj o; o.gen(c, N); if (o.kind == 3) o.kind = 0; VectorN<Real, N> x0; for (int i = 0; i < N; i++) x0[i] = o.m[i] + 20 * r.uni(-1, 1); double b[8]; for (int i = 0; i < N; i++) b[i] = x0[i]; double f0 = o.val(b); double ex = one<N>(c, o, how, x0, 1e-10, mi, 1); if (ex >= 0) { c.ev("quick_convergence"); c.check(ex <= 1e-3 * (f0 - o.B) + 1e-6, std::string(nm[how]) + "_limit_false_convergence", [&] { return std::to_string(ex) + " from " + std::to_string(f0 - o.B); }); } else c.ev("limit_reported"); }); }
// symmetric starts, steep scales, saddle-free flats, starting at the minimizer
FAMILY(special, 1000) { auto& r = c.r; int how = (int)r.i(0, 14), k = (int)r.i(0, 3); c.in("how", how); c.in("k", k); dim((int)r.i(1, 4), [&](auto I) { constexpr int N = decltype(I)::value; Obj o; o.gen(c, N); o.kind = 0; VectorN<Real, N> x0; double delta = 1;
	if (k == 0) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) o.H[i][j] = i == j; o.cond = 1; for (int i = 0; i < N; i++) x0[i] = o.m[i] - delta / 2; c.ev("symmetric"); } else if (k == 1) { o.A = r.pmag(4, 7); for (int i = 0; i < N; i++) x0[i] = o.m[i] + r.uni(-3, 3); c.ev("steep"); } else if (k == 2) { for (int i = 0; i < N; i++) x0[i] = o.m[i]; c.ev("at_minimizer"); } else { o.A = r.pmag(-4, -2); o.B = 0; for (int i = 0; i < N; i++) x0[i] = o.m[i] + r.uni(-3, 3); c.ev("flat"); }
	double b[8]; for (int i = 0; i < N; i++) b[i] = x0[i]; double f0 = o.val(b); c.in("x0", std::vector<double>(b, b + N)); double ex = one<N>(c, o, how, x0, 1e-10, 5000, delta); if (ex >= 0) c.check(ex <= 2e-2 * (f0 - o.B) + 1e-6 * (1 + std::fabs(o.B)) * 1 + 1e-11 * o.A, std::string(nm[how]) + "_special_false_convergence", [&] { std::ostringstream s; s << ex << " from " << f0 - o.B; return s.str(); }); else if (ex == -1) c.check(k == 1, std::string(nm[how]) + "_special_unconverged"); }); }
// objectives undefined or infinite outside a domain never hang a method or produce a non-finite answer
template<int N> struct Wall : IDifferentiableScalarFunction<N> { double m[8], lo; int kind; mutable long n = 0; Real operator()(const VectorN<Real, N>& x) const override { if (++n > 2000000) throw std::runtime_error("hang"); double s = 0; for (int i = 0; i < N; i++) { if (x[i] <= lo) return kind ? NAN : INFINITY; s += (x[i] - m[i]) * (x[i] - m[i]) - 1e-2 * std::log(x[i] - lo); } return s; } void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& g) const override { for (int i = 0; i < N; i++) g[i] = x[i] <= lo ? NAN : 2 * (x[i] - m[i]) - 1e-2 / (x[i] - lo); } };
FAMILY(walls, 500) { auto& r = c.r; int how = r.pick({0, 4, 5, 6, 7, 8}); c.in("how", how); dim((int)r.i(1, 4), [&](auto I) { constexpr int N = decltype(I)::value; Wall<N> w; w.kind = r.coin(); c.in("nan", w.kind); w.lo = r.uni(-1, 0); VectorN<Real, N> x0; std::vector<double> xv; for (int i = 0; i < N; i++) { w.m[i] = w.lo + r.pmag(-3, 0); x0[i] = w.lo + r.pmag(-2, 1); xv.push_back(x0[i]); } c.in("lo", w.lo); c.in("x0", xv); double f0 = w(x0); MultidimMinimizationResult R; c.ev("wall");
	try { switch (how) { case 0: R = NelderMead(1e-8, 5000).Minimize(w, x0, .5); break; case 4: R = Powell(1e-8, 500).Minimize(w, x0); break; case 5: R = ConjugateGradient(1e-8, 1e-8, 500).Minimize(w, x0); break; case 6: R = ConjugateGradient(1e-8, 1e-8, 500, ConjugateGradient::Method::FletcherReeves).Minimize(w, x0); break; case 7: R = BFGS(1e-8, 1e-8, 500).Minimize(w, x0); break; default: R = LBFGS(1e-8, 1e-8, 500).Minimize(w, x0); } }
	catch (const std::exception& e) { c.check(std::string(e.what()) != "hang", "wall_hang"); c.ev("wall_threw"); return; }
	bool fin = std::isfinite(R.fmin); for (int i = 0; i < N; i++) fin = fin && std::isfinite(R.xmin[i]); c.check(!R.converged || fin, std::string(nm[how]) + "_wall_nonfinite"); if (fin) { VectorN<Real, N> x; for (int i = 0; i < N; i++) x[i] = R.xmin[i]; double v = w(x); c.check(std::fabs(v - R.fmin) <= 1e-9 * (1 + std::fabs(v)), std::string(nm[how]) + "_wall_value"); c.check(v <= f0 + 1e-12 * (1 + std::fabs(f0)), std::string(nm[how]) + "_wall_worse"); if (R.converged) c.ev("wall_converged"); } }); }
// bad inputs are rejected
FAMILY(rejects, 300) { auto& r = c.r; Obj o; o.gen(c, 2); F<2> f(o); DF<2> d(o); VectorN<Real, 2> x{.5, .5}, bad{.5, .5}; bad[(int)r.i(0, 1)] = r.coin() ? NAN : r.coin() ? INFINITY : -INFINITY; double bt = r.pick({0., -1e-3, (double)NAN}); int bm = -(int)r.i(0, 3); auto rej = [&](auto fn, const char* key) { try { fn(); c.fail(key); } catch (const std::exception&) { c.ev("rejected"); } };
	rej([&] { NelderMead(1e-8).Minimize(f, bad, 1.); }, "simplex_bad_start"); rej([&] { Powell().Minimize(f, bad); }, "powell_bad_start"); rej([&] { ConjugateGradient().Minimize(d, bad); }, "cg_bad_start"); rej([&] { BFGS().Minimize(d, bad); }, "bfgs_bad_start"); rej([&] { LBFGS().Minimize(d, bad); }, "lbfgs_bad_start");
	rej([&] { NelderMead(bt).Minimize(f, x, 1.); }, "simplex_bad_tol"); rej([&] { Powell(bt).Minimize(f, x); }, "powell_bad_tol"); rej([&] { ConjugateGradient(bt).Minimize(d, x); }, "cg_bad_tol"); rej([&] { BFGS(bt).Minimize(d, x); }, "bfgs_bad_tol"); rej([&] { LBFGS(bt).Minimize(d, x); }, "lbfgs_bad_tol");
	rej([&] { NelderMead(1e-8, bm).Minimize(f, x, 1.); }, "simplex_bad_max"); rej([&] { Powell(1e-8, bm).Minimize(f, x); }, "powell_bad_max"); rej([&] { ConjugateGradient(1e-8, 1e-8, bm).Minimize(d, x); }, "cg_bad_max"); rej([&] { BFGS(1e-8, 1e-8, bm).Minimize(d, x); }, "bfgs_bad_max"); rej([&] { LBFGS(1e-8, 1e-8, bm).Minimize(d, x); }, "lbfgs_bad_max"); rej([&] { LBFGS(1e-8, 1e-8, 10, bm).Minimize(d, x); }, "lbfgs_bad_memory");
	rej([&] { NelderMead().Minimize(f, x, r.coin() ? 0. : NAN); }, "simplex_bad_delta"); rej([&] { Vector<Real> dl((int)r.pick({1, 3, 4})); for (int i = 0; i < dl.size(); i++) dl[i] = 1; NelderMead().Minimize(f, x, dl); }, "simplex_bad_deltas"); rej([&] { Matrix<Real> S((int)r.pick({2, 4}), (int)r.i(1, 3)); NelderMead().Minimize(f, x, 0 * S(0, 0)); }, "simplex_zero_delta"); rej([&] { Matrix<Real> S(3, (int)r.pick({1, 3})); NelderMead().Minimize(f, S); }, "simplex_bad_matrix");
	struct NaNF : IDifferentiableScalarFunction<2> { Real operator()(const VectorN<Real, 2>&) const override { return NAN; } void Gradient(const VectorN<Real, 2>&, VectorN<Real, 2>& g) const override { g[0] = g[1] = NAN; } } z; rej([&] { NelderMead().Minimize(z, x, 1.); }, "simplex_nan"); rej([&] { Powell().Minimize(z, x); }, "powell_nan"); rej([&] { ConjugateGradient().Minimize(z, x); }, "cg_nan"); rej([&] { BFGS().Minimize(z, x); }, "bfgs_nan"); rej([&] { LBFGS().Minimize(z, x); }, "lbfgs_nan"); }
MON_MAIN()
