// C39: least-squares fits against long-double solutions and designed singular values
#include "mon.h"
#include "la.h"
#include "mml/algorithms/CurveFitting.h"
using namespace MML; typedef long double L; typedef Vector<Real> V;
static double lim(double x) { return std::isfinite(x) ? x : 1e300; }
struct Good { L rss, tss, r2, flat; };
// goodness of fit recomputed from residuals in long double
static Good good(const std::vector<L>& res, const std::vector<double>& y) { Good g{0, 0, 0, 0}; L m = 0, mx = 0; int n = y.size(); for (double v : y) { m += v; mx = std::max(mx, fabsl(v)); } m /= n; for (int i = 0; i < n; i++) { g.rss += res[i] * res[i]; g.tss += (y[i] - m) * (y[i] - m); } g.r2 = g.tss > 0 ? 1 - g.rss / g.tss : 1; g.flat = n * mx * mx; return g; }
static void figures(mon::Case& c, const Good& g, double rn, double mse, double r2, int m) {
	double es = 1e-12 * std::sqrt((double)g.flat);      // rounding of the predictions
	c.close(rn, (double)sqrtl(g.rss), es + 1e-12 * (double)sqrtl(g.rss), "residual_norm"); double ms = (double)(g.rss / m); c.close(mse, ms, 1e-11 * ms + es * es + 4 * es * std::sqrt(ms), "mse");
	if (g.tss > 1e-16L * g.flat) { double t = 4e-12 * (1 + (double)(g.flat / g.tss) * 1e-3 + (double)fabsl(g.r2)) + es * es / (double)g.tss + 2 * es * (double)(sqrtl(g.rss) / g.tss); c.close(r2, (double)g.r2, t, "r_squared"); c.check(r2 <= 1 + 1e-12, "r_squared_range"); c.ev("r_squared"); } }
FAMILY(line, 4000) { auto& r = c.r; int n = (int)r.i(2, 40); double sp = r.pmag(-12, 12), off = r.coin(.5) ? sp * r.logmag(0, 6) : 0, ys = r.pmag(-12, 12); double a = r.normal() * ys / sp, yo = r.coin(.4) ? ys * r.logmag(0, 5) : 0, noise = r.pick({0., 1e-3, .3, 3.}) * ys; if (r.coin(.1)) a = 0;
	std::vector<double> x(n), y(n); for (int i = 0; i < n; i++) { x[i] = off + sp * (r.coin(.5) ? r.uni(-1, 1) : (double)i); if (i && r.coin(.1)) x[i] = x[r.i(0, i - 1)]; } bool two = false; for (double v : x) two |= std::fabs(v - x[0]) > 1e-3 * sp; if (!two) { x[0] = off - sp; x[1] = off + sp; } for (int i = 0; i < n; i++) y[i] = yo + a * (x[i] - off) + noise * r.normal(); c.in("x", x); c.in("y", y);
	L mx = 0, my = 0; for (int i = 0; i < n; i++) { mx += x[i]; my += y[i]; } mx /= n; my /= n; L sxx = 0, sxy = 0, ay = 0, ax = 0; for (int i = 0; i < n; i++) { sxx += (x[i] - mx) * (x[i] - mx); sxy += (x[i] - mx) * (y[i] - my); ay = std::max(ay, fabsl(y[i])); ax = std::max(ax, fabsl(x[i])); } L A = sxy / sxx, B = my - A * mx; double sx = (double)sqrtl(sxx);
	double ga, gb; double rn = LinearLeastSquares(V(x), V(y), ga, gb); double ta = 1e-13 * n * (double)(ay / sx + fabsl(A) * (1 + ax * 1e-2 / sx)); if (n == 2) ta *= 10; c.close(ga, (double)A, ta, "slope"); c.close(gb, (double)B, ta * (double)ax + 1e-13 * (double)(ay + fabsl(A) * ax), "intercept"); c.ev("line"); if (ax > 1e3L * sx) c.ev("far_from_origin");
	std::vector<L> res(n); L s0 = 0, s1 = 0; for (int i = 0; i < n; i++) { res[i] = y[i] - (A * x[i] + B); } Good g = good(res, y); g.flat += n * A * A * ax * ax; double es = 1e-12 * (double)sqrtl(g.flat); c.close(rn, (double)sqrtl(g.rss), es + 1e-12 * (double)sqrtl(g.rss), "norm"); (void)s0; (void)s1;
	auto d = LinearLeastSquaresDetailed(V(x), V(y)); c.check(d.a == ga && d.b == gb && d.residual_norm == rn, "detailed_same"); figures(c, g, d.residual_norm, d.mean_squared_error, d.r_squared, n); auto e = LinearFitDetailed(V(x), V(y)); c.check(e.status == AlgorithmStatus::Success && e.coefficients.size() == 2 && e.coefficients[0] == ga && e.coefficients[1] == gb && e.r_squared == d.r_squared && e.mean_squared_error == d.mean_squared_error && e.residual_norm == rn, "wrapper_same");
	// powers of two change the units and nothing else
	int kx = (int)r.i(-30, 30), ky = (int)r.i(-30, 30); std::vector<double> x2(x), y2(y); for (auto& v : x2) v = std::ldexp(v, kx); for (auto& v : y2) v = std::ldexp(v, ky); auto d2 = LinearLeastSquaresDetailed(V(x2), V(y2)); c.close(d2.a, std::ldexp(ga, ky - kx), 1e-13 * std::fabs(std::ldexp(ga, ky - kx)), "units_slope"); c.close(d2.b, std::ldexp(gb, ky), 1e-13 * std::ldexp(std::fabs(gb), ky), "units_intercept"); c.close(d2.r_squared, d.r_squared, 1e-13, "units_r2"); c.ev("units"); }
FAMILY(line_degenerate, 500) { auto& r = c.r; int n = (int)r.i(3, 200); double x0 = r.logmag(-8, 8); std::vector<double> x(n, x0), y(n); for (auto& v : y) v = r.normal(); c.in("x0", x0); c.in("n", n); double a, b; c.throws<SingularMatrixError>([&] { LinearLeastSquares(V(x), V(y), a, b); }, "identical_accepted"); CurveFittingConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto e = LinearFitDetailed(V(x), V(y), cf); c.check(e.status == AlgorithmStatus::SingularMatrix, "identical_status"); y.pop_back(); c.throws<CurveFittingError>([&] { LinearLeastSquares(V(x), V(y), a, b); }, "mismatch"); c.throws<CurveFittingError>([&] { V q, w; LinearLeastSquares(q, w, a, b); }, "empty"); e = LinearFitDetailed(V(x), V(y), cf); c.check(e.status == AlgorithmStatus::InvalidInput && !e.error_message.empty(), "mismatch_status"); c.throws<CurveFittingError>([&] { LinearFitDetailed(V(x), V(y)); }, "mismatch_propagates"); c.ev("degenerate");
	V p(1), q(1); p[0] = x0; q[0] = y[0]; LinearLeastSquares(p, q, a, b); c.check(a * x0 + b == y[0], "one_point"); }
// design matrices with prescribed singular values, looked up through the basis functions
struct Col : IRealFunction { const la::M* A; int j; Real operator()(Real x) const override { return (double)(*A)((int)std::lround(x), j); } };
FAMILY(design, 2500) { auto& r = c.r; int n = (int)r.i(1, 7), m = n + (int)r.pick({0, 0, 1, 2, 5, 20}); int def = n > 1 && r.coin(.25) ? (int)r.i(1, n - 1) : 0, k = n - def; double sc = r.pmag(-6, 6), cond = k > 1 ? r.pmag(0, 7) : 1; la::M Q = la::orth(r, m, n), W = la::orth(r, n, n); std::vector<L> s(n, 0); for (int i = 0; i < k; i++) s[i] = sc * powl(cond, k > 1 ? -(L)i / (k - 1) : 0); la::M A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { L t = 0; for (int q = 0; q < n; q++) t += Q(i, q) * s[q] * W(j, q); A(i, j) = (double)t; }
	double ys = r.pmag(-6, 6); std::vector<double> x(m), y(m); std::vector<L> ct(n); for (auto& v : ct) v = r.normal(); bool exact = r.coin(.3); for (int i = 0; i < m; i++) { x[i] = i; if (exact) { L t = 0; for (int j = 0; j < n; j++) t += A(i, j) * ct[j]; y[i] = (double)t; } else y[i] = ys * r.normal(); } c.in("m", m); c.in("n", n); c.in("rank", k); c.in("cond", cond); c.in("y", y);
	// pseudo-inverse solution from the known factors
	std::vector<L> cs(n, 0); L cn = 0, yn = 0; for (int i = 0; i < m; i++) yn += (L)y[i] * y[i]; yn = sqrtl(yn); for (int q = 0; q < k; q++) { L t = 0; for (int i = 0; i < m; i++) t += Q(i, q) * y[i]; for (int j = 0; j < n; j++) cs[j] += W(j, q) * t / s[q]; } for (L v : cs) cn += v * v; cn = sqrtl(cn); std::vector<L> res(m); L rn = 0; for (int i = 0; i < m; i++) { L t = y[i]; for (int j = 0; j < n; j++) t -= A(i, j) * cs[j]; res[i] = t; rn += t * t; } rn = sqrtl(rn);
	bool ptr = r.coin(.5); GeneralLinearFitResult<Real> f; std::vector<Col> cols(n); Vector<const IRealFunction*> bp(n); Vector<std::function<Real(Real)>> bf(n); for (int j = 0; j < n; j++) { cols[j].A = &A; cols[j].j = j; bp[j] = &cols[j]; Col cj = cols[j]; bf[j] = [cj](Real t) { return cj(t); }; } f = ptr ? GeneralLinearLeastSquares(V(x), V(y), bp) : GeneralLinearLeastSquares(V(x), V(y), bf);
	double tc = 1e-13 * (m + n) * (double)(cond * cn + cond * yn / sc + cond * cond * rn / sc); if (!c.check(f.coefficients.size() == n && f.num_data_points == m && f.num_basis_functions == n, "shape")) return; for (int j = 0; j < n; j++) c.close(f.coefficients[j], (double)cs[j], tc, "coefficients"); c.ev(def ? "rank_deficient" : "full_rank");
	// the residual of the returned coefficients is orthogonal to every basis function
	std::vector<L> rr(m); for (int i = 0; i < m; i++) { L t = y[i]; for (int j = 0; j < n; j++) t -= A(i, j) * f.coefficients[j]; rr[i] = t; } L fn = 0; for (int j = 0; j < n; j++) fn += (L)f.coefficients[j] * f.coefficients[j]; fn = sqrtl(fn); for (int j = 0; j < n; j++) { L g = 0; for (int i = 0; i < m; i++) g += A(i, j) * rr[i]; c.check(fabsl(g) <= 1e-12L * m * sc * (sc * fn + yn), "not_optimal", [&] { return std::to_string((double)(g / (sc * (sc * fn + yn)))); }); } c.ev("optimality");
	c.check(f.effective_rank == k, "rank", [&] { return std::to_string(f.effective_rank); }); c.close(f.condition_number, cond, 1e-7 * cond + 1e-13 * m * cond * cond, "condition");
	Good g = good(rr, y); g.flat += sc * sc * fn * fn * m; figures(c, g, f.residual_norm, f.mean_squared_error, f.r_squared, m); if (g.tss > 1e-16L * g.flat) { double want = m > n ? 1 - (1 - f.r_squared) * (m - 1.) / (m - n) : f.r_squared; c.close(f.adjusted_r_squared, want, 1e-11 * (1 + std::fabs(want)), "adjusted_r_squared"); }
	int i = (int)r.i(0, m - 1); double pred = (double)(y[i] - rr[i]), tp = 1e-12 * (double)(sc * fn + std::fabs(y[i])); c.close(f.evaluate(x[i], bp), pred, tp, "evaluate"); c.close(f.evaluate(x[i], bf), pred, tp, "evaluate"); Vector<const IRealFunction*> few(n + 1); c.throws<CurveFittingError>([&] { f.evaluate(0, few); }, "evaluate_mismatch");
	auto d = GeneralLinearFitDetailed(V(x), V(y), bf); bool same = d.status == AlgorithmStatus::Success && d.coefficients.size() == n && d.effective_rank == k; auto h = ptr ? GeneralLinearLeastSquares(V(x), V(y), bf) : f; for (int j = 0; same && j < n; j++) same &= d.coefficients[j] == h.coefficients[j]; c.check(same && d.r_squared == h.r_squared && d.mean_squared_error == h.mean_squared_error && d.adjusted_r_squared == h.adjusted_r_squared && d.residual_norm == h.residual_norm && d.condition_number == h.condition_number, "wrapper_same");
	// too few points, empty, mismatched
	if (n > 1) { V xs(n - 1), yy(n - 1); for (int q = 0; q < n - 1; q++) { xs[q] = q; yy[q] = y[q]; } c.throws<CurveFittingError>([&] { GeneralLinearLeastSquares(xs, yy, bf); }, "too_few"); c.throws<CurveFittingError>([&] { GeneralLinearLeastSquares(xs, yy, bp); }, "too_few"); CurveFittingConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; c.check(GeneralLinearFitDetailed(xs, yy, bf, cf).status == AlgorithmStatus::InvalidInput, "too_few_status"); V ye(n); c.throws<CurveFittingError>([&] { GeneralLinearLeastSquares(xs, ye, bf); }, "mismatch"); c.ev("too_few"); } }
FAMILY(poly, 1500) { auto& r = c.r; int deg = (int)r.i(0, 6), m = deg + 1 + (int)r.pick({0, 1, 3, 10, 30}); double xs = r.pmag(-2, 2); std::vector<double> x(m), y(m), p(deg + 1); for (int i = 0; i < m; i++) x[i] = xs * (-1 + 2. * (i + .5 * r.u01()) / m); for (int j = 0; j <= deg; j++) p[j] = r.normal() * std::pow(xs, -j); bool exact = r.coin(.5); L my = 0; for (int i = 0; i < m; i++) { L t = 0; for (int j = deg; j >= 0; j--) t = t * x[i] + p[j]; y[i] = (double)t + (exact ? 0 : .1 * r.normal()); my = std::max(my, fabsl(y[i])); } c.in("x", x); c.in("y", y); c.in("deg", deg); auto f = PolynomialFit(V(x), V(y), deg); if (!c.check(f.coefficients.size() == deg + 1, "shape")) return; std::vector<L> rr(m); double slack = 1e-10 * std::pow(std::max(xs, 1 / xs), (double)deg); slack = std::min(slack, 1e-3); for (int i = 0; i < m; i++) { L t = 0; for (int j = deg; j >= 0; j--) t = t * x[i] + f.coefficients[j]; rr[i] = y[i] - t; c.close(EvaluatePolynomial(x[i], f.coefficients), (double)t, 1e-13 * (double)(my + fabsl(t)) * (deg + 1), "evaluate"); if (exact) c.check(fabsl(rr[i]) <= slack * my, "exact_model", [&] { return std::to_string((double)(rr[i] / my)); }); } if (exact) c.ev("exact_model"); if (m == deg + 1) { for (int i = 0; i < m; i++) c.check(fabsl(rr[i]) <= std::max(1e-8, slack) * my, "interpolation", [&] { return std::to_string((double)(rr[i] / my)); }); c.ev("interpolation"); }
	if (slack < 1e-5) for (int j = 0; j <= deg; j++) { L g = 0; for (int i = 0; i < m; i++) g += powl(x[i] / xs, j) * rr[i]; c.check(fabsl(g) <= slack * m * my, "not_optimal", [&] { return std::to_string((double)(g / my)); }); }
	auto d = PolynomialFitDetailed(V(x), V(y), deg); bool same = d.status == AlgorithmStatus::Success && d.coefficients.size() == deg + 1; for (int j = 0; same && j <= deg; j++) same &= d.coefficients[j] == f.coefficients[j]; c.check(same && d.r_squared == f.r_squared && d.effective_rank == f.effective_rank, "wrapper_same"); c.throws<CurveFittingError>([&] { PolynomialFit(V(x), V(y), -1 - (int)r.i(0, 3)); }, "negative_degree"); c.throws<CurveFittingError>([&] { PolynomialFit(V(x), V(y), m); }, "too_few"); CurveFittingConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; c.check(PolynomialFitDetailed(V(x), V(y), m, cf).status == AlgorithmStatus::InvalidInput, "too_few_status"); V z; c.check(EvaluatePolynomial(3.0, z) == 0, "empty_polynomial"); c.ev("poly"); }
// constant data are fitted perfectly, wherever they lie
FAMILY(flat, 400) { auto& r = c.r; int n = (int)r.i(3, 30); double v = r.coin(.1) ? 0 : r.logmag(-10, 10); std::vector<double> x(n), y(n, v); for (int i = 0; i < n; i++) x[i] = i + r.uni(-.3, .3); c.in("v", v); c.in("n", n); auto d = LinearLeastSquaresDetailed(V(x), V(y)); c.check(d.r_squared == 1, "r_squared"); c.close(d.b, v, 1e-12 * std::fabs(v), "intercept"); c.close(d.a, 0, 1e-12 * std::fabs(v), "slope"); auto p = PolynomialFit(V(x), V(y), (int)r.i(0, 2)); c.check(p.r_squared == 1 && p.adjusted_r_squared == 1, "poly_r_squared"); c.ev("flat"); }
MON_MAIN()
