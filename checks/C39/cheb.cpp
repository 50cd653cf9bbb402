// C39: Chebyshev expansions and orthogonal polynomial bases
#include "mon.h"
#include <boost/math/special_functions/legendre.hpp>
#include <boost/math/special_functions/hermite.hpp>
#include <boost/math/special_functions/laguerre.hpp>
#include <boost/math/special_functions/chebyshev.hpp>
#include "mml/algorithms/ChebyshevApproximation.h"
#include "mml/core/OrthogonalBasis/ChebyshevBasis.h"
#include "mml/core/OrthogonalBasis/HermiteBasis.h"
#include "mml/core/OrthogonalBasis/LaguerreBasis.h"
#include "mml/core/OrthogonalBasis/LegendreBasis.h"
using namespace MML; typedef long double L; typedef Vector<Real> V; typedef ChebyshevApproximation CA;
static const L PI = acosl(-1.0L);
struct Fn : IRealFunction { std::function<Real(Real)> f; Fn(std::function<Real(Real)> g) : f(g) {} Real operator()(Real x) const override { return f(x); } };
// series value by definition: c0/2 + sum c_k cos(k acos y)
static L series(const std::vector<double>& k, L y, int m, int d = 0) { L s = 0; y = std::max(-1.0L, std::min(1.0L, y)); L T0 = 1, T1 = y, U0 = 1, U1 = 2 * y; (void)U1; if (d == 0) { s = .5L * k[0]; for (int j = 1; j < m; j++) { s += k[j] * T1; L t = 2 * y * T1 - T0; T0 = T1; T1 = t; } return s; } // derivative: T_j' = j U_{j-1}
	L a = 1, b = 2 * y; for (int j = 1; j < m; j++) { s += k[j] * j * a; L t = 2 * y * b - a; a = b; b = t; } (void)U0; return s; }
static L anti(int j, L y) { L th = acosl(std::max(-1.0L, std::min(1.0L, y))); if (j == 0) return y; if (j == 1) return y * y / 2; return cosl((j + 1) * th) / (2 * (j + 1)) - cosl((j - 1) * th) / (2 * (j - 1)); }
static void dom(mon::Case& c, double& a, double& b) { auto& r = c.r; double w = r.pmag(-4, 4); a = r.coin(.3) ? -1 : r.coin(.5) ? r.uni(-3, 3) * w : r.logmag(-3, 3) * w; b = a == -1 ? 1 : a + w; c.in("a", a); c.in("b", b); }
// expansions given by coefficients: evaluation, truncation, calculus
FAMILY(series, 3000) { auto& r = c.r; int n = (int)r.pick({1, 1, 2, 2, 3, 4, 7, 15, 40, 90}); double a, b; dom(c, a, b); std::vector<double> k(n); double dec = r.pick({1., .9, .5, .1}); for (int j = 0; j < n; j++) k[j] = r.normal() * std::pow(dec, j); c.in("coef", k); CA f{V(k), a, b}; c.check(f.NumCoefficients() == n && f.degree() == n - 1 && f.NumTerms() == n && f.TruncatedDegree() == n - 1 && f.DomainMin() == a && f.DomainMax() == b, "accessors"); int m = n; if (r.coin(.5)) { if (r.coin(.5)) { m = (int)r.i(1, n); f.SetNumTerms(m); } else { double th = r.pmag(-6, 1); m = n; while (m > 1 && std::fabs(k[m - 1]) < th) m--; c.check(f.Truncate(th) == m, "truncate"); } c.ev("truncated"); } c.in("terms", m); c.check(f.NumTerms() == m && f.TruncatedDegree() == m - 1 && f.NumCoefficients() == n, "terms");
	L w = (L)b - a, S = 0, SD = 0; for (int j = 0; j < m; j++) { S += fabsl(k[j]); SD += fabsl(k[j]) * j * j; } double off = std::max(std::fabs(a), std::fabs(b)) / (double)w; double ey = 4e-16 * (1 + off); // error of the scaled variable
	CA d = f.Derivative(), g = f.Integral(); c.check(d.DomainMin() == a && d.DomainMax() == b && g.DomainMin() == a && g.DomainMax() == b, "calculus_domain"); auto pl = f.ToPolynomial(); c.check(pl.degree() <= m - 1, "polynomial_degree");
	for (int q = 0; q < 6; q++) { double x = q == 0 ? a : q == 1 ? b : std::min(b, std::max(a, a + r.u01() * (b - a))); c.in("x", x); L y = (2 * (L)x - a - b) / w; double tol = 2e-15 * m * (double)S + ey * (double)SD; c.close(f(x), (double)series(k, y, m), tol, "value"); int e = (int)r.i(1, m); c.close(f.Eval(x, e), (double)series(k, y, e), tol, "value_terms"); L SDD = 0; for (int j = 0; j < m; j++) SDD += fabsl(k[j]) * powl(j, 4); c.close(d(x), (double)(series(k, y, m, 1) * 2 / w), (double)((1e-14 * m * SD + ey * SDD) * 2 / w), "derivative"); L I = .5L * k[0] * (y + 1); for (int j = 1; j < m; j++) I += k[j] * (anti(j, y) - anti(j, -1)); c.close(g(x), (double)(I * w / 2), (double)((5e-15 * m * S + ey * S) * w / 2), "integral");
		if (m <= 15) { L t = 0; for (int i = pl.degree(); i >= 0; i--) t = t * y + pl[i]; c.close((double)t, (double)series(k, y, m), 1e-15 * std::pow(2.5, m) * (double)S, "polynomial"); c.ev("polynomial"); } } c.ev("calculus");
	CA back = g.Derivative(); for (int q = 0; q < 3; q++) { double x = std::min(b, a + r.u01() * (b - a)); c.close(back(x), f(x), 1e-14 * (m + 1) * (m + 1) * (double)S * (1 + off), "derivative_of_integral"); } int e = (int)r.i(1, m); if (m <= 15) { auto pe = f.ToPolynomial(e); double y = r.uni(-1, 1); L t = 0; for (int i = pe.degree(); i >= 0; i--) t = t * y + pe[i]; c.close((double)t, (double)series(k, y, e), 1e-15 * std::pow(2.5, e) * (double)S, "polynomial_terms"); }
	c.throws<std::domain_error>([&] { f(a - .01 * (b - a) ); }, "outside"); c.throws<std::domain_error>([&] { f(b + .01 * (b - a)); }, "outside"); c.throws<std::domain_error>([&] { f.Eval(b + .01 * (b - a), 1); }, "outside"); c.throws<std::invalid_argument>([&] { f.Eval(a, r.pick({0, -1, m + 1})); }, "bad_terms"); c.throws<std::invalid_argument>([&] { f.SetNumTerms(r.pick({0, -2, n + 1})); }, "bad_terms"); c.throws<std::out_of_range>([&] { f.Coefficient(r.pick({-1, n})); }, "bad_index"); c.throws<std::invalid_argument>([&] { f.ToPolynomial(r.pick({0, n + 1})); }, "bad_terms"); int j = (int)r.i(0, n - 1); c.check(f.Coefficient(j) == k[j] && f.Coefficients()[j] == k[j], "coefficient"); }
// polynomials below the number of nodes come back exactly; any function is interpolated at the nodes
FAMILY(interp, 1500) { auto& r = c.r; int n = (int)r.pick({1, 2, 3, 5, 9, 20}), deg = (int)r.i(0, n - 1); double a, b; dom(c, a, b); std::vector<double> k(deg + 1); for (auto& v : k) v = r.normal(); c.in("n", n); c.in("coef", k); L w = (L)b - a; double off = std::max(std::fabs(a), std::fabs(b)) / (double)w; auto f = [&](double x) { return (double)series(k, (2 * (L)x - a - b) / w, deg + 1); }; CA p = r.coin(.5) ? CA(std::function<Real(Real)>(f), a, b, n) : CA(Fn(f), a, b, n); L S = 0, SD = 0; for (int j = 0; j <= deg; j++) { S += fabsl(k[j]); SD += fabsl(k[j]) * j * j; } double tol = 4e-15 * n * (double)S + 2e-15 * (1 + off) * (double)SD; for (int j = 0; j < n; j++) c.close(p.Coefficient(j), j <= deg ? k[j] : 0, tol, "coefficients"); double x = std::min(b, a + r.u01() * (b - a)); c.close(p(x), f(x), tol * n, "value"); c.ev("poly_exact");
	// rough function: agreement at the nodes only, MaxError is the largest sampled difference
	double q = r.uni(.3, 3); auto g = [&](double t) { double y = (2 * t - a - b) / (b - a); return std::fabs(y - .1 * q) + std::sin(q * y); }; CA s(std::function<Real(Real)>(g), a, b, n); V ro = ChebyshevRoots(n); c.check(ro.size() == n, "roots"); for (int i = 0; i < n; i++) { c.close(ro[i], (double)cosl(PI * (2 * i + 1) / (2.0L * n)), 4e-16, "roots"); double t = ro[i] * .5 * (b - a) + .5 * (a + b); if (t > a && t < b) c.close(s(t), g(t), 1e-13 * n * n * (1 + off), "nodes"); } V ex = ChebyshevExtrema(n); c.check(ex.size() == n + 1, "extrema"); for (int i = 0; i <= n; i++) c.close(ex[i], (double)cosl(PI * i / n), 4e-16, "extrema"); int ns = (int)r.i(1, 60); double me = 0; for (int i = 0; i <= ns; i++) { double t = std::min(b, a + i * (b - a) / ns); me = std::max(me, std::fabs(s(t) - g(t))); } if (a + ns * (b - a) / ns > b) c.ev("end-rounds-out"); { c.close(s.MaxError(std::function<Real(Real)>(g), ns), me, 1e-12 * (1 + off) * n * n, "max_error"); c.close(s.MaxError(Fn(g), ns), me, 1e-12 * (1 + off) * n * n, "max_error"); } c.ev("nodes");
	Polynom<Real> P(std::vector<Real>{r.normal(), r.normal(), r.normal()}); CA fp = CA::FromPolynomial(P, a, b); double M = std::max(std::fabs(a), std::fabs(b)), ps = std::fabs(P[0]) + M * std::fabs(P[1]) + M * M * std::fabs(P[2]); c.close(fp(x), P(x), 2e-14 * ps, "from_polynomial"); c.throws<std::invalid_argument>([&] { CA(std::function<Real(Real)>(f), b, a, 5); }, "reversed"); c.throws<std::invalid_argument>([&] { CA(V(k), b, a); }, "reversed"); c.throws<std::invalid_argument>([&] { CA(Fn(f), a, b, 0); }, "no_nodes"); c.throws<std::invalid_argument>([&] { V z; CA(z, a, b); }, "no_coefficients"); c.throws<std::invalid_argument>([&] { ChebyshevRoots(0); }, "no_nodes"); c.throws<std::invalid_argument>([&] { ChebyshevExtrema(0); }, "no_nodes"); }
// analytic functions: error below the ellipse bound 4 M rho^(1-n)/(rho-1)
FAMILY(analytic, 800) { auto& r = c.r; int n = (int)r.i(3, 60); double z = (r.coin(.5) ? -1 : 1) * (1 + r.pmag(-1.5, 1)); double rho = .6 * (std::fabs(z) + std::sqrt(z * z - 1)) + .4; double ax = .5 * (rho + 1 / rho), M = 1 / (std::fabs(z) - ax); double a, b; dom(c, a, b); c.in("pole", z); c.in("n", n); double off = std::max(std::fabs(a), std::fabs(b)) / (b - a); auto f = [&](double x) { L y = (2 * (L)x - a - b) / ((L)b - a); return (double)(1 / (z - y)); }; CA p(std::function<Real(Real)>(f), a, b, n); double bound = 4 * M * std::pow(rho, -(n - 1)) / (rho - 1); for (int q = 0; q < 10; q++) { double x = std::min(b, a + r.u01() * (b - a)); double e = std::fabs(p(x) - f(x)); c.check(e <= bound * 1.01 + 1e-13 * n * (1 + off) / std::pow(std::fabs(z) - 1, 2), "ellipse_bound", [&] { return std::to_string(e / bound); }); } c.ev("analytic"); }
// the polynomial families themselves
template<class B, class F> static void recur(mon::Case& c, const B& bs, int n0, F dom) { auto& r = c.r; int n = (int)r.i(n0, 30); double x = dom(), a, b, k; bs.RecurrenceCoefficients(n, a, b, k); L p = bs.Evaluate(n, x), q = n ? bs.Evaluate(n - 1, x) : 0, w = bs.Evaluate(n + 1, x), s = fabsl(a * x * p) + fabsl(b * p) + fabsl(k * q) + fabsl(w); c.in("n", n); c.in("x", x); c.close((double)w, (double)((a * (L)x + b) * p + k * q), 1e-11 * (double)s, "recurrence"); c.throws<std::invalid_argument>([&] { bs.RecurrenceCoefficients(-1, a, b, k); }, "negative"); c.ev("recurrence"); }
FAMILY(bases, 4000) { auto& r = c.r; auto in11 = [&] { return r.coin(.1) ? r.pick({-1., 1., 0.}) : r.uni(-1, 1); }; auto inR = [&] { return r.uni(-5, 5); }; auto inP = [&] { return r.coin(.1) ? 0. : r.uni(0, 15); }; LegendreBasis le; HermiteBasis he; LaguerreBasis la; ChebyshevBasis ct; ChebyshevBasisSecondKind cu; ProbabilistHermiteBasis ph; double al = r.pick({0., 1., 2., 3., -.5, .5, 1.7, -.9}); AssociatedLaguerreBasis as(al); recur(c, le, 0, in11); recur(c, he, 0, inR); recur(c, la, 0, inP); recur(c, ct, 1, in11); recur(c, cu, 0, in11); recur(c, as, 0, inP);
	int n = (int)r.i(0, 25); double x = in11(), y = inR(), z = inP(); c.in("n", n); c.in("x", x); c.in("y", y); c.in("z", z); c.in("alpha", al); auto near = [&](double g, L w, double sc, const char* k) { c.close(g, (double)w, 1e-11 * (double)fabsl(w) + 1e-12 * sc, k); };
	near(le.Evaluate(n, x), boost::math::legendre_p(n, (L)x), 1, "legendre"); near(he.Evaluate(n, y), boost::math::hermite(n, (L)y), std::pow(2.0, n) * std::tgamma(n / 2. + 1) * std::exp(y * y / 2) , "hermite"); near(la.Evaluate(n, z), boost::math::laguerre(n, (L)z), std::exp(z / 2) * (1 + z), "laguerre"); near(ct.Evaluate(n, x), cosl(n * acosl(x)), 1, "chebyshev_t"); near(cu.Evaluate(n, x), boost::math::chebyshev_u(n, (L)x), n + 1., "chebyshev_u"); near(ph.Evaluate(n, y), powl(2, -.5L * n) * boost::math::hermite(n, (L)y / sqrtl(2)), std::pow(2.0, n / 2.) * std::tgamma(n / 2. + 1) * std::exp(y * y / 4), "hermite_prob"); { L s = 0, t = 0; for (int k = 0; k <= n; k++) { L u = expl(lgammal(n + al + 1) - lgammal(n - k + 1.0L) - lgammal(al + k + 1) - lgammal(k + 1.0L)) * powl(z, k); s += (k % 2 ? -1 : 1) * u; t += u; } c.close(as.Evaluate(n, z), (double)s, 1e-12 * (double)fabsl(s) + (double)(1e-14L * t), "laguerre_assoc"); } int m = (int)r.i(0, n); AssociatedLegendreBasis am(m); L wl = boost::math::legendre_p(n, m, (L)x); if (m % 2) wl = -wl; double gl = am.Evaluate(n, x), sl = std::exp(.5 * (std::lgamma(n + m + 1.) - std::lgamma(n - m + 1.))); c.check(std::fabs(gl - (double)wl) <= 1e-11 * sl || std::fabs(gl + (double)wl) <= 1e-11 * sl, "legendre_assoc", [&] { return mon::str(gl) + " want " + mon::str((double)wl); });
	c.close(le.WeightFunction(x), 1, 0, "weight"); c.close(he.WeightFunction(y), (double)expl(-(L)y * y), 1e-14, "weight"); c.close(la.WeightFunction(z), (double)expl(-(L)z), 1e-14, "weight"); if (std::fabs(x) < .999999) { c.close(ct.WeightFunction(x), (double)(1 / sqrtl(1 - (L)x * x)), 1e-9, "weight"); c.close(cu.WeightFunction(x), (double)sqrtl(1 - (L)x * x), 1e-12, "weight"); } if (z > 0) { double w = (double)(powl(z, al) * expl(-(L)z)); c.close(as.WeightFunction(z), w, 1e-13 * w, "weight"); }
	auto nrm = [&](double g, L w) { c.close(g, (double)w, 1e-12 * (double)fabsl(w), "normalization"); }; nrm(le.Normalization(n), 2 / (2.0L * n + 1)); nrm(he.Normalization(n), powl(2, n) * tgammal(n + 1.0L) * sqrtl(PI)); nrm(la.Normalization(n), 1); nrm(ct.Normalization(n), n ? PI / 2 : PI); nrm(cu.Normalization(n), PI / 2); nrm(ph.Normalization(n), tgammal(n + 1.0L) * sqrtl(2 * PI)); nrm(as.Normalization(n), expl(lgammal(n + al + 1) - lgammal(n + 1.0L)) ); c.ev("values");
	int k = (int)r.i(1, 40); auto zt = ct.GetZeros(k), zu = cu.GetZeros(k), xt = ct.GetExtrema(k); c.check((int)zt.size() == k && (int)zu.size() == k && (int)xt.size() == k + 1, "zeros"); for (int i = 0; i < k; i++) { c.close(ct.Evaluate(k, zt[i]), 0, 2e-15 * k * k + 1e-15, "zeros"); c.close(cu.Evaluate(k, zu[i]), 0, 4e-15 * k * k * k + 4e-15, "zeros_u"); } for (int i = 0; i <= k; i++) c.close(std::fabs(ct.Evaluate(k, xt[i])), 1, 1e-13 * k, "extrema"); for (double v : ct.GetExtrema(0)) c.check(std::isfinite(v) && std::fabs(v) <= 1, "extrema_zero");
	c.throws<std::invalid_argument>([&] { le.Evaluate(-1, x); }, "negative"); c.throws<std::invalid_argument>([&] { he.Evaluate(-1, x); }, "negative"); c.throws<std::invalid_argument>([&] { la.Normalization(-2); }, "negative"); c.throws<std::invalid_argument>([&] { ct.Evaluate(-1, x); }, "negative"); c.throws<std::invalid_argument>([&] { as.Evaluate(-1, x); }, "negative"); c.throws<std::invalid_argument>([&] { AssociatedLaguerreBasis q(-1); }, "alpha"); c.throws<std::invalid_argument>([&] { am.Evaluate(m - 1, x); }, "order"); }
// orthogonality under the published weight by trapezoid sums in a variable where they converge geometrically
template<class G> static L quad(int kind, double al, G g) { L s = 0; if (kind == 0) { int N = 400; L h = 8.0L / N; for (int i = -N; i <= N; i++) { L t = i * h * .5L, u = PI / 2 * sinhl(t), x = tanhl(u), w = PI / 2 * coshl(t) / (coshl(u) * coshl(u)); if (w > 1e-25L) s += w * g((double)x); } return s * h * .5L; } if (kind == 1) { int N = 300; for (int i = 0; i < N; i++) s += g((double)cosl(PI * (i + .5L) / N)); return s * PI / N; } if (kind == 2) { L h = .05L; for (int i = -300; i <= 300; i++) s += g((double)(i * h)); return s * h; } L h = .04L; L lo = -45 / (al + 1), t = lo; for (; t < 5.3; t += h) { L x = expl(t); s += x * g((double)x); } return s * h; }
FAMILY(orthogonal, 1500) { auto& r = c.r; int kind = (int)r.i(0, 7); int n = (int)r.i(0, 12), m = r.coin(.4) ? n : (int)r.i(0, 12); double al = kind == 6 ? r.pick({0., 1., 2.5, -.5}) : 0; c.in("kind", kind); c.in("n", n); c.in("m", m); c.in("alpha", al); LegendreBasis le; HermiteBasis he; LaguerreBasis la; ChebyshevBasis ct; ChebyshevBasisSecondKind cu; ProbabilistHermiteBasis ph; AssociatedLaguerreBasis as(al > -1 ? al : 0); int o = (int)r.i(0, std::min(n, m)); AssociatedLegendreBasis am(o); L I = 0, nn = 1, nm = 1; switch (kind) { case 0: I = quad(0, 0, [&](double x) { return (L)le.Evaluate(n, x) * le.Evaluate(m, x) * le.WeightFunction(x); }); nn = le.Normalization(n); nm = le.Normalization(m); break; case 1: I = quad(1, 0, [&](double x) { return (L)ct.Evaluate(n, x) * ct.Evaluate(m, x); }); nn = ct.Normalization(n); nm = ct.Normalization(m); break; case 2: I = quad(1, 0, [&](double x) { return (L)cu.Evaluate(n, x) * cu.Evaluate(m, x) * cu.WeightFunction(x) * sqrtl(1 - (L)x * x); }); nn = cu.Normalization(n); nm = cu.Normalization(m); break; case 3: I = quad(2, 0, [&](double x) { return (L)he.Evaluate(n, x) * he.Evaluate(m, x) * he.WeightFunction(x); }); nn = he.Normalization(n); nm = he.Normalization(m); break; case 4: I = quad(2, 0, [&](double x) { return (L)ph.Evaluate(n, x) * ph.Evaluate(m, x) * ph.WeightFunction(x); }); nn = ph.Normalization(n); nm = ph.Normalization(m); break; case 5: I = quad(3, 0, [&](double x) { return (L)la.Evaluate(n, x) * la.Evaluate(m, x) * la.WeightFunction(x); }); nn = la.Normalization(n); nm = la.Normalization(m); break; case 6: I = quad(3, al, [&](double x) { return (L)as.Evaluate(n, x) * as.Evaluate(m, x) * as.WeightFunction(x); }); nn = as.Normalization(n); nm = as.Normalization(m); break; default: I = quad(0, 0, [&](double x) { return (L)am.Evaluate(n, x) * am.Evaluate(m, x); }); nn = 2 / (2.0L * n + 1) * expl(lgammal(n + o + 1.0L) - lgammal(n - o + 1.0L)); nm = 2 / (2.0L * m + 1) * expl(lgammal(m + o + 1.0L) - lgammal(m - o + 1.0L)); } L e = I / sqrtl(nn * nm) - (n == m); c.check(fabsl(e) <= 1e-8L, "orthonormal", [&] { return std::to_string((double)e); }); c.maxi("orthogonality_error", (double)fabsl(e)); c.ev(n == m ? "norm" : "orthogonal"); }
// oscillator eigenfunctions stay normalised, also where the polynomials overflow
FAMILY(oscillator, 60) { auto& r = c.r; int n = (int)r.i(0, r.coin(.5) ? 20 : 300), m = r.coin(.5) ? n : (int)r.i(0, 300); c.in("n", n); c.in("m", m); HermiteBasis he; L s = 0, h = .05L; bool fin = true; for (int i = -600; i <= 600; i++) { double a = he.QuantumWavefunction(n, (double)(i * h)), b = he.QuantumWavefunction(m, (double)(i * h)); fin &= std::isfinite(a) && std::isfinite(b); s += (L)a * b; } c.check(fin, "finite"); c.close((double)(s * h), n == m, 1e-9, "orthonormal"); if (n <= 20) { double x = r.uni(-4, 4); L w = boost::math::hermite(n, (L)x) * expl(-.5L * x * x) / sqrtl(powl(2, n) * tgammal(n + 1.0L) * sqrtl(PI)); c.close(he.QuantumWavefunction(n, x), (double)w, 1e-12, "wavefunction"); } c.ev("oscillator"); }
// expansion coefficients of a finite sum of basis functions
FAMILY(expand, 200) { auto& r = c.r; int kind = (int)r.i(0, 3), N = (int)r.i(0, 5); std::vector<double> k(N + 1); for (auto& v : k) v = r.uni(-1, 1); c.in("kind", kind); c.in("coef", k); LegendreBasis le; HermiteBasis he; LaguerreBasis la; ChebyshevBasis ct; const OrthogonalBasis* b = kind == 0 ? (OrthogonalBasis*)&le : kind == 1 ? (OrthogonalBasis*)&ct : kind == 2 ? (OrthogonalBasis*)&he : (OrthogonalBasis*)&la; Fn f([&](Real x) { double s = 0; for (int j = 0; j <= N; j++) s += k[j] * b->Evaluate(j, x); return s; }); int n = (int)r.i(0, N + 2); c.in("n", n); double g = b->ComputeCoefficient(f, n); L sc = 1; for (int j = 0; j <= N; j++) sc = std::max(sc, sqrtl((L)b->Normalization(j) / b->Normalization(n))); c.close(g, n <= N ? k[n] : 0, 1e-6 * (double)sc, "coefficient"); c.ev("expand"); }
MON_MAIN()
