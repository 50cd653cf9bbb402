// C46: named functions, constants, comparison helpers and numeric guards compute what their names say.
#include "mon.h"
#include <boost/math/special_functions.hpp>
#include <thread>
#include "mml/MMLBase.h"
#include "mml/base/StandardFunctions.h"
#include "mml/base/DiracDeltaFunction.h"
#include "mml/base/BaseUtils/ComparisonUtils.h"
#include "mml/core/NumericValidation.h"
#include "mml/core/SingularityHandling.h"
#include "mml/core/RichardsonExtrapolation.h"
using namespace MML;
using mon::Case;
typedef long double L;
namespace F = MML::Functions; namespace bm = boost::math;
static const L PIl = 3.141592653589793238462643383279502884L;
static double arg(mon::Rng& r, double s) { return r.coin(.15) ? r.pick({0., -0., 1., -1., .5, -.5}) : r.coin(.2) ? r.logmag(-12, 0) : r.uni(-s, s); }
template<class T, class Fn> static bool thr(Fn f) { try { f(); } catch (const T&) { return true; } return false; }

FAMILY(elementary, 4000) {
	auto& r = c.r; double x = arg(r, r.pick({1., 6., 50.})); c.in("x", x); L X = x; auto rel = [&](double g, L w, const char* k) { if (std::isnan((double)w)) c.check(std::isnan(g), k, "number outside the domain"); else c.close(g, w, 4e-16L * fabsl(w) + 1e-300L, k); };
	rel(F::Sin(x), sinl(X), "Sin"); rel(F::Cos(x), cosl(X), "Cos"); rel(F::Tan(x), tanl(X), "Tan"); rel(F::Exp(x), expl(X), "Exp"); rel(F::Sinh(x), sinhl(X), "Sinh"); rel(F::Cosh(x), coshl(X), "Cosh"); rel(F::Tanh(x), tanhl(X), "Tanh"); rel(F::Sech(x), 1 / coshl(X), "Sech"); rel(F::Atan(x), atanl(X), "Atan"); rel(F::Asinh(x), asinhl(X), "Asinh");
	if (x > 0) { rel(F::Log(x), logl(X), "Log"); rel(F::Log10(x), log10l(X), "Log10"); rel(F::Sqrt(x), sqrtl(X), "Sqrt"); double y = r.uni(-4, 4); c.in("y", y); c.close(F::Pow(x, y), powl(X, y), 1e-15L * powl(X, y), "Pow"); }
	rel(F::Asin(x), asinl(X), "Asin"); rel(F::Acos(x), acosl(X), "Acos"); if (std::fabs(x) < 1) rel(F::Atanh(x), atanhl(X), "Atanh"); if (x >= 1) rel(F::Acosh(x), acoshl(X), "Acosh");
	rel(F::Erf(x), erfl(X), "Erf"); c.close(F::Erfc(x), erfcl(X), 4e-15L * erfcl(X) + 1e-300L, "Erfc"); c.close(F::Sin((float)x), sinf((float)x), 0, "Sin-float"); Complex z(x / 10, r.uni(-2, 2)); c.check(std::abs(F::Exp(z) - std::polar(std::exp(z.real()), z.imag())) <= 1e-14 * std::exp(z.real()), "Exp-complex"); c.check(std::abs(F::Sqrt(z) * F::Sqrt(z) - z) <= 1e-14 * (1 + std::abs(z)), "Sqrt-complex"); c.ev("elementary");
}
FAMILY(reciprocal, 4000) { // functions with poles: the value next to a pole, an error on it
	auto& r = c.r; int k = r.i(0, 5); static const char* nm[] = {"Sec", "Csc", "Ctg", "Csch", "Ctgh", "Sech"}; double off = r.coin(.3) ? 0 : r.coin(.5) ? r.logmag(-17, -10) : r.logmag(-10, 0); double p = k == 0 ? Constants::PI / 2 + r.i(-3, 3) * Constants::PI : k < 3 ? r.i(-3, 3) * Constants::PI : 0, x = p + off; c.in("f", nm[k]); c.in("x", x); L X = x, d = k == 0 ? cosl(X) : k == 1 ? sinl(X) : k == 2 ? tanl(X) : k == 3 ? sinhl(X) : k == 4 ? tanhl(X) : coshl(X);
	double v = 0; bool t = thr<std::domain_error>([&] { v = k == 0 ? F::Sec(x) : k == 1 ? F::Csc(x) : k == 2 ? F::Ctg(x) : k == 3 ? F::Csch(x) : k == 4 ? F::Ctgh(x) : F::Sech(x); });
	if (t) { c.check(fabsl(d) < 3e-16L, std::string(nm[k]) + "-refused-away-from-the-pole"); c.ev("poles"); } else { c.check(fabsl(d) > 2.1e-16L, std::string(nm[k]) + "-value-on-the-pole", [&] { return mon::str(v); }); c.close(v, 1 / d, 1e-15L / fabsl(d), nm[k]); c.ev("beside_poles"); }
}
FAMILY(special, 6000) {
	auto& r = c.r; int k = r.i(0, 23); c.in("k", k); unsigned n = (unsigned)r.sz(0, 6, 14), m = r.i(0, (int)n); double x = r.uni(-1, 1), q = r.coin(.1) ? 0 : r.uni(.05, .95), phi = r.uni(-1.5, 1.5), pos = r.pmag(-1, 1.2), nu = r.coin() ? r.i(0, 5) : r.uni(0, 5); c.in("n", (int)n); c.in("m", (int)m); c.in("x", x); c.in("q", q); c.in("phi", phi); c.in("pos", pos); c.in("nu", nu);
	auto cmp = [&](double g, double w, const char* key, double abs = 0) { c.close(g, w, 1e-9 * std::fabs(w) + abs + 1e-12, key); c.ev("special"); };
	switch (k) {
	case 0: { double s = r.coin() ? r.uni(1.1, 20) : r.uni(-8, .9); c.in("s", s); cmp(F::RiemannZeta(s), bm::zeta(s), "RiemannZeta", 1e-9); break; }
	case 1: { double y = 3 * x; cmp(F::Hermite(n, y), bm::hermite(n, y), "Hermite", 1e-12 * std::tgamma(n + 1.) * std::pow(2, n)); break; }
	case 2: cmp(F::Legendre(n, x), bm::legendre_p((int)n, x), "Legendre"); break;
	case 3: cmp(F::Laguerre(n, pos), bm::laguerre(n, pos), "Laguerre", 1e-12 * std::exp(pos / 2)); break;
	case 4: cmp(F::SphBessel(n, pos), bm::sph_bessel(n, pos), "SphBessel", 1e-10); break;
	case 5: { double th = std::acos(x); cmp(F::SphLegendre((int)n, (int)m, th), bm::spherical_harmonic_r(n, (int)m, th, 0.), "SphLegendre", 1e-10); break; }
	case 6: cmp(F::Ellint_1(q, phi), bm::ellint_1(q, phi), "Ellint_1"); break;
	case 7: cmp(F::Ellint_2(q, phi), bm::ellint_2(q, phi), "Ellint_2"); break;
	case 8: { double ch = r.uni(-2, .9); c.in("ch", ch); cmp(F::Ellint_3(q, ch, phi), bm::ellint_3(q, ch, phi), "Ellint_3", 1e-9); break; }
	case 9: cmp(F::Comp_ellint_1(q), bm::ellint_1(q), "Comp_ellint_1"); cmp(F::Comp_ellint_2(q), bm::ellint_2(q), "Comp_ellint_2"); break;
	case 10: { double ch = r.uni(-2, .9); c.in("ch", ch); cmp(F::Comp_ellint_3(q, ch), bm::ellint_3(q, ch), "Comp_ellint_3", 1e-9); break; }
	case 11: cmp(F::CylBesselJ(nu, pos), bm::cyl_bessel_j(nu, pos), "CylBesselJ", 1e-9); break;
	case 12: cmp(F::CylBesselI(nu, pos), bm::cyl_bessel_i(nu, pos), "CylBesselI", 1e-10); break;
	case 13: cmp(F::CylBesselK(nu, pos), bm::cyl_bessel_k(nu, pos), "CylBesselK", 1e-12); break;
	case 14: { double w = bm::cyl_neumann(nu, pos); cmp(F::CylNeumann(nu, pos), w, "CylNeumann", 1e-9); c.check(F::CylBesselY(nu, pos) == F::CylNeumann(nu, pos), "CylBesselY-is-CylNeumann"); break; }
	case 15: cmp(F::SphNeumann(n, pos), bm::sph_neumann(n, pos), "SphNeumann", 1e-10); break;
	case 16: { double w = bm::legendre_p((int)n, (int)m, x) * (m % 2 ? -1 : 1); cmp(F::AssocLegendre(n, m, x), w, "AssocLegendre", 1e-10 * std::tgamma(2. * m + 1) / std::tgamma(m + 1.)); break; }
	case 17: cmp(F::AssocLaguerre(n, m, pos), bm::laguerre(n, m, pos), "AssocLaguerre", 1e-11 * std::exp(pos / 2) * std::tgamma(n + m + 1.) / std::tgamma(n + 1.)); break;
	case 18: { double a = r.pmag(-1, 1.3), b = r.pmag(-1, 1.3); c.in("a", a); c.in("b", b); cmp(F::Beta(a, b), bm::beta(a, b), "Beta"); break; }
	case 19: { double e = r.coin() ? pos : -pos; cmp(F::Expint(e), bm::expint(e), "Expint", 1e-12); break; }
	case 20: { double g = r.coin(.7) ? pos : -pos; if (g == std::floor(g)) g += .25; c.in("g", g); cmp(F::TGamma(g), tgammal(g), "TGamma", 1e-13); cmp(F::LGamma(g), lgammal(g), "LGamma", 1e-13); break; }
	case 21: { int f = r.i(0, 175); L w = 1; for (int i = 2; i <= f; i++) w *= i; c.in("f", f); double g = F::Factorial(f); if (f > 170) c.check(std::isinf(g) && g > 0, "Factorial-overflow"); else if (f <= 22) c.check(g == (double)w, "Factorial-exact"); else c.close(g, w, w * 2e-16L * f, "Factorial"); long long fi = 0; bool t = thr<std::overflow_error>([&] { fi = F::FactorialInt(f); }); c.check(t == (f > 20), "FactorialInt-range"); if (!t) c.check(fi == (long long)w, "FactorialInt"); if (f >= 2 && f <= 140) { L s = F::FactorialStirling(f); c.check(w / s > 1 && w / s < 1 + 1 / (11.5L * f), "FactorialStirling"); } if (f < 2) c.check(F::FactorialStirling(f) == 1, "FactorialStirling-small"); c.ev("factorials"); break; }
	case 22: { int f = -r.i(1, 1000); c.check(thr<std::domain_error>([&] { F::Factorial(f); }) && thr<std::domain_error>([&] { F::FactorialInt(f); }) && thr<std::domain_error>([&] { F::FactorialStirling(f); }), "factorial-of-negative"); break; }
	default: { // derivative kernels
		int N = (int)r.pmag(0, r.coin(.2) ? 6 : 3); double y = r.coin(.2) ? 0 : r.coin(.2) ? .5 / N * (1 + r.logmag(-12, -1)) : r.uni(-4, 4) / N; c.in("N", N); c.in("y", y); L t = (L)N * y; double st = DiracStep(N)(y); if (fabsl(2 * t) < 1 - 1e-14L) c.check(st == N, "DiracStep-inside"); else if (fabsl(2 * t) > 1 + 1e-14L) c.check(st == 0, "DiracStep-outside"); c.close(DiracExp(N)(y), N / sqrtl(2 * PIl) * expl(-t * t / 2), 1e-13L * N, "DiracExp"); c.close(DiracSqr(N)(y), N / PIl / (1 + t * t), 1e-14L * N, "DiracSqr"); c.close(DiracSin(N)(y), fabsl(y) < 1e-14L ? N / PIl : sinl(t) / (PIl * y), 1e-13L * N, "DiracSin"); c.ev("kernels"); }
	}
}
FAMILY(guards, 4000) {
	auto& r = c.r; double v = r.coin(.3) ? r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 0., -0., 4.9e-324, -4.9e-324, 1.7e308, -1.7e308}) : r.logmag(-20, 20), w = r.coin(.2) ? r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 0.}) : r.normal(); int it = r.pick({0, -1, 1, INT_MIN, INT_MAX, 7}); c.in("v", v); c.in("w", w); c.in("it", it); bool f = v - v == 0, g = w - w == 0; std::string ctx = "ctx" + std::to_string(r.i(0, 999));
	auto t = [&](const char* k, bool want, std::function<void()> fn) { std::string m; bool th = false; try { fn(); } catch (const NumericInputError& e) { th = true; m = e.what(); } c.check(th == want, k, want ? "accepted" : "refused"); if (th) { c.check(m.find(ctx) != std::string::npos, "error-names-its-subject", m); c.ev("refused"); } else c.ev("accepted"); };
	c.check(IsFinite(v) == f && IsFiniteValue(v) == f && IsFunctionValueValid(v) == f && IsFiniteValue(it) && IsFiniteValue((float)w) == g, "IsFinite"); bool str = r.coin(); const char* p = ctx.c_str();
	t("ValidateFinite", !f, [&] { str ? ValidateFinite(v, ctx) : ValidateFinite(v, p); }); t("ValidateBounds", !f || !g, [&] { str ? ValidateBounds(v, w, ctx) : ValidateBounds(v, w, p); }); t("ValidateTolerance", !(f && v > 0), [&] { str ? ValidateTolerance(v, ctx) : ValidateTolerance(v, p); }); t("ValidateFunctionValue", !f, [&] { str ? ValidateFunctionValue(v, ctx) : ValidateFunctionValue(v, p); }); t("ValidateMaxIterations", it <= 0, [&] { ValidateMaxIterations(it, p); }); t("ValidateStepSize", !(f && v > 0), [&] { ValidateStepSize(v, p); });
}
FAMILY(singularity, 5000) {
	using namespace Singularity; auto& r = c.r; double tol = r.coin() ? (double)DEFAULT_SINGULARITY_TOL : r.pmag(-12, -2), num = r.coin(.1) ? 0 : r.logmag(-3, 3), d = r.coin(.2) ? r.pick({0., -0., tol, -tol}) : r.coin() ? tol * r.logmag(-3, 1) : r.logmag(-3, 3); c.in("tol", tol); c.in("num", num); c.in("den", d); int pi = r.i(0, 4); SingularityPolicy P = (SingularityPolicy)pi; c.in("policy", pi); static const char* pn[] = {"Throw", "ReturnNaN", "ReturnInf", "Clamp", "ReturnZero"}; c.check(std::string(SingularityPolicyToString(P)) == pn[pi], "policy-name");
	double R = r.coin(.3) ? 0 : r.pmag(-8, 1), th = r.coin(.3) ? r.pick({0., Constants::PI, Constants::PI / 2}) : r.uni(0, Constants::PI); int which = r.i(0, 5); c.in("R", R); c.in("th", th); c.in("which", which); double s = std::sin(th), N = 1, D = d; switch (which) { case 0: N = num; break; case 1: D = R; break; case 2: D = R * R; break; case 3: D = R * s; break; case 4: D = R * R * s * s; break; case 5: N = std::cos(th); D = R * R * s; }
	bool thrown = false; double g = 0; std::string m; auto call = [&] { switch (which) { case 0: return SafeDivide(num, d, P, "here", tol); case 1: return SafeInverseR(R, P, "here", tol); case 2: return SafeInverseR2(R, P, "here", tol); case 3: return SafeInverseRSinTheta(R, th, P, "here", tol); case 4: return SafeInverseR2Sin2Theta(R, th, P, "here", tol); default: return SafeCotThetaOverR2(R, th, P, "here", tol); } }; try { g = call(); } catch (const DomainError& e) { thrown = true; m = e.what(); }
	double aD = std::fabs(D); if (std::fabs(aD - tol) < 1e-12 * tol && aD != tol) { c.trivial(); return; } // one rounding away from the threshold
	bool sing = aD < tol; c.check(IsNearZero(d, tol) == (std::fabs(d) < tol), "IsNearZero"); c.check(thrown == (sing && pi == 0), "throws-exactly-when-asked"); if (thrown) c.check(m.find("here") != std::string::npos, "context-in-message", m);
	if (!sing) { c.close(g, (L)N / D, 1e-14L * fabsl((L)N / D), "regular-quotient"); c.ev("regular"); } else { c.ev("singular"); if (pi == 1) c.check(std::isnan(g), "ReturnNaN"); if (pi == 2) c.check(std::isinf(g) && (N >= 0) == (g > 0), "ReturnInf"); if (pi == 3) { c.close(g, N / (D >= 0 ? tol : -tol), 1e-14L * fabsl(N / tol), "Clamp"); c.check(std::fabs(g) <= std::fabs(N / tol) * (1 + 1e-12), "Clamp-bounded"); } if (pi == 4) c.check(g == 0, "ReturnZero"); }
	bool o = R < tol, pole = std::fabs(s) < tol; if (std::fabs(std::fabs(s) - tol) > 1e-14) { c.check(IsAtSphericalOrigin(R, tol) == o && IsAtCylindricalAxis(R, tol) == o && IsAtSphericalPole(th, tol) == pole && IsAtSphericalSingularity(R, th, tol) == (o || pole), "location-predicates"); std::string ds = DescribeSphericalSingularity(R, th, tol); c.check(o ? ds.find("origin") == 0 : pole ? ds.find("pole") == 0 : ds == "none", "description", ds); }
}
FAMILY(comparisons, 5000) {
	auto& r = c.r; double a = r.logmag(-5, 5), e = r.pmag(-10, 0), q = e * r.logmag(-2, 1), b = a + q * (r.coin() ? 1 : std::fabs(a)); c.in("a", a); c.in("b", b); c.in("e", e); L d = fabsl((L)a - b), M = std::max(fabsl((L)a), fabsl((L)b)); double re = r.pmag(-10, 0); auto cl = [&](L lhs, L rhs, bool got, const char* k) { if (fabsl(lhs - rhs) > 1e-12L * (rhs + M * 1e-4L) ) c.check(got == (lhs < rhs), k); };
	cl(d, e, isWithinAbsPrec(a, b, e), "isWithinAbsPrec"); cl(d, e * M, isWithinRelPrec(a, b, e), "isWithinRelPrec"); cl(d, e + re * M, isNearlyEqual(a, b, e, re), "isNearlyEqual-two"); cl(d, e + e * M, isNearlyEqual(a, b, e), "isNearlyEqual"); c.check(isNearlyZero(q, e) == (std::fabs(q) < e) && isNearlyEqual(b, a, e) == isNearlyEqual(a, b, e), "isNearlyZero-and-symmetry");
	Complex z(a, r.normal()), y = z + Complex(q * r.uni(-1, 1), q * r.uni(-1, 1)); L dr = fabsl((L)z.real() - y.real()), di = fabsl((L)z.imag() - y.imag()), dm = hypotl(dr, di); c.check(Abs(z) == std::hypot(z.real(), z.imag()) && Abs(a) == std::fabs(a) && Abs(-3) == 3, "Abs"); auto ge = [&](L lhs, bool got, const char* k) { if (fabsl(lhs - e) > 1e-12L * M + 1e-12L * e) c.check(got == (lhs < e), k); };
	ge(std::max(dr, di), Utils::AreEqual(z, y, e), "AreEqual-complex"); ge(dm, Utils::AreEqualAbs(z, y, e), "AreEqualAbs-complex"); int n = (int)r.sz(1, 5, 40), at = r.i(0, n - 1); Vector<Complex> u(n), v(n); Vector<Real> ur(n), vr(n); for (int i = 0; i < n; i++) { u[i] = v[i] = Complex(r.normal(), r.normal()); ur[i] = vr[i] = r.normal(); } u[at] = z; v[at] = y; ur[at] = a; vr[at] = b; ge(std::max(dr, di), Utils::AreEqual(u, v, e), "AreEqual-vectors"); ge(dm, Utils::AreEqualAbs(u, v, e), "AreEqualAbs-vectors"); ge(d, Utils::AreEqual(ur, vr, e), "AreEqual-real-vectors"); Vector<Complex> lo(n + 1); c.check(!Utils::AreEqual(u, lo, 1e9) && !Utils::AreEqualAbs(lo, u, 1e9), "sizes-differ"); c.throws<VectorDimensionError>([&] { Utils::AreEqual(ur, Vector<Real>(n + 1), 1e9); }, "real-sizes-differ"); c.ev("comparisons");
	double ang = r.coin(.3) ? r.i(-9, 9) * Constants::PI / 2 : r.uni(-60, 60), na = normalizeAngle(ang); c.in("ang", ang); c.check(na >= -Constants::PI && na <= Constants::PI, "normalizeAngle-range", [&] { return mon::str(na); }); L turns = ((L)ang - na) / (2 * PIl); c.check(fabsl(turns - roundl(turns)) < 1e-13L, "normalizeAngle-whole-turns"); double sh = ang + 2 * Constants::PI * r.i(-5, 5); c.check(AnglesAreEqual(ang, sh, 1e-12) && AnglesAreEqual(sh, ang, 1e-12), "AnglesAreEqual-turns"); double off = r.uni(.01, 3.1) * (r.coin() ? 1 : -1), ae = std::fabs(off) * r.pick({.9, 1.1}); c.check(AnglesAreEqual(ang, sh + off, ae) == (ae > std::fabs(off)), "AnglesAreEqual-offset"); c.ev("angles");
	int k = r.i(-30, 30); long K = k; c.check(POW2(k) == K * K && POW3(k) == K * K * K && POW4(k) == K * K * K * K && POW5(k) == K * K * K * K * K, "POW-int"); c.close(POW5(a), powl((L)a, 5), 1e-15L * fabsl(powl((L)a, 5)), "POW5"); c.close(POW4(a), powl((L)a, 4), 1e-15L * powl((L)a, 4), "POW4"); c.close(POW3(a), powl((L)a, 3), 1e-15L * fabsl(powl((L)a, 3)), "POW3"); c.check(POW2(a) == a * a, "POW2");
}
FAMILY(settings, 60) { // per-thread settings: a change is seen by the thread that made it and by no other
	auto& r = c.r; int w = r.i(1, 900), T = r.i(2, 5); double ep = r.pmag(-9, -1); c.in("w", w); c.in("T", T); int w0 = Defaults::VectorPrintWidth, s0 = Defaults::BrentMaxSteps; double e0 = Defaults::SimpsonIntegrationEPS; std::vector<int> seen(T), back(T); std::vector<double> se(T); std::vector<std::thread> ts; Defaults::VectorPrintWidth = w; Defaults::SimpsonIntegrationEPS = ep;
	for (int i = 0; i < T; i++) ts.emplace_back([&, i] { seen[i] = Defaults::VectorPrintWidth; se[i] = Defaults::SimpsonIntegrationEPS; Defaults::VectorPrintWidth = 1000 + i; Defaults::BrentMaxSteps = 2000 + i; Defaults::VectorNPrintWidth = Defaults::VectorPrintWidth; std::this_thread::yield(); back[i] = (int)Defaults::VectorPrintWidth == 1000 + i && (int)Defaults::BrentMaxSteps == 2000 + i && (int)Defaults::VectorNPrintWidth == 1000 + i; }); for (auto& t : ts) t.join();
	for (int i = 0; i < T; i++) { c.check(seen[i] == 15 && se[i] == 1e-5, "other-thread-starts-with-the-defaults"); c.check(back[i], "own-change-seen"); } c.check((int)Defaults::VectorPrintWidth == w && (double)Defaults::SimpsonIntegrationEPS == ep && (int)Defaults::BrentMaxSteps == s0, "own-change-kept"); Defaults::VectorPrintWidth = w0; Defaults::SimpsonIntegrationEPS = e0; c.ev("threads", T);
}
FAMILY(constants, 1) {
	struct { const char* n; double v; L w; } t[] = {{"PI", Constants::PI, PIl}, {"INV_PI", Constants::INV_PI, 1 / PIl}, {"INV_SQRTPI", Constants::INV_SQRTPI, 1 / sqrtl(PIl)}, {"E", Constants::E, expl(1)}, {"LN2", Constants::LN2, logl(2)}, {"LN10", Constants::LN10, logl(10)}, {"SQRT2", Constants::SQRT2, sqrtl(2)}, {"SQRT3", Constants::SQRT3, sqrtl(3)}, {"GoldenRatio", Constants::GoldenRatio, (1 + sqrtl(5)) / 2}}; for (auto& k : t) c.check(k.v == (double)k.w, k.n);
	c.check(Constants::Eps == DBL_EPSILON && std::isinf(Constants::PosInf) && Constants::PosInf > 0 && Constants::NegInf == -Constants::PosInf, "limits");
	for (int mi : {0, -1, INT_MIN}) { auto R = Richardson::Extrapolate([](Real h) { return h; }, .5, 1.4, mi); c.check(!R.converged, "extrapolation-without-steps"); }
}
MON_MAIN()
