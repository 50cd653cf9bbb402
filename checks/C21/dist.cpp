// C21: probability distributions against boost::math in long double (an independent implementation) and against themselves
#include "mon.h"
#include "mml/algorithms/Statistics/Distributions.h"
#include "mml/base/StandardFunctions.h"
#include <boost/math/distributions.hpp>
using namespace MML; using namespace MML::Statistics;
typedef long double L; namespace bm = boost::math;
typedef bm::policies::policy<bm::policies::domain_error<bm::policies::errno_on_error>, bm::policies::overflow_error<bm::policies::errno_on_error>, bm::policies::pole_error<bm::policies::errno_on_error>, bm::policies::evaluation_error<bm::policies::errno_on_error>> P;
struct Opt { bool tail = false; double slack = 1; double lo = -INFINITY, hi = INFINITY; double itol = 1e-11; bool inv = true; double rtail = 0; };
// probability to test: body and both tails
static double prob(mon::Case& c) { auto& r = c.r; double p = r.coin(.6) ? r.uni(.001, .999) : r.coin(.6) ? r.pmag(-14, -2) : 1 - r.pmag(-9, -2); return p; }
template<class D, class B> static void chk(mon::Case& c, const char* name, const D& d, const B& b, const Opt& o) { auto& r = c.r; std::string k = name; c.ev(name);
	std::vector<double> xs; for (int i = 0; i < 12; i++) { L q; double p = prob(c); q = i < 8 ? bm::quantile(b, (L)p) : bm::quantile(bm::complement(b, (L)p)); if (std::isfinite((double)q)) xs.push_back((double)q); } for (int i = 0; i < 4; i++) xs.push_back(o.lo == 0 ? r.pmag(-8, 5) : r.logmag(-3, 5)); if (std::isfinite(o.hi)) for (auto& x : xs) x = std::min(x, o.hi); if (std::isfinite(o.lo)) for (auto& x : xs) x = std::max(x, o.lo); for (auto& x : xs) if (std::fabs(x) < 1e-305) x = std::copysign(1e-305, x); std::sort(xs.begin(), xs.end());
	double prev = -1, px = 0; for (double x : xs) { L wc = bm::cdf(b, (L)x), wq = bm::cdf(bm::complement(b, (L)x)); if (wc > .5L) wc = 1 - wq; double g = d.cdf(x); double tol = o.slack * 1e-12;
		c.check(std::fabs(g - (double)wc) <= tol && g >= 0 && g <= 1, k + "_cdf", [&] { std::ostringstream s; s.precision(17); s << "x=" << x << " got " << g << " want " << (double)wc; return s.str(); }); if (o.tail && wc > 1e-280L) c.check(std::fabs(g - (double)wc) <= o.slack * 1e-9 * (double)wc, k + "_lower_tail", [&] { std::ostringstream s; s.precision(17); s << "x=" << x << " got " << g << " want " << (double)wc; return s.str(); });
		c.check(g >= prev - (o.slack > 1 ? 1e-13 * o.slack : 4e-15), k + "_cdf_monotone"); prev = g; px = x; if (x > o.lo && x < o.hi && std::fabs(x) > 1e-300) { L wp = bm::pdf(b, (L)x); double gp = d.pdf(x); c.check(std::fabs(gp - (double)wp) <= o.slack * 1e-10 * (double)wp + 1e-300, k + "_pdf", [&] { std::ostringstream s; s.precision(17); s << "x=" << x << " got " << gp << " want " << (double)wp; return s.str(); }); } (void)wq; c.ev("points"); }
	// the slope of the cumulative function is the density (Simpson over short intervals)
	for (int i = 0; i < 3; i++) { L qa = bm::quantile(b, (L)r.uni(.02, .98)); double a = (double)qa; double h = .02 * std::fabs((double)bm::quantile(b, .75L) - (double)bm::quantile(b, .25L)); if (!(h > 1e-6 * std::fabs(a))) continue; if (o.lo >= 0) h = std::min(h, .03 * a); if (std::isfinite(o.hi)) h = std::min(h, .03 * (o.hi - a)); double e = a + h, m = a + h / 2; if (e >= o.hi || !(e > a) || (std::isfinite(o.hi) && o.hi - a < 1e-8 * (1 + std::fabs(o.hi)))) continue; double I = h / 6 * (d.pdf(a) + 4 * d.pdf(m) + d.pdf(e)), dc = d.cdf(e) - d.cdf(a); c.check(std::fabs(I - dc) <= 1e-3 * std::fabs(dc) + 4e-12 * o.slack, k + "_slope_is_density"); c.ev("slope"); } }
template<class D, class B> static void inv(mon::Case& c, const char* name, const D& d, const B& b, const Opt& o) { auto& r = c.r; std::string k = name; double pp = -1, px = -INFINITY; std::vector<double> ps; for (int i = 0; i < 6; i++) ps.push_back(prob(c)); std::sort(ps.begin(), ps.end()); for (double p : ps) { double x = d.inverseCdf(p); L back = bm::cdf(b, (L)x), w = bm::quantile(b, (L)p); double xl = std::nextafter(x, -INFINITY), xh = std::nextafter(x, INFINITY); (void)xl; (void)xh;
		bool under = std::fabs((double)w) < 1e-290 || std::fabs((double)w) > 1e290; if (under) { c.ev("quantile_beyond_range"); continue; } L fl = bm::cdf(b, (L)std::max(o.lo, std::nextafter(std::nextafter(x, -INFINITY), -INFINITY))), fh = bm::cdf(b, (L)std::min(o.hi, std::nextafter(std::nextafter(x, INFINITY), INFINITY))); double t = o.itol * 1; c.check((L)p >= fl - t && (L)p <= fh + t, k + "_quantile_inverts", [&] { std::ostringstream s; s.precision(17); s << "p=" << p << " x=" << x << " cdf(x)=" << (double)back << " want x=" << (double)w; return s.str(); }); if (o.rtail > 0 && p < .5) c.check(std::fabs((double)((back - (L)p) / (L)p)) <= o.rtail, k + "_quantile_tail", [&] { std::ostringstream s; s.precision(17); s << "p=" << p << " x=" << x << " cdf(x)=" << (double)back; return s.str(); }); c.check(x >= px - 1e-9 * std::fabs(px), k + "_quantile_monotone"); px = x; (void)pp; c.ev("quantiles"); } (void)r; }
template<class D, class B> static void mom(mon::Case& c, const char* name, const D& d, const B& b, double tol = 1e-9) { double m = (double)bm::mean(b), v = (double)bm::variance(b); if (std::isfinite(m) && std::isfinite(v)) { c.check(std::fabs(d.mean() - m) <= tol * std::fabs(m) + 1e-14, std::string(name) + "_mean"); c.check(std::fabs(d.variance() - v) <= tol * std::fabs(v), std::string(name) + "_variance"); c.ev("moments"); } }
FAMILY(normal, 400) { auto& r = c.r; double mu = r.coin(.3) ? 0 : r.logmag(-3, 5), s = r.coin(.3) ? 1 : r.pmag(-5, 5); c.in("mu", mu); c.in("s", s); NormalDistribution d(mu, s); bm::normal_distribution<L, P> b(mu, s); Opt o; o.slack = 1 + std::fabs(mu) / s * 1e-3; o.itol = 3e-9; chk(c, "normal", d, b, o); inv(c, "normal", d, b, o); mom(c, "normal", d, b);
	for (int i = 0; i < 10; i++) { double z = r.uni(-36, 36); bm::normal_distribution<L, P> n(0, 1); L q = bm::cdf(bm::complement(n, (L)z)); c.check(std::fabs(StandardNormal::sf(z) - (double)q) <= 1e-12 * (double)q, "normal_upper_tail"); c.check(std::fabs(StandardNormal::cdf(z) - (double)bm::cdf(n, (L)z)) <= 1e-12 * (double)bm::cdf(n, (L)z), "normal_lower_tail"); L q2 = 2 * bm::cdf(bm::complement(n, fabsl(z))); c.check(std::fabs(StandardNormal::twoTailedPValue(z) - (double)q2) <= 1e-12 * (double)q2, "normal_two_tailed"); c.check(std::fabs(StandardNormal::pdf(z) - (double)bm::pdf(n, (L)z)) <= 1e-12 * (double)bm::pdf(n, (L)z), "normal_std_pdf"); double p = prob(c); c.check(StandardNormal::inverseCdf(p) == NormalDistribution().inverseCdf(p), "normal_std_inverse"); double x = mu + s * z; c.check(std::fabs(d.fromZScore(d.zScore(x)) - x) <= 1e-12 * (std::fabs(mu) + std::fabs(x)), "normal_zscore"); } }
FAMILY(student, 400) { auto& r = c.r; int df = r.coin(.5) ? (int)r.i(1, 6) : r.coin() ? (int)r.i(7, 200) : (int)r.pmag(2, 6); c.in("df", df); TDistribution d(df); bm::students_t_distribution<L, P> b(df); Opt o; o.tail = true; o.slack = 1 + df * 1e-3; o.itol = 1e-11 * o.slack; o.rtail = 1e-8 * o.slack; chk(c, "student", d, b, o); inv(c, "student", d, b, o); if (df > 2) mom(c, "student", d, b); else { c.throws<StatisticsError>([&] { d.variance(); }, "student_variance_undefined"); } if (df < 2) c.throws<StatisticsError>([&] { d.mean(); }, "student_mean_undefined");
	for (int i = 0; i < 6; i++) { double t = r.logmag(-4, 4); L q = bm::cdf(bm::complement(b, (L)t)); c.check(std::fabs(d.sf(t) - (double)q) <= 1e-9 * o.slack * (double)q + 1e-300, "student_upper_tail"); c.check(std::fabs(d.cdf(t) + d.cdf(-t) - 1) < 1e-14, "student_symmetry"); L q2 = 2 * bm::cdf(bm::complement(b, fabsl(t))); c.check(std::fabs(d.twoTailedPValue(t) - (double)q2) <= 1e-9 * o.slack * (double)q2 + 1e-300, "student_two_tailed"); double al = r.coin() ? r.uni(.001, .999) : r.coin(.6) ? r.pmag(-10, -1) : r.pmag(-60, -10); double cv = d.criticalValue(al); c.check(std::fabs((double)(2 * bm::cdf(bm::complement(b, (L)cv))) - al) <= 1e-8 * al * o.slack, "student_critical_value", [&] { std::ostringstream s; s.precision(17); s << "alpha=" << al << " t=" << cv; return s.str(); }); } }
FAMILY(chisq, 400) { auto& r = c.r; int df = r.coin(.5) ? (int)r.i(1, 6) : r.coin() ? (int)r.i(7, 300) : (int)r.pmag(2, 6); c.in("df", df); ChiSquareDistribution d(df); bm::chi_squared_distribution<L, P> b(df); Opt o; o.lo = 0; o.tail = true; o.slack = 1 + df * 1e-2; chk(c, "chisq", d, b, o); mom(c, "chisq", d, b); c.check(std::fabs(d.stddev() * d.stddev() - d.variance()) < 1e-9 * d.variance(), "chisq_stddev");
	for (int i = 0; i < 6; i++) { double p = prob(c); double x = (double)bm::quantile(bm::complement(b, (L)p)); L q = bm::cdf(bm::complement(b, (L)x)); c.check(std::fabs(d.rightTailPValue(x) - (double)q) <= 1e-12 * o.slack, "chisq_right_tail"); if (x > df + 2) c.check(std::fabs(d.rightTailPValue(x) - (double)q) <= 1e-9 * o.slack * (double)q, "chisq_upper_tail"); double cv = d.criticalValue(p); c.check(std::fabs((double)bm::cdf(bm::complement(b, (L)cv)) - p) <= 1e-9 * o.slack * p + 1e-12, "chisq_critical_value", [&] { std::ostringstream s; s.precision(17); s << "alpha=" << p << " x=" << cv << " want " << x; return s.str(); }); } }
FAMILY(fisher, 400) { auto& r = c.r; auto g = [&] { return r.coin(.6) ? (int)r.i(1, 6) : r.coin() ? (int)r.i(7, 200) : (int)r.pmag(2, 5); }; int d1 = g(), d2 = g(); c.in("d1", d1); c.in("d2", d2); FDistribution d(d1, d2); c.ev("fisher");
	if (d1 == 1 && d2 == 1) { // boost's own special case is inaccurate here; the closed form is an arctangent
		for (int i = 0; i < 20; i++) { double x = r.pmag(-20, 20); L q = 2 / 3.14159265358979323846264L * atanl(1 / sqrtl((L)x)); c.check(std::fabs(d.rightTailPValue(x) - (double)q) <= 1e-12 * (double)q, "fisher_cauchy_tail"); c.check(std::fabs(d.cdf(x) - (double)(1 - q)) <= 1e-12, "fisher_cauchy_cdf"); double p = prob(c), cv = d.criticalValue(p); if (std::isfinite(cv)) c.check(std::fabs((double)(2 / 3.14159265358979323846264L * atanl(1 / sqrtl((L)cv))) - p) <= 1e-9 * p + 1e-13, "fisher_cauchy_critical"); } return; }
	bm::fisher_f_distribution<L, P> b(d1, d2); Opt o; o.lo = 0; o.slack = 1 + (d1 + d2) * 1e-2; chk(c, "fisher", d, b, o); if (d2 > 4) mom(c, "fisher", d, b); if (d2 <= 2) c.throws<StatisticsError>([&] { d.mean(); }, "fisher_mean_undefined"); if (d2 <= 4) c.throws<StatisticsError>([&] { d.variance(); }, "fisher_variance_undefined");
	for (int i = 0; i < 6; i++) { double p = prob(c); double x = (double)bm::quantile(bm::complement(b, (L)p)); if (!std::isfinite(x)) x = r.pmag(0, 6); L q = bm::cdf(bm::complement(b, (L)x)); c.check(std::fabs(d.rightTailPValue(x) - (double)q) <= 1e-12 * o.slack, "fisher_right_tail", [&] { std::ostringstream s; s.precision(17); s << "x=" << x << " got " << d.rightTailPValue(x) << " want " << (double)q; return s.str(); }); if (q < .01L) c.check(std::fabs(d.rightTailPValue(x) - (double)q) <= 1e-8 * o.slack * (double)q, "fisher_upper_tail"); double cv = d.criticalValue(p); c.check(std::fabs((double)bm::cdf(bm::complement(b, (L)cv)) - p) <= 1e-9 * o.slack * p + 1e-12, "fisher_critical_value", [&] { std::ostringstream s; s.precision(17); s << "alpha=" << p << " x=" << cv << " want " << x; return s.str(); }); FDistribution s(d2, d1); c.check(std::fabs(d.cdf(x) - s.rightTailPValue(1 / x)) <= 1e-11 * o.slack, "fisher_reciprocal"); } }
FAMILY(location_scale, 600) { auto& r = c.r; double mu = r.coin(.3) ? 0 : r.logmag(-3, 3), s = r.pmag(-3, 3); c.in("mu", mu); c.in("s", s); int k = (int)r.i(0, 2); c.in("k", k); Opt o; o.slack = 1 + std::fabs(mu) / s * 1e-2; o.itol = 1e-11;
	if (k == 0) { CauchyDistribution d(mu, s); bm::cauchy_distribution<L, P> b(mu, s); chk(c, "cauchy", d, b, o); inv(c, "cauchy", d, b, o); } else if (k == 1) { LogisticDistribution d(mu, s); bm::logistic_distribution<L, P> b(mu, s); o.slack *= 10; chk(c, "logistic", d, b, o); inv(c, "logistic", d, b, o); mom(c, "logistic", d, b); for (int i = 0; i < 4; i++) { double z = r.pmag(0, 4); c.check(std::fabs(d.pdf(mu + s * z) - d.pdf(mu - s * z)) <= 1e-6 * o.slack * d.pdf(mu + s * z) + 1e-300, "logistic_symmetry"); } }
	else { double w = mu + s; if (!(w > mu)) return; UniformDistribution d(mu, w); bm::uniform_distribution<L, P> b(mu, w); o.lo = mu; o.hi = w; chk(c, "uniform", d, b, o); inv(c, "uniform", d, b, o); mom(c, "uniform", d, b); c.check(d.pdf(mu - s) == 0 && d.pdf(w + s) == 0 && d.cdf(mu - s) == 0 && d.cdf(w + s) == 1, "uniform_outside"); c.check(d.inverseCdf(0) == mu && std::fabs(d.inverseCdf(1) - w) <= 1e-15 * (std::fabs(mu) + std::fabs(w)), "uniform_inverse_ends"); } }
FAMILY(positive, 900) { auto& r = c.r; int k = (int)r.i(0, 3); c.in("k", k); double s = r.pmag(-4, 4), a = r.coin() ? r.uni(.3, 10) : r.pmag(-1, 2); c.in("scale", s); c.in("shape", a); Opt o; o.lo = 0; o.itol = 1e-11;
	if (k == 0) { ExponentialDistribution d(s); bm::exponential_distribution<L, P> b(s); chk(c, "exponential", d, b, o); inv(c, "exponential", d, b, o); mom(c, "exponential", d, b); c.throws<StatisticsError>([&] { d.cdf(-s); }, "exponential_negative"); c.throws<StatisticsError>([&] { d.pdf(-s); }, "exponential_negative"); }
	else if (k == 1) { WeibullDistribution d(a, s); bm::weibull_distribution<L, P> b(a, s); o.slack = 10 * (1 + a); chk(c, "weibull", d, b, o); inv(c, "weibull", d, b, o); if (a < 20) mom(c, "weibull", d, b); c.check(d.cdf(-s) == 0 && d.pdf(-s) == 0, "weibull_outside"); }
	else if (k == 2) { ParetoDistribution d(a, s); bm::pareto_distribution<L, P> b(s, a); o.lo = s; o.slack = 10 * (1 + a); chk(c, "pareto", d, b, o); inv(c, "pareto", d, b, o); if (a > 2) mom(c, "pareto", d, b); else c.throws<StatisticsError>([&] { d.variance(); }, "pareto_variance_undefined"); if (a <= 1) c.throws<StatisticsError>([&] { d.mean(); }, "pareto_mean_undefined"); c.check(d.cdf(s * .5) == 0 && d.pdf(s * .5) == 0 && d.inverseCdf(0) == s, "pareto_outside"); }
	else { double mu = r.uni(-5, 5), sg = r.coin() ? r.uni(.1, 2) : r.pmag(-2, .7); c.in("mu", mu); c.in("sigma", sg); LogNormalDistribution d(mu, sg); bm::lognormal_distribution<L, P> b(mu, sg); o.slack = 10 * (1 + std::fabs(mu) / sg); o.itol = 3e-9; chk(c, "lognormal", d, b, o); inv(c, "lognormal", d, b, o); mom(c, "lognormal", d, b); c.check(std::fabs(d.median() - std::exp(mu)) <= 1e-14 * std::exp(mu), "lognormal_median"); c.check(d.cdf(-1) == 0 && d.pdf(-1) == 0 && d.cdf(0) == 0, "lognormal_outside"); } }
FAMILY(gamma, 500) { auto& r = c.r; double a = r.coin(.4) ? r.uni(.5, 20) : r.coin() ? r.pmag(-2, 0) : r.pmag(1, 5), s = r.coin(.5) ? 1 : r.pmag(-6, 6); c.in("shape", a); c.in("scale", s); GammaDistribution d(a, s); bm::gamma_distribution<L, P> b(a, s); Opt o; o.lo = 0; o.slack = 10 + a * 2e-2; o.itol = 1e-11 * o.slack; chk(c, "gamma", d, b, o); inv(c, "gamma", d, b, o); mom(c, "gamma", d, b); c.check(d.cdf(-1) == 0 && d.pdf(-1) == 0 && d.inverseCdf(0) == 0 && std::isinf(d.inverseCdf(1)), "gamma_ends"); int df = (int)r.i(1, 30); double x = r.pmag(-2, 2); c.check(std::fabs(GammaDistribution(df / 2., 2).cdf(x) - ChiSquareDistribution(df).cdf(x)) < 1e-12, "gamma_is_chisq"); }
FAMILY(beta, 500) { auto& r = c.r; auto g = [&] { return r.coin(.4) ? r.uni(.5, 10) : r.coin() ? r.pmag(-1.5, 0) : r.pmag(1, 4.5); }; double a = g(), be = g(); c.in("a", a); c.in("b", be); BetaDistribution d(a, be); bm::beta_distribution<L, P> b(a, be); Opt o; o.lo = 0; o.hi = 1; o.slack = 10 + (a + be) * 3e-2; o.itol = 1e-11 * o.slack; chk(c, "beta", d, b, o); inv(c, "beta", d, b, o); mom(c, "beta", d, b); double x = r.u01(); c.check(std::fabs(d.cdf(x) - (1 - BetaDistribution(be, a).cdf(1 - x))) <= 1e-12 * o.slack + std::fabs((double)bm::pdf(b, (L)x)) * 1e-15, "beta_symmetry"); c.check(d.cdf(0) == 0 && d.cdf(1) == 1 && d.cdf(-.1) == 0 && d.cdf(1.1) == 1 && d.pdf(-.1) == 0 && d.pdf(1.1) == 0 && d.inverseCdf(0) == 0 && d.inverseCdf(1) == 1, "beta_ends");
	// the switch between the two expansions
	double t = (a + 1) / (a + be + 2); for (int i = -3; i <= 3; i++) { double y = t * (1 + i * 1.1e-16); double w = (double)bm::cdf(b, (L)y); c.check(std::fabs(d.cdf(y) - w) <= 1e-12 * o.slack, "beta_crossover"); c.ev("crossover"); } }
FAMILY(rejects, 300) { auto& r = c.r; double bad = r.pick({0., -1., -1e-300, (double)NAN, -(double)INFINITY}); c.in("bad", bad); auto t = [&](auto f, const char* k) { c.throws<StatisticsError>(f, k); c.ev("rejected"); }; t([&] { NormalDistribution(0, bad); }, "normal_bad"); t([&] { CauchyDistribution(0, bad); }, "cauchy_bad"); t([&] { ExponentialDistribution x(bad); }, "exponential_bad"); t([&] { LogisticDistribution(0, bad); }, "logistic_bad"); t([&] { UniformDistribution(1, 1 + bad); }, "uniform_bad"); t([&] { GammaDistribution(bad, 1); }, "gamma_bad"); t([&] { GammaDistribution(1, bad); }, "gamma_bad"); t([&] { BetaDistribution(bad, 1); }, "beta_bad"); t([&] { BetaDistribution(1, bad); }, "beta_bad"); t([&] { WeibullDistribution(bad, 1); }, "weibull_bad"); t([&] { WeibullDistribution(1, bad); }, "weibull_bad"); t([&] { ParetoDistribution(bad, 1); }, "pareto_bad"); t([&] { ParetoDistribution(1, bad); }, "pareto_bad"); t([&] { LogNormalDistribution(0, bad); }, "lognormal_bad");
	int bi = -(int)r.i(0, 5); t([&] { TDistribution x(bi); }, "student_bad"); t([&] { ChiSquareDistribution x(bi); }, "chisq_bad"); t([&] { FDistribution(bi, 1); }, "fisher_bad"); t([&] { FDistribution(1, bi); }, "fisher_bad");
	double bp = r.pick({0., 1., -.1, 1.1, 2.}); t([&] { NormalDistribution().inverseCdf(bp); }, "normal_bad_p"); t([&] { TDistribution(3).inverseCdf(bp); }, "student_bad_p"); t([&] { CauchyDistribution().inverseCdf(bp); }, "cauchy_bad_p"); t([&] { LogisticDistribution().inverseCdf(bp); }, "logistic_bad_p"); t([&] { TDistribution(3).criticalValue(bp); }, "student_bad_alpha"); t([&] { ChiSquareDistribution(3).criticalValue(bp); }, "chisq_bad_alpha"); t([&] { FDistribution(3, 4).criticalValue(bp); }, "fisher_bad_alpha"); double b2 = r.pick({-.1, 1.1, 5., -1e-9}); t([&] { UniformDistribution().inverseCdf(b2); }, "uniform_bad_p"); t([&] { ExponentialDistribution(1).inverseCdf(b2); }, "exponential_bad_p"); }
// elementary and factorial functions
FAMILY(elementary, 400) { auto& r = c.r; using namespace Functions; double x = r.logmag(-3, 1); c.in("x", x); auto rel = [&](double g, L w, const char* k) { c.check(std::fabs(g - (double)w) <= 1e-12 * std::fabs((double)w) + 1e-300, k, [&] { std::ostringstream s; s.precision(17); s << g << " vs " << (double)w; return s.str(); }); };
	L X = x; if (std::fabs(std::cos(x)) > 1e-3) rel(Sec(x), 1 / cosl(X), "sec"); if (std::fabs(std::sin(x)) > 1e-3) { rel(Csc(x), 1 / sinl(X), "csc"); if (std::fabs(std::cos(x)) > 1e-3) rel(Ctg(x), cosl(X) / sinl(X), "ctg"); } rel(Sech(x), 1 / coshl(X), "sech"); rel(Csch(x), 1 / sinhl(X), "csch"); rel(Ctgh(x), coshl(X) / sinhl(X), "ctgh"); rel(Asinh(x), asinhl(X), "asinh"); if (x > 1) rel(Acosh(x), acoshl(X), "acosh"); if (std::fabs(x) < 1) rel(Atanh(x), atanhl(X), "atanh");
	int n = (int)r.i(0, 170); c.in("n", n); L f = 1; for (int i = 2; i <= n; i++) f *= i; rel(Factorial(n), f, "factorial"); int m = (int)r.i(0, 20); long long g = 1; for (int i = 2; i <= m; i++) g *= i; c.check(FactorialInt(m) == g, "factorial_int"); if (n > 1) c.check(std::fabs(FactorialStirling(n) / (double)f - 1) <= 1. / (11.5 * n), "stirling"); c.throws<std::domain_error>([&] { Factorial(-1 - n); }, "factorial_negative"); c.throws<std::exception>([&] { FactorialInt(21 + n); }, "factorial_int_overflow"); c.ev("elementary"); }
MON_MAIN()
