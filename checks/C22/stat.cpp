// C22: descriptive statistics, rank correlation, confidence intervals and hypothesis tests against long-double definitions
#include "mon.h"
#include "mml/algorithms/Statistics.h"
#include "mml/algorithms/Statistics/StatisticsRank.h"
#include "mml/algorithms/Statistics/StatisticsConfidence.h"
#include "mml/algorithms/Statistics/StatisticsHypothesis.h"
#include <boost/math/distributions.hpp>
using namespace MML; using namespace MML::Statistics;
typedef long double L; typedef std::vector<double> VD; namespace bm = boost::math;
static Vector<Real> V(const VD& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[(int)i] = v[i]; return r; }
// data: continuous, heavy ties, offset, tiny or huge scale
static VD gen(mon::Case& c, int n, const char* name, int kindIn = -1) { auto& r = c.r; int k = kindIn >= 0 ? kindIn : (int)r.i(0, 5); VD v(n); double sc = r.pmag(-2, 2), of = r.uni(-5, 5); if (k == 3) of = 1e6; if (k == 4) sc = r.pick({1e-120, 1e-90, 1e-20, 1e20, 1e90, 1e120}), of = 0; for (auto& x : v) x = k == 1 ? (double)r.i(-2, 2) : k == 2 ? (double)r.i(0, 20) / 4 : of + sc * r.normal(); if (k == 5) { std::sort(v.begin(), v.end()); if (r.coin()) std::reverse(v.begin(), v.end()); } c.in(name, v); c.in((std::string(name) + "_kind").c_str(), k); return v; }
struct Mo { L n, m, ad, v, s3, s4; }; static Mo mo(const VD& a) { Mo o{}; o.n = a.size(); for (double x : a) o.m += x; o.m /= o.n; for (double x : a) { L d = x - o.m; o.ad += fabsl(d); o.v += d * d; o.s3 += d * d * d; o.s4 += d * d * d * d; } o.ad /= o.n; o.v = o.n > 1 ? o.v / (o.n - 1) : 0; return o; }
static double mx(const VD& a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static void rel(mon::Case& c, double g, L w, double tol, const std::string& k, double absol = 0) { c.check(std::fabs(g - (double)w) <= tol * std::fabs((double)w) + absol, k, [&] { std::ostringstream s; s.precision(17); s << "got " << g << " want " << (double)w; return s.str(); }); }
FAMILY(moments, 1500) { auto& r = c.r; int n = r.coin(.2) ? (int)r.i(2, 4) : (int)r.sz(5, 200, 2000); VD a = gen(c, n, "a"); Vector<Real> v = V(a); Mo o = mo(a); double big = mx(a), e = 1e-15 * n; c.ev("moments"); rel(c, Avg(v), o.m, 0, "mean", e * big); rel(c, Mean(v), o.m, 0, "mean", e * big); double vt = e * (double)o.v * 10 + 1e-30 * n * big * big + 1e-15 * big * std::sqrt((double)o.v) * 1e-14; rel(c, Variance(v), o.v, 0, "variance", vt); Real m2, s2; AvgVar(v, m2, s2); c.check(m2 == Avg(v) && s2 == Variance(v), "avgvar_consistent"); Real sd; AvgStdDev(v, m2, sd); rel(c, sd, sqrtl(o.v), 1e-12, "stddev", 1e-15 * n * big); c.check(StdDev(v) == sd, "stddev_consistent");
	if (std::sqrt((double)o.v) > 1e-6 * big && big < 1e60 && big > 1e-60) { Real av, ad, s, va, sk, ku; Moments(v, av, ad, s, va, sk, ku); double t = 1e-11 * n * std::max(1., 1e-3 * big / std::sqrt((double)o.v)); rel(c, av, o.m, 0, "moments_mean", e * big); rel(c, ad, o.ad, 1e-12, "moments_adev", e * big); rel(c, s, sqrtl(o.v), t, "moments_sdev"); rel(c, va, o.v, t, "moments_var"); rel(c, sk, o.s3 / (o.n * o.v * sqrtl(o.v)), t, "moments_skew", t); rel(c, ku, o.s4 / (o.n * o.v * o.v) - 3, t, "moments_kurt", 10 * t); c.ev("higher_moments"); }
	VD b = gen(c, n, "b"); Mo p = mo(b); L cv = 0; for (int i = 0; i < n; i++) cv += (a[i] - o.m) * (b[i] - p.m); cv /= n - 1; double bb = mx(b); Vector<Real> w = V(b); rel(c, Covariance(v, w), cv, 1e-12, "covariance", e * 10 * (std::sqrt((double)(o.v * p.v)) + 1e-14 * big * bb)); c.check(Covariance(v, w) == Covariance(w, v), "covariance_symmetric"); rel(c, Covariance(v, v), o.v, 1e-11, "covariance_self", vt);
	if (std::sqrt((double)o.v) > 1e-6 * big && std::sqrt((double)p.v) > 1e-6 * bb && o.v > 0 && p.v > 0) { L rr = cv / sqrtl(o.v) / sqrtl(p.v); double g = PearsonCorrelation(v, w); rel(c, g, rr, 0, "pearson", 1e-9); c.check(std::fabs(g) <= 1, "pearson_range"); rel(c, RSquared(v, w), rr * rr, 0, "rsquared", 1e-9); rel(c, PearsonCorrelation(v, v), 1, 0, "pearson_self", 1e-12); c.check(std::fabs(PearsonCorrelation(v, v)) <= 1, "pearson_self_range"); c.ev("pearson"); if (n > 2) { auto t = PearsonCorrelationWithTest(v, w); c.check(t.r == g && t.degreesOfFreedom == n - 2, "pearson_test_fields"); if (std::fabs(g) < .9999) rel(c, t.tStatistic, (L)g * sqrtl((n - 2) / (1 - (L)g * g)), 1e-9, "pearson_t"); }
		// linear maps: correlation one up to sign
		VD l(n); double sl = r.logmag(-1, 1); for (int i = 0; i < n; i++) l[i] = sl * a[i]; rel(c, PearsonCorrelation(v, V(l)), sl > 0 ? 1 : -1, 0, "pearson_linear", 1e-9); }
	else if (o.v == 0) c.throws<StatisticsError>([&] { PearsonCorrelation(v, w); }, "pearson_constant"); }
FAMILY(constant, 400) { auto& r = c.r; int n = (int)r.i(2, 60); double k = r.coin(.2) ? 0 : r.logmag(-3, 3); c.in("n", n); c.in("k", k); Vector<Real> v(n); for (int i = 0; i < n; i++) v[i] = k; double s = StdDev(v); c.check(s >= 0 && s <= 1e-14 * n * std::fabs(k), "constant_stddev", [&] { return std::to_string(s); }); c.check(Variance(v) >= 0, "constant_variance"); rel(c, Mean(v), k, 1e-14 * n, "constant_mean"); rel(c, Median(v), k, 0, "constant_median"); c.check(MAD(v) == 0 && Range(v) == 0 && IQR(v) == 0 && Mode(v) == k, "constant_spread"); c.ev("constant"); if (k != 0 || true) { auto ci = ConfidenceIntervalMean(v, .95); c.check(std::isfinite(ci.lowerBound) && ci.lowerBound <= ci.upperBound, "constant_interval"); } }
FAMILY(order, 1500) { auto& r = c.r; int n = r.coin(.3) ? (int)r.i(1, 4) : (int)r.sz(5, 120, 1200); VD a = gen(c, n, "a"); Vector<Real> v = V(a); VD s = a; std::sort(s.begin(), s.end()); double big = mx(a); c.ev("order"); double med = n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2; c.check(Median(v) == med, "median"); Real lo, hi; MinMax(v, lo, hi); c.check(lo == s[0] && hi == s[n - 1], "minmax"); c.check(Range(v) == s[n - 1] - s[0], "range");
	auto pct = [&](double p) { L rk = (L)p / 100 * (n - 1); int i = (int)floorl(rk); if (i >= n - 1) return (L)s[n - 1]; return s[i] + (rk - i) * ((L)s[i + 1] - s[i]); }; double pp = -1e300; VD ps{0, 25, 50, 75, 100}; for (int i = 0; i < 4; i++) ps.push_back(r.uni(0, 100)); std::sort(ps.begin(), ps.end()); for (double p : ps) { double g = Percentile(v, p); rel(c, g, pct(p), 1e-13, "percentile", 1e-13 * big); c.check(g >= pp - 1e-14 * big && g >= lo && g <= hi, "percentile_monotone"); pp = g; } Real q1, q2, q3; Quartiles(v, q1, q2, q3); c.check(q1 == Percentile(v, 25) && q3 == Percentile(v, 75), "quartiles"); rel(c, q2, med, 1e-14, "quartile_median", 1e-14 * big); c.check(IQR(v) == q3 - q1, "iqr");
	std::map<double, int> cnt; for (double x : a) cnt[x]++; int best = 0; for (auto& k : cnt) best = std::max(best, k.second); double m = Mode(v); c.check(cnt.count(m) && cnt[m] == best, "mode"); if (best > 1) c.ev("mode_ties");
	VD d(n); for (int i = 0; i < n; i++) d[i] = std::fabs(a[i] - med); std::sort(d.begin(), d.end()); rel(c, MAD(v), n % 2 ? d[n / 2] : (d[n / 2 - 1] + d[n / 2]) / 2, 1e-14, "mad"); double tp = r.uni(0, 49.9); int k = (int)std::floor(n * tp / 100); L sm = 0; for (int i = k; i < n - k; i++) sm += s[i]; rel(c, TrimmedMean(v, tp), sm / (n - 2 * k), 1e-12, "trimmed_mean", 1e-15 * n * big); rel(c, TrimmedMean(v, 0), mo(a).m, 1e-12, "trimmed_mean_none", 1e-15 * n * big);
	// input unchanged, order irrelevant
	for (int i = 0; i < n; i++) c.check(v[i] == a[i], "input_modified"); VD sh = a; r.shuffle(sh); Vector<Real> w = V(sh); c.check(Median(w) == Median(v) && Percentile(w, tp) == Percentile(v, tp) && MAD(w) == MAD(v), "order_dependence"); }
FAMILY(means, 800) { auto& r = c.r; int n = (int)r.i(1, 60); VD a(n), w(n); for (int i = 0; i < n; i++) { a[i] = r.pmag(-4, 4); w[i] = r.coin(.2) ? 0 : r.uni(0, 5); } w[(int)r.i(0, n - 1)] = r.uni(2, 5); c.in("a", a); c.in("w", w); Vector<Real> v = V(a), u = V(w); L lg = 0, hs = 0, am = 0, ws = 0, wt = 0; for (int i = 0; i < n; i++) { lg += logl(a[i]); hs += 1 / (L)a[i]; am += a[i]; ws += (L)w[i] * a[i]; wt += w[i]; } c.ev("means"); double g = GeometricMean(v), h = HarmonicMean(v), m = Mean(v); rel(c, g, expl(lg / n), 1e-12, "geometric_mean"); rel(c, h, n / hs, 1e-12, "harmonic_mean"); c.check(h <= g * (1 + 1e-12) && g <= m * (1 + 1e-12), "mean_inequality"); rel(c, WeightedMean(v, u), ws / wt, 1e-12, "weighted_mean"); if (n > 1) { L q = 0; for (int i = 0; i < n; i++) { L d = a[i] - ws / wt; q += w[i] * d * d; } rel(c, WeightedVariance(v, u), q / (wt - 1), 1e-10, "weighted_variance", 1e-14 * mx(a) * mx(a)); Vector<Real> one(n); for (int i = 0; i < n; i++) one[i] = 1; rel(c, WeightedVariance(v, one), Variance(v), 1e-10, "weighted_variance_unit"); }
	VD bad = a; bad[(int)r.i(0, n - 1)] = r.coin() ? 0 : -1; c.throws<StatisticsError>([&] { GeometricMean(V(bad)); }, "geometric_nonpositive"); c.throws<StatisticsError>([&] { HarmonicMean(V(bad)); }, "harmonic_nonpositive"); VD bw = w; bw[(int)r.i(0, n - 1)] = -.1; c.throws<StatisticsError>([&] { WeightedMean(v, V(bw)); }, "negative_weight"); }
FAMILY(covmatrix, 300) { auto& r = c.r; int n = (int)r.sz(2, 40, 300), p = (int)r.sz(1, 6, 24); c.in("n", n); Matrix<Real> D(n, p); std::vector<VD> col(p); for (int j = 0; j < p; j++) { col[j] = gen(c, n, "col", r.pick({0, 2, 5})); for (int i = 0; i < n; i++) D(i, j) = col[j][i]; } Matrix<Real> C = CovarianceMatrix(D); bool ok = true; for (int a = 0; a < p; a++) { ok = ok && mo(col[a]).v > 1e-12; for (int b = 0; b < p; b++) { rel(c, C(a, b), Covariance(V(col[a]), V(col[b])), 1e-11, "covariance_matrix", 1e-11 * std::sqrt((double)(mo(col[a]).v * mo(col[b]).v))); c.check(C(a, b) == C(b, a), "covariance_matrix_symmetric"); } } c.ev("covmatrix"); if (ok) { Matrix<Real> R = CorrelationMatrix(D); for (int a = 0; a < p; a++) for (int b = 0; b < p; b++) rel(c, R(a, b), PearsonCorrelation(V(col[a]), V(col[b])), 0, "correlation_matrix", 1e-10); } }
// rank correlations
FAMILY(ranks, 1200) { auto& r = c.r; int n = (int)r.i(2, 60); VD a = gen(c, n, "a"), b = gen(c, n, "b"); Vector<Real> v = V(a), w = V(b); auto rk = [](const VD& x) { VD q(x.size()); for (size_t i = 0; i < x.size(); i++) { int less = 0, eq = 0; for (double y : x) { less += y < x[i]; eq += y == x[i]; } q[i] = less + (eq + 1) / 2.; } return q; }; VD ra = rk(a), rb = rk(b); Vector<Real> g = ComputeRanks(v); c.ev("ranks"); for (int i = 0; i < n; i++) c.check(g[i] == ra[i], "rank"); Mo oa = mo(ra), ob = mo(rb); if (oa.v > 0 && ob.v > 0) { L cv = 0; for (int i = 0; i < n; i++) cv += (ra[i] - oa.m) * (rb[i] - ob.m); double sp = SpearmanCorrelation(v, w); rel(c, sp, cv / (n - 1) / sqrtl(oa.v * ob.v), 0, "spearman", 1e-12); c.check(std::fabs(sp) <= 1, "spearman_range"); if (n > 2) { auto t = SpearmanCorrelationWithTest(v, w); rel(c, t.zScore, sp * sqrtl(n - 1), 1e-12, "spearman_z"); c.check(t.rho == sp && t.n == n, "spearman_fields"); c.check(t.IsSignificant(.05) == (std::fabs(t.zScore) > 1.96), "spearman_significant"); c.check(t.IsSignificant(.01) == (std::fabs(t.zScore) > 2.576) && t.IsSignificant(.001) == t.IsSignificant(.01) && t.IsSignificant() == t.IsSignificant(.05), "spearman_significant_strict"); for (int k : {n, n + 1}) { RankCorrelationResult q{sp, k % 2 ? 2.2 : -2.2, n}; c.check(q.IsSignificant(.05) && !q.IsSignificant(.01), "significance_levels"); } } } else c.throws<StatisticsError>([&] { SpearmanCorrelation(v, w); }, "spearman_constant");
	long long co = 0, di = 0, tx = 0, ty = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int s = (a[i] > a[j]) - (a[i] < a[j]), t = (b[i] > b[j]) - (b[i] < b[j]); if (s * t > 0) co++; else if (s * t < 0) di++; else if (s == 0 && t != 0) tx++; else if (t == 0 && s != 0) ty++; } double k = KendallCorrelation(v, w); L den = sqrtl((L)(co + di + tx)) * sqrtl((L)(co + di + ty)); rel(c, k, den > 0 ? (co - di) / den : 0, 1e-12, "kendall"); if (n > 2) { auto t = KendallCorrelationWithTest(v, w); rel(c, t.zScore, k / sqrtl(2 * (2. * n + 5) / (9. * n * (n - 1))), 1e-12, "kendall_z", 1e-14); auto d = KendallCorrelationWithTestDetailed(v, w); c.check(d.rho == t.rho && d.zScore == t.zScore && d.status == AlgorithmStatus::Success, "kendall_detailed"); }
	// invariance under strictly increasing maps
	VD m(n); double sc = r.pick({1e-18, 1e-9, 1e3, 1e12}); for (int i = 0; i < n; i++) m[i] = a[i] * sc; if (oa.v > 0 && ob.v > 0) rel(c, SpearmanCorrelation(V(m), w), SpearmanCorrelation(v, w), 0, "spearman_scale_invariance", 1e-12); rel(c, KendallCorrelation(V(m), w), k, 0, "kendall_scale_invariance", 1e-12); }
// p-value, statistic, critical value and decision agree
static void agree(mon::Case& c, const HypothesisTestResult& R, L stat, L p, L crit, double alpha, int df, const std::string& k, bool two) { rel(c, R.testStatistic, stat, 1e-8, k + "_statistic", 1e-9); rel(c, R.pValue, p, 1e-5, k + "_p_value", 1e-12); c.check(R.pValue >= 0 && R.pValue <= 1, k + "_p_range"); rel(c, R.criticalValue, crit, 1e-6, k + "_critical"); c.check(R.degreesOfFreedom == df, k + "_df"); rel(c, R.confidenceLevel, 1 - alpha, 1e-14, k + "_confidence"); c.check(R.rejectNull == ((two ? std::fabs(R.testStatistic) : R.testStatistic) > R.criticalValue), k + "_decision_vs_critical"); if (std::fabs(R.pValue - alpha) > 1e-6 * alpha) c.check(R.rejectNull == (R.pValue < alpha), k + "_decision_vs_p", [&] { std::ostringstream s; s.precision(12); s << "p=" << R.pValue << " alpha=" << alpha << " reject=" << R.rejectNull; return s.str(); }); c.ev(R.rejectNull ? "rejected_null" : "kept_null"); }
static L tp(L t, int df) { return 2 * bm::cdf(bm::complement(bm::students_t_distribution<L>(df), fabsl(t))); } static L tc(double al, int df) { return bm::quantile(bm::complement(bm::students_t_distribution<L>(df), (L)al / 2)); }
template<class A, class B> static void same(mon::Case& c, const A& d, const B& R, const std::string& k) { c.check(d.testStatistic == R.testStatistic && d.pValue == R.pValue && d.criticalValue == R.criticalValue && d.rejectNull == R.rejectNull && d.degreesOfFreedom == R.degreesOfFreedom && d.testName == R.testName && d.status == AlgorithmStatus::Success, k + "_detailed"); }
FAMILY(ttests, 1200) { auto& r = c.r; int n1 = r.coin(.3) ? (int)r.i(2, 4) : (int)r.sz(5, 50, 400), n2 = r.coin(.3) ? (int)r.i(2, 4) : (int)r.sz(5, 50, 400); auto dat = [&](int n, const char* nm) { VD v(n); double m = r.uni(-1, 1), s = r.pmag(-1, 1); for (auto& x : v) x = m + s * r.normal(); c.in(nm, v); return v; }; VD a = dat(n1, "a"), b = dat(n2, "b"); double al = r.coin() ? .05 : r.coin() ? r.uni(.01, .5) : r.pmag(-6, -2), mu = r.uni(-1, 1); c.in("alpha", al); c.in("mu", mu); Mo A = mo(a), B = mo(b); Vector<Real> v = V(a), w = V(b); c.ev("ttest");
	{ L t = (A.m - mu) / sqrtl(A.v / n1); auto R = OneSampleTTest(v, mu, al); agree(c, R, t, tp(t, n1 - 1), tc(al, n1 - 1), al, n1 - 1, "one_sample", true); same(c, OneSampleTTestDetailed(v, mu, al), R, "one_sample"); }
	{ L pv = ((n1 - 1) * A.v + (n2 - 1) * B.v) / (n1 + n2 - 2), t = (A.m - B.m) / sqrtl(pv * (1.L / n1 + 1.L / n2)); int df = n1 + n2 - 2; auto R = TwoSampleTTest(v, w, al); agree(c, R, t, tp(t, df), tc(al, df), al, df, "two_sample", true); auto S = TwoSampleTTest(w, v, al); rel(c, S.testStatistic, -R.testStatistic, 1e-13, "two_sample_antisymmetric"); rel(c, S.pValue, R.pValue, 1e-11, "two_sample_symmetric_p"); same(c, TwoSampleTTestDetailed(v, w, al), R, "two_sample"); auto I = ConfidenceIntervalMeanDifference(v, w, 1 - al); c.check((I.lowerBound > 0 || I.upperBound < 0) == R.rejectNull || std::fabs(R.pValue - al) < 1e-6 * al, "two_sample_interval_duality"); }
	{ L s1 = A.v / n1, s2 = B.v / n2, t = (A.m - B.m) / sqrtl(s1 + s2), f = (s1 + s2) * (s1 + s2) / (s1 * s1 / (n1 - 1) + s2 * s2 / (n2 - 1)); auto R = WelchTTest(v, w, al); int df = std::max(1, (int)floorl(f)); if (fabsl(f - roundl(f)) > 1e-9L) { agree(c, R, t, tp(t, df), tc(al, df), al, df, "welch", true); same(c, WelchTTestDetailed(v, w, al), R, "welch"); } }
	{ VD d = a; for (auto& x : d) x += r.normal() * .3 + r.uni(-.3, .3); Vector<Real> u = V(d); VD df(n1); for (int i = 0; i < n1; i++) df[i] = d[i] - a[i]; Mo D = mo(df); L t = D.m / sqrtl(D.v / n1); auto R = PairedTTest(v, u, al); agree(c, R, t, tp(t, n1 - 1), tc(al, n1 - 1), al, n1 - 1, "paired", true); same(c, PairedTTestDetailed(v, u, al), R, "paired"); auto I = ConfidenceIntervalPairedDifference(v, u, 1 - al); c.check((I.lowerBound > 0 || I.upperBound < 0) == R.rejectNull || std::fabs(R.pValue - al) < 1e-6 * al, "paired_interval_duality"); }
	// invariance: shifting and scaling both samples
	double s = r.pick({1e-100, 1e-6, 1e5, 1e100}); VD a2 = a, b2 = b; for (auto& x : a2) x *= s; for (auto& x : b2) x *= s; auto R1 = WelchTTest(v, w, al), R2 = WelchTTest(V(a2), V(b2), al); rel(c, R2.testStatistic, R1.testStatistic, 1e-9, "welch_scale_invariance"); auto P1 = TwoSampleTTest(v, w, al), P2 = TwoSampleTTest(V(a2), V(b2), al); rel(c, P2.pValue, P1.pValue, 1e-7, "two_sample_scale_invariance", 1e-14); }
FAMILY(degenerate_tests, 300) { auto& r = c.r; int n1 = (int)r.i(2, 8), n2 = (int)r.i(2, 8); double k1 = r.i(-4, 4), k2 = r.coin() ? k1 : (double)r.i(-4, 4); c.in("k1", k1); c.in("k2", k2); Vector<Real> a(n1), b(n2); for (int i = 0; i < n1; i++) a[i] = k1; for (int i = 0; i < n2; i++) b[i] = k2; auto J = [&](const HypothesisTestResult& R, const char* k) { c.check(R.rejectNull == (k1 != k2), std::string(k) + "_decision"); c.check(!std::isnan(R.testStatistic) && R.pValue == (k1 == k2 ? 1 : 0), std::string(k) + "_p"); c.ev("degenerate"); }; J(OneSampleTTest(a, k2), "constant_one_sample"); J(TwoSampleTTest(a, b), "constant_two_sample"); J(WelchTTest(a, b), "constant_welch"); std::vector<Vector<Real>> g{a, b}; J(OneWayANOVA(g), "constant_anova"); }
FAMILY(chi_anova, 900) { auto& r = c.r; double al = r.coin() ? .05 : r.uni(.001, .5); c.in("alpha", al); auto qc = [](L x, int df) { return bm::cdf(bm::complement(bm::chi_squared_distribution<L>(df), x)); }; auto cc = [](double al, int df) { return bm::quantile(bm::complement(bm::chi_squared_distribution<L>(df), (L)al)); };
	{ int k = (int)r.i(2, 10); VD o(k), e(k); L so = 0, se = 0; for (int i = 0; i < k; i++) { o[i] = r.i(0, 30); so += o[i]; } if (so == 0) { o[0] = 3; so = 3; } for (int i = 0; i < k; i++) { e[i] = r.uni(1, 10); se += e[i]; } for (auto& x : e) x = (double)(x * so / se); c.in("o", o); c.in("e", e); L x = 0; for (int i = 0; i < k; i++) x += ((L)o[i] - e[i]) * ((L)o[i] - e[i]) / e[i]; auto R = ChiSquareGoodnessOfFit(V(o), V(e), al); agree(c, R, x, qc(x, k - 1), cc(al, k - 1), al, k - 1, "goodness", false); same(c, ChiSquareGoodnessOfFitDetailed(V(o), V(e), al), R, "goodness"); VD e2 = e; e2[0] *= 1.5; c.throws<StatisticsError>([&] { ChiSquareGoodnessOfFit(V(o), V(e2), al); }, "goodness_sums"); e2 = e; double sc = 1 + r.pick({-1., 1.}) * r.pmag(-5, -1); for (auto& x : e2) x *= sc; c.throws<StatisticsError>([&] { ChiSquareGoodnessOfFit(V(o), V(e2), al); }, "goodness_sums_close"); e2 = e; e2[0] = 0; c.throws<StatisticsError>([&] { ChiSquareGoodnessOfFit(V(o), V(e2), al); }, "goodness_zero_expected"); }
	{ int R_ = (int)r.sz(2, 6, 25), C_ = (int)r.sz(2, 6, 25); Matrix<Real> T(R_, C_), Tt(C_, R_); std::vector<L> rs(R_, 0), cs(C_, 0); L tot = 0; for (int i = 0; i < R_; i++) for (int j = 0; j < C_; j++) { T(i, j) = (double)r.i(i == j || i == 0 || j == 0, 20); Tt(j, i) = T(i, j); rs[i] += T(i, j); cs[j] += T(i, j); tot += T(i, j); } L x = 0; for (int i = 0; i < R_; i++) for (int j = 0; j < C_; j++) { L e = rs[i] * cs[j] / tot; x += (T(i, j) - e) * (T(i, j) - e) / e; } int df = (R_ - 1) * (C_ - 1); auto R = ChiSquareIndependence(T, al); agree(c, R, x, qc(x, df), cc(al, df), al, df, "independence", false); rel(c, ChiSquareIndependence(Tt, al).testStatistic, R.testStatistic, 1e-10, "independence_transpose", 1e-12); same(c, ChiSquareIndependenceDetailed(T, al), R, "independence"); for (int j = 0; j < C_; j++) T(0, j) = 0; c.throws<StatisticsError>([&] { ChiSquareIndependence(T, al); }, "independence_empty_row"); }
	{ int k = (int)r.i(2, 6), N = 0; std::vector<VD> g(k); std::vector<Vector<Real>> G; L gs = 0; double dm = r.uni(0, 2); for (auto& q : g) { int n = (int)r.i(2, 15); q = VD(n); double m = dm * r.normal(); for (auto& x : q) { x = m + r.normal(); gs += x; } N += n; G.push_back(V(q)); c.in("g", q); } L gm = gs / N, sb = 0, sw = 0; for (auto& q : g) { Mo o = mo(q); sb += o.n * (o.m - gm) * (o.m - gm); sw += o.v * (o.n - 1); } L F = (sb / (k - 1)) / (sw / (N - k)); bm::fisher_f_distribution<L> fd(k - 1, N - k); auto R = OneWayANOVA(G, al); agree(c, R, F, bm::cdf(bm::complement(fd, F)), bm::quantile(bm::complement(fd, (L)al)), al, k - 1, "anova", false); same(c, OneWayANOVADetailed(G, al), R, "anova"); if (k == 2) { auto T = TwoSampleTTest(G[0], G[1], al); rel(c, R.testStatistic, (L)T.testStatistic * T.testStatistic, 1e-8, "anova_is_t_squared", 1e-12); rel(c, R.pValue, T.pValue, 1e-6, "anova_p_is_t_p", 1e-11); } c.ev("chi_anova"); } }
FAMILY(intervals, 900) { auto& r = c.r; double cl = r.coin() ? .95 : r.uni(.5, .9999); c.in("cl", cl); double al = 1 - cl; L z = bm::quantile(bm::complement(bm::normal_distribution<L>(), (L)al / 2)); auto chk = [&](const ConfidenceInterval& I, L est, L mg, const char* k, bool clip = false) { rel(c, I.estimate, est, 1e-10, std::string(k) + "_estimate", 1e-13); rel(c, I.marginOfError, mg, 1e-6, std::string(k) + "_margin", 1e-13); L lo = est - mg, hi = est + mg; if (clip) { lo = fmaxl(lo, 0); hi = fminl(hi, 1); } rel(c, I.lowerBound, lo, 1e-6, std::string(k) + "_lower", 1e-7 * (double)mg + 1e-12); rel(c, I.upperBound, hi, 1e-6, std::string(k) + "_upper", 1e-7 * (double)mg + 1e-12); c.check(I.lowerBound <= I.estimate && I.estimate <= I.upperBound && I.confidenceLevel == cl, std::string(k) + "_ordered"); c.ev("interval"); };
	int n = (int)r.i(2, 50), m = (int)r.i(2, 50); VD a(n), b(m); for (auto& x : a) x = r.normal(); for (auto& x : b) x = r.normal() + .5; c.in("a", a); c.in("b", b); Mo A = mo(a), B = mo(b); chk(ConfidenceIntervalMean(V(a), cl), A.m, tc(al, n - 1) * sqrtl(A.v / n), "mean_interval"); L pv = ((n - 1) * A.v + (m - 1) * B.v) / (n + m - 2); chk(ConfidenceIntervalMeanDifference(V(a), V(b), cl), A.m - B.m, tc(al, n + m - 2) * sqrtl(pv * (1.L / n + 1.L / m)), "difference_interval"); int t1 = (int)r.i(1, 200), s1 = (int)r.i(0, t1), t2 = (int)r.i(1, 200), s2 = (int)r.i(0, t2); c.in("t1", t1); c.in("s1", s1); L p1 = (L)s1 / t1, p2 = (L)s2 / t2; chk(ConfidenceIntervalProportion(s1, t1, cl), p1, z * sqrtl(p1 * (1 - p1) / t1), "proportion_interval", true); chk(ConfidenceIntervalProportionDifference(s1, t1, s2, t2, cl), p1 - p2, z * sqrtl(p1 * (1 - p1) / t1 + p2 * (1 - p2) / t2), "proportion_difference_interval");
	auto D = ConfidenceIntervalMeanDetailed(V(a), cl); auto S = ConfidenceIntervalMean(V(a), cl); c.check(D.lowerBound == S.lowerBound && D.upperBound == S.upperBound && D.estimate == S.estimate && D.status == AlgorithmStatus::Success, "interval_detailed"); double cl2 = cl + (1 - cl) / 2; c.check(ConfidenceIntervalMean(V(a), cl2).marginOfError >= S.marginOfError, "interval_grows_with_level"); }
// coverage: intervals and tests have their nominal error rates on simulated data
FAMILY(coverage, 6) { auto& r = c.r; int n = (int)r.i(3, 12), cov = 0, rej = 0, rw = 0, ra = 0, N = 1500; c.in("n", n); for (int k = 0; k < N; k++) { Vector<Real> a(n), b(n), d(n); for (int i = 0; i < n; i++) { a[i] = 3 + 2 * r.normal(); b[i] = 3 + 2 * r.normal(); d[i] = 3 + 2 * r.normal(); } auto I = ConfidenceIntervalMean(a, .9); cov += I.lowerBound <= 3 && 3 <= I.upperBound; rej += TwoSampleTTest(a, b, .1).rejectNull; rw += OneSampleTTest(a, 3, .1).rejectNull; ra += OneWayANOVA({a, b, d}, .1).rejectNull; } double lim = 5.5 * std::sqrt(N * .09); auto ck = [&](double g, double w, const char* k) { c.check(std::fabs(g - w) <= lim, k, [&] { return std::to_string(g); }); }; ck(cov, .9 * N, "interval_coverage"); ck(rej, .1 * N, "two_sample_level"); ck(rw, .1 * N, "one_sample_level"); ck(ra, .1 * N, "anova_level"); c.ev("coverage"); }
FAMILY(rejects, 200) { auto& r = c.r; auto t = [&](auto f, const char* k) { c.throws<StatisticsError>(f, k); c.ev("rejected_input"); }; Vector<Real> e(0), one(1), two(2), three(3); two[0] = 1; two[1] = 2; for (int i = 0; i < 3; i++) three[i] = i; t([&] { Avg(e); }, "avg_empty"); t([&] { Median(e); }, "median_empty"); t([&] { Percentile(e, 5); }, "percentile_empty"); double bp = r.pick({-1., 101., (double)NAN, (double)INFINITY, -1e-9}); t([&] { Percentile(two, bp); }, "percentile_range"); double bt = r.pick({-1., 50., (double)NAN, 99.}); t([&] { TrimmedMean(two, bt); }, "trim_range"); t([&] { Range(e); }, "range_empty"); t([&] { Mode(e); }, "mode_empty"); t([&] { MAD(e); }, "mad_empty"); t([&] { IQR(e); }, "iqr_empty"); Real x, y, z; t([&] { MinMax(e, x, y); }, "minmax_empty"); t([&] { Quartiles(e, x, y, z); }, "quartiles_empty"); t([&] { Covariance(one, one); }, "cov_single"); t([&] { Covariance(two, three); }, "cov_sizes"); t([&] { PearsonCorrelation(two, three); }, "pearson_sizes"); t([&] { SpearmanCorrelation(two, three); }, "spearman_sizes"); t([&] { KendallCorrelation(two, three); }, "kendall_sizes"); t([&] { WeightedMean(two, three); }, "weights_sizes"); t([&] { PairedTTest(two, three); }, "paired_sizes");
	double ba = r.pick({0., 1., -.1, 2.}); t([&] { OneSampleTTest(three, 0, ba); }, "one_sample_alpha"); t([&] { TwoSampleTTest(three, two, ba); }, "two_sample_alpha"); t([&] { WelchTTest(three, two, ba); }, "welch_alpha"); t([&] { ConfidenceIntervalMean(three, ba); }, "interval_level"); t([&] { ConfidenceIntervalProportion(1, 2, ba); }, "proportion_level"); t([&] { ConfidenceIntervalProportion(3, 2); }, "proportion_counts"); t([&] { ConfidenceIntervalProportion(-1, 2); }, "proportion_counts"); t([&] { OneSampleTTest(one, 0); }, "one_sample_single"); t([&] { OneWayANOVA({three}); }, "anova_one_group"); t([&] { OneWayANOVA({three, one}); }, "anova_single"); t([&] { ChiSquareIndependence(Matrix<Real>(1, 3)); }, "independence_shape"); t([&] { ChiSquareIndependence(Matrix<Real>(2, 2)); }, "independence_empty");
	StatisticsConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto D = OneSampleTTestDetailed(one, 0, .05, cf); c.check(D.status != AlgorithmStatus::Success && !D.error_message.empty(), "detailed_status"); cf.exception_policy = EvaluationExceptionPolicy::Propagate; t([&] { OneSampleTTestDetailed(one, 0, .05, cf); }, "detailed_propagates"); }
MON_MAIN()
