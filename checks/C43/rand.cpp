// C43: random draws (range, distribution, independence, reproducibility, thread separation) and timers.
#include "mon.h"
#include "mml/MMLBase.h"
#include "mml/MMLExceptions.h"
#include "mml/base/Random.h"
#include "mml/core/AlgorithmTypes.h"
#include "mml/tools/Timer.h"
#include "mml/core/Integration/MonteCarloIntegration.h"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/distributions/binomial.hpp>
using namespace MML;
typedef std::chrono::steady_clock Clk;
static double secs(Clk::time_point a, Clk::time_point b) { return std::chrono::duration<double>(b - a).count(); }
struct SaveRng { ~SaveRng() { Random::SetSeed(12345); } };

// sqrt(n) * Kolmogorov distance from U[0,1); P(> 3.9) < 2 exp(-2*3.9^2) = 1.3e-13
static double ks(std::vector<double> v) {
	std::sort(v.begin(), v.end()); double n = v.size(), d = 0;
	for (size_t i = 0; i < v.size(); i++) d = std::max(d, std::max((i + 1) / n - v[i], v[i] - i / n));
	return d * std::sqrt(n);
}
static double chi2p(const std::vector<long>& cnt, const std::vector<double>& expct) {
	double x = 0; for (size_t i = 0; i < cnt.size(); i++) x += (cnt[i] - expct[i]) * (cnt[i] - expct[i]) / expct[i];
	return cnt.size() < 2 ? 1 : boost::math::gamma_q((cnt.size() - 1) / 2.0, x / 2);
}
static double chi2p(const std::vector<long>& cnt) { double n = 0; for (long k : cnt) n += k; return chi2p(cnt, std::vector<double>(cnt.size(), n / cnt.size())); }
// independence of numbers at the given lag: 8x8 table
static void pairs(mon::Case& c, const std::vector<double>& u, int lag, const std::string& key) {
	const int B = 8; std::vector<long> t(B * B); long n = 0;
	for (size_t i = 0; i + lag < u.size(); i += lag + 1) { int a = std::min(B - 1, (int)(u[i] * B)), b = std::min(B - 1, (int)(u[i + lag] * B)); t[a * B + b]++; n++; }
	if (n < 64 * 20) return;
	double p = chi2p(t); c.check(p > 1e-12, key + "_successive_draws_dependent", [&] { return "lag " + std::to_string(lag) + " p=" + mon::str(p); }); c.ev("pair_tests");
}

FAMILY(real, 60) {
	SaveRng sv; auto& r = c.r; unsigned seed = (unsigned)r.next(); c.in("seed", seed); Random::SetSeed(seed);
	double lo, hi; int k = r.i(0, 6);
	switch (k) {
	case 0: lo = 0; hi = 1; break;
	case 1: lo = r.uni(-10, 10); hi = lo + r.pmag(-3, 3); break;
	case 2: lo = r.logmag(-300, 300); hi = lo + std::fabs(lo) * r.pmag(-6, 2); if (!std::isfinite(hi)) hi = DBL_MAX; break;
	case 3: lo = -r.pmag(-300, 300); hi = 0; break;
	case 4: lo = r.logmag(-3, 12); hi = lo; for (int i = r.i(1, 6); i > 0; --i) hi = std::nextafter(hi, INFINITY); break;   // a handful of representable numbers
	case 5: lo = -r.uni(0.6, 1) * DBL_MAX; hi = r.uni(0.6, 1) * DBL_MAX; break;
	default: lo = -r.pmag(-8, 8); hi = -lo; break;
	}
	if (k == 0 || k == 1 || k == 6) c.ev("ordinary_range"); else if (k == 4) c.ev("few_numbers"); else if (k == 5) c.ev("range_wider_than_finite"); else c.ev("extreme_range");
	c.in("lo", lo); c.in("hi", hi); int n = 12000; std::vector<double> u; u.reserve(n);
	double mn = INFINITY, mx = -INFINITY;
	for (int i = 0; i < n; i++) { double x = Random::UniformReal(lo, hi); if (!c.check(x >= lo && x < hi, "outside_range", [&] { return mon::str(x - lo) + " from lo, " + mon::str(hi - x) + " to hi"; })) return; mn = std::min(mn, x); mx = std::max(mx, x); u.push_back((double)(((long double)x - lo) / ((long double)hi - lo))); }
	c.ev("draws", n);
	if (k == 4) return; // discrete: only the range
	double d = ks(u); c.maxi("ks_real", d); c.check(d < 3.9, "not_uniform", [&] { return "KS*sqrt(n)=" + mon::str(d); });
	pairs(c, u, 1, "real"); pairs(c, u, 2, "real"); c.ev("ks_tests");
	std::set<double> dis(u.begin(), u.end()); c.check((int)dis.size() > n - 40, "repeats", [&] { return std::to_string(dis.size()); }); // 32-bit sources give ~0.02 expected collisions, 53-bit none
}
FAMILY(real_bad, 60) {
	SaveRng sv; auto& r = c.r; double a = r.logmag(-5, 5), b = a + r.pmag(-5, 5); Random::SetSeed(3);
	switch (r.i(0, 3)) {
	case 0: c.in("a", b); c.in("b", a); c.throws<std::exception>([&] { Random::UniformReal(b, a); }, "reversed_real"); break;
	case 1: c.throws<std::exception>([&] { Random::UniformReal(std::nan(""), b); }, "nan_low"); c.throws<std::exception>([&] { Random::UniformReal(a, std::nan("")); }, "nan_high"); break;
	case 2: c.throws<std::exception>([&] { Random::UniformReal(a, INFINITY); }, "infinite_high"); c.throws<std::exception>([&] { Random::UniformReal(-INFINITY, a); }, "infinite_low"); break;
	default: { int x = r.i(-1000, 1000), y = x - r.i(1, 2000); c.in("x", x); c.in("y", y); c.throws<std::exception>([&] { Random::UniformInt(x, y); }, "reversed_int"); c.throws<std::exception>([&] { Random::UniformInt(INT_MAX, INT_MIN); }, "reversed_int"); break; }
	}
	c.check(Random::UniformReal(a, a) == a, "single_real"); int m = (int)r.next(); c.check(Random::UniformInt(m, m) == m && Random::UniformInt(INT_MAX, INT_MAX) == INT_MAX && Random::UniformInt(INT_MIN, INT_MIN) == INT_MIN, "single_int"); c.ev("bad_range");
}
FAMILY(integers, 80) {
	SaveRng sv; auto& r = c.r; unsigned seed = (unsigned)r.next(); c.in("seed", seed); Random::SetSeed(seed);
	long lo, hi; int k = r.i(0, 5);
	switch (k) {
	case 0: lo = 0; hi = r.i(1, 5); break;
	case 1: lo = r.i(-100, 100); hi = lo + r.i(1, 60); break;
	case 2: lo = INT_MIN; hi = INT_MAX; break;
	case 3: lo = (long)INT_MAX - r.i(1, 40); hi = INT_MAX; break;
	case 4: lo = INT_MIN; hi = (long)INT_MIN + r.i(1, 40); break;
	default: lo = -(long)r.i(1, 2000000000); hi = r.i(1, 2000000000); break;
	}
	c.ev(k == 0 || k == 1 ? "small_int_range" : k == 2 || k == 5 ? "wide_int_range" : "int_range_at_limit");
	c.in("lo", lo); c.in("hi", hi); long w = hi - lo + 1; int B = (int)std::min<long>(w, 61); int n = 12000; std::vector<long> cnt(B); std::vector<double> ex(B), u;
	for (int b = 0; b < B; b++) { // values v with floor(v*B/w)==b
		long f = (b * w + B - 1) / B, l = ((b + 1) * w + B - 1) / B; ex[b] = (double)n * (double)(l - f) / (double)w;
	}
	bool first = false, last = false;
	for (int i = 0; i < n; i++) { long x = Random::UniformInt((int)lo, (int)hi); if (!c.check(x >= lo && x <= hi, "outside_range", [&] { return std::to_string(x); })) return; cnt[(x - lo) * B / w]++; first |= x == lo; last |= x == hi; u.push_back(((double)(x - lo) + 0.5) / (double)w); }
	c.ev("draws", n);
	if (w <= 61) c.check(first && last, "end_value_never_drawn");
	double p = chi2p(cnt, ex); c.check(p > 1e-12, "not_uniform", [&] { return "p=" + mon::str(p); }); c.ev("chi2_tests");
	if (w >= 1000) { pairs(c, u, 1, "int"); pairs(c, u, 3, "int"); std::vector<long> par(2); }
	else if (w <= 12) { std::vector<long> t(w * w); for (size_t i = 0; i + 1 < u.size(); i += 2) t[(long)(u[i] * w) * w + (long)(u[i + 1] * w)]++; double q = chi2p(t); c.check(q > 1e-12, "successive_draws_dependent", [&] { return mon::str(q); }); c.ev("pair_tests"); }
}
FAMILY(direction2, 40) {
	SaveRng sv; auto& r = c.r; unsigned seed = (unsigned)r.next(); c.in("seed", seed); Random::SetSeed(seed); double A = r.coin() ? 1 : r.pmag(-200, 200); c.in("abs", A); int n = 10000; std::vector<double> u;
	double sx = 0, sy = 0; long quad[4] = {0, 0, 0, 0};
	for (int i = 0; i < n; i++) { double x = NAN, y = NAN; double g = Random::UniformVecDirection2(x, y, A); if (!c.check(g == A, "returned_magnitude")) return; double m = std::hypot(x, y); if (!c.close(m, A, 8e-16 * A, "magnitude")) return; double t = std::atan2(y, x) / (2 * M_PI); if (t < 0) t += 1; u.push_back(std::min(t, 1 - 1e-16)); sx += x / A; sy += y / A; quad[(x < 0) * 2 + (y < 0)]++; }
	double d = ks(u); c.maxi("ks_dir2", d); c.check(d < 3.9, "not_uniform", [&] { return mon::str(d); }); pairs(c, u, 1, "dir2"); c.check(std::hypot(sx, sy) < 6 * std::sqrt((double)n), "mean_direction_not_zero"); c.check(quad[0] && quad[1] && quad[2] && quad[3], "empty_quadrant"); c.ev("directions", n);
	double x = 5, y = 5; Random::UniformVecDirection2(x, y, 0.0); c.check(x == 0 && y == 0, "zero_magnitude");
}
FAMILY(direction3, 40) {
	SaveRng sv; auto& r = c.r; unsigned seed = (unsigned)r.next(); c.in("seed", seed); Random::SetSeed(seed); double A = r.coin() ? 1 : r.pmag(-200, 200); c.in("abs", A); int n = 12000; std::vector<double> uz, up, ux, uy; std::vector<long> tab(64);
	// an arbitrary fixed axis: the projection on any axis must be uniform on [-1,1]
	double ax = r.normal(), ay = r.normal(), az = r.normal(), an = std::sqrt(ax * ax + ay * ay + az * az); std::vector<double> ua;
	for (int i = 0; i < n; i++) { double x = NAN, y = NAN, z = NAN; double g = Random::UniformVecDirection3(x, y, z, A); if (!c.check(g == A, "returned_magnitude")) return; x /= A; y /= A; z /= A; if (!c.close(std::sqrt(x * x + y * y + z * z), 1, 1.5e-15, "magnitude")) return;
		auto cl = [](double t) { return std::min(1 - 1e-16, std::max(0.0, t)); }; double t = std::atan2(y, x) / (2 * M_PI); if (t < 0) t += 1; t = cl(t); double w = cl((z + 1) / 2); uz.push_back(w); up.push_back(t); ux.push_back(cl((x + 1) / 2)); uy.push_back(cl((y + 1) / 2)); ua.push_back(cl(((x * ax + y * ay + z * az) / an + 1) / 2)); tab[(int)(w * 8) * 8 + (int)(t * 8)]++; }
	auto K = [&](const std::vector<double>& v, const char* k) { double d = ks(v); c.maxi("ks_dir3", d); c.check(d < 3.9, k, [&] { return mon::str(d); }); c.ev("ks_tests"); };
	K(uz, "z_not_uniform"); K(up, "azimuth_not_uniform"); K(ux, "x_not_uniform"); K(uy, "y_not_uniform"); K(ua, "projection_not_uniform"); double p = chi2p(tab); c.check(p > 1e-12, "azimuth_depends_on_height", [&] { return mon::str(p); }); pairs(c, uz, 1, "dir3z"); pairs(c, up, 1, "dir3phi"); c.ev("directions", n);
	double x = 5, y = 5, z = 5; Random::UniformVecDirection3(x, y, z, 0.0); c.check(x == 0 && y == 0 && z == 0, "zero_magnitude");
}
static double drawOne(mon::Rng& r) {
	switch (r.i(0, 3)) {
	case 0: { double a = r.uni(-5, 5); return Random::UniformReal(a, a + r.uni(0.1, 4)); }
	case 1: { int a = r.i(-50, 50); return Random::UniformInt(a, a + r.i(0, 1000)); }
	case 2: { double x, y; Random::UniformVecDirection2(x, y, 2); return x + 10 * y; }
	default: { double x, y, z; Random::UniformVecDirection3(x, y, z, 3); return x + 10 * y + 100 * z; }
	}
}
static std::vector<double> seq(unsigned seed, uint64_t ops, int n) { Random::SetSeed(seed); mon::Rng r(ops); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(drawOne(r)); return v; }
FAMILY(reproducible, 200) {
	SaveRng sv; auto& r = c.r; unsigned seed = r.pick<unsigned>({0u, 1u, 0xffffffffu, (unsigned)r.next(), (unsigned)r.next(), (unsigned)r.next()}); uint64_t ops = r.next(); c.in("seed", seed); c.in("ops", (double)ops); int n = r.i(1, 1500);
	auto a = seq(seed, ops, n); int extra = r.i(0, 50); for (int i = 0; i < extra; i++) drawOne(r); auto b = seq(seed, ops, n); c.check(a == b, "same_seed_other_values"); auto d = seq(seed + 1, ops, n), e = seq(seed ^ 0x40000000u, ops, n); if (n > 5) c.check(d != a && e != a && d != e, "seed_ignored");
	// real draws alone: long streams do not cycle and different seeds share no value runs
	c.ev("reseeded");
}
FAMILY(threads, 40) {
	SaveRng sv; auto& r = c.r; int T = r.i(2, 6), n = r.i(50, 800); c.in("T", T); std::vector<unsigned> seeds; std::vector<uint64_t> ops; for (int t = 0; t < T; t++) { seeds.push_back((unsigned)r.next()); ops.push_back(r.next()); }
	if (r.coin(.3)) seeds[1] = seeds[0], ops[1] = ops[0]; // equal seeds give equal streams in every thread
	std::vector<std::vector<double>> want(T), got(T); for (int t = 0; t < T; t++) want[t] = seq(seeds[t], ops[t], n);
	std::atomic<int> ready{0}; Random::SetSeed(99); std::vector<double> mine(20); for (auto& x : mine) x = Random::UniformReal(0, 1); Random::SetSeed(99);
	std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready < T) std::this_thread::yield(); got[t] = seq(seeds[t], ops[t], n); });
	std::vector<double> now; for (size_t i = 0; i < mine.size(); i++) { now.push_back(Random::UniformReal(0, 1)); std::this_thread::yield(); }
	for (auto& x : th) x.join();
	for (int t = 0; t < T; t++) c.check(got[t] == want[t], "other_threads_disturb_a_seeded_stream"); c.check(now == mine, "threads_disturb_the_callers_stream"); c.ev("threads", T);
}
FAMILY(unseeded, 12) {
	int T = 4; std::vector<std::vector<double>> v(T); std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (int i = 0; i < 400; i++) v[t].push_back(Random::UniformReal(0, 1)); }); for (auto& x : th) x.join();
	std::set<double> all; size_t n = 0; for (auto& s : v) { all.insert(s.begin(), s.end()); n += s.size(); } c.check(all.size() + 3 > n, "threads_share_values", [&] { return std::to_string(all.size()); }); c.ev("unseeded_threads", T); c.in("run", (double)c.idx);
}
// the standard error reported by Monte Carlo integration is the spread actually seen across seeds
FAMILY(calibration, 16) {
	auto& r = c.r; struct F : IScalarFunction<2> { double a, b, k; Real operator()(const VectorN<Real, 2>& x) const override { return k + std::sin(a * x[0]) * x[1] + b * x[0] * x[1] * x[1]; } } f; f.a = r.uni(.5, 6); f.b = r.uni(-3, 3); f.k = r.uni(-1, 1); c.in("a", f.a); c.in("b", f.b); c.in("k", f.k); bool anti = r.coin();
	double exact = f.k + (1 - std::cos(f.a)) / f.a / 2 + f.b / 6; const int M = 300; double s1 = 0, s2 = 0; int n = r.i(200, 600);
	for (int m = 0; m < M; m++) { MonteCarloConfig cf; cf.samples(n).randomSeed((unsigned)(r.next() | 1)).antithetic(anti); MonteCarloIntegrator<2> I(1); auto R = I.integrate(f, cf); double z = (R.value - exact) / R.error_estimate; s1 += z; s2 += z * z; }
	c.check(std::fabs(s1 / M) < 7.5 / std::sqrt((double)M), "biased", [&] { return mon::str(s1 / M); }); c.check(s2 / M > 0.5 && s2 / M < 1.7, "reported_error_not_the_spread", [&] { return mon::str(s2 / M); }); c.maxi("mean_z2", s2 / M); c.ev("calibrated");
}

static void pause(mon::Rng& r) { double us = r.pmag(0, 3.3); if (r.coin(.3)) return; if (r.coin()) { auto t = Clk::now(); while (secs(t, Clk::now()) < us * 1e-6) {} } else std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
static const double SL = 3e-6; // clock conversions
FAMILY(timer, 150) {
	auto& r = c.r; Timer t; c.check(t.GetMarkCount() == 0, "fresh_count"); int rounds = r.i(1, 3);
	c.throws<std::runtime_error>([&] { t.GetIntervalTime(0); }, "no_marks_interval"); c.throws<std::runtime_error>([&] { t.GetTotalTime(); }, "no_marks_total"); c.throws<std::runtime_error>([&] { t.GetMarkTimeFromStart(0); }, "no_marks_fromstart");
	for (int q = 0; q < rounds; q++) {
		auto b0 = Clk::now(); if (q && r.coin()) t.Reset(); else t.Start(); auto a0 = Clk::now(); c.check(t.GetMarkCount() == 0, "start_keeps_marks"); c.throws<std::runtime_error>([&] { t.GetTotalTime(); }, "no_marks_after_start");
		int n = (int)r.sz(1, 12, 120); c.in("n", n); std::vector<Clk::time_point> B{b0}, A{a0}; std::vector<std::string> names;
		for (int i = 0; i < n; i++) { pause(r); std::string nm = "m" + std::to_string(i) + (r.coin(.2) ? std::string(40, 'x') : ""); B.push_back(Clk::now()); if (r.coin(.3)) { t.MarkTime(); nm = ""; } else t.MarkTime(nm); A.push_back(Clk::now()); names.push_back(nm); c.check((int)t.GetMarkCount() == i + 1, "count"); }
		double sum = 0, prev = 0;
		for (int i = 0; i < n; i++) {
			double d = t.GetIntervalTime(i), m = t.GetMarkTimeFromStart(i); sum += d;
			c.check(d >= 0 && m >= 0, "negative"); c.check(m >= prev, "not_monotone"); prev = m; c.close(sum, m, 1e-9 + 1e-12 * m, "intervals_do_not_add_up");
			c.check(d <= secs(B[i], A[i + 1]) + SL && d >= secs(A[i], B[i + 1]) - SL, "interval_wrong", [&] { return mon::str(d) + " not in " + mon::str(secs(A[i], B[i + 1])) + ".." + mon::str(secs(B[i], A[i + 1])); });
			c.check(m <= secs(B[0], A[i + 1]) + SL && m >= secs(A[0], B[i + 1]) - SL, "time_from_start_wrong"); c.ev("marks");
		}
		c.close(t.GetTotalTime(), prev, 1e-12 + 1e-12 * prev, "total"); c.check(t.GetIntervalTime() == t.GetIntervalTime(0) && t.GetMarkTimeFromStart() == t.GetMarkTimeFromStart(0), "default_index");
		c.throws<std::out_of_range>([&] { t.GetIntervalTime(n); }, "interval_past_end"); c.throws<std::out_of_range>([&] { t.GetMarkTimeFromStart(n); }, "mark_past_end"); c.throws<std::out_of_range>([&] { t.GetIntervalTime((size_t)-1); }, "interval_huge_index");
#ifndef MON_CONC
		std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); t.Print(); std::cout.rdbuf(old); std::string s = os.str(); size_t at = 0;
		for (int i = 0; i < n; i++) { std::string tag = "Mark " + std::to_string(i) + " "; size_t p = s.find(tag, at); if (!c.check(p != std::string::npos, "print_mark_missing", s)) break; size_t e = s.find('\n', p); std::string line = s.substr(p, e - p); if (!names[i].empty()) c.check(line.find(names[i]) != std::string::npos, "print_name_missing", line); size_t k = line.rfind("): "); if (c.check(k != std::string::npos, "print_line", line)) c.close(atof(line.c_str() + k + 3), t.GetIntervalTime(i), 1e-5 * t.GetIntervalTime(i), "print_value"); at = e; }
		size_t p = s.find("Total Time:", at); if (c.check(p != std::string::npos, "print_total")) c.close(atof(s.c_str() + p + 11), t.GetTotalTime(), 1e-5 * t.GetTotalTime(), "print_total_value"); c.ev("printed");
#endif
	}
}
FAMILY(scoped, 150) {
	auto& r = c.r; double res = -7; int calls = 0; double cbT = -1; std::string cbN; std::string nm = "scope" + std::to_string(r.i(0, 99)); bool silent = r.coin(); int kind = r.i(0, 4); c.in("kind", kind); c.in("silent", silent);
	std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); double mid1 = 0, mid2 = 0; Clk::time_point b0, a0, b1, a1; bool keep = true, threw = false;
	try {
		auto body = [&](ScopedTimer& t) { a0 = Clk::now(); mid1 = t.elapsed(); pause(r); mid2 = t.elapsed(); keep = res == -7 && calls == 0 && t.name() == nm; b1 = Clk::now(); };
		b0 = Clk::now();
		switch (kind) {
		case 0: { ScopedTimer t(nm); silent = false; body(t); break; }
		case 1: { ScopedTimer t(nm, res, silent); body(t); break; }
		case 2: { ScopedTimer t(nm, [&](const std::string& n, double e) { calls++; cbN = n; cbT = e; }, silent); body(t); break; }
		case 3: { ScopedTimer t(nm, [&](const std::string& n, double e) { calls++; cbN = n; cbT = e; throw std::runtime_error("callback"); }, silent); body(t); break; }
		default: { ScopedTimer t(nm, res, silent); body(t); throw 5; }
		}
	} catch (int) { threw = true; } catch (...) { std::cout.rdbuf(old); throw; }
	a1 = Clk::now(); std::cout.rdbuf(old);
	c.check(threw == (kind == 4), "exception_lost"); c.check(keep, "reported_before_the_end"); c.check(mid1 >= 0 && mid2 >= mid1, "elapsed_not_monotone"); c.check(mid2 <= secs(b0, b1) + SL, "elapsed_too_long");
	double lo = secs(a0, b1) - SL, hi = secs(b0, a1) + SL;
	if (kind == 1 || kind == 4) c.check(res >= lo && res <= hi && res >= mid2, "result_value", [&] { return mon::str(res) + " not in " + mon::str(lo) + ".." + mon::str(hi); }); else c.check(res == -7, "result_touched");
	if (kind == 2 || kind == 3) { c.check(calls == 1, "callback_count"); c.check(cbN == nm, "callback_name"); c.check(cbT >= lo && cbT <= hi, "callback_time"); } else c.check(calls == 0, "callback_called");
	c.check(silent ? os.str().empty() : os.str().find(nm) != std::string::npos, "printing", os.str()); c.ev("scoped"); c.ev(kind == 4 ? "unwound" : kind == 3 ? "throwing_callback" : "plain_scope");
	// nested scopes: the outer lasts at least as long
	double in1 = 0, in2 = 0, out = 0; { ScopedTimer o("o", out); { ScopedTimer a("a", in1); pause(r); } { ScopedTimer b("b", in2); } } c.check(out >= in1 + in2 - 1e-9, "outer_shorter_than_inner");
}
FAMILY(algorithm_timer, 80) {
	auto& r = c.r; auto b0 = Clk::now(); AlgorithmTimer t; auto a0 = Clk::now(); double prev = 0; c.in("i", (double)c.idx);
	for (int i = 0; i < 5; i++) { pause(r); auto b = Clk::now(); double e = t.elapsed_ms(); auto a = Clk::now(); c.check(e >= prev, "not_monotone"); prev = e; c.check(e / 1000 <= secs(b0, a) + 3e-5 && e / 1000 >= secs(a0, b) - 3e-5, "elapsed_wrong", [&] { return mon::str(e); }); c.ev("elapsed"); if (r.coin(.2)) { b0 = Clk::now(); t.reset(); a0 = Clk::now(); prev = 0; } }
}
MON_MAIN()
