// C42: functions with known features
#include "mon.h"
#include <functional>
#include "mml/algorithms/FunctionsAnalyzer.h"
using namespace MML; typedef std::function<Real(Real)> Fn; static const double NaN = std::numeric_limits<double>::quiet_NaN();
// every reported value matches exactly one expected one and vice versa
template<class A> static bool match(mon::Case& c, const A& got, int n, std::vector<double> want, double tol, const char* key) { std::sort(want.begin(), want.end()); std::vector<double> g; for (int i = 0; i < n; i++) g.push_back(got[i]); auto show = [&] { std::string s = "got"; for (double x : g) s += " " + mon::str(x); s += " want"; for (double x : want) s += " " + mon::str(x); return s.substr(0, 600); }; if (!c.check(g.size() == want.size(), key, show)) return false; std::sort(g.begin(), g.end()); for (size_t i = 0; i < g.size(); i++) if (!c.check(std::fabs(g[i] - want[i]) <= tol, key, show)) return false; return true; }
// a sum of well separated features: sin-like or polynomial, any amplitude and place
FAMILY(roots, 400) { auto& r = c.r; double a = r.normal() * r.pick({1., 10., 100.}), w = r.pmag(-2, 2), step = w / 1000, eps = r.pick({1e-6, 1e-8, 1e-5}) ; if (eps > step / 20) eps = step / 20; int n = (int)r.i(1, 6); std::vector<double> z; for (int t = 0; t < 200 && (int)z.size() < n; t++) { double x = a + w * r.uni(.01, .99); if (r.coin(.15)) x = a + (int)r.i(1, 999) * step; bool ok = true; for (double y : z) ok &= std::fabs(x - y) > 6 * step; if (ok) z.push_back(x); } double amp = r.pick({1., 1., 1e3, 1e6}); int kind = (int)r.i(0, 2); c.in("a", a); c.in("w", w); c.in("eps", eps); c.in("amp", amp); c.in("kind", kind); c.in("z", z); Fn f; if (kind == 0) f = [=](Real x) { double p = amp; for (double y : z) p *= std::sin((x - y) / w) * 30; return p; }; else if (kind == 1) f = [=](Real x) { double p = amp; for (double y : z) p *= std::tanh((x - y) / w * 3) * 3; return p; }; else f = [=](Real x) { double p = amp; for (double y : z) p *= std::expm1((x - y) / w) * 10; return p; };
	double slope = 1e300; for (double y : z) slope = std::min(slope, std::fabs(f(y + step) - f(y - step)) / (2 * step)); double tol = eps * 1.01 + eps / slope + 1e-14 * std::fabs(a); if (slope * step < 20 * eps) { c.trivial(); return; } RealFunctionFromStdFunc g(f); RealFunctionAnalyzer an(g); auto q = an.GetRoots(a, a + w, eps); if (match(c, q, (int)q.size(), z, std::max(tol, 2 * eps), "roots")) { c.ev("root_sets"); c.ev("roots", (long)z.size()); } auto mono = std::is_sorted(q.begin(), q.end()); c.check(mono, "ascending"); }
// what is not a root is not reported as one
FAMILY(not_roots, 600) { auto& r = c.r; int k = (int)r.i(0, 6); double p = r.uni(-.9, .9), amp = r.pmag(-1, 4), eps = 1e-6; if (r.coin(.2)) p = r.pick({0., .5, -.5}); c.in("kind", k); c.in("p", p); c.in("amp", amp); Fn f; std::vector<double> want; double tol = 2e-6; switch (k) { case 0: f = [=](Real x) { return amp / (x - p); }; break; case 1: f = [=](Real x) { return x < p ? -amp : 3 * amp; }; break; case 2: f = [=](Real x) { return amp * (x * x + .1); }; break; case 3: f = [=](Real x) { return amp * std::tan(x - p); }; { double lo = -1 - p, hi = 1 - p; (void)lo; (void)hi; want = {p}; } break; case 4: f = [=](Real x) { return x < p ? x - p - .5 : x - p + .5; }; if (p - .5 > 1) {} break; case 5: { f = [=](Real x) { double d = x - p; return amp * d * d * d; }; want = {p}; tol = std::cbrt(eps / amp) * 1.1 + 2e-6; break; } default: f = [=](Real x) { double d = x - p; return d * d; }; want = {p}; tol = 1.1e-3; }
	RealFunctionFromStdFunc g(f); RealFunctionAnalyzer an(g); auto q = an.GetRoots(-1, 1, eps); if (k == 4) { want.clear(); if (p + .5 < p) {} } if (k == 6 && q.empty()) { c.ev("touch_missed"); return; } if (match(c, q, (int)q.size(), want, tol, k == 0 ? "pole" : k == 1 || k == 4 ? "jump" : k == 2 ? "positive" : k == 3 ? "tangent" : k == 5 ? "cubic_touch" : "double_root")) c.ev("not_roots"); for (double x : q) c.check(std::fabs(f(x)) <= eps + amp * 1e-4, "value"); }
// extrema and inflection points of smooth functions
struct Fx { Fn f; std::vector<double> mx, mn, in; };
static Fx build(mon::Case& c, double& a, double& b) { auto& r = c.r; Fx s; double amp = r.pick({1., 1., 10., 300.}), ofs = r.pick({0., 1., -5.}); int k = (int)r.i(0, 4); c.in("kind", k); c.in("amp", amp); c.in("ofs", ofs); if (k == 0) { double w = r.uni(.5, 4), ph = r.uni(0, 6); a = r.uni(-4, 0); b = a + r.uni(3, 8); c.in("w", w); c.in("ph", ph); s.f = [=](Real x) { return ofs + amp * std::sin(w * x + ph); }; for (int j = -60; j < 60; j++) { double x = (j * M_PI + M_PI / 2 - ph) / w, y = (j * M_PI - ph) / w; if (x > a && x < b) (j % 2 ? s.mn : s.mx).push_back(x); if (y > a && y < b) s.in.push_back(y); } }
	else if (k == 1) { double p = r.uni(-2, 0), q = p + r.uni(.8, 2); a = -4; b = 4; c.in("p", p); c.in("q", q); s.f = [=](Real x) { return ofs + amp * (x * x * x / 3 - (p + q) / 2 * x * x + p * q * x); }; s.mx = {p}; s.mn = {q}; s.in = {(p + q) / 2}; } else if (k == 2) { double p = r.uni(-1, 1), q = r.uni(.5, 1.5); a = -4; b = 4; c.in("p", p); c.in("q", q); s.f = [=](Real x) { double d = (x - p) / q; return ofs + amp * std::exp(-d * d / 2); }; s.mx = {p}; s.in = {p - q, p + q}; } else if (k == 3) { double p = r.uni(-1, 1); a = -3; b = 3; c.in("p", p); s.f = [=](Real x) { double d = x - p; return ofs + amp * d * d; }; s.mn = {p}; } else { double p = r.uni(-1, 1), m = r.uni(.5, 2); a = -3; b = 3; c.in("p", p); c.in("m", m); if (r.coin(.5)) { s.f = [=](Real x) { return ofs + amp * (m * x - p); }; c.ev("straight"); } else { s.f = [=](Real x) { double d = x - p; return ofs + amp * (d * d * d + .5 * d); }; s.in = {p}; } } return s; }
FAMILY(extrema, 160) { double a, b; Fx s = build(c, a, b); double st = (b - a) / 1000; for (auto* v : {&s.mx, &s.mn, &s.in}) for (double x : *v) if (x < a + 3 * st || x > b - 3 * st) { c.trivial(); return; } c.in("a", a); c.in("b", b); RealFunctionFromStdFunc g(s.f); RealFunctionAnalyzer an(g); std::vector<double> ext = s.mx; ext.insert(ext.end(), s.mn.begin(), s.mn.end()); auto o = an.GetLocalOptimums(a, b); if (match(c, o, o.size(), ext, 3e-6, "optimums")) c.ev("optimums", (long)ext.size() + 1); auto cl = an.GetLocalOptimumsClassified(a, b); std::vector<double> lo, hi; for (auto& q : cl) { (q.type == CriticalPointType::LOCAL_MINIMUM ? lo : hi).push_back(q.x); c.check(q.type != CriticalPointType::SADDLE_POINT, "saddle"); c.check(q.value == s.f(q.x), "value"); c.check(an.isLocalOptimum(q.x, 1e-6), "confirmed"); } match(c, lo, (int)lo.size(), s.mn, 3e-6, "minimum"); match(c, hi, (int)hi.size(), s.mx, 3e-6, "maximum"); auto in = an.GetInflectionPoints(a, b); if (match(c, in, in.size(), s.in, 1e-5, "inflection")) c.ev("inflections", (long)s.in.size() + 1); for (int i = 0; i < 4; i++) { double x = c.r.uni(a, b); double d = 1e9, e = 1e9; for (double y : ext) d = std::min(d, std::fabs(x - y)); for (double y : s.in) e = std::min(e, std::fabs(x - y)); if (d > .01 && std::fabs(s.f(x + 1e-4) - s.f(x - 1e-4)) > 1e-8) c.check(!an.isLocalOptimum(x, 1e-6), "invented_optimum"); if (e > .02) c.check(!an.isInflectionPoint(x, 1e-6), "invented_inflection", [&] { return mon::str(x); }); } }
// discontinuities: right place, right kind, nothing else
FAMILY(discont, 300) { auto& r = c.r; int k = (int)r.i(0, 7), n = r.pick({100, 200, 500, 1000}); double a = r.uni(-3, -1), b = r.uni(1, 3), st = (b - a) / n; int m = (int)r.i(1, 3); std::vector<double> at; if (k == 7) k = (int)r.i(5, 7); for (int t = 0; t < 100 && (int)at.size() < m; t++) { double x = r.uni(a + .1, b - .1); if (k == 4 || r.coin(.2)) x = a + (int)r.i(5, n - 5) * st; bool ok = true; for (double y : at) ok &= std::fabs(x - y) > 6 * st + .05; if (ok) at.push_back(x); } double J = r.pick({1., -1.}) * r.pmag(-1, 2), amp = r.pick({1., 1., 30., 1000.}); if (k < 3 && std::fabs(J) < 5 * amp * st) J = (J < 0 ? -5 : 5) * (amp + 1) * st; if (k == 3 && std::fabs(J) < 10 * amp * st * st) J = (J < 0 ? -10 : 10) * (amp + 1) * st * st; c.in("kind", k); c.in("n", n); c.in("a", a); c.in("b", b); c.in("at", at); c.in("J", J); c.in("amp", amp); Fn base = [=](Real x) { return amp * std::sin(1.3 * x) + x; }, f; DiscontinuityType ty = DiscontinuityType::JUMP; bool grid = false;
	switch (k) { case 0: case 1: case 2: f = [=](Real x) { double v = base(x); for (double y : at) if (k == 0 ? x >= y : x > y) v += J; return v; }; break; case 3: ty = DiscontinuityType::INFINITE; f = [=](Real x) { double v = base(x); for (double y : at) v += J / (x - y); return v; }; break; case 4: ty = DiscontinuityType::INFINITE; f = [=](Real x) { double v = base(x); for (double y : at) v += J / ((x - y) * (x - y)); return v; }; break; case 5: case 6: ty = DiscontinuityType::REMOVABLE; grid = true; for (double& y : at) y = a + std::round((y - a) / st) * st; f = [=](Real x) { for (double y : at) if (x == y) return k == 5 ? NaN : base(x) + (J < 0 ? -1 : 1) * (1 + std::fabs(base(x))); return base(x); }; break; default: f = base; at.clear(); }
	RealFunctionFromStdFunc g(f); RealFunctionAnalyzer an(g, "f"); auto d = an.FindDiscontinuities(a, b, n); std::vector<double> xs; for (auto& q : d) xs.push_back(q.x); if (!match(c, xs, (int)xs.size(), at, 3e-5, k < 3 ? "jump" : k < 5 ? "pole" : k < 7 ? "removable" : "continuous")) return; c.ev(k < 3 ? "jumps" : k < 5 ? "poles" : k < 7 ? "removable" : "continuous_fn"); c.check(std::is_sorted(xs.begin(), xs.end()), "sorted"); std::vector<double> list{1, 2}; bool cont = an.isContinuous(a, b, n, 1e-6, &list); c.check(cont == at.empty(), "isContinuous"); match(c, list, (int)list.size(), at, 3e-5, "isContinuous_list");
	for (auto& q : d) { auto cq = q; if (k >= 3 && k < 5) for (double y : at) if (std::fabs(y - q.x) < 1e-4) cq = an.ClassifyDiscontinuity(y); double x = cq.x, L = 0, R = 0; if (k < 3) { double tl = 1e-4 * (1 + 3 * amp) + 1e-5; c.check(q.type == ty, "type", [&] { return mon::str((int)q.type); }); double lo = base(x), hi; for (double y : at) if (y < x - 1e-3) lo += J; hi = lo + J; c.close(q.leftLimit, lo, tl, "left_limit"); c.close(q.rightLimit, hi, tl, "right_limit"); c.close(q.jumpSize, std::fabs(J), 2 * tl, "jump_size"); c.check(q.valueAtPoint == f(q.x), "value"); c.ev("jump_limits"); } else if (k < 5) { c.check(cq.type == ty, "type", [&] { return mon::str((int)cq.type) + " " + mon::str(cq.leftLimit) + " " + mon::str(cq.rightLimit); }); double sl = k == 3 ? -J : J, sr = J; c.check(std::isinf(cq.leftLimit) && std::isinf(cq.rightLimit) && (cq.leftLimit > 0) == (sl > 0) && (cq.rightLimit > 0) == (sr > 0), "infinite_limits", [&] { return mon::str(cq.leftLimit) + " " + mon::str(cq.rightLimit); }); c.ev("infinite"); } else { c.check(cq.type == ty, "type", [&] { return mon::str((int)cq.type); }); c.close(cq.leftLimit, base(x), 1e-4 * (1 + 3 * amp), "left_limit"); c.close(cq.rightLimit, base(x), 1e-4 * (1 + 3 * amp), "right_limit"); c.check(k == 5 ? std::isnan(cq.valueAtPoint) : cq.valueAtPoint == f(x), "value"); } }
	for (int i = 0; i < 6; i++) { double x = r.uni(a, b), e = 1e9; for (double y : at) e = std::min(e, std::fabs(x - y)); if (e < (k < 5 && k > 2 ? .05 : 1e-4)) continue; c.check(an.isDefinedAtPoint(x), "defined"); c.check(an.isContinuousAtPoint(x, 1e-6), "continuous_point"); c.check(an.isDerivativeDefinedAtPoint(x, 1e-6), "differentiable_point"); auto p = an.AnalyzePoint(x); c.check(p.isDefined && p.isContinuous && p.isDerivativeDefined && p.value == f(x), "analyze_point"); c.ev("points"); } (void)grid; (void)st; }
// oscillation, corners, one-sided infinite limits with the right sign
FAMILY(special, 300) { auto& r = c.r; double p = r.uni(-1, 1), amp = r.pmag(-1, 2), sg = r.pick({1., -1.}); int k = (int)r.i(0, 5); c.in("kind", k); c.in("p", p); c.in("amp", amp); switch (k) { case 0: { RealFunctionFromStdFunc g([=](Real x) { return x == p ? 0.0 : amp * std::sin(1 / (x - p)); }); RealFunctionAnalyzer an(g); auto d = an.ClassifyDiscontinuity(p); c.check(d.type == DiscontinuityType::OSCILLATORY, "oscillatory", [&] { return mon::str((int)d.type); }); c.ev("oscillatory"); break; } case 1: { RealFunctionFromStdFunc g([=](Real x) { return amp * std::fabs(x - p) + sg * x; }); RealFunctionAnalyzer an(g); c.check(an.isContinuousAtPoint(p, 1e-6), "corner_continuous"); c.check(!an.isDerivativeDefinedAtPoint(p, 1e-6), "corner_derivative"); c.ev("corner"); break; } case 2: { double e = r.pick({1., 2., .5, 3.}); RealFunctionFromStdFunc g([=](Real x) { return x > p ? sg * amp / std::pow(x - p, e) : x; }); RealFunctionAnalyzer an(g); auto d = an.ClassifyDiscontinuity(p); c.check(d.type == DiscontinuityType::INFINITE, "one_sided"); c.close(d.leftLimit, p, 1e-4, "one_sided_left"); double rl = an.ComputeRightLimit(p); c.check(std::isinf(rl) && (rl > 0) == (sg > 0), "one_sided_sign", [&] { return mon::str(rl); }); c.ev("one_sided"); break; }
	case 3: { RealFunctionFromStdFunc g([=](Real x) { return sg * 1e170 / std::fabs(x - p); }); RealFunctionAnalyzer an(g); for (double v : {an.ComputeLeftLimit(p), an.ComputeRightLimit(p)}) c.check(std::isinf(v) && (v > 0) == (sg > 0), "overflow_sign", [&] { return mon::str(v); }); c.ev("overflow"); break; } case 4: { double q = r.uni(.2, 3); RealFunctionFromStdFunc g([=](Real x) { return amp * std::sin(q * x) / 1; }); RealFunctionAnalyzer an(g); int n = (int)r.i(200, 2000); double t2 = M_PI / q * r.uni(3.1, 8); double T = an.calcRootsPeriod(r.coin(.3) ? 0.0 : -t2 * r.uni(0, .5), t2, n); c.close(T, M_PI / q, 1e-5, "spacing"); RealFunctionFromStdFunc h([=](Real x) { return std::tan(q * x); }); RealFunctionAnalyzer at(h); double lo = .3 / q; c.close(at.calcRootsPeriod(lo, lo + t2 + M_PI / q, 1000), M_PI / q, 1e-5, "pole_spacing"); RealFunctionFromStdFunc one([=](Real x) { return x - p; }); RealFunctionAnalyzer a1(one); c.check(a1.calcRootsPeriod(-2, 2, n) == 0, "single_root"); RealFunctionFromStdFunc none([=](Real x) { return x * x + 1; }); RealFunctionAnalyzer a0(none); c.check(a0.calcRootsPeriod(-2, 2, n) == 0, "no_root"); c.ev("spacing"); break; }
	default: { RealFunctionFromStdFunc g([=](Real x) { return std::log(x - p); }); RealFunctionAnalyzer an(g); c.check(!an.isDefinedAtPoint(p - .1) && !an.isDefinedAtPoint(p) && an.isDefinedAtPoint(p + .1), "defined"); auto q = an.AnalyzePoint(p - .5); c.check(!q.isDefined && !q.isContinuous && !q.isDerivativeDefined && !q.isInflectionPoint && std::isnan(q.value) && std::isnan(q.derivative), "undefined_point"); auto iv = an.AnalyzeInterval(p - 1, p + 1, 100); c.check(!iv.isDefinedEverywhere && iv.undefinedPoints.size() >= 49 && iv.undefinedPoints.size() <= 51, "undefined_interval"); c.ev("undefined"); } } }
// monotonicity and sampled extremes against the samples themselves
FAMILY(sampled, 600) { auto& r = c.r; int n = (int)r.i(1, 60); double a = r.normal(), b = a + r.pmag(-1, 1); std::vector<double> v; int k = (int)r.i(0, 4); double cur = r.normal(); for (int i = 0; i <= n; i++) { if (k == 0) cur += r.coin(.3) ? 0 : r.uni(0, 1); else if (k == 1) cur -= r.coin(.3) ? 0 : r.uni(0, 1); else if (k == 2) cur += i == n ? -.5 : r.uni(0, 1); else if (k == 3) cur = r.normal(); else cur = cur; v.push_back(cur); } if (k == 3 && r.coin(.5)) v[(size_t)r.i(0, n)] = r.pick({(double)NaN, (double)INFINITY, -(double)INFINITY}); Fn f = [=](Real x) { int i = (int)std::lround((x - a) / (b - a) * n); return v[(size_t)std::min(n, std::max(0, i))]; }; c.in("kind", k); c.in("v", v); RealFunctionFromStdFunc g(f); RealFunctionAnalyzer an(g); bool fin = true; for (double x : v) fin &= std::isfinite(x); bool up = true, dn = true; for (int i = 0; i < n; i++) up &= v[i + 1] >= v[i], dn &= v[i + 1] <= v[i]; if (fin) { c.check(an.isMonotonic(a, b, n) == (up || dn), "monotonic"); c.ev("monotonic"); } double lo = INFINITY, hi = -INFINITY; for (double x : v) if (std::isfinite(x)) lo = std::min(lo, x), hi = std::max(hi, x); double gl = an.MinInNPoints(a, b, n), gh = an.MaxInNPoints(a, b, n); if (lo <= hi) { c.check(gl == lo, "min"); c.check(gh == hi, "max"); } else c.check(std::isnan(gl) && std::isnan(gh), "none_valid"); c.ev("minmax"); for (double y : {v[0], v[(size_t)n]}) { RealFunctionFromStdFunc h([=](Real) { return y; }); auto s = SafeEvaluate(h, 0); c.check(s.isNaN == std::isnan(y) && s.isOverflow == std::isinf(y) && s.isValid == std::isfinite(y) && (s.value == y || std::isnan(y)), "safe"); } auto iv = an.AnalyzeInterval(a, b, n); if (fin) { c.check(iv.isDefinedEverywhere && iv.minValue >= lo && iv.maxValue <= hi && iv.isMonotonic == (up || dn), "interval"); } }
// difference figures
struct RF : IRealFunction { Fn f; RF(Fn g) : f(g) {} Real operator()(Real x) const override { return f(x); } };
FAMILY(compare, 300) { auto& r = c.r; double p = r.uni(-1, 1), q = r.uni(-1, 1), a = r.uni(-2, 0), b = a + r.uni(.5, 3), amp = r.pmag(-2, 3); int n = (int)r.i(1, 50); bool zero = r.coin(.3); c.in("p", p); c.in("q", q); c.in("a", a); c.in("b", b); c.in("amp", amp); c.in("n", n); RF f([=](Real x) { return zero && x < (a + b) / 2 ? 0 : amp * std::exp(p * x); }), g([=](Real x) { return amp * (q * x + .5 * x * x); }); RealFunctionComparer cm(f, g); double st = (b - a) / n; long double s = 0, m = 0, rs = 0, rm = 0; for (int i = 0; i < n; i++) { double x = a + i * st; long double d = fabsl((long double)f(x) - g(x)); s += d; m = std::max(m, d); if (f(x) != 0) { rs += d / fabsl(f(x)); rm = std::max(rm, d / fabsl(f(x))); } } auto near = [&](double got, long double w, const char* k) { c.close(got, (double)w, 1e-12 * (double)w + 1e-300, k); }; near(cm.getAbsDiffSum(a, b, n), s, "abs_sum"); near(cm.getAbsDiffAvg(a, b, n), s / n, "abs_avg"); near(cm.getAbsDiffMax(a, b, n), m, "abs_max"); near(cm.getRelDiffSum(a, b, n), rs, "rel_sum"); near(cm.getRelDiffAvg(a, b, n), rs / n, "rel_avg"); near(cm.getRelDiffMax(a, b, n), rm, "rel_max"); if (!zero) { const int N = 40000; long double I = 0, A = 0, Q = 0; for (int i = 0; i < N; i++) { double x = a + (i + .5) * (b - a) / N; long double d = (long double)f(x) - g(x); I += d; A += fabsl(d); Q += d * d; } long double h = ((long double)b - a) / N; I *= h; A *= h; Q *= h; auto mt = r.pick({IntegrationMethod::TRAP, IntegrationMethod::SIMPSON, IntegrationMethod::ROMBERG}); double sc = amp * 10 * (b - a); try { c.close(cm.getIntegratedDiff(a, b, mt), (double)I, 1e-4 * sc, "integral"); c.close(cm.getIntegratedSqrDiff(a, b, mt), (double)Q, 1e-4 * sc * amp * 10, "square_integral"); if (mt != IntegrationMethod::ROMBERG) c.close(cm.getIntegratedAbsDiff(a, b, mt), (double)A, 1e-3 * sc, "abs_integral"); c.ev("integrals"); } catch (const MMLException&) { c.ev("integration_refused"); } } c.ev("compare"); }
// function adaptors and Taylor polynomials
FAMILY(adaptors, 300) { auto& r = c.r; double p = r.uni(.3, 2), q = r.normal(), x = r.uni(-2, 2), k = r.normal(); c.in("p", p); c.in("q", q); c.in("x", x); RF f([=](Real t) { return std::exp(p * t) + .3; }), g([=](Real t) { return q * t * t - 1; }); double F = f(x), G = g(x); auto eq = [&](double a, double b, const char* key) { c.close(a, b, 1e-14 * (1 + std::fabs(b)), key); }; eq(RealFuncSum(f, g)(x), F + G, "sum"); eq(RealFuncDiff(f, g)(x), F - G, "diff"); eq(RealFuncProduct(f, g)(x), F * G, "product"); if (G != 0) eq(RealFuncQuotient(f, g)(x), F / G, "quotient"); eq(RealFuncCompose(g, f)(x), g(F), "compose"); eq(RealFuncScale(f, k)(x), k * F, "scale"); eq(RealFuncShift(f, k)(x), F + k, "shift"); eq(RealFuncNegate(f)(x), -F, "negate"); eq(RealFuncAbs(g)(x), std::fabs(G), "abs"); eq(RealFuncPow(f, k)(x), std::pow(F, k), "pow"); eq(RealFuncAbsDiff(f, g)(x), std::fabs(F - G), "absdiff"); eq(RealFuncDiffSqr(f, g)(x), (F - G) * (F - G), "diffsqr"); double d1 = p * std::exp(p * x), d2 = p * d1, s = std::exp(p * x) * (1 + p * p * p) + 1; c.close(RealFuncDerived1(f)(x), d1, 3e-7 * s, "d1"); c.close(RealFuncDerived2(f)(x), d1, 1e-8 * s, "d2"); c.close(RealFuncDerived4(f)(x), d1, 1e-9 * s, "d4"); c.close(RealFuncDerived6(f)(x), d1, 1e-9 * s, "d6"); c.close(RealFuncDerived8(f)(x), d1, 1e-9 * s, "d8"); c.close(RealFuncDerived4(f, 1e-3)(x), d1, 1e-8 * s * p * p, "d4_step"); c.close(RealFuncSecondDerived2(f)(x), d2, 1e-3 * s * p, "s2"); c.close(RealFuncSecondDerived4(f)(x), d2, 1e-6 * s * p, "s4"); c.close(RealFuncSecondDerived6(f)(x), d2, 1e-6 * s * p, "s6"); auto t2 = TaylorSeries2(f, x); auto t3 = TaylorSeries3(f, x); for (double h : {0., .01, -.02}) { double E = std::exp(p * x), w2 = .3 + E * (1 + p * h + p * p * h * h / 2), w3 = w2 + E * p * p * p * h * h * h / 6; c.close(t2(x + h), w2, 1e-6 * s * p, "taylor2"); c.close(t3(x + h), w3, 1e-6 * s * p, "taylor3"); } c.ev("adaptors"); }
MON_MAIN()
