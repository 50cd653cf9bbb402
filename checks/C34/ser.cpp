// C34: exported curves, functions, fields, trajectories and simulations hold exactly the data given, in the documented format.
#include "mon.h"
#include "scratch.h"
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/Function.h"
#include "mml/tools/Serializer.h"
using namespace MML;
using mon::Case;
typedef Vector<Real> V;

struct Lines { std::vector<std::string> l; size_t p = 0; bool bad = false;
	explicit Lines(const std::string& f) { std::istringstream in(scratch::read(f)); std::string s; while (std::getline(in, s)) l.push_back(s); }
	std::string next() { if (p >= l.size()) { bad = true; return ""; } return l[p++]; }
	std::vector<double> row() { std::istringstream in(next()); std::vector<double> v; double x; std::string t; while (in >> t) { char* e; x = strtod(t.c_str(), &e); if (*e) bad = true; v.push_back(x); } return v; }
	bool end() const { return p == l.size(); }
};
static bool sig(double got, double want, double scale, int prec = 6) { return std::fabs(got - want) <= 0.6 * std::pow(10.0, 1 - prec) * std::fabs(want) + 1e-12 * scale + 1e-300; }
static bool hdr(Case& c, Lines& L, const std::vector<std::string>& want) { for (auto& w : want) { std::string g = L.next(); if (!c.check(g == w, "header", [&] { return "'" + g + "' instead of '" + w + "'"; })) return false; } return true; }
// "name: value"
static bool hnum(Case& c, Lines& L, const char* name, double want, int prec = 6) { std::string g = L.next(), p = std::string(name) + ": "; if (!c.check(g.compare(0, p.size(), p) == 0, "header", [&] { return g; })) return false; return c.check(sig(strtod(g.c_str() + p.size(), nullptr), want, 0, prec), "header-value", [&] { return g + " want " + mon::str(want); }); }
static bool row(Case& c, Lines& L, const std::vector<double>& want, double scale, int prec = 6) {
	auto g = L.row(); c.ev("rows");
	if (!c.check(!L.bad, "row-unreadable") || !c.check(g.size() == want.size(), "columns", [&] { return mon::str((double)g.size()); })) return false;
	for (size_t i = 0; i < g.size(); i++) if (!c.check(sig(g[i], want[i], scale, prec), "value", [&] { return mon::str(g[i]) + " want " + mon::str(want[i]); })) return false;
	return true;
}
static bool fin(Case& c, Lines& L) { return c.check(!L.bad, "file-too-short") && c.check(L.end(), "file-too-long"); }

struct G { double a, b, w, s; double operator()(double x) const { return s * (a * std::sin(w * x) + b * x + 1); } double scale(double x1, double x2) const { return std::fabs(s) * (std::fabs(a) * (1 + std::fabs(w) * (std::fabs(x1) + std::fabs(x2))) + std::fabs(b) * (std::fabs(x1) + std::fabs(x2)) + 1) + std::fabs(x1) + std::fabs(x2); } };
static G gen(Case& c) { return G{c.r.uni(-2, 2), c.r.uni(-2, 2), c.r.uni(0.1, 3), c.r.pmag(-4, 4)}; }
struct Rf : IRealFunction { G g; long bomb = -1; mutable long n = 0; Rf(G q) : g(q) {} Real operator()(Real x) const override { if (n++ == bomb) throw std::runtime_error("boom"); return g(x); } };
template <int N> struct Cf : IRealToVectorFunction<N> { G g; long bomb = -1; mutable long n = 0; Cf(G q) : g(q) {} VectorN<Real, N> operator()(Real t) const override { if (n++ == bomb) throw std::runtime_error("boom"); VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = g(t + i); return r; } };
template <int N> struct Sf : IScalarFunction<N> { G g; long bomb = -1; mutable long n = 0; Sf(G q) : g(q) {} Real operator()(const VectorN<Real, N>& x) const override { if (n++ == bomb) throw std::runtime_error("boom"); double s = 0; for (int i = 0; i < N; i++) s += (i + 1) * g(x[i]); return s; } };
template <int N> struct Vf : IVectorFunction<N> { G g; long bomb = -1; mutable long n = 0; Vf(G q) : g(q) {} VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { if (n++ == bomb) throw std::runtime_error("boom"); VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = g(x[(i + 1) % N]) + i * g.s; return r; } };
struct Su : IParametricSurface<3> { G g; Su(G q) : g(q) {} VectorN<Real, 3> operator()(Real u, Real w) const override { return VectorN<Real, 3>{g(u), g(w), g(u) + u * w * g.s}; }
	VectorN<Real, 3> operator()(const VectorN<Real, 2>& x) const override { return (*this)(x[0], x[1]); }
	Real getMinU() const override { return -1e9; } Real getMaxU() const override { return 1e9; } Real getMinW(Real) const override { return -1e9; } Real getMaxW(Real) const override { return 1e9; } };
static std::string title(Case& c) { return c.r.pick({std::string("sin(x)"), std::string("A long title with spaces, commas; 1 2 3"), std::string("x1: 5"), std::string("\xc3\xa9t\xc3\xa9 \xcf\x80")}); }
static bool ok(Case& c, const SerializeResult& r) { return c.check(r.success && r.error == SerializeError::OK, "save-failed", [&] { return r.message; }); }
static void rng(Case& c, double& a, double& b) { a = c.r.uni(-8, 8) * c.r.pick({1.0, 1.0, 1e-3, 1e4}); b = a + c.r.pmag(-3, 3); c.in("x1", a); c.in("x2", b); }

FAMILY(real_function, 300) {
	G g = gen(c); Rf f(g); double a, b; rng(c, a, b); int n = c.r.coin(0.2) ? 2 : c.r.i(2, 60), prec = c.r.pick({15, 15, 6, 3, 17}); double S = g.scale(a, b);
	std::string t = title(c), fn = scratch::file("rf"); int mode = c.idx % 4; c.in("mode", (double)mode); c.in("n", (double)n);
	V pts(n); for (int i = 0; i < n; i++) pts[i] = a + (b - a) * (i == 0 ? 0 : i == n - 1 ? 1 : (i + c.r.uni(-0.4, 0.4)) / (n - 1));
	SerializeResult r;
	if (mode == 0) r = Serializer::SaveRealFunc(f, t, a, b, n, fn, prec); else if (mode == 1) r = Serializer::SaveRealFunc(f, t, pts, fn, prec); else if (mode == 2) r = Serializer::SaveRealFuncEquallySpaced(f, t, a, b, n, fn, prec);
	else { std::ofstream o(fn); o.imbue(std::locale::classic()); r = Serializer::SaveRealFunc((std::ostream&)o, f, t, a, b, n, prec); }
	if (!ok(c, r)) return;
	Lines L(fn); if (!hdr(c, L, {mode == 2 ? "REAL_FUNCTION_EQUALLY_SPACED" : "REAL_FUNCTION", t})) return;
	if (!hnum(c, L, "x1", a, prec) || !hnum(c, L, "x2", mode == 1 ? pts[n - 1] : b, prec) || !hnum(c, L, "NumPoints", n)) return;
	for (int i = 0; i < n; i++) { double x = mode == 1 ? pts[i] : a + (b - a) * i / (n - 1); if (!row(c, L, mode == 2 ? std::vector<double>{g(x)} : std::vector<double>{x, g(x)}, S, prec)) return; }
	fin(c, L); c.ev("real-function");
}
FAMILY(multi_function, 150) {
	int k = (int)c.r.sz(1, 5, 30), n = (int)c.r.sz(2, 40, 400), prec = c.r.pick({15, 6, 3}); double a, b; rng(c, a, b); double S = 0;
	std::vector<Rf> fs; std::vector<std::string> leg; for (int i = 0; i < k; i++) { fs.emplace_back(gen(c)); leg.push_back("f" + mon::str(i) + "(x) curve"); S += fs.back().g.scale(a, b); }
	std::vector<IRealFunction*> ps; for (auto& f : fs) ps.push_back(&f);
	std::string t = title(c), fn = scratch::file("mf");
	int mode = c.idx % 2; std::vector<LinearInterpRealFunc> li; V px(6); std::vector<V> py;
	if (mode) { prec = 6; for (int i = 0; i < 6; i++) px[i] = i == 5 ? b : a + (b - a) * i / 5.0; for (auto& f : fs) { V y(6); for (int i = 0; i < 6; i++) y[i] = f.g(px[i]); py.push_back(y); li.emplace_back(px, y); } }
	auto r = mode ? Serializer::SaveRealMultiFunc(li, t, leg, a, b, n, fn) : Serializer::SaveRealMultiFunc(ps, t, leg, a, b, n, fn, prec);
	if (!ok(c, r)) return;
	Lines L(fn); std::vector<std::string> h{"MULTI_REAL_FUNCTION", t, std::to_string(k)}; h.insert(h.end(), leg.begin(), leg.end());
	if (!hdr(c, L, h) || !hnum(c, L, "x1", a, prec) || !hnum(c, L, "x2", b, prec) || !hnum(c, L, "NumPoints", n)) return;
	for (int i = 0; i < n; i++) { double u = 1.0 * i / (n - 1), x = a + (b - a) * u; std::vector<double> w{x};
		for (int j = 0; j < k; j++) { if (!mode) w.push_back(fs[j].g(x)); else { int s = std::min(4, (int)(u * 5)); double q = u * 5 - s; w.push_back(py[j][s] * (1 - q) + py[j][s + 1] * q); } }
		if (!row(c, L, w, S * 10, prec)) return; }
	fin(c, L); c.ev("multi-function");
}
template <int N> static void curve(Case& c) {
	G g = gen(c); Cf<N> f(g); double a, b; rng(c, a, b); int n = c.r.i(2, 50); double S = g.scale(std::fabs(a) + 3, std::fabs(b) + 3); std::string t = title(c), fn = scratch::file("pc"), ty = "PARAMETRIC_CURVE_CARTESIAN_" + std::to_string(N) + "D";
	V pts(n); for (int i = 0; i < n; i++) pts[i] = a + (b - a) * std::pow(1.0 * i / (n - 1), 1.5);
	std::vector<VectorN<Real, N>> vals; for (int i = 0; i < n; i++) { VectorN<Real, N> p; for (int j = 0; j < N; j++) p[j] = c.r.uni(-9, 9) * g.s; vals.push_back(p); S += p.NormL2(); }
	int mode = (c.idx / 2) % 5; c.in("mode", (double)mode); SerializeResult r;
	V vx(n), vy(n); for (int i = 0; i < n; i++) { vx[i] = vals[i][0]; vy[i] = vals[i][1]; }
	if (mode == 4 && N != 2) mode = 0;
	if (mode == 0) { if constexpr (N == 2) r = Serializer::SaveParamCurveCartesian2DResult(f, t, a, b, n, fn); else r = Serializer::SaveParamCurveCartesian3DResult(f, t, a, b, n, fn); }
	else if (mode == 1) r = Serializer::SaveParamCurve<N>(f, ty, t, pts, fn); else if (mode == 2) r = Serializer::SaveAsParamCurve<N>(vals, ty, t, a, b, n, fn); else if (mode == 3) r = Serializer::SaveAsParamCurve<N>(vals, ty, t, pts, fn);
	else r = Serializer::SaveAsParamCurve2D(vx, vy, t, fn, a, b);
	if (!ok(c, r)) return;
	Lines L(fn); if (!hdr(c, L, {ty, t}) || !hnum(c, L, "t1", a) || !hnum(c, L, "t2", b) || !hnum(c, L, "NumPoints", n)) return;
	for (int i = 0; i < n; i++) { double x = mode == 1 || mode == 3 ? pts[i] : a + (b - a) * i / (n - 1); std::vector<double> w{x}; for (int j = 0; j < N; j++) w.push_back(mode < 2 ? g(x + j) : vals[i][j]); if (!row(c, L, w, S)) return; }
	fin(c, L); c.ev("curve");
}
FAMILY(curves, 200) { if (c.idx % 2) curve<2>(c); else curve<3>(c); }
FAMILY(surfaces, 120) {
	G g = gen(c); double a, b, d, e; rng(c, a, b); d = c.r.uni(-3, 3); e = d + c.r.pmag(-2, 2); int n = c.r.i(2, 9), m = c.r.i(2, 9); double S = g.scale(std::fabs(a) + 1, std::fabs(b) + 1) * (1 + g.scale(d, e) / std::fabs(g.s) + std::fabs(d) + std::fabs(e));
	std::string t = title(c), fn = scratch::file("su"); int mode = c.idx % 4; c.in("mode", (double)mode); SerializeResult r; Su su(g); Sf<2> s2(g); Sf<3> s3(g); int k = c.r.i(2, 5); double p = c.r.uni(-2, 2), q = p + c.r.pmag(-1, 1); S += 6 * g.scale(p, q) + 6 * g.scale(d, e);
	if (mode == 0) r = Serializer::SaveParametricSurface(static_cast<const IParametricSurface<3>&>(su), t, a, b, n, d, e, m, fn);
	else if (mode == 1) r = Serializer::SaveParametricSurface(static_cast<const IVectorFunctionNM<2, 3>&>(su), t, a, b, n, d, e, m, fn);
	else if (mode == 2) r = Serializer::SaveScalarFunc2DCartesian(s2, t, a, b, n, d, e, m, fn); else r = Serializer::SaveScalarFunc3DCartesian(s3, t, a, b, n, d, e, m, p, q, k, fn);
	if (!ok(c, r)) return;
	Lines L(fn); const char* ty = mode < 2 ? "PARAMETRIC_SURFACE_CARTESIAN" : mode == 2 ? "SCALAR_FUNCTION_CARTESIAN_2D" : "SCALAR_FUNCTION_CARTESIAN_3D"; if (!hdr(c, L, {ty, t})) return;
	const char* nm[2][6] = {{"u1", "u2", "NumPointsU", "w1", "w2", "NumPointsW"}, {"x1", "x2", "NumPointsX", "y1", "y2", "NumPointsY"}}; double vv[6] = {a, b, (double)n, d, e, (double)m};
	for (int i = 0; i < 6; i++) if (!hnum(c, L, nm[mode >= 2][i], vv[i])) return;
	if (mode == 3 && (!hnum(c, L, "z1", p) || !hnum(c, L, "z2", q) || !hnum(c, L, "NumPointsZ", k))) return;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double u = a + (b - a) * i / (n - 1), w = d + (e - d) * j / (m - 1);
		if (mode < 2) { if (!row(c, L, {u, w, g(u), g(w), g(u) + u * w * g.s}, S)) return; }
		else if (mode == 2) { if (!row(c, L, {u, w, g(u) + 2 * g(w)}, S)) return; }
		else for (int l = 0; l < k; l++) { double z = p + (q - p) * l / (k - 1); if (!row(c, L, {u, w, z, g(u) + 2 * g(w) + 3 * g(z)}, S)) return; } }
	fin(c, L); c.ev("surface");
}
FAMILY(vector_fields, 160) {
	G g = gen(c); double lo[3], hi[3]; int n[3]; double S = 0; for (int i = 0; i < 3; i++) { lo[i] = c.r.uni(-5, 5); hi[i] = lo[i] + c.r.pmag(-2, 2); n[i] = c.r.i(2, 6); S += g.scale(lo[i], hi[i]); }
	std::string t = title(c), fn = scratch::file("vf"); int mode = c.idx % 6; c.in("mode", (double)mode); Vf<2> f2(g); Vf<3> f3(g); SerializeResult r; double th = mode % 2 ? std::fabs(g.s) * c.r.pmag(-1, 2) : INFINITY; bool d3 = mode >= 2;
	switch (mode) {
	case 0: r = Serializer::SaveVectorFunc2DCartesian(f2, t, lo[0], hi[0], n[0], lo[1], hi[1], n[1], fn); break; case 1: r = Serializer::SaveVectorFunc2DCartesian(f2, t, lo[0], hi[0], n[0], lo[1], hi[1], n[1], fn, th); break;
	case 2: r = Serializer::SaveVectorFunc3DCartesian(f3, t, lo[0], hi[0], n[0], lo[1], hi[1], n[1], lo[2], hi[2], n[2], fn); break; case 3: r = Serializer::SaveVectorFunc3DCartesian(f3, t, lo[0], hi[0], n[0], lo[1], hi[1], n[1], lo[2], hi[2], n[2], fn, th); break;
	case 4: r = Serializer::SaveVectorFuncSpherical(f3, t, lo[0], hi[0], n[0], lo[1], hi[1], n[1], lo[2], hi[2], n[2], fn); break; default: r = Serializer::SaveVectorFuncSpherical(f3, t, lo[0], hi[0], n[0], lo[1], hi[1], n[1], lo[2], hi[2], n[2], fn, th); }
	if (!ok(c, r)) return;
	Lines L(fn); if (!hdr(c, L, {mode < 2 ? "VECTOR_FIELD_2D_CARTESIAN" : mode < 4 ? "VECTOR_FIELD_3D_CARTESIAN" : "VECTOR_FIELD_SPHERICAL", t})) return;
	for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < (d3 ? n[2] : 1); k++) {
		double x[3] = {lo[0] + (hi[0] - lo[0]) * i / (n[0] - 1), lo[1] + (hi[1] - lo[1]) * j / (n[1] - 1), lo[2] + (hi[2] - lo[2]) * k / (n[2] - 1)}; int N = d3 ? 3 : 2; std::vector<double> w(x, x + N); double s = 0;
		for (int q = 0; q < N; q++) { double y = g(x[(q + 1) % N]) + q * g.s; w.push_back(y); s += y * y; } s = std::sqrt(s);
		if (std::fabs(s - th) < 1e-9 * (s + std::fabs(g.s))) { c.trivial(); return; }
		if (s >= th) { c.ev("above-threshold"); continue; } if (!row(c, L, w, S)) return; }
	fin(c, L); c.ev("vector-field");
}
FAMILY(field_lines, 80) {
	int k = (int)c.r.sz(1, 6, 60); std::string t = title(c), fn = scratch::file("fl"); bool d3 = c.idx % 2, raw = (c.idx / 2) % 2;
	std::vector<std::vector<VectorN<Real, 2>>> l2(k); std::vector<std::vector<VectorN<Real, 3>>> l3(k); std::vector<FieldLine2D> f2(k); std::vector<FieldLine3D> f3(k);
	for (int i = 0; i < k; i++) { int n = c.r.i(0, 12); for (int j = 0; j < n; j++) { double x = c.r.logmag(-5, 5), y = c.r.uni(-1, 1), z = c.r.logmag(-200, 200); l2[i].push_back({x, y}); l3[i].push_back({x, y, z}); } f2[i].points = l2[i]; f3[i].points = l3[i]; }
	auto r = d3 ? (raw ? Serializer::SaveFieldLines3D(l3, t, fn) : Serializer::SaveFieldLines3D(f3, t, fn)) : (raw ? Serializer::SaveFieldLines2D(l2, t, fn) : Serializer::SaveFieldLines2D(f2, t, fn));
	if (!ok(c, r)) return;
	Lines L(fn); if (!hdr(c, L, {d3 ? "FIELD_LINES_3D" : "FIELD_LINES_2D", "Title: " + t, "NUM_LINES: " + std::to_string(k)})) return;
	for (int i = 0; i < k; i++) { if (!hdr(c, L, {"LINE " + std::to_string(i), std::to_string(l2[i].size())})) return;
		for (auto& p : l3[i]) { auto g = L.row(); c.ev("rows"); if (!c.check(g.size() == (d3 ? 3u : 2u), "columns")) return; for (size_t q = 0; q < g.size(); q++) c.check(g[q] == p[q], "field-line-point-not-exact", [&] { return mon::str(g[q]) + " want " + mon::str(p[q]); }); } }
	fin(c, L); c.ev("field-lines");
}
FAMILY(ode_solutions, 100) {
	int dim = (int)c.r.sz(2, 5, 20), n = (int)c.r.sz(1, 40, 300); double a, b; rng(c, a, b);
	ODESystemSolution sol(a, b, dim, n); std::vector<double> ts; std::vector<std::vector<double>> xs;
	for (int i = 0; i < n; i++) { double t = a + (b - a) * i / n; V x(dim); std::vector<double> q; for (int j = 0; j < dim; j++) { x[j] = c.r.logmag(-8, 8); q.push_back(x[j]); } sol.fillValues(i, t, x); ts.push_back(t); xs.push_back(q); }
	sol.setFinalSize(n - 1);
	std::string t = title(c), fn = scratch::file("ode"); int mode = c.idx % 4; c.in("mode", (double)mode); std::vector<int> sel; SerializeResult r; int i1 = c.r.i(0, dim - 1), i2 = c.r.i(0, dim - 1), i3 = c.r.i(0, dim - 1);
	std::vector<std::string> leg; for (int j = 0; j < dim; j++) leg.push_back("x" + std::to_string(j));
	if (mode == 0) { r = Serializer::SaveODESolutionComponentAsFunc(sol, i1, t, fn); sel = {i1}; } else if (mode == 1) { r = Serializer::SaveODESolutionAsMultiFunc(sol, t, leg, fn); for (int j = 0; j < dim; j++) sel.push_back(j); }
	else if (mode == 2) { r = Serializer::SaveODESolAsParametricCurve2D(sol, fn, i1, i2, t); sel = {i1, i2}; } else { r = Serializer::SaveODESolAsParametricCurve3D(sol, fn, i1, i2, i3, t); sel = {i1, i2, i3}; }
	if (!ok(c, r)) return;
	Lines L(fn); std::vector<std::string> h{mode == 0 ? "REAL_FUNCTION" : mode == 1 ? "MULTI_REAL_FUNCTION" : mode == 2 ? "PARAMETRIC_CURVE_CARTESIAN_2D" : "PARAMETRIC_CURVE_CARTESIAN_3D", t};
	if (mode == 1) { h.push_back(std::to_string(dim)); h.insert(h.end(), leg.begin(), leg.end()); }
	int N = sol.getTotalSavedSteps(); c.check(N == n, "saved-steps", [&] { return mon::str((double)N); });
	if (!hdr(c, L, h) || !hnum(c, L, mode < 2 ? "x1" : "t1", sol.getT1()) || !hnum(c, L, mode < 2 ? "x2" : "t2", sol.getT2()) || !hnum(c, L, "NumPoints", N)) return;
	for (int i = 0; i < N && i < n; i++) { std::vector<double> w{ts[i]}; for (int s : sel) w.push_back(xs[i][s]); if (!row(c, L, w, 0)) return; }
	fin(c, L); c.ev("ode-solution");
}
FAMILY(particles, 120) {
	int k = (int)c.r.sz(1, 5, 30), n = c.r.coin(0.1) ? c.r.i(0, 1) : (int)c.r.sz(2, 30, 300), every = c.r.pick({1, 1, 2, 3, 7, 100}); bool d3 = c.idx % 2; double dT = c.r.pmag(-3, 1), W = c.r.pmag(0, 3), H = c.r.pmag(0, 3), D = c.r.pmag(0, 3);
	c.in("balls", (double)k); c.in("steps", (double)n); c.in("every", (double)every);
	std::vector<std::vector<Pnt2Cart>> p2(k); std::vector<std::vector<Pnt3Cart>> p3(k); std::vector<std::string> col; std::vector<Real> rad;
	for (int i = 0; i < k; i++) { col.push_back(c.r.pick({std::string("Red"), std::string("Blue"), std::string("Green")})); rad.push_back(c.r.pmag(-1, 2)); for (int j = 0; j < n; j++) { double x = c.r.uni(-W, W), y = c.r.uni(-H, H), z = c.r.uni(-D, D); p2[i].push_back(Pnt2Cart(x, y)); p3[i].push_back(Pnt3Cart(x, y, z)); } }
	std::string fn = scratch::file("ps");
	bool ragged = k > 1 && n > 1 && c.r.coin(0.15);
	if (ragged) { int q = c.r.i(0, k - 1); p2[q].pop_back(); p3[q].pop_back(); }
	auto r = d3 ? Serializer::SaveParticleSimulation3D(fn, k, W, H, D, p3, col, rad, dT, every) : Serializer::SaveParticleSimulation2D(fn, k, W, H, p2, col, rad, dT, every);
	if (ragged) { c.check(!r.success, "ragged-trajectories-accepted"); c.ev("ragged"); return; }
	if (!ok(c, r)) return;
	Lines L(fn); if (!hdr(c, L, {d3 ? "PARTICLE_SIMULATION_DATA_3D" : "PARTICLE_SIMULATION_DATA_2D"}) || !hnum(c, L, "Width", W) || !hnum(c, L, "Height", H) || (d3 && !hnum(c, L, "Depth", D)) || !hnum(c, L, "NumBalls", k)) return;
	for (int i = 0; i < k; i++) { std::istringstream in(L.next()); in.imbue(std::locale::classic()); std::string a, b; double x = 0; in >> a >> b >> x; if (!c.check(a == "Ball_" + std::to_string(i + 1) && b == col[i] && sig(x, rad[i], 0), "ball-line")) return; }
	int frames = (n + every - 1) / every; if (!hnum(c, L, "NumSteps", frames)) return;
	for (int f = 0; f < frames; f++) { std::istringstream in(L.next()); in.imbue(std::locale::classic()); std::string a; int q = -1; double tm = -1; in >> a >> q >> tm; if (!c.check(a == "Step" && q == f && sig(tm, f * every * dT, 0), "step-line")) return;
		for (int j = 0; j < k; j++) { std::vector<double> w{(double)j, p3[j][f * every].X(), p3[j][f * every].Y()}; if (d3) w.push_back(p3[j][f * every].Z()); if (!row(c, L, w, 0)) return; } }
	fin(c, L); c.ev("particles");
}
// every exporter: bad arguments, unwritable targets, full device, throwing data source
struct Args { double a = 0, b = 1; int n = 5; std::string fn; long bomb = -1; };
static SerializeResult call(int which, const Args& A) {
	G g{1, 1, 1, 1}; Rf f(g); f.bomb = A.bomb; Cf<2> c2(g); c2.bomb = A.bomb; Cf<3> c3(g); c3.bomb = A.bomb; Sf<2> s2(g); s2.bomb = A.bomb; Sf<3> s3(g); s3.bomb = A.bomb; Vf<2> v2(g); v2.bomb = A.bomb; Vf<3> v3(g); v3.bomb = A.bomb; Su su(g);
	std::vector<IRealFunction*> ps{&f}; V px(std::max(A.n, 0)), vy(std::max(A.n, 0)); for (int i = 0; i < px.size(); i++) { px[i] = A.a + i * (A.b - A.a); vy[i] = i; }
	std::vector<VectorN<Real, 2>> vals(std::max(A.n, 0), VectorN<Real, 2>{1.0, 2.0});
	switch (which) {
	case 0: return Serializer::SaveRealFunc(f, "t", A.a, A.b, A.n, A.fn);
	case 1: return Serializer::SaveRealFunc(f, "t", px, A.fn);
	case 2: return Serializer::SaveRealFuncEquallySpaced(f, "t", A.a, A.b, A.n, A.fn);
	case 3: return Serializer::SaveRealMultiFunc(ps, "t", {"f"}, A.a, A.b, A.n, A.fn);
	case 4: return Serializer::SaveParamCurveCartesian2DResult(c2, "t", A.a, A.b, A.n, A.fn);
	case 5: return Serializer::SaveParamCurveCartesian3DResult(c3, "t", A.a, A.b, A.n, A.fn);
	case 6: return Serializer::SaveParamCurve<2>(c2, "X", "t", px, A.fn);
	case 7: return Serializer::SaveAsParamCurve<2>(vals, "X", "t", A.a, A.b, A.n, A.fn);
	case 8: return Serializer::SaveAsParamCurve2D(px, vy, "t", A.fn, A.a, A.b);
	case 9: return Serializer::SaveParametricSurface(static_cast<const IParametricSurface<3>&>(su), "t", A.a, A.b, A.n, 0, 1, 3, A.fn);
	case 10: return Serializer::SaveScalarFunc2DCartesian(s2, "t", A.a, A.b, A.n, 0, 1, 3, A.fn);
	case 11: return Serializer::SaveScalarFunc3DCartesian(s3, "t", 0, 1, 3, A.a, A.b, A.n, 0, 1, 3, A.fn);
	case 12: return Serializer::SaveVectorFunc2DCartesian(v2, "t", 0, 1, 3, A.a, A.b, A.n, A.fn);
	case 13: return Serializer::SaveVectorFunc2DCartesian(v2, "t", A.a, A.b, A.n, 0, 1, 3, A.fn, 1e9);
	case 14: return Serializer::SaveVectorFunc3DCartesian(v3, "t", 0, 1, 3, 0, 1, 3, A.a, A.b, A.n, A.fn);
	case 15: return Serializer::SaveVectorFuncSpherical(v3, "t", A.a, A.b, A.n, 0, 1, 3, 0, 1, 3, A.fn, 1e9);
	case 16: { ODESystemSolution s(0, 1, 2, std::max(A.n, 1)); return Serializer::SaveODESolutionAsMultiFunc(s, "t", {"a", "b"}, A.fn); }
	case 17: { ODESystemSolution s(0, 1, 2, std::max(A.n, 1)); return Serializer::SaveODESolAsParametricCurve2D(s, A.fn, 0, 1, "t"); }
	case 18: return Serializer::SaveFieldLines2D(std::vector<std::vector<VectorN<Real, 2>>>{vals}, "t", A.fn);
	case 19: return Serializer::SaveParticleSimulation2D(A.fn, 1, 1, 1, {std::vector<Pnt2Cart>(std::max(A.n, 0), Pnt2Cart(1, 2))}, {"r"}, {1}, 0.1);
	default: return Serializer::SaveParticleSimulation3D(A.fn, 1, 1, 1, 1, {std::vector<Pnt3Cart>(std::max(A.n, 0), Pnt3Cart(1, 2, 3))}, {"r"}, {1}, 0.1); }
}
FAMILY(failures, 126) {
	int w = c.idx % 21; c.in("exporter", (double)w); Args g; g.fn = scratch::file("x");
	auto bad = [&](Args A, const char* key, int code) { SerializeResult r = call(w, A); if (c.check(!r.success && r.error != SerializeError::OK, key) && code >= 0) c.check((int)r.error == code, "error-code", [&] { return std::string(key) + " " + mon::str((double)(int)r.error); }); c.ev("failure-reported"); };
	{ auto r = call(w, g); c.check(r.success, "plain-call-failed", [&] { return r.message; }); }
	Args A = g; A.fn = ""; bad(A, "empty-name-accepted", 2);
	A = g; A.fn = scratch::dir() + "/no/dir/x"; bad(A, "unwritable-reported-saved", 1);
	A = g; A.fn = scratch::dir(); bad(A, "directory-reported-saved", 1);
	if (access("/dev/full", W_OK) == 0) { A = g; A.fn = "/dev/full"; A.n = c.r.pick({3, 40, 900}); bad(A, "full-device-reported-saved", 3); c.ev("disk-full"); }
	if (w <= 15) { A = g; A.n = c.r.pick({1, 0, -3}); bad(A, "too-few-points-accepted", 2); }
	if (w <= 15 && w != 1 && w != 6) { A = g; A.a = 1; A.b = c.r.pick({1.0, 0.0, -5.0}); bad(A, "empty-range-accepted", 2); }
	if (w <= 6 || (w >= 10 && w <= 15)) { A = g; A.bomb = c.r.i(0, 4); bad(A, "throwing-source-reported-saved", 3); }
}
FAMILY(failed_stream, 30) {
	struct Cap : std::streambuf { long left; explicit Cap(long n) : left(n) {} int overflow(int ch) override { return left-- > 0 ? ch : EOF; } std::streamsize xsputn(const char*, std::streamsize n) override { std::streamsize k = std::min<long>(n, std::max(left, 0L)); left -= n; return k; } } buf(c.r.i(0, 200));
	std::ostream o(&buf); G g{1, 1, 1, 1}; Rf f(g); V pts(20); for (int i = 0; i < 20; i++) pts[i] = i * 0.37;
	std::vector<IRealFunction*> ps{&f};
	auto r = c.idx % 4 == 0 ? Serializer::SaveRealFunc(o, f, "t", 0, 1, 50) : c.idx % 4 == 1 ? Serializer::SaveRealFunc(o, f, "t", pts) : c.idx % 4 == 2 ? Serializer::SaveRealFuncEquallySpaced(o, f, "t", 0, 1, 50) : Serializer::SaveRealMultiFunc(o, ps, "t", {"f"}, 0, 1, 50);
	c.check(!r.success && r.error == SerializeError::WRITE_FAILED, "failed-stream-reported-saved"); c.ev("failed-stream");
}
int main(int argc, char** argv) { scratch::quiet(); return mon::main_impl(argc, argv); }
