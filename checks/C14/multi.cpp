// C14: multi-dimensional, path, surface and Monte Carlo integrals against long-double nested Gauss-Legendre references
#include "mon.h"
#include <limits>
#include "mml/base/Function.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/core/Derivation.h"
#include "mml/core/Integration.h"
#include "mml/core/Integration/Integration2DAdaptive.h"
#include "mml/core/Integration/Integration3DAdaptive.h"
#include "mml/core/Integration/MonteCarloIntegration.h"
#include "mml/core/Integration/PathIntegration.h"
#include "mml/core/Integration/SurfaceIntegration.h"
using namespace MML;
typedef long double L; typedef std::vector<double> VD;
static const L EPS = 2.3e-16L;

struct GL { std::vector<L> x, w; GL(int n) : x(n), w(n) { const L pi = acosl(-1.0L); for (int i = 0; i < n; i++) { L z = cosl(pi * (i + 0.75L) / (n + 0.5L)), pp = 1; for (int it = 0; it < 100; it++) { L p1 = 1, p2 = 0; for (int j = 0; j < n; j++) { L p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); } pp = n * (z * p1 - p2) / (z * z - 1); L d = p1 / pp; z -= d; if (fabsl(d) < 1e-19L) break; } x[i] = z; w[i] = 2 / ((1 - z * z) * pp * pp); } }
  template<class F> L operator()(L a, L b, F f) const { L s = 0, m = (a + b) / 2, h = (b - a) / 2; for (size_t i = 0; i < x.size(); i++) s += w[i] * f(m + h * x[i]); return s * h; } };
static const GL G20(20), G12(12);

// a smooth random function of up to three variables: polynomial + exponential + cosine terms
struct Fn { struct T { int k; L a; int e[3]; L w[3], p; }; std::vector<T> t; int n = 3;
  void gen(mon::Rng& r, int dim, int deg, bool poly, double freq = 1) { n = dim; t.clear(); int m = (int)r.i(1, 4); for (int i = 0; i < m; i++) { T v; v.k = poly ? 0 : (int)r.i(0, 2); v.a = r.coin(.3) ? (double)r.i(-3, 3) : r.uni(-3, 3); if (v.a == 0) v.a = 1; int left = deg; for (int d = 0; d < 3; d++) { v.e[d] = d < dim ? (int)r.i(0, left) : 0; left -= v.e[d]; v.w[d] = d < dim ? r.uni(-freq, freq) : 0; } v.p = r.uni(-3, 3); t.push_back(v); } }
  L val(L x, L y = 0, L z = 0) const { L s = 0; for (auto& v : t) { L q = v.w[0] * x + v.w[1] * y + v.w[2] * z; s += v.k == 0 ? v.a * powl(x, v.e[0]) * powl(y, v.e[1]) * powl(z, v.e[2]) : v.k == 1 ? v.a * expl(q) : v.a * cosl(q + v.p); } return s; }
  L grad(int d, L x, L y, L z) const { L s = 0, X[3] = {x, y, z}; for (auto& v : t) { L q = v.w[0] * x + v.w[1] * y + v.w[2] * z; if (v.k == 0) { if (!v.e[d]) continue; L g = v.a * v.e[d]; for (int j = 0; j < 3; j++) g *= powl(X[j], v.e[j] - (j == d)); s += g; } else s += v.k == 1 ? v.a * v.w[d] * expl(q) : -v.a * v.w[d] * sinl(q + v.p); } return s; }
  void log(mon::Case& c) const { VD d; for (auto& v : t) { d.push_back(v.k); d.push_back((double)v.a); for (int j = 0; j < 3; j++) { d.push_back(v.e[j]); d.push_back((double)v.w[j]); } } c.in("f", d); } };

// inner limits: MML takes plain function pointers
static thread_local double Ya[3], Yb[3], Za[4], Zb[4];
static Real y1f(Real x) { return Ya[0] + Ya[1] * x + Ya[2] * x * x; }
static Real y2f(Real x) { return Yb[0] + Yb[1] * x + Yb[2] * x * x; }
static Real z1f(Real x, Real y) { return Za[0] + Za[1] * x + Za[2] * y + Za[3] * x * y; }
static Real z2f(Real x, Real y) { return Zb[0] + Zb[1] * x + Zb[2] * y + Zb[3] * x * y; }
template<int N> struct Rec : IScalarFunction<N> { const Fn& f; mutable long n = 0; mutable long out = 0; double x1, x2; mutable double lastbad = 0; Rec(const Fn& f, double a, double b) : f(f), x1(std::min(a, b)), x2(std::max(a, b)) {}
  static bool in(double v, double a, double b) { double s = 1e-13 * (std::fabs(a) + std::fabs(b) + 1); return v >= std::min(a, b) - s && v <= std::max(a, b) + s; }
  Real operator()(const VectorN<Real, N>& p) const override { n++; bool ok = in(p[0], x1, x2) && in(p[1], y1f(p[0]), y2f(p[0])); if constexpr (N == 3) ok = ok && in(p[2], z1f(p[0], p[1]), z2f(p[0], p[1])); if (!ok) out++; return (double)(N == 3 ? f.val(p[0], p[1], p[N - 1]) : f.val(p[0], p[1])); } };
static const IntegrationMethod METH[5] = {TRAP, SIMPSON, ROMBERG, GAUSS10, GAUSS10KRONROD21};
static const char* MN[5] = {"trap", "simpson", "romberg", "gauss10", "gk21"};
static double mtol(int m, bool poly) { switch (m) { case 0: return 6e-4; case 1: return 6e-5; case 2: return 1e-8; case 3: return poly ? 1e-12 : 1e-8; default: return 1e-11; } }

static void region(mon::Case& c, double& a, double& b, bool three) { auto& r = c.r; a = r.uni(-1.5, 1); b = a + r.uni(.2, 1.8); bool cst = r.coin(.15); for (int i = 0; i < 3; i++) { Ya[i] = (i && cst) ? 0 : r.uni(-.8, .8); Yb[i] = Ya[i] + ((i && cst) ? 0 : r.uni(-.3, .3)); } Yb[0] += r.coin(.85) ? r.uni(.3, 1.5) : r.uni(-1.5, -.3);
  for (int i = 0; i < 4; i++) { Za[i] = (i && cst) ? 0 : r.uni(-.6, .6); Zb[i] = Za[i] + ((i && cst) ? 0 : r.uni(-.3, .3)); } Zb[0] += r.coin(.85) ? r.uni(.3, 1.2) : r.uni(-1.2, -.3); if (r.coin(.03)) b = a;
  c.in("x", VD{a, b}); c.in("ya", VD(Ya, Ya + 3)); c.in("yb", VD(Yb, Yb + 3)); if (three) { c.in("za", VD(Za, Za + 4)); c.in("zb", VD(Zb, Zb + 4)); } }
#if PART == 1
template<int N> static void nested(mon::Case& c, int m) {
  auto& r = c.r; double a, b; region(c, a, b, N == 3); Fn f; bool poly = r.coin(.6); f.gen(r, N, N == 3 ? 2 : 3, poly, 1.2); f.log(c); c.in("method", MN[m]);
  auto I2 = [&](L x, bool ab) -> L { return G20(y1f((double)x), y2f((double)x), [&](L y) -> L { if (N == 2) { L v = f.val(x, y); return ab ? fabsl(v) : v; } return G12(z1f((double)x, (double)y), z2f((double)x, (double)y), [&](L z) { L v = f.val(x, y, z); return ab ? fabsl(v) : v; }); }); };
  // limits in long double arithmetic (function pointers evaluate in double: relative 1e-16 difference only)
  L I = G20(a, b, [&](L x) { return I2(x, false); }), A = fabsl(G20(a, b, [&](L x) { return fabsl(I2(x, true)); }));
  L FM = 0; for (auto& v : f.t) FM += fabsl(v.a) * 4; L tol = mtol(m, poly) * A + 1e-14L * FM; std::string key = std::string("nested") + char('0' + N) + "d_" + MN[m];
  Rec<N> g(f, a, b); auto run = [&](double a, double b) { if constexpr (N == 2) return Integrate2D(g, METH[m], a, b, y1f, y2f); else return Integrate3D(g, METH[m], a, b, y1f, y2f, z1f, z2f); };
  IntegrationResult R = run(a, b); c.ev(N == 2 ? "nested2d" : "nested3d"); c.check(g.out == 0, key + "_evaluated_outside_region"); c.check(g.n > 0 || a == b, key + "_no_evaluations");
  c.close(R.value, (double)I, (double)tol, key); if (r.coin(.5)) { IntegrationResult Q = run(b, a); c.close(Q.value, (double)-I, (double)tol, key + "_reversed"); c.ev("reversed"); }
  if (r.coin(.3)) { IntegrationDetailedResult D; if constexpr (N == 2) D = Integrate2DDetailed(g, METH[m], a, b, y1f, y2f); else D = Integrate3DDetailed(g, METH[m], a, b, y1f, y2f, z1f, z2f); c.check(D.value == R.value && D.converged == R.converged, key + "_detailed_differs"); c.check(!D.converged || D.IsSuccess(), key + "_detailed_status"); c.ev("detailed"); }
  if (N == 3 && m == 3) { IntegrationResult Q; if constexpr (N == 3) Q = Integrate3D(g, a, b, y1f, y2f, z1f, z2f); c.check(Q.value == R.value, "nested3d_default_method"); }
  c.check(g.out == 0, key + "_evaluated_outside_region"); }
FAMILY(nested2d, 700) { nested<2>(c, (int)c.r.i(0, 4)); }
FAMILY(nested3d, 120) { nested<3>(c, c.r.coin(.1) ? (int)c.r.i(0, 2) : (int)c.r.i(3, 4)); }

// adaptive: smooth terms, a kink along an oblique plane, or a product of narrow Lorentzians
template<int N> static void adaptive(mon::Case& c) {
  auto& r = c.r; double lo[3], hi[3]; for (int d = 0; d < 3; d++) { lo[d] = r.uni(-2, 1); hi[d] = lo[d] + r.uni(.1, 2.5); } int kind = (int)r.i(0, 2); if (N == 3 && kind) kind = r.coin(.3) ? kind : 0;
  Fn f; f.gen(r, N, 4, r.coin(.4), 3); double s0 = 0, al[3], ep[3]; for (int d = 0; d < N; d++) { s0 += r.uni(lo[d], hi[d]); al[d] = r.uni(lo[d], hi[d]); ep[d] = r.uni(N == 3 ? .5 : .1, 1); }
  double tol = pow(10, kind == 1 ? r.uni(-5, -3) : r.uni(-9, -4)); int md = r.coin(.3) ? (int)r.i(0, 4) : N == 2 ? 12 : 6; int me = r.coin(.3) ? (int)r.i(1, N == 2 ? 20000 : 100000) : N == 2 ? 150000 : 400000; f.log(c); c.in("lo", VD(lo, lo + N)); c.in("hi", VD(hi, hi + N)); c.in("kind", kind); c.in("tol", tol); c.in("max_depth", md); c.in("max_evals", me); c.in("s0", s0); c.in("al", VD(al, al + N)); c.in("ep", VD(ep, ep + N));
  if (r.coin(.04)) { hi[r.i(0, N - 1)] = lo[0] - 5; hi[0] = lo[0]; }
  bool empty = false; for (int d = 0; d < N; d++) empty |= hi[d] <= lo[d];
  auto val = [&](L x, L y, L z) -> L { if (kind == 0) return f.val(x, y, z); if (kind == 1) return fabsl(x + y + (N == 3 ? z : 0) - s0); L p = 1, X[3] = {x, y, z}; for (int d = 0; d < N; d++) p /= (X[d] - al[d]) * (X[d] - al[d]) + ep[d] * ep[d]; return p; };
  L I = 0, A = 0; if (!empty) { if (kind == 2) { I = 1; for (int d = 0; d < N; d++) I *= (atanl((hi[d] - al[d]) / (L)ep[d]) - atanl((lo[d] - al[d]) / (L)ep[d])) / ep[d]; A = I; }
    else if (kind == 1) { for (int m = 0; m < (1 << N); m++) { L s = -s0; int sg = 1; for (int d = 0; d < N; d++) if (m >> d & 1) s += hi[d]; else { s += lo[d]; sg = -sg; } I += sg * (N == 2 ? fabsl(s * s * s) / 6 : s * s * s * fabsl(s) / 24); } A = I; }
    else { auto in = [&](bool ab) { return G20(lo[0], hi[0], [&](L x) -> L { return G20(lo[1], hi[1], [&](L y) -> L { if (N == 2) { L v = f.val(x, y); return ab ? fabsl(v) : v; } return G12(lo[2], hi[2], [&](L z) { L v = f.val(x, y, z); return ab ? fabsl(v) : v; }); }); }); }; I = in(false); A = in(true); } }
  long n = 0, out = 0; auto chk = [&](double x, double y, double z) { n++; double X[3] = {x, y, z}; for (int d = 0; d < N; d++) if (X[d] < lo[d] - 1e-14 || X[d] > hi[d] + 1e-14) { out++; break; } return (double)val(x, y, N == 3 ? z : 0); };
  std::string key = std::string("adaptive") + char('0' + N) + "d"; int api = (int)r.i(0, 2); c.in("api", api);
  double v, e; long fe; bool conv; int cells = -1, depth = -1; AlgorithmStatus st = AlgorithmStatus::Success;
  if constexpr (N == 2) { auto F = [&](Real x, Real y) { return chk(x, y, 0); }; using namespace Integration; AdaptiveConfig2D cf; cf.absoluteTolerance(tol).relativeTolerance(tol).maxDepth(md).maxEvaluations(me);
    if (api == 2) { auto D = r.coin(.5) ? IntegrateAdaptive2DDetailed(F, lo[0], hi[0], lo[1], hi[1], cf) : IntegrateAdaptive2DDetailed(F, lo[0], hi[0], lo[1], hi[1], IntegrationConfig{}, tol, md, me); v = D.value; e = D.error_estimate; fe = D.function_evaluations; conv = D.converged; st = D.status; }
    else { auto D = api ? IntegrateAdaptive2D(F, lo[0], hi[0], lo[1], hi[1], cf) : IntegrateAdaptive2D(F, lo[0], hi[0], lo[1], hi[1], tol, md, me); v = D.value; e = D.error_estimate; fe = D.function_evaluations; conv = D.converged; cells = D.cells_subdivided; depth = D.max_depth_reached; } }
  else { auto F = [&](Real x, Real y, Real z) { return chk(x, y, z); }; using namespace Integration; AdaptiveConfig3D cf; cf.absoluteTolerance(tol).relativeTolerance(tol).maxDepth(md).maxEvaluations(me);
    if (api == 2) { auto D = r.coin(.5) ? IntegrateAdaptive3DDetailed(F, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], cf) : IntegrateAdaptive3DDetailed(F, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], IntegrationConfig{}, tol, md, me); v = D.value; e = D.error_estimate; fe = D.function_evaluations; conv = D.converged; st = D.status; }
    else { auto D = api ? IntegrateAdaptive3D(F, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], cf) : IntegrateAdaptive3D(F, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], tol, md, me); v = D.value; e = D.error_estimate; fe = D.function_evaluations; conv = D.converged; cells = D.cells_subdivided; depth = D.max_depth_reached; } }
  c.ev(N == 2 ? "adaptive2d" : "adaptive3d"); c.check(out == 0, key + "_evaluated_outside"); c.check(fe == n, key + "_evaluation_count", [&] { return "reported " + std::to_string(fe) + " actual " + std::to_string(n); });
  if (empty) { c.check(v == 0 && n == 0, key + "_empty_region"); c.ev("empty"); return; }
  c.check(n > 0, key + "_no_evaluations"); c.check(e >= 0, key + "_error_estimate_sign"); if (cells >= 0) { c.check(depth <= md && depth >= 0, key + "_depth_limit"); c.check((cells == 0) == (depth == 0), key + "_depth_vs_cells"); if (cells) c.ev(N == 2 ? "subdivided2d" : "subdivided3d"); }
  long per = N == 2 ? 225 : 3375; c.check(n <= me + per * (1 + (N == 2 ? 3L : 7L) * (md + 1)), key + "_evaluation_budget"); c.check(conv == (st == AlgorithmStatus::Success) || api != 2, key + "_status");
  L bound = tol * (1 + A); if (conv) { c.close(v, (double)I, (double)(3 * bound + 1e-13L * (A + 1)), key + "_converged_error"); c.ev("adaptive_converged"); c.check(e <= (double)(bound * 1.01 + 1e-13), key + "_converged_but_large_estimate"); } else c.ev("adaptive_not_converged");
  c.close(v, (double)I, (double)((kind == 1 ? 20 : 3) * (L)e + 1e-13L * (A + 1)), key + "_error_estimate");
  if (kind == 0 && md >= 6 && me >= 150000 && tol >= 1e-8) c.check(conv, key + "_smooth_not_converged"); }
FAMILY(adaptive2d, 350) { adaptive<2>(c); }
FAMILY(adaptive3d, 50) { adaptive<3>(c); }
#endif
#if PART == 2
// a random smooth curve with exact tangent; the first component keeps the speed away from zero
struct Crv : IParametricCurve<3> { Fn f[3]; double c0; bool line = false; mutable double lo = 1e300, hi = -1e300; double p[3], d[3];
  void gen(mon::Case& c) { auto& r = c.r; line = r.coin(.25); c0 = (r.coin(.5) ? 1 : -1) * r.uni(1, 4); VD l; for (int i = 0; i < 3; i++) { f[i].gen(r, 1, 3, r.coin(.5), 1.5); for (auto& t : f[i].t) t.a /= i ? 2 : 40; p[i] = r.uni(-2, 2); d[i] = r.uni(-3, 3); l.push_back(p[i]); l.push_back(d[i]); f[i].log(c); } l.push_back(c0); c.in("curve", l); c.in("line", line); }
  L x(int i, L t) const { return line ? p[i] + d[i] * t : f[i].val(t) + (i ? 0 : c0 * t); } L dx(int i, L t) const { return line ? d[i] : f[i].grad(0, t, 0, 0) + (i ? 0 : c0); }
  L speed(L t) const { L s = 0; for (int i = 0; i < 3; i++) s += dx(i, t) * dx(i, t); return sqrtl(s); }
  VectorN<Real, 3> operator()(Real t) const override { lo = std::min(lo, t); hi = std::max(hi, t); return VectorN<Real, 3>{(double)x(0, t), (double)x(1, t), (double)x(2, t)}; } Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; } };
struct RF : IRealFunction { std::function<L(L)> f; template<class F> RF(F g) : f(g) {} Real operator()(Real x) const override { return (double)f(x); } };
struct SF : IScalarFunction<3> { std::function<L(L, L, L)> f; template<class F> SF(F g) : f(g) {} Real operator()(const VectorN<Real, 3>& p) const override { return (double)f(p[0], p[1], p[2]); } };
struct VF : IVectorFunction<3> { std::function<L(int, L, L, L)> f; mutable long n = 0; template<class F> VF(F g) : f(g) {} VectorN<Real, 3> operator()(const VectorN<Real, 3>& p) const override { n++; return VectorN<Real, 3>{(double)f(0, p[0], p[1], p[2]), (double)f(1, p[0], p[1], p[2]), (double)f(2, p[0], p[1], p[2])}; } };
template<class F> static L quad(L a, L b, F f) { L s = 0; int n = 8; for (int i = 0; i < n; i++) s += G20(a + (b - a) * i / n, a + (b - a) * (i + 1) / n, f); return s; }
FAMILY(path, 900) {
  auto& r = c.r; Crv C; C.gen(c); double a = r.uni(-1.2, .8), b = a + r.uni(.1, 1.2); if (r.coin(.02)) b = a; bool rev = r.coin(.3); if (rev) std::swap(a, b); int kind = (int)r.i(0, 4); double eps = r.coin(.4) ? -1 : pow(10, r.uni(-7, -3)); c.in("t", VD{a, b}); c.in("kind", kind); c.in("eps", eps); L ab = std::fabs(b - a);
  auto judge = [&](const IntegrationResult& R, L I, L A, double eps, bool exact, const std::string& key) { c.check(std::isfinite(R.value), key + "_nonfinite"); L tol = exact ? 1e-8L * (A + 1e-3L) : 3 * eps * fabsl(I) + 2e-5L * eps * A + 1e-8L * (A + 1e-3L); if (!R.converged) { c.ev("path_not_converged"); tol = std::max(tol, (L)1e-4 * A); } c.close(R.value, (double)I, (double)tol, key); double sl = 1e-2; c.check(C.lo >= std::min(a, b) - sl && C.hi <= std::max(a, b) + sl, key + "_evaluated_outside"); };
  Fn q; q.gen(r, 3, 2, r.coin(.5), .7); q.log(c); RF dens([&](L t) { return C.line ? 1.5L + 0.3L * t : 2 + sinl(t + 1) + t * t / 10; });
  double de = Defaults::TrapezoidIntegrationEPS;
  if (kind == 0) { judge(PathIntegration::ParametricCurveLength(C, a, b), quad(a, b, [&](L t) { return C.speed(t); }), fabsl(quad(a, b, [&](L t) { return C.speed(t); })), de, C.line, "length"); c.ev("length"); }
  else if (kind == 1) { L I = quad(a, b, [&](L t) { return C.speed(t) * dens.f(t); }); judge(PathIntegration::ParametricCurveMass(C, dens, a, b), I, fabsl(I), de, C.line, "mass"); c.ev("mass"); }
  else if (kind == 2) { auto g = [&](L t) { return q.val(C.x(0, t), C.x(1, t), C.x(2, t)) * C.speed(t); }; L I = quad(a, b, g), A = fabsl(quad(a, b, [&](L t) { return fabsl(g(t)); })); SF F([&](L x, L y, L z) { return q.val(x, y, z); }); judge(eps < 0 ? PathIntegration::LineIntegral(F, C, a, b) : PathIntegration::LineIntegral(F, C, a, b, eps), I, A, eps < 0 ? (double)Defaults::WorkIntegralPrecision : eps, false, "line_scalar"); c.ev("line_scalar"); }
  else { bool grad = kind == 3; Fn g3[3]; for (auto& g : g3) g.gen(r, 3, 2, r.coin(.5), .7); auto fv = [&](int i, L x, L y, L z) { return grad ? q.grad(i, x, y, z) : g3[i].val(x, y, z); }; VF F(fv);
    auto g = [&](L t) { L s = 0; for (int i = 0; i < 3; i++) s += fv(i, C.x(0, t), C.x(1, t), C.x(2, t)) * C.dx(i, t); return s; }; L A = fabsl(quad(a, b, [&](L t) { return fabsl(g(t)); })); L I = grad ? q.val(C.x(0, b), C.x(1, b), C.x(2, b)) - q.val(C.x(0, a), C.x(1, a), C.x(2, a)) : quad(a, b, g);
    double e = eps < 0 ? (double)Defaults::LineIntegralPrecision : eps; IntegrationResult R = eps < 0 ? PathIntegration::LineIntegral(F, C, a, b) : PathIntegration::LineIntegral(F, C, a, b, eps); judge(R, I, A, e, false, grad ? "work_gradient" : "work"); judge(PathIntegration::LineIntegral(F, C, b, a, e), -I, A, e, false, "work_reversed"); c.ev(grad ? "work_gradient" : "work"); } }
// 2-D curve length (circle arcs and ellipses by reference quadrature)
struct Arc : IParametricCurve<2> { double R, S, w; VectorN<Real, 2> operator()(Real t) const override { return VectorN<Real, 2>{R * cos(w * t), S * sin(w * t)}; } Real getMinT() const override { return 0; } Real getMaxT() const override { return 7; } };
FAMILY(arcs, 300) { auto& r = c.r; Arc A; A.R = r.logmag(-3, 3); A.S = r.coin(.4) ? A.R : A.R * r.uni(.3, 3); A.w = r.uni(.2, 2); double a = r.uni(0, 1), b = a + r.uni(.1, 2.5); c.in("arc", VD{A.R, A.S, A.w, a, b}); A.R = std::fabs(A.R); L I = quad(a, b, [&](L t) { return A.w * sqrtl(A.R * A.R * sinl(A.w * t) * sinl(A.w * t) + A.S * A.S * cosl(A.w * t) * cosl(A.w * t)); }); auto R = PathIntegration::ParametricCurveLength<2>(A, a, b); c.ev("arcs"); c.close(R.value, (double)I, (double)(A.R == std::fabs(A.S) ? 1e-7L * I : 4e-4L * I), "arc_length"); c.check(R.converged, "arc_not_converged"); }

struct Srf : IParametricSurfaceRect<3> { Fn f[3]; bool plane; double p[9]; L x(int i, L u, L v) const { return plane ? p[i] + p[3 + i] * u + p[6 + i] * v : f[i].val(u, v) + (i == 0 ? 2 * u : i == 1 ? 2 * v : 0); }
  L dx(int i, int d, L u, L v) const { return plane ? p[3 + 3 * d + i] : f[i].grad(d, u, v, 0) + (i == d ? 2 : 0); } VectorN<Real, 3> operator()(Real u, Real v) const override { return VectorN<Real, 3>{(double)x(0, u, v), (double)x(1, u, v), (double)x(2, u, v)}; } Real getMinU() const override { return -9; } Real getMaxU() const override { return 9; } Real getMinW() const override { return -9; } Real getMaxW() const override { return 9; } };
struct Swp : IParametricSurfaceRect<3> { const Srf& s; Swp(const Srf& s) : s(s) {} VectorN<Real, 3> operator()(Real u, Real v) const override { return s(v, u); } Real getMinU() const override { return -9; } Real getMaxU() const override { return 9; } Real getMinW() const override { return -9; } Real getMaxW() const override { return 9; } };
FAMILY(flux_param, 500) {
  auto& r = c.r; Srf S; S.plane = r.coin(.35); for (auto& v : S.p) v = r.uni(-2, 2); c.in("plane", VD(S.p, S.p + 9)); c.in("is_plane", S.plane); for (auto& f : S.f) { f.gen(r, 2, 3, r.coin(.5), 1); for (auto& t : f.t) t.a /= 6; f.log(c); } Fn g[3]; bool lin = r.coin(.5); for (auto& h : g) { h.gen(r, 3, lin ? 1 : 2, lin || r.coin(.4), .8); h.log(c); }
  double x1 = r.uni(-1, .8), x2 = x1 + r.uni(.1, 1.5), y1 = r.uni(-1, .8), y2 = y1 + r.uni(.1, 1.5); int nu = (int)r.i(1, 30), nv = (int)r.i(1, 30); bool dflt = r.coin(.2); if (dflt) nu = nv = 20; c.in("rect", VD{x1, x2, y1, y2}); c.in("n", VD{(double)nu, (double)nv}); VF F([&](int i, L x, L y, L z) { return g[i].val(x, y, z); });
  auto G = [&](L u, L v) -> L { L X[3], U[3], V[3]; for (int i = 0; i < 3; i++) { X[i] = S.x(i, u, v); U[i] = S.dx(i, 0, u, v); V[i] = S.dx(i, 1, u, v); } L s = 0; for (int i = 0; i < 3; i++) s += g[i].val(X[0], X[1], X[2]) * (U[(i + 1) % 3] * V[(i + 2) % 3] - U[(i + 2) % 3] * V[(i + 1) % 3]); return s; };
  L I = G20(x1, x2, [&](L u) { return G20(y1, y2, [&](L v) { return G(u, v); }); }); L mu = 0, mv = 0, mx = 0, h = 1e-3L; for (int i = 0; i <= 24; i++) for (int j = 0; j <= 24; j++) { L u = x1 + (x2 - x1) * (L)i / 24, v = y1 + (y2 - y1) * (L)j / 24, g0 = G(u, v); mx = std::max(mx, fabsl(g0)); mu = std::max(mu, fabsl(G(u + h, v) - 2 * g0 + G(u - h, v)) / (h * h)); mv = std::max(mv, fabsl(G(u, v + h) - 2 * g0 + G(u, v - h)) / (h * h)); }
  L ar = (L)(x2 - x1) * (y2 - y1), du = (x2 - x1) / nu, dv = (y2 - y1) / nv, tol = 1.3L * ar / 24 * (du * du * mu + dv * dv * mv) + 1e-7L * ar * (mx + 1);
  auto R = dflt ? SurfaceIntegration::SurfaceIntegral(F, S, x1, x2, y1, y2) : SurfaceIntegration::SurfaceIntegral(F, S, x1, x2, y1, y2, nu, nv); c.ev("flux_param"); c.close(R.value, (double)I, (double)tol, S.plane && lin ? "flux_param_exact" : "flux_param");
  Swp W(S); c.close(SurfaceIntegration::SurfaceIntegral(F, W, y1, y2, x1, x2, nv, nu).value, (double)-I, (double)tol, "flux_param_orientation");
  if (r.coin(.1)) { c.check(SurfaceIntegration::SurfaceIntegral(F, S, x2, x1, y1, y2, nu, nv).value == 0 && SurfaceIntegration::SurfaceIntegral(F, S, x1, x1, y1, y2).value == 0 && SurfaceIntegration::SurfaceIntegral(F, S, x1, x2, y2, y1).value == 0, "flux_param_bad_range"); c.ev("flux_bad_range"); } }

typedef std::array<L, 3> P3; static P3 sub(P3 a, P3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; } static P3 crs(P3 a, P3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; } static L dot(P3 a, P3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; } static P3 mid(P3 a, P3 b) { return {(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2}; } static P3 toP(const Pnt3Cart& p) { return {p.X(), p.Y(), p.Z()}; } static Pnt3Cart toC(P3 p) { return Pnt3Cart((double)p[0], (double)p[1], (double)p[2]); }
FAMILY(flux_flat, 600) {
  auto& r = c.r; bool tri = r.coin(.5); int deg = (int)r.i(0, 2); Fn g[3]; for (auto& h : g) { h.gen(r, 3, deg, true); h.log(c); } P3 a, u, v; L ar; do { for (int i = 0; i < 3; i++) { a[i] = r.uni(-2, 2); u[i] = r.uni(-2, 2); v[i] = r.uni(-2, 2); } ar = sqrtl(dot(crs(u, v), crs(u, v))); } while (ar < .2); c.in("a", VD{(double)a[0], (double)a[1], (double)a[2]}); c.in("u", VD{(double)u[0], (double)u[1], (double)u[2]}); c.in("v", VD{(double)v[0], (double)v[1], (double)v[2]}); c.in("tri", tri); c.in("deg", deg);
  auto P = [&](L s, L t) { return P3{a[0] + s * u[0] + t * v[0], a[1] + s * u[1] + t * v[1], a[2] + s * u[2] + t * v[2]}; }; P3 N = crs(u, v); auto f = [&](P3 p) { return g[0].val(p[0], p[1], p[2]) * N[0] + g[1].val(p[0], p[1], p[2]) * N[1] + g[2].val(p[0], p[1], p[2]) * N[2]; };
  L I, E0, M = fabsl(f(P(0, 0))) + fabsl(f(P(1, 0))) + fabsl(f(P(0, 1))) + 1; if (tri) { I = (f(P(.5L, 0)) + f(P(0, .5L)) + f(P(.5L, .5L))) / 6; E0 = f(P(1 / 3.0L, 1 / 3.0L)) / 2 - I; } else { I = G12(0, 1, [&](L s) { return G12(0, 1, [&](L t) { return f(P(s, t)); }); }); E0 = f(P(.5L, .5L)) - I; }
  double eps = pow(10, r.uni(-4, -1)); int lev = (int)r.i(0, 6); bool dflt = r.coin(.2); if (dflt) lev = 7; c.in("eps", eps); c.in("lev", lev); VF F([&](int i, L x, L y, L z) { return g[i].val(x, y, z); }); IntegrationResult R; std::string key = tri ? "flux_triangle" : "flux_rect";
  if (tri) { Triangle3D T(toC(P(0, 0)), toC(P(1, 0)), toC(P(0, 1))); R = dflt ? SurfaceIntegration::SurfaceIntegral(F, T, eps) : SurfaceIntegration::SurfaceIntegral(F, T, eps, lev); } else { RectSurface3D T(toC(P(0, 0)), toC(P(1, 0)), toC(P(1, 1)), toC(P(0, 1))); R = dflt ? SurfaceIntegration::SurfaceIntegral(F, T, eps) : SurfaceIntegration::SurfaceIntegral(F, T, eps, lev); }
  long rec = (F.n - 1) / 4; c.ev("flux_flat"); if (rec > 1) c.ev("flux_refined"); L lim = std::min(fabsl(E0) / 4, std::max(rec * (L)eps / 3, fabsl(E0) / powl(4, lev + 1))) * 1.02L + 1e-9L * M; c.close(R.value, (double)I, (double)lim, key); }
template<class B> static void body(mon::Case& c, const B& b, const char* nm, double want) { auto& r = c.r; L A[3][3], B0[3], tr = 0; for (int i = 0; i < 3; i++) { B0[i] = r.uni(-2, 2); for (int j = 0; j < 3; j++) A[i][j] = r.uni(-2, 2); tr += A[i][i]; } VF F([&](int i, L x, L y, L z) { return A[i][0] * x + A[i][1] * y + A[i][2] * z + B0[i]; }); auto R = r.coin(.5) ? SurfaceIntegration::SurfaceIntegral(F, b) : SurfaceIntegration::SurfaceIntegral(F, b, pow(10, r.uni(-6, -2)));
  L V = 0, sc = 1; for (int i = 0; i < b.GetSurfaceCount(); i++) { P3 p[4]; int n; if constexpr (std::is_base_of_v<BodyWithTriangleSurfaces, B>) { auto& t = b.GetSurface(i); p[0] = toP(t.Pnt1()); p[1] = toP(t.Pnt2()); p[2] = toP(t.Pnt3()); n = 3; } else { auto& t = b.GetSurface(i); p[0] = toP(t._pnt1); p[1] = toP(t._pnt2); p[2] = toP(t._pnt3); p[3] = toP(t._pnt4); n = 4; } for (int k = 1; k + 1 < n; k++) { V += dot(p[0], crs(p[k], p[k + 1])) / 6; } for (int k = 0; k < n; k++) sc += dot(p[k], p[k]) * b.GetSurfaceCount(); }
  c.close((double)V, want ? want : b.Volume(), 1e-9 * (double)sc * 4, std::string("body_orientation_") + nm); c.close(R.value, (double)(tr * V), (double)(1e-9L * sc * 12), std::string("divergence_theorem_") + nm); c.ev("bodies"); }
FAMILY(bodies, 200) { auto& r = c.r; int k = (int)r.i(0, 3); double a = r.uni(.2, 3), h = r.uni(.2, 3), x = r.uni(-2, 2), y = r.uni(-2, 2), z = r.uni(-2, 2); Pnt3Cart p(x, y, z); c.in("body", VD{(double)k, a, h, x, y, z}); switch (k) { case 0: body(c, Cube3D(a, p), "cube", a * a * a); break; case 1: body(c, r.coin(.5) ? CubeWithTriangles3D(a) : CubeWithTriangles3D(a, p), "cube_triangles", a * a * a); break; case 2: if (r.coin(.5)) body(c, Pyramid3D(a, h, Vec3Cart(x, y, z)), "pyramid", a * a * h / 3); else body(c, r.coin(.5) ? Pyramid3D(a, h) : PyramidEquilateral3D(a), "pyramid", 0); break; default: { int nl = 3 + (int)r.i(0, 6), no = 3 + (int)r.i(0, 8); Sphere3D s = r.coin(.5) ? Sphere3D(a, nl, no) : Sphere3D(a, p, nl, no); auto V = [&] { L v = 0; for (int i = 0; i < s.GetSurfaceCount(); i++) { auto& t = s.GetSurface(i); v += dot(toP(t.Pnt1()), crs(toP(t.Pnt2()), toP(t.Pnt3()))) / 6; } return v; }(); c.check(V > 0 && V < 4.19 * a * a * a, "body_orientation_sphere"); body(c, s, "sphere", (double)V); } } }
#endif
#if PART == 3
template<int N> struct MF : IScalarFunction<N> { const Fn& f; mutable std::vector<VectorN<Real, N>> pts; MF(const Fn& f) : f(f) {} Real operator()(const VectorN<Real, N>& p) const override { pts.push_back(p); return (double)f.val(p[0], N > 1 ? p[N > 1 ? 1 : 0] : 0, N > 2 ? p[N > 2 ? 2 : 0] : 0); } };
template<int N> static L box(const double* lo, const double* hi, std::function<L(L, L, L)> f) { return G20(lo[0], hi[0], [&](L x) -> L { if (N == 1) return f(x, 0, 0); return G12(lo[1], hi[1], [&](L y) -> L { if (N == 2) return f(x, y, 0); return G12(lo[2], hi[2], [&](L z) { return f(x, y, z); }); }); }); }
template<int N> static void mc(mon::Case& c) {
  auto& r = c.r; Fn f; bool lin = r.coin(.2), cst = r.coin(.06); f.gen(r, N, cst ? 0 : lin ? 1 : 3, true); f.log(c); double lo[3], hi[3]; for (int d = 0; d < 3; d++) { lo[d] = r.uni(-2, 1); hi[d] = lo[d] + r.uni(.1, 3); } c.in("lo", VD(lo, lo + N)); c.in("hi", VD(hi, hi + N)); unsigned seed = (unsigned)r.i(1, 2000000000); c.in("seed", (double)seed);
  L V = 1; for (int d = 0; d < N; d++) V *= hi[d] - lo[d]; L I = box<N>(lo, hi, [&](L x, L y, L z) { return f.val(x, y, z); }), I2 = box<N>(lo, hi, [&](L x, L y, L z) { L v = f.val(x, y, z); return v * v; }), mx = sqrtl(I2 / V) * V; L sd = sqrtl(std::max<L>(0, I2 / V - (I / V) * (I / V))); MF<N> g(f); VectorN<Real, N> lv, hv; for (int d = 0; d < N; d++) { lv[d] = lo[d]; hv[d] = hi[d]; } L mag = mx + 1e-300L;
  auto inside = [&](const std::string& k) { for (auto& p : g.pts) for (int d = 0; d < N; d++) if (p[d] < lo[d] - 1e-12 || p[d] > hi[d] + 1e-12) { c.fail(k + "_sample_outside"); return; } };
  int kind = (int)r.i(0, 2); c.in("kind", kind);
  if (kind <= 1) { bool anti = kind == 1; size_t n = (size_t)r.i(400, 6000); MonteCarloConfig cf; cf.samples(n).randomSeed(seed).antithetic(anti).error(r.coin(.5) ? 1e-3 : pow(10, r.uni(-3, 0))); c.in("n", (double)n); std::string k = anti ? "mc_antithetic" : "mc_plain"; MonteCarloIntegrator<N> mi(r.coin(.5) ? seed : 77u); auto R = mi.integrate(g, lv, hv, cf); c.ev(anti ? "mc_antithetic" : "mc_plain"); inside(k); size_t used = anti ? n / 2 * 2 : n; c.check(g.pts.size() == used && R.samples_used == used && (size_t)R.function_evaluations == used, k + "_sample_count"); c.check(R.error_estimate >= 0 && R.variance >= 0, k + "_negative_or_nan_error", [&] { return std::to_string(R.error_estimate); });
    L slack = 1e-7L * mag; c.close(R.value, (double)I, (double)(7 * (L)R.error_estimate + (lin || cst || anti ? 1e-6L * mag : 0) + slack + 7 * V * sd / sqrtl((L)n) * (anti ? 1 : 0)), k + "_within_error_bars"); if (!anti) { L want = V * sd / sqrtl((L)n); c.check(R.error_estimate <= 1.6L * want + slack && R.error_estimate >= .55L * want - slack, k + "_error_estimate_scale", [&] { return std::to_string(R.error_estimate) + " vs " + std::to_string((double)want); }); c.close(R.value, (double)I, (double)(7 * want + slack), k + "_accuracy"); }
    if (lin && anti) c.close(R.value, (double)I, (double)(1e-12L * mag * 10), "mc_antithetic_linear_exact"); bool cv = std::fabs(R.value) < 1e-300 || R.error_estimate / std::fabs(R.value) < cf.target_error; if (std::fabs(R.value) > 1e-10) c.check(R.converged == cv, k + "_converged_flag");
    MF<N> g2(f); MonteCarloIntegrator<N> mj(5); auto Q = mj.integrate(g2, lv, hv, cf); c.check(Q.value == R.value && Q.error_estimate == R.error_estimate, k + "_seed_repeatable"); MonteCarloConfig cd = cf; cd.randomSeed(seed ^ 0x5555); MF<N> g3(f); auto Q2 = mj.integrate(g3, lv, hv, cd); if (!g3.pts.empty()) c.check(g3.pts[0][0] != g.pts[0][0] || g3.pts.back()[0] != g.pts.back()[0], k + "_seed_ignored");
    std::swap(lv[0], hv[0]); auto Qr = mj.integrate(g, lv, hv, cf); c.check(Qr.error_estimate >= 0, k + "_reversed_error_negative"); c.close(Qr.value, (double)-I, (double)(7 * V * sd / sqrtl((L)n) * (anti ? 1.5L : 1) + slack), k + "_reversed"); hv[0] = lv[0]; auto Qe = mj.integrate(g, lv, hv, cf); c.check(Qe.value == 0 && Qe.converged, k + "_empty");
    if (N == 1) { struct W : IRealFunction { const Fn& f; W(const Fn& f) : f(f) {} Real operator()(Real x) const override { return (double)f.val(x); } } w(f); auto S = IntegrateMonteCarlo1D(w, lo[0], hi[0], cf); c.check(S.value == R.value, k + "_1d_wrapper"); } }
  else { int s = (int)r.i(1, N == 1 ? 60 : N == 2 ? 14 : 7), m = (int)r.i(1, 12); c.in("strata", s); c.in("per", m); StratifiedMonteCarloIntegrator<N> si(r.coin(.5) ? seed : 3u); auto R = si.integrate(g, lv, hv, s, m, seed); c.ev("mc_stratified"); inside("mc_stratified"); size_t tot = m; for (int d = 0; d < N; d++) tot *= s; c.check(g.pts.size() == tot && R.samples_used == tot, "mc_stratified_sample_count"); c.check(R.error_estimate >= 0 && R.variance >= 0, "mc_stratified_negative_or_nan_error");
    std::map<std::vector<int>, int> cnt; bool edge = false; for (auto& p : g.pts) { std::vector<int> id; for (int d = 0; d < N; d++) { double q = (p[d] - lo[d]) / ((hi[d] - lo[d]) / s); if (std::fabs(q - std::round(q)) < 1e-9) edge = true; id.push_back((int)std::floor(q)); } cnt[id]++; } if (!edge) { bool ok = true; for (auto& kv : cnt) ok &= kv.second == m; c.check(ok && cnt.size() * m == tot, "mc_stratified_cell_occupancy"); }
    L lip = 0; for (int d = 0; d < N; d++) { L g = 0; for (int i = 0; i <= 8; i++) for (int j = 0; j <= (N > 1 ? 8 : 0); j++) for (int k = 0; k <= (N > 2 ? 8 : 0); k++) { L x = lo[0] + (hi[0] - lo[0]) * (L)i / 8, y = N > 1 ? lo[1] + (hi[1] - lo[1]) * (L)j / 8 : 0, z = N > 2 ? lo[2] + (hi[2] - lo[2]) * (L)k / 8 : 0; g = std::max(g, fabsl(f.grad(d, x, y, z))); } lip += 1.4L * g * (hi[d] - lo[d]) / s; } c.close(R.value, (double)I, (double)(7 * V * lip / 2 / sqrtl((L)tot) + 1e-10L * mag), "mc_stratified_accuracy"); StratifiedMonteCarloIntegrator<N> sj(9); c.check(sj.integrate(g, lv, hv, s, m, seed).value == R.value, "mc_stratified_seed_repeatable"); } }
FAMILY(monte_carlo, 500) { switch (c.r.i(1, 3)) { case 1: mc<1>(c); break; case 2: mc<2>(c); break; default: mc<3>(c); } }
FAMILY(hit_or_miss, 300) { auto& r = c.r; unsigned seed = (unsigned)r.i(1, 2000000000); size_t n = (size_t)r.i(1000, 20000); c.in("seed", (double)seed); c.in("n", (double)n); const double pi = std::acos(-1.0); auto judge = [&](const MonteCarloResult& R, double want, double bv, const char* k) { double p = want / bv, sd = bv * std::sqrt(p * (1 - p) / n); c.check(R.samples_used == n && (size_t)R.function_evaluations == n, std::string(k) + "_count"); c.close(R.value, want, 7 * sd + 10 * bv / n, std::string(k) + "_accuracy"); double q = R.value / bv; c.close(R.error_estimate, bv * std::sqrt(std::max(0.0, q * (1 - q)) / n), 1e-9 * bv, std::string(k) + "_error_estimate"); c.ev("hit_or_miss"); };
  switch (r.i(0, 2)) { case 0: judge(EstimatePi(n, seed), pi, 4, "pi"); c.check(EstimatePi(n, seed).value == EstimatePi(n, seed).value, "pi_repeatable"); break;
    case 1: { int d = (int)r.i(1, 6); c.in("dim", d); static const double vol[7] = {1, 2, pi, 4 * pi / 3, pi * pi / 2, 8 * pi * pi / 15, pi * pi * pi / 6}; MonteCarloResult R = d == 1 ? EstimateUnitBallVolume<1>(n, seed) : d == 2 ? EstimateUnitBallVolume<2>(n, seed) : d == 3 ? EstimateUnitBallVolume<3>(n, seed) : d == 4 ? EstimateUnitBallVolume<4>(n, seed) : d == 5 ? EstimateUnitBallVolume<5>(n, seed) : EstimateUnitBallVolume<6>(n, seed); judge(R, vol[d], std::pow(2.0, d), "ball"); break; }
    default: { double lo[2] = {r.uni(-2, 0), r.uni(-2, 0)}, hi[2] = {r.uni(.2, 2), r.uni(.2, 2)}, q = r.u01(); c.in("box", VD{lo[0], lo[1], hi[0], hi[1], q}); VectorN<Real, 2> lv{lo[0], lo[1]}, hv{hi[0], hi[1]}; double bv = (hi[0] - lo[0]) * (hi[1] - lo[1]); long out = 0; HitOrMissIntegrator<2> h(seed); auto R = h.estimateVolume([&](const VectorN<Real, 2>& p) { if (p[0] < lo[0] || p[0] > hi[0] || p[1] < lo[1] || p[1] > hi[1]) out++; return p[0] <= lo[0] + q * (hi[0] - lo[0]); }, lv, hv, n, seed); judge(R, q * bv, bv, "slab"); c.check(out == 0, "hit_or_miss_sample_outside"); } } }
#endif
MON_MAIN()
