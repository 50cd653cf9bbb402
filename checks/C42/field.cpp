// C42: field analyzers on fields with known divergence, curl and potential
#include "mon.h"
#include <functional>
#include "mml/algorithms/FieldAnalyzers.h"
using namespace MML;
struct SF : IScalarFunction<3> { std::function<Real(double, double, double)> f; Real operator()(const VectorN<Real, 3>& v) const override { return f(v[0], v[1], v[2]); } };
struct VF : IVectorFunction<3> { std::function<VectorN<Real, 3>(double, double, double)> f; VectorN<Real, 3> operator()(const VectorN<Real, 3>& v) const override { return f(v[0], v[1], v[2]); } };
static Vec3Cart rv(mon::Rng& r, double s = 1) { return Vec3Cart(r.normal() * s, r.normal() * s, r.normal() * s); }
FAMILY(scalar, 400) { auto& r = c.r; double a[3][3]; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) a[i][j] = a[j][i] = r.normal() + (i == j ? 1.5 : 0); int n = (int)r.i(2, 8); Vec3Cart lo = rv(r), hi = lo + Vec3Cart(r.uni(1, 3), r.uni(1, 3), r.uni(1, 3)); int gi = (int)r.i(0, n), gj = (int)r.i(0, n), gk = (int)r.i(0, n); bool on = r.coin(.6); double p[3] = {lo.X() + (gi + (on ? 0 : .4)) * (hi.X() - lo.X()) / n, lo.Y() + gj * (hi.Y() - lo.Y()) / n, lo.Z() + gk * (hi.Z() - lo.Z()) / n}; double amp = r.pmag(-1, 2), q = r.normal(); c.in("p", std::vector<double>{p[0], p[1], p[2]}); c.in("n", n); c.in("amp", amp); c.in("on", on); SF s; s.f = [&](double x, double y, double z) { double d[3] = {x - p[0], y - p[1], z - p[2]}, v = q; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v += .5 * amp * a[i][j] * d[i] * d[j]; return v; }; ScalarFieldAnalyzer an(s); Vec3Cart x = rv(r); double g[3] = {0, 0, 0}, d[3] = {x.X() - p[0], x.Y() - p[1], x.Z() - p[2]}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g[i] += amp * a[i][j] * d[j]; Vec3Cart G = an.GradientAt(x); double sc = 1 + amp * 40; c.close(G.X(), g[0], 1e-9 * sc, "gradient"); c.close(G.Y(), g[1], 1e-9 * sc, "gradient"); c.close(G.Z(), g[2], 1e-9 * sc, "gradient"); double lap = amp * (a[0][0] + a[1][1] + a[2][2]); c.close(an.LaplacianAt(x), lap, 1e-6 * sc, "laplacian"); double gn = std::hypot(g[0], std::hypot(g[1], g[2])); for (double t : {gn * .5, gn * 2}) c.check(an.IsCriticalPoint(x, t) == (gn < t), "critical"); Vec3Cart P(p[0], p[1], p[2]); c.check(an.IsCriticalPoint(P), "critical_point"); double det = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); if (std::fabs(det) > .3) { auto v = an.FindCriticalPoints(lo, hi, n); bool ok = v.size() == (on ? 1u : 0u); if (ok && on) ok = std::fabs(v[0].X() - p[0]) + std::fabs(v[0].Y() - p[1]) + std::fabs(v[0].Z() - p[2]) < 1e-12 * 10; c.check(ok, "grid_search", [&] { return mon::str((int)v.size()); }); c.ev(on ? "critical_found" : "critical_absent"); }
	bool harm = r.coin(.5); double w = r.uni(.3, 1.5); SF h; h.f = [&](double x, double y, double z) { return amp * std::exp(w * x) * std::sin(w * y) + q * z + (harm ? 0 : .1 * amp * (z - 1e-3) * z * z); }; ScalarFieldAnalyzer ah(h); c.check(ah.IsHarmonic(Vec3Cart(-1, -1, -1), Vec3Cart(1, 1, 1), 4, 1e-3 * amp) == harm, "harmonic"); c.ev("harmonic"); SF nn; nn.f = [&](double x, double, double) { return std::sqrt(x); }; ScalarFieldAnalyzer bad(nn); c.check(!bad.IsHarmonic(Vec3Cart(-1, -1, -1), Vec3Cart(1, 1, 1), 4, 1e9), "undefined_not_harmonic"); }
FAMILY(vec, 500) { auto& r = c.r; double A[3][3], b[3]; for (int i = 0; i < 3; i++) { b[i] = r.normal(); for (int j = 0; j < 3; j++) A[i][j] = r.normal(); } int k = (int)r.i(0, 3); double amp = r.pmag(-1, 2); if (k == 1) A[2][2] = -A[0][0] - A[1][1]; if (k == 2) for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) A[i][j] = A[j][i]; double qd = k == 3 ? r.uni(.5, 1) : 0, qc = k == 3 ? r.uni(.5, 1) : 0; c.in("kind", k); c.in("amp", amp); VF v; v.f = [&](double x, double y, double z) { double s[3] = {x, y, z}; VectorN<Real, 3> o; for (int i = 0; i < 3; i++) { o[i] = b[i]; for (int j = 0; j < 3; j++) o[i] += A[i][j] * s[j]; } o[0] += qd * x * x; o[1] += qc * x * x; for (int i = 0; i < 3; i++) o[i] *= amp; return o; }; VectorFieldAnalyzer an(v); auto D = [&](const Vec3Cart& p) { return amp * (A[0][0] + A[1][1] + A[2][2] + 2 * qd * p.X()); }; auto C = [&](const Vec3Cart& p) { return Vec3Cart(amp * (A[2][1] - A[1][2]), amp * (A[0][2] - A[2][0]), amp * (A[1][0] - A[0][1] + 2 * qc * p.X())); }; Vec3Cart x = rv(r); double t = 1e-8 * (1 + amp * 20); c.close(an.DivergenceAt(x), D(x), t, "divergence"); Vec3Cart cu = an.CurlAt(x), cw = C(x); c.close(cu.X(), cw.X(), t, "curl"); c.close(cu.Y(), cw.Y(), t, "curl"); c.close(cu.Z(), cw.Z(), t, "curl"); double d = std::fabs(D(x)), w = cw.NormL2(); for (double f : {.5, 2.}) { if (d > 1e-3 * amp) c.check(an.IsSolenoidalAt(x, d * f) == (f > 1), "solenoidal_at"); if (w > 1e-3 * amp) c.check(an.IsIrrotationalAt(x, w * f) == (f > 1), "irrotational_at"); }
	int n = (int)r.i(1, 6); Vec3Cart lo = rv(r), hi = lo + Vec3Cart(r.uni(.5, 3), r.uni(.5, 3), r.uni(.5, 3)); double md = 0, mc = 0; for (int i = 0; i <= n; i++) { Vec3Cart p(lo.X() + i * (hi.X() - lo.X()) / n, 0, 0); md = std::max(md, std::fabs(D(p))); mc = std::max(mc, C(p).NormL2()); } c.close(an.MaxDivergence(lo, hi, n), md, t * 3, "max_divergence"); c.close(an.MaxCurlMagnitude(lo, hi, n), mc, t * 3, "max_curl"); double th = 1e-3 * amp; if (md > 2 * th || md < .5 * th) { c.check(an.IsSolenoidal(lo, hi, n, th) == (md < th), "solenoidal"); c.ev(md < th ? "solenoidal" : "with_sources"); } if (mc > 2 * th || mc < .5 * th) { c.check(an.IsIrrotational(lo, hi, n, th) == (mc < th), "irrotational"); c.check(an.IsConservative(lo, hi, n, th) == (mc < th), "conservative"); c.ev(mc < th ? "irrotational" : "rotating"); }
	if (k != 3) { Vec3Cart nrm = rv(r), cen = rv(r); if (r.coin(.3)) nrm = r.pick({Vec3Cart(1, 0, 0), Vec3Cart(0, -1, 0), Vec3Cart(0, 0, 2), Vec3Cart(-3, 0, 0), Vec3Cart(0, 0, -1)}); double rad = r.pmag(-2, 1); int N = r.pick({3, 4, 7, 100, 500}); c.in("radius", rad); c.in("points", N); double flux = 0; Vec3Cart cc = C(cen), un = nrm.GetAsUnitVector(); flux = cc.X() * un.X() + cc.Y() * un.Y() + cc.Z() * un.Z(); double area = N / 2. * rad * rad * std::sin(2 * M_PI / N); c.close(an.CirculationAroundCircle(cen, nrm, rad, N), flux * area, 1e-12 * amp * 20 * (1 + rad) * rad * N, "circulation"); c.ev("circulation"); } }
MON_MAIN()
