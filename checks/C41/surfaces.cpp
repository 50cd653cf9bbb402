// C41: surfaces against Taylor arithmetic on their documented equations
#include "mon.h"
#include <functional>
#include "mml/core/Surfaces.h"
#include "jet.h"
using namespace MML; using namespace MML::Surfaces; typedef std::function<P3(J, J)> Def; typedef VectorN<Real, 3> W3;
static V3 v3(const W3& a) { return {(L)a[0], (L)a[1], (L)a[2]}; }
static void near3(mon::Case& c, V3 g, V3 w, L tol, const char* k) { L e = len(g - w); c.check(e <= tol, k, [&] { return mon::str((double)g.x) + "," + mon::str((double)g.y) + "," + mon::str((double)g.z) + " want " + mon::str((double)w.x) + "," + mon::str((double)w.y) + "," + mon::str((double)w.z) + " tol " + mon::str((double)tol); }); c.maxi(k, (double)(e / tol)); }
static void cl(mon::Case& c, double g, L w, L tol, const char* k) { c.close(g, (double)w, (double)tol, k); if (tol > 0) c.maxi(k, (double)(fabsl(g - w) / tol)); }
struct Geo { V3 r, u, w, uu, uw, ww, n; L E, F, G, l, m, q, s, K, H, k1, k2; };
static Geo geo(const Def& f, L u, L w) { Geo g; P3 a = f(J::var(u), J(w)), b = f(J(u), J::var(w)), d = f(J::var(u), J::var(w)); g.r = a.d(0); g.u = a.d(1); g.w = b.d(1); g.uu = a.d(2); g.ww = b.d(2); g.uw = .5L * (d.d(2) - g.uu - g.ww); g.E = dot(g.u, g.u); g.F = dot(g.u, g.w); g.G = dot(g.w, g.w); V3 x = cross(g.u, g.w); g.s = len(x); g.n = (1 / g.s) * x; g.l = dot(g.uu, g.n); g.m = dot(g.uw, g.n); g.q = dot(g.ww, g.n); L D = g.s * g.s; g.K = (g.l * g.q - g.m * g.m) / D; g.H = (g.E * g.q + g.G * g.l - 2 * g.F * g.m) / (2 * D); L z = g.H * g.H - g.K; if (z < 0) z = 0; z = sqrtl(z); g.k1 = g.H + z; g.k2 = g.H - z; return g; }
// osc: bound on relative growth per derivative order
static bool probe(mon::Case& c, ISurfaceCartesian& s, const Def& f, double u, double w, double osc, double extra = 0) { Geo g = geo(f, u, w); L p = std::max({1.0, std::fabs(u), std::fabs(w)}), M = len(g.r) + extra, R1 = len(g.u) + len(g.w), S = std::max({len(g.uu), len(g.uw), len(g.ww)}); near3(c, v3(s(u, w)), g.r, 2e-15L * (1 + p * osc) * (M + len(g.u) * fabsl(u) + len(g.w) * fabsl(w)), "point");
	L d1 = 3e-8L * p * (S + osc * R1) + 3e-8L * M, d2 = 3e-5L * M + 1e-9L * p * p * osc * osc * (S + R1 * osc); W3 tu, tw; s.Tangents(u, w, tu, tw); near3(c, v3(tu), g.u, d1, "tangent"); near3(c, v3(tw), g.w, d1, "tangent"); c.ev("tangent"); L dn = 2 * R1 * d1 / g.s; if (!(dn < .02L)) { c.ev("nearly_degenerate"); return false; } W3 n = s.Normal(u, w); near3(c, v3(n), g.n, dn, "normal"); c.check(fabsl(len(v3(n)) - 1) < 1e-13L, "unit_normal"); c.check(s.isRegular(u, w), "regular"); c.ev("normal");
	Real E, F, G, l, m, q; s.GetFirstNormalFormCoefficients(u, w, E, F, G); L dE = 3 * R1 * d1; cl(c, E, g.E, dE, "E"); cl(c, F, g.F, dE, "F"); cl(c, G, g.G, dE, "G"); s.GetSecondNormalFormCoefficients(u, w, l, m, q); L dl = d2 + S * dn; cl(c, l, g.l, dl, "L"); cl(c, m, g.m, dl, "M"); cl(c, q, g.q, dl, "N"); c.ev("forms"); L A = fabsl(g.l) + 2 * fabsl(g.m) + fabsl(g.q), D = g.s * g.s; L dD = 2 * R1 * d1 / g.s;
	L dK = (dl * A + dl * dl) / D + fabsl(g.K) * 3 * dD + A * A / D * 1e-14L, dH = (dl * (g.E + 2 * fabsl(g.F) + g.G) + dE * A) / D + fabsl(g.H) * 3 * dD; cl(c, s.GaussianCurvature(u, w), g.K, dK, "gaussian"); cl(c, s.MeanCurvature(u, w), g.H, dH, "mean"); c.ev("curvature"); if (dK < .1L * fabsl(g.K)) c.ev("curvature_resolved");
	Real k1, k2; s.PrincipalCurvatures(u, w, k1, k2); L d = g.H * g.H - g.K, dd = 2 * fabsl(g.H) * dH + dH * dH + dK, dk = dH + (d > 4 * dd ? 2 * dd / sqrtl(d) : 3 * sqrtl(dd)); cl(c, k1, g.k1, dk, "k1"); cl(c, k2, g.k2, dk, "k2"); c.check(k1 >= k2, "k_order"); c.ev("principal");
	W3 a, b; s.PrincipalDirections(u, w, a, b); V3 p1 = v3(a), p2 = v3(b); c.check(fabsl(len(p1) - 1) < 1e-12L && fabsl(len(p2) - 1) < 1e-12L, "direction_unit"); c.check(fabsl(dot(p1, p2)) < 1e-9L + 10 * dn, "direction_orthogonal"); c.check(fabsl(dot(p1, g.n)) < 4 * dn + 1e-9L && fabsl(dot(p2, g.n)) < 4 * dn + 1e-9L, "direction_tangent"); L gap = g.k1 - g.k2; if (gap > 0 && dk + fabsl(g.k1) * dn < .02L * gap) { auto along = [&](V3 v) { L x = dot(v, g.u), y = dot(v, g.w); L al = (g.G * x - g.F * y) / D, be = (g.E * y - g.F * x) / D; return (g.l * al * al + 2 * g.m * al * be + g.q * be * be) / (g.E * al * al + 2 * g.F * al * be + g.G * be * be); }; L td = 3 * dk + gap * 40 * dn + gap * 1e-9L; c.check(fabsl(along(p1) - g.k1) < td, "direction1", [&] { return mon::str((double)along(p1)) + " want " + mon::str((double)g.k1) + " other " + mon::str((double)g.k2); }); c.check(fabsl(along(p2) - g.k2) < td, "direction2"); c.ev("directions"); }
	double th = c.r.pmag(-3, 3) * (double)std::max(fabsl(g.K), 1e-3L); if (fabsl(fabsl(g.K) - th) > 2 * dK) { bool fl = fabsl(g.K) < th; c.check(s.isFlat(u, w, th) == fl, "flat"); c.check(s.isHyperbolic(u, w, th) == (g.K < -th), "hyperbolic"); if (fabsl(fabsl(g.H) - th) > 2 * dH) c.check(s.isParabolic(u, w, th) == (fl && fabsl(g.H) > th), "parabolic"); c.ev("class"); } return true; }
FAMILY(builtin, 6000) { auto& r = c.r; int k = (int)r.i(0, 12); double sc = r.coin(.4) ? 1 : r.pmag(-6, 6), pi = M_PI; c.in("kind", k); c.in("scale", sc); auto at = [&](double a, double b) { double x = r.uni(a, b); return x; }; auto run = [&](ISurfaceCartesian& s, const Def& f, double a0, double a1, double b0, double b1, double osc, double ex = 0) { c.check(s.getMinU() == a0 && s.getMaxU() == a1 && s.getMinW() == b0 && s.getMaxW() == b1, "domain"); double u = at(a0, a1), w = at(b0, b1); if (r.coin(.1)) u = r.pick({a0, a1, (a0 + a1) / 2}); if (r.coin(.1)) w = r.pick({b0, b1, (b0 + b1) / 2}); c.in("u", u); c.in("w", w); probe(c, s, f, u, w, osc, ex); };
	switch (k) { case 0: { double H = sc * r.uni(.2, 4); CylinderSurface s(sc, H); run(s, [=](J u, J w) { return P3{J(sc) * cosj(u), J(sc) * sinj(u), w}; }, 0, 2 * pi, 0, H, 1.1, 1e-2 * std::min(1.0, H)); break; }
	case 1: { double m = sc * r.uni(.05, .95); Torus s(sc, m); run(s, [=](J u, J w) { J q = J(sc) + J(m) * cosj(w); return P3{q * cosj(u), q * sinj(u), J(m) * sinj(w)}; }, 0, 2 * pi, 0, 2 * pi, 1.5); break; }
	case 2: { Sphere s(sc); run(s, [=](J u, J w) { return P3{J(sc) * sinj(u) * cosj(w), J(sc) * sinj(u) * sinj(w), J(sc) * cosj(u)}; }, 0, pi, 0, 2 * pi, 1.1); break; }
	case 3: { MonkeySaddle s; run(s, [=](J u, J w) { return P3{u, w, u * (u * u - J(3) * w * w)}; }, -10, 10, -10, 10, 1, 1); break; }
	case 4: { MobiusStrip s(sc); run(s, [=](J u, J w) { J q = J(1) + w * cosj(u * J(.5)); return P3{J(sc) * q * cosj(u), J(sc) * q * sinj(u), J(sc) * w * sinj(u * J(.5))}; }, 0, 2 * pi, -1, 1, 1.6); break; }
	case 5: { double a = sc * r.uni(.2, 3), b = sc * r.uni(.2, 3); Ellipsoid s(a, b, sc); run(s, [=](J u, J w) { return P3{J(a) * sinj(u) * cosj(w), J(b) * sinj(u) * sinj(w), J(sc) * cosj(u)}; }, 0, pi, 0, 2 * pi, 1.1); break; }
	case 6: { double a = sc * r.uni(.2, 3), b = sc * r.uni(.2, 3); Hyperboloid s(a, b, sc); run(s, [=](J u, J w) { return P3{J(a) * coshj(u) * cosj(w), J(b) * coshj(u) * sinj(w), J(sc) * sinhj(u)}; }, 0, pi, 0, 2 * pi, 1.2); break; }
	case 7: { double h = sc * r.uni(.3, 3); Paraboloid s(sc, h); c.check(s.getMinU() == 0 && s.getMaxU() == 10 && s.getMinW() == 0 && s.getMaxW() == 2 * pi, "domain"); double u = r.uni(.3, 10), w = at(0, 2 * pi); c.in("u", u); c.in("w", w); probe(c, s, [=](J u, J w) { J q = J(sc) * sqrtj(u / J(h)); return P3{q * cosj(w), q * sinj(w), u}; }, u, w, 10); break; }
	case 8: { double p = r.coin(.5) ? sc : r.uni(.2, 4); if (p > 100 || p < .01) p = 1; Helicoid s(p); run(s, [=](J u, J w) { return P3{u * cosj(w), u * sinj(w), J(p) * w}; }, -30, 30, 0, 4 * pi, 1.2, 1); break; }
	case 9: { EnneperSurface s(sc); run(s, [=](J u, J v) { J t(1 / 3.0L); return P3{J(sc) * (u - u * u * u * t + u * v * v), J(sc) * (v - v * v * v * t + v * u * u), J(sc) * (u * u - v * v)}; }, -2, 2, -2, 2, 1.5, .3 * sc); break; }
	case 10: { KleinBottle s(sc); double u = r.uni(0, 2 * pi), w = r.uni(0, 2 * pi); if (std::fabs(u - pi) < 1e-3) u = 1; c.in("u", u); c.in("w", w); bool first = u < pi; c.check(s.getMinU() == 0 && s.getMaxU() == 2 * pi && s.getMinW() == 0 && s.getMaxW() == 2 * pi, "domain"); probe(c, s, [=](J u, J v) { J q = J(4) * (J(1) - J(.5) * cosj(u)); J x = J(6) * cosj(u) * (J(1) + sinj(u)), y = J(16) * sinj(u); if (first) { x = x + q * cosj(u) * cosj(v); y = y + q * sinj(u) * cosj(v); } else x = x - q * cosj(v); return P3{J(sc) * x, J(sc) * y, J(sc) * q * sinj(v)}; }, u, w, 2.2);
		// closed: both seams meet
		double v = r.uni(0, 2 * pi), e = 1e-4; near3(c, v3(s(pi - e, v)), v3(s(pi + e, v)), 60 * e * sc, "klein_seam"); near3(c, v3(s(0, v)), v3(s(2 * pi, pi - v)), 1e-12 * sc, "klein_closed"); near3(c, v3(s(u, 0)), v3(s(u, 2 * pi)), 1e-12 * sc, "klein_tube"); c.ev("klein"); break; }
	case 11: { double b = sc * r.uni(-1, 1); DiniSurface s(sc, b); c.check(s.getMinU() == .01 && s.getMaxU() == 4 * pi && s.getMinW() == .01 && s.getMaxW() == 2, "domain"); double u = r.uni(.01, 4 * pi), w = r.uni(.2, 2); c.in("u", u); c.in("w", w); probe(c, s, [=](J u, J v) { J h = v * J(.5); return P3{J(sc) * cosj(u) * sinj(v), J(sc) * sinj(u) * sinj(v), J(sc) * (cosj(v) + logj(sinj(h) / cosj(h))) + J(b) * u}; }, u, w, 6 / w); double K = -1 / (sc * sc + b * b); if (std::fabs(w - pi / 2) > .2 && w > .4) { c.close(s.GaussianCurvature(u, w), K, .05 * std::fabs(K), "dini_constant"); c.ev("dini"); } break; }
	default: { // planes in every construction, and surfaces supplied by the user
		Vec3Cart n(r.normal(), r.normal(), r.normal()); if (r.coin(.4)) n = r.pick({Vec3Cart(1, 0, 0), Vec3Cart(-1, 0, 0), Vec3Cart(0, -2, 0), Vec3Cart(0, 0, 3), Vec3Cart(0, 1, 0)}); Vec3Cart p(r.normal() * sc, r.normal() * sc, r.normal() * sc), t(r.normal(), r.normal(), r.normal()); V3 N{n.X(), n.Y(), n.Z()}; N = (1 / len(N)) * N; auto test = [&](PlaneSurface& s, V3 A, V3 B, bool unit) { double u = r.normal() * sc, w = r.normal() * sc; L M = len({p.X(), p.Y(), p.Z()}) + fabsl(u) + fabsl(w); V3 o{p.X(), p.Y(), p.Z()}; near3(c, v3(s(0, 0)), o, 0, "plane_origin"); V3 a = v3(s(1, 0)) - o, b = v3(s(0, 1)) - o; L e = 4e-16L * (M + 1) * 80; c.check(fabsl(dot(a, N)) < e && fabsl(dot(b, N)) < e, "plane_axes_in_plane"); if (unit) c.check(fabsl(len(a) - 1) < e && fabsl(len(b) - 1) < e && fabsl(dot(a, b)) < e, "plane_axes_orthonormal"), c.check(fabsl(dot(cross(a, b), N)) > 1 - 4 * e, "plane_axes_normal"); else near3(c, a, A, e, "plane_u_axis"), near3(c, b, B, e, "plane_v_axis"); near3(c, v3(s(u, w)), o + (L)u * a + (L)w * b, e * (1 + M) * 4, "plane_point"); c.ev("plane"); };
		PlaneSurface a(p, n); test(a, {}, {}, true); if (len(cross(N, {t.X(), t.Y(), t.Z()})) > .05) { PlaneSurface b(p, n, t); test(b, {}, {}, true); V3 o{p.X(), p.Y(), p.Z()}, T{t.X(), t.Y(), t.Z()}; V3 pr = T - dot(T, N) * N; near3(c, v3(b(1, 0)) - o, (1 / len(pr)) * pr, 1e-13L * (1 + len(o)), "plane_direction"); c.throws<GeometryError>([&] { PlaneSurface z(p, n, n * r.pick({1., -2., .5})); }, "plane_parallel"); }
		V3 A = cross(N, {.3, .5, -.8}), B = cross(N, A); W3 wa{(Real)A.x, (Real)A.y, (Real)A.z}, wb{(Real)B.x, (Real)B.y, (Real)B.z}; if (len(A) > .1) { Vec3Cart ca(wa[0], wa[1], wa[2]), cb(wb[0], wb[1], wb[2]); bool ok = true; try { PlaneSurface q(p, n, ca, cb, -1, 2, -3, 4); test(q, A, B, false); c.check(q.getMinU() == -1 && q.getMaxU() == 2 && q.getMinW() == -3 && q.getMaxW() == 4, "plane_limits"); } catch (const GeometryError&) { ok = false; } c.check(ok, "plane_explicit"); c.throws<GeometryError>([&] { PlaneSurface q(p, n, ca, n); }, "plane_not_orthogonal"); } if (sc > 1e-3 && sc < 100) { double u = r.normal(), w = r.normal(); c.close(a.GaussianCurvature(u, w), 0, 1e-4 * (1 + sc) * (1 + sc) , "plane_flat"); c.close(a.MeanCurvature(u, w), 0, 1e-3 * (1 + sc), "plane_flat"); V3 nn = v3(a.Normal(u, w)); c.check(fabsl(fabsl(dot(nn, N)) - 1) < 1e-6 * (1 + sc), "plane_normal"); } } } }
// a user's surface, moved rigidly and enlarged: curvatures are invariant, and scale as 1/s and 1/s^2
struct US : ISurfaceCartesian { std::function<W3(Real, Real)> f; Real getMinU() const { return -5; } Real getMaxU() const { return 5; } Real getMinW() const { return -5; } Real getMaxW() const { return 5; } W3 operator()(Real u, Real w) const { return f(u, w); } };
FAMILY(user, 2500) { auto& r = c.r; double a = r.normal(), b = r.normal(), d = r.normal(), e = r.uni(-1, 1), sc = r.coin(.3) ? 1 : r.pmag(-6, 6), u = r.uni(-2, 2), w = r.uni(-2, 2), sx = r.coin(.5) ? 1 : r.pmag(-2, 2); c.in("abd", std::vector<double>{a, b, d, e, sc, sx}); c.in("u", u); c.in("w", w); US s; double cp = std::cos(e * 3), sp = std::sin(e * 3); s.f = [=](Real u, Real w) { double x = u, y = w + e * u, z = a * std::sin(u) + b * u * w + d * std::cos(w); return W3{sc * (x * cp - z * sp), sc * y * sx, sc * (x * sp + z * cp)}; }; Def f = [=](J u, J w) { J x = u, y = w + J(e) * u, z = J(a) * sinj(u) + J(b) * u * w + J(d) * cosj(w); return P3{J(sc) * (x * J(cp) - z * J(sp)), J(sc * sx) * y, J(sc) * (x * J(sp) + z * J(cp))}; }; if (probe(c, s, f, u, w, 1.3, sc * (3 + std::fabs(a) + std::fabs(d)))) c.ev("user"); }
// where the parametrisation breaks down nothing is invented
FAMILY(degenerate, 600) { auto& r = c.r; int k = (int)r.i(0, 4); double sc = r.coin(.4) ? 1 : r.pmag(-6, 6), w = r.uni(0, 6); c.in("kind", k); c.in("scale", sc); c.in("w", w); US s; double u = 0; switch (k) { case 0: s.f = [=](Real a, Real b) { Sphere q(sc); return q(a, b); }; break; case 1: s.f = [=](Real a, Real b) { return W3{sc * a * std::cos(b), sc * a * std::sin(b), sc * a}; }; break; case 2: s.f = [=](Real a, Real b) { return W3{sc * (a + b), 2 * sc * (a + b), 3 * sc * (a + b)}; }; u = r.uni(-1, 1); break; case 3: s.f = [=](Real a, Real) { return W3{sc * a, sc * a * a, 0}; }; u = r.uni(-1, 1); break; default: s.f = [=](Real, Real) { return W3{sc, 2 * sc, 3 * sc}; }; u = r.uni(-1, 1); }
	if (k == 2) { c.ev("dependent_tangents"); Real K = s.GaussianCurvature(u, w); (void)K; auto n = s.Normal(u, w); c.check(len(v3(n)) < 1 + 1e-9L || std::isnan((double)len(v3(n))) == false, "finite"); return; } W3 n = s.Normal(u, w); c.check(len(v3(n)) == 0, "no_normal"); c.check(!s.isRegular(u, w), "singular"); Real l, m, q, k1, k2; s.GetSecondNormalFormCoefficients(u, w, l, m, q); c.check(l == 0 && m == 0 && q == 0, "no_second_form"); c.check(s.GaussianCurvature(u, w) == 0 && s.MeanCurvature(u, w) == 0, "no_curvature"); s.PrincipalCurvatures(u, w, k1, k2); c.check(k1 == 0 && k2 == 0, "no_principal"); W3 a, b; s.PrincipalDirections(u, w, a, b); c.check(len(v3(a)) == 0 && len(v3(b)) == 0, "no_directions"); c.ev("degenerate"); }
MON_MAIN()
