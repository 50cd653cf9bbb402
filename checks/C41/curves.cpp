// C41: curves against Taylor arithmetic on their documented equations
#include "mon.h"
#include <functional>
#include "mml/core/Curves.h"
#include "jet.h"
using namespace MML; using namespace MML::Curves; typedef std::function<P3(J)> Def;
static const L PI = acosl(-1.0L);
template<class A> static V3 v3(const A& a) { return {(L)a[0], (L)a[1], (L)a[2]}; }
// sizes governing finite-difference error: h^4 * fifth derivative and rounding |r|/h^k
struct Tol { double d1, d2, d3; };
static Tol tolOf(const Def& f, L t, double osc, double ex = 0) { double h = 1.2e-3 * std::max(1.0, (double)fabsl(t)); L S = 0, M = ex; for (int i = -4; i <= 4; i++) { P3 p = f(J::var(t + i * h)); V3 a = p.d(0), b = p.d(1), c = p.d(2), e = p.d(3); S = std::max(S, std::max(len(b), std::max(len(c), len(e)))); M = std::max(M, len(a)); } double tr = std::pow(h * osc, 4) * (double)S * osc * osc; return {16 * tr + 1e-15 * (double)M / h * 3, 16 * tr * osc + 1e-15 * (double)M / (h * h) * 8, 16 * tr * osc * osc + 1e-15 * (double)M / (h * h * h) * 20}; }
static void near3(mon::Case& c, V3 g, V3 w, L tol, const char* k) { L e = len(g - w); c.check(e <= tol, k, [&] { return mon::str((double)g.x) + "," + mon::str((double)g.y) + "," + mon::str((double)g.z) + " want " + mon::str((double)w.x) + "," + mon::str((double)w.y) + "," + mon::str((double)w.z) + " tol " + mon::str((double)tol); }); c.maxi(k, (double)(e / tol)); }
// full Frenet apparatus of a space curve
static void frenet(mon::Case& c, ICurveCartesian3D& cv, const Def& f, double t, double osc) { P3 p = f(J::var(t)); V3 r0 = p.d(0), r1 = p.d(1), r2 = p.d(2), r3 = p.d(3); near3(c, v3(cv(t)), r0, 1e-14L * (1 + fabsl(t) * osc) * (len(r0) + len(r1)), "point"); Tol T = tolOf(f, t, osc); L s = len(r1); near3(c, v3(cv.getTangent(t)), r1, T.d1, "tangent"); near3(c, v3(cv.getSecondDerivative(t)), r2, T.d2, "second_derivative"); if (T.d1 > .01L * s) { c.ev("slow_point"); return; } near3(c, v3(cv.getTangentUnit(t)), (1 / s) * r1, 2 * T.d1 / s + 1e-14L, "unit_tangent"); c.ev("tangent");
	V3 x = cross(r1, r2); L k = len(x) / (s * s * s); L tk = (T.d1 * len(r2) + s * T.d2) / (s * s * s) * 6 + 12 * k * T.d1 / s; c.close(cv.getCurvature(t), (double)k, (double)tk + 1e-13 * (double)k, "curvature"); c.ev("curvature"); if (tk > .05L * k) { c.ev("nearly_straight"); return; } L rel = tk / k + 1e-13L; c.close(cv.getRadiusOfCurvature(t), (double)(1 / k), (double)(3 * rel / k), "radius"); V3 Tn = (1 / s) * r1, B = (1 / len(x)) * x, N = cross(B, Tn); L ta = 4 * (rel + T.d1 / s); near3(c, v3(cv.getNormal(t)), N, ta, "normal"); near3(c, v3(cv.getBinormal(t)), B, ta, "binormal"); near3(c, v3(cv.getCurvatureVector(t)), k * N, 2 * k * ta, "curvature_vector"); c.ev("frame");
	L tau = dot(x, r3) / dot(x, x), tt = (T.d3 + len(r3) * rel * 2) / len(x) * 2 + 4 * fabsl(tau) * rel; c.close(cv.getTorsion(t), (double)tau, (double)tt + 1e-13 * (double)fabsl(tau), "torsion"); c.ev("torsion");
	Vector3Cartesian a, b, d; cv.getMovingTrihedron(t, a, b, d); near3(c, {a.X(), a.Y(), a.Z()}, Tn, ta, "trihedron"); near3(c, {b.X(), b.Y(), b.Z()}, N, ta, "trihedron"); near3(c, {d.X(), d.Y(), d.Z()}, B, ta, "trihedron"); auto plane = [&](const Plane3D& q, V3 n, const char* key) { Vector3Cartesian m = q.Normal(); near3(c, {m.X(), m.Y(), m.Z()}, n, ta + 1e-13L, key); double dist = q.DistToPoint(Point3Cartesian((double)r0.x, (double)r0.y, (double)r0.z)); c.check(std::fabs(dist) <= 1e-12 * (1 + (double)len(r0) + std::fabs(t)), key, [&] { return mon::str(dist); }); }; plane(cv.getOsculationPlane(t), B, "osculating_plane"); plane(cv.getNormalPlane(t), Tn, "normal_plane"); plane(cv.getRectifyingPlane(t), N, "rectifying_plane"); c.ev("planes"); }
static void planar(mon::Case& c, ICurveCartesian2D& cv, const Def& f, double t, double osc, double ex = 0) { P3 p = f(J::var(t)); V3 r0 = p.d(0), r1 = p.d(1), r2 = p.d(2); auto v2 = [](const auto& a) { return V3{(L)a[0], (L)a[1], 0}; }; near3(c, v2(cv(t)), r0, 1e-14L * (1 + fabsl(t) * osc) * (len(r0) + len(r1) + ex), "point"); Tol T = tolOf(f, t, osc, ex); L s = len(r1); near3(c, v2(cv.getTangent(t)), r1, T.d1, "tangent"); near3(c, v2(cv.getNormal(t)), r2, T.d2, "second_derivative"); if (T.d1 > .01L * s) { c.ev("slow_point"); return; } near3(c, v2(cv.getTangentUnit(t)), (1 / s) * r1, 2 * T.d1 / s + 1e-14L, "unit_tangent"); L z = r1.x * r2.y - r1.y * r2.x, k = z / (s * s * s), tk = (T.d1 * len(r2) + s * T.d2) / (s * s * s) * 6 + 12 * fabsl(k) * T.d1 / s + 1e-13L * fabsl(k); c.close(cv.getSignedCurvature(t), (double)k, (double)tk, "signed_curvature"); c.close(cv.getCurvature(t), (double)fabsl(k), (double)tk, "curvature"); c.close(getCurvature2D(cv, t), (double)fabsl(k), (double)tk, "curvature"); c.ev("planar"); if (tk > .05L * fabsl(k)) { c.ev("nearly_straight"); return; } c.close(cv.getRadiusOfCurvature(t), (double)(1 / fabsl(k)), (double)(3 * tk / (k * k)), "radius"); V3 N = k > 0 ? V3{-r1.y / s, r1.x / s, 0} : V3{r1.y / s, -r1.x / s, 0}; near3(c, v2(cv.getNormalUnit(t)), N, 4 * T.d1 / s + 1e-13L, "unit_normal"); c.ev("unit_normal"); }
FAMILY(plane_curves, 4000) { auto& r = c.r; int k = (int)r.i(0, 7); double t = r.uni(-7, 7); if (r.coin(.05)) t = r.pick({0., M_PI / 2, M_PI, -M_PI / 2}); c.in("kind", k); c.in("t", t); double sc = r.coin(.3) ? 1 : r.pmag(-7, 7); c.in("scale", sc); J Z(0);
	switch (k) { case 0: { double x = r.normal() * sc, y = r.normal() * sc; if (r.coin(.2)) x *= 100; Circle2DCurve q(sc, Pnt2Cart(x, y)); planar(c, q, [=](J t) { return P3{J(x) + J(sc) * cosj(t), J(y) + J(sc) * sinj(t), J()}; }, t, 1.2); c.check(q.getMinT() == 0 && std::fabs(q.getMaxT() - 2 * M_PI) < 1e-15, "domain"); break; }
	case 1: { double la = -r.uni(.05, 2), cc = r.coin(.3) ? -sc : sc; c.in("lambda", la); LogSpiralCurve q(la, cc); planar(c, q, [=](J t) { J e = J(cc) * expj(J(la) * t); return P3{e * cosj(t), e * sinj(t), J()}; }, t, 2.5); c.throws<std::invalid_argument>([&] { LogSpiralCurve z(r.pick({0., .3})); }, "lambda"); c.throws<std::invalid_argument>([&] { LogSpiralCurve z(-1, 0); }, "c"); break; }
	case 2: { LemniscateCurve q; planar(c, q, [](J t) { J s = sinj(t), w = inv(J(1) + s * s); return P3{cosj(t) * w, s * cosj(t) * w, J()}; }, t, 5); break; }
	case 3: { int n = (int)r.i(1, 9); DeltoidCurve q(n); planar(c, q, [=](J t) { return P3{J(2 * n) * cosj(t) * (J(1) + cosj(t)), J(2 * n) * sinj(t) * (J(1) - cosj(t)), J()}; }, t, 2.5); break; }
	case 4: { AstroidCurve q(sc); planar(c, q, [=](J t) { J a = cosj(t), b = sinj(t); return P3{J(sc) * a * a * a, J(sc) * b * b * b, J()}; }, t, 4); c.throws<std::invalid_argument>([&] { AstroidCurve z(r.pick({0., -1.})); }, "c"); break; }
	case 5: { int n = (int)r.i(1, 6); double cc = r.uni(-2, 2); EpitrochoidCurve q(1, cc, n); planar(c, q, [=](J t) { return P3{cosj(t) - J(cc) * cosj(J(n) * t), sinj(t) - J(cc) * sinj(J(n) * t), J()}; }, t, n + .5, 4); break; }
	case 6: { ArchimedeanSpiralCurve q(sc); planar(c, q, [=](J t) { return P3{J(sc) * t * cosj(t), J(sc) * t * sinj(t), J()}; }, t, 1.8); break; }
	default: { ButterflyCurve q(sc); double u = r.uni(0, 12 * M_PI); planar(c, q, [=](J t) { J s = sinj(t * J(1 / 12.0L)), s5 = s * s * s * s * s, rr = expj(cosj(t)) - J(2) * cosj(J(4) * t) - s5; return P3{J(sc) * sinj(t) * rr, J(sc) * cosj(t) * rr, J()}; }, u, 6, 4 * sc); } } }
struct Sp : ICurveCartesian3D { std::function<VectorN<Real, 3>(Real)> f; Real a = -1e9, b = 1e9; Real getMinT() const { return a; } Real getMaxT() const { return b; } VectorN<Real, 3> operator()(Real t) const { return f(t); } };
static VectorN<Real, 3> plain(Real t) { return VectorN<Real, 3>{std::sin(t), t * t, std::exp(-t)}; }
FAMILY(space_curves, 4000) { auto& r = c.r; int k = (int)r.i(0, 9); double t = r.uni(-7, 7), sc = r.coin(.3) ? 1 : r.pmag(-6, 6); c.in("kind", k); c.in("t", t); c.in("scale", sc); double x = r.normal() * sc, y = r.normal() * sc, z = r.normal() * sc; switch (k) { case 0: { Circle3DXYCurve q(sc, Pnt3Cart(x, y, z)); frenet(c, q, [=](J t) { return P3{J(x) + J(sc) * cosj(t), J(y) + J(sc) * sinj(t), J(z)}; }, t, 1.2); break; } case 1: { Circle3DXZCurve q(sc, Pnt3Cart(x, y, z)); frenet(c, q, [=](J t) { return P3{J(x) + J(sc) * cosj(t), J(y), J(z) + J(sc) * sinj(t)}; }, t, 1.2); break; } case 2: { Circle3DYZCurve q(sc, Pnt3Cart(x, y, z)); frenet(c, q, [=](J t) { return P3{J(x), J(y) + J(sc) * cosj(t), J(z) + J(sc) * sinj(t)}; }, t, 1.2); break; }
	case 3: { double b = sc * r.logmag(-1, 1); HelixCurve q(sc, b); frenet(c, q, [=](J t) { return P3{J(sc) * cosj(t), J(sc) * sinj(t), J(b) * t}; }, t, 1.2); break; } case 4: { TwistedCubicCurve q; t = r.uni(-3, 3); frenet(c, q, [](J t) { return P3{t, t * t, t * t * t}; }, t, 1); break; } case 5: { int n = (int)r.i(1, 5); ToroidalSpiralCurve q(n, sc); t = r.uni(-4, 4); frenet(c, q, [=](J t) { J a = J(sc) * (J(4) + sinj(J(n) * t)); return P3{a * cosj(t), a * sinj(t), J(sc) * cosj(J(n) * t)}; }, t, n + 1.2); break; }
	case 6: { CurveCartesian3D q(-3, 3, plain); c.check(q.getMinT() == -3 && q.getMaxT() == 3, "domain"); t = r.uni(-3, 3); frenet(c, q, [](J t) { return P3{sinj(t), t * t, expj(J(0) - t)}; }, t, 1.2); break; }
	case 7: { // tilted circle: any orthonormal frame of its plane will do
		Vec3Cart n(r.normal(), r.normal(), r.normal()); if (r.coin(.2)) n = Vec3Cart(0, 0, r.pick({1., -1., 1e-8})); if (r.coin(.1)) n = Vec3Cart(1e-9, 0, 1); Circle3DCurve q(sc, n, Pnt3Cart(x, y, z)); V3 C{x, y, z}, N{n.X(), n.Y(), n.Z()}; N = (1 / len(N)) * N; V3 a = v3(q(0.0)) - C, b = v3(q(M_PI / 2)) - C, p = v3(q(t)) - C; L e = 1e-14L * (sc + fabsl(x) + fabsl(y) + fabsl(z)) * 4; c.check(fabsl(len(a) - sc) <= e && fabsl(len(p) - sc) <= e && fabsl(dot(p, N)) <= e + 1e-10L * sc * 0, "circle"); near3(c, p, cosl(t) * a + sinl(t) * b, 4 * e, "circle_motion"); c.check(fabsl(dot(a, b)) <= 4 * e * sc, "circle_frame"); c.throws<std::invalid_argument>([&] { Circle3DCurve w(1, Vec3Cart(0, 0, 0), Pnt3Cart(0, 0, 0)); }, "zero_normal"); c.ev("tilted_circle"); break; }
	case 8: { double t1 = r.uni(-5, 5), t2 = t1 + r.pick({1., .1, 3., -2.}); Pnt3Cart p(x, y, z), w(x + r.normal() * sc, y + r.normal() * sc, z + r.normal() * sc); LineCurve q(t1, p, t2, w); V3 A{p.X(), p.Y(), p.Z()}, B{w.X(), w.Y(), w.Z()}; L e = 1e-13L * (len(A) + len(B)) * (1 + fabsl(t1)) / std::min(1.0, std::fabs(t2 - t1)); near3(c, v3(q(t1)), A, e, "line_start"); near3(c, v3(q(t2)), B, e, "line_end"); double u = r.uni(-1, 2); near3(c, v3(q(t1 + u * (t2 - t1))), A + u * (B - A), 3 * e, "line_point"); c.check(q.getMinT() == t1 && q.getMaxT() == t2, "domain"); near3(c, v3(q.getTangentUnit(t1)), (t2 > t1 ? 1 : -1) / len(B - A) * (B - A), 1e-8L + 1e-9L * (len(A) + len(B)) / len(B - A), "line_tangent"); double k = q.getCurvature(t1); L sp = len(B - A) / fabsl((L)t2 - t1); c.check(k <= 1e-6 * (double)((len(A) + len(B)) / (sp * sp)) , "line_curvature", [&] { return mon::str(k); }); c.ev("line"); break; }
	default: { // the same curve carried by a rigid motion and a change of speed keeps its curvature and torsion
		double b = r.uni(.2, 2), w = r.uni(.3, 2); HelixCurve h(1, b); Sp q; double ph = r.uni(0, 6); q.f = [=](Real s) { double u = w * s + .1 * w * s * s; double X = std::cos(u), Y = std::sin(u), Zz = b * u; return VectorN<Real, 3>{X * std::cos(ph) - Zz * std::sin(ph) + 1, Y - 2, X * std::sin(ph) + Zz * std::cos(ph)}; }; double s = r.uni(-2, 3); double k = 1 / (1 + b * b), ta = b / (1 + b * b); c.close(q.getCurvature(s), k, 1e-5, "invariant_curvature"); c.close(q.getTorsion(s), ta, 1e-3, "invariant_torsion"); c.close(h.getCurvature(s), k, 1e-14, "helix_curvature"); c.close(h.getTorsion(s), ta, 1e-14, "helix_torsion"); c.ev("invariance"); } } }
// polar curves: documented (r, theta) form
struct Po : ICurvePolar2D { std::function<VectorN<Real, 2>(Real)> f; Real getMinT() const { return -10; } Real getMaxT() const { return 10; } VectorN<Real, 2> operator()(Real t) const { return f(t); } };
FAMILY(polar, 1500) { auto& r = c.r; double a = r.uni(.5, 3), b = r.uni(-.4, .4), w = r.coin(.5) ? 1 : r.uni(.3, 2), sc = r.coin(.5) ? 1 : r.pmag(-6, 6), t = r.uni(-3, 3); int n = (int)r.i(1, 4); c.in("a", a); c.in("b", b); c.in("w", w); c.in("scale", sc); c.in("t", t); Po q; q.f = [=](Real s) { return VectorN<Real, 2>{sc * a * (1 + b * std::cos(n * s)), w * s + .1 * s * s}; }; Def f = [=](J s) { J R = J(sc * a) * (J(1) + J(b) * cosj(J(n) * s)), th = J(w) * s + J(.1) * s * s; return P3{R * cosj(th), R * sinj(th), J()}; }; P3 p = f(J::var(t)); V3 r0 = p.d(0), r1 = p.d(1), r2 = p.d(2); L s = len(r1), k = fabsl(r1.x * r2.y - r1.y * r2.x) / (s * s * s); auto x = q.toCartesian(t); near3(c, {x[0], x[1], 0}, r0, 1e-13L * sc * 10, "point"); auto tg = q.getTangent(t); near3(c, {tg[0], tg[1], 0}, r1, 1e-7L * sc, "tangent"); if (s < .05 * sc) { c.trivial(); return; } auto tu = q.getTangentUnit(t), nu = q.getNormalUnit(t), nn = q.getNormal(t); near3(c, {tu[0], tu[1], 0}, (1 / s) * r1, 1e-7L * sc / s + 1e-13L, "unit_tangent"); near3(c, {nu[0], nu[1], 0}, (1 / s) * V3{-r1.y, r1.x, 0}, 1e-7L * sc / s + 1e-13L, "unit_normal"); near3(c, {nn[0], nn[1], 0}, V3{-r1.y, r1.x, 0}, 1e-7L * sc, "normal"); double tk = 1e-4 * (double)(k + sc * sc * 10 / (s * s * s)); c.close(q.getCurvature(t), (double)k, tk, "curvature"); if (k * s > .1 * s / sc) c.close(q.getRadiusOfCurvature(t) * (double)k, 1, 3 * tk / (double)k, "radius"); c.ev("polar");
	double R = sc; Pnt2Cart ctr(3 * R, r.uni(-1, 1) * R); Circle2DCurvePolar g(R, ctr); auto gc = g.toCartesian(t); near3(c, {gc[0], gc[1], 0}, {ctr.X() + R * cosl(t), ctr.Y() + R * sinl(t), 0}, 1e-13L * R * 10, "polar_circle"); c.close(g.getCurvature(t) * R, 1, 1e-4, "polar_circle_curvature"); c.ev("polar_circle"); }
// arc-length test and length of a unit-speed curve
FAMILY(arc_length, 40) { auto& r = c.r; double a = r.uni(.3, 2), b = r.uni(-2, 2), s = std::sqrt(a * a + b * b), v = r.coin(.5) ? 1 : r.pick({1.001, .5, 2.}); c.in("a", a); c.in("b", b); c.in("speed", v); Sp q; q.f = [=](Real t) { double u = v * t / s; return VectorN<Real, 3>{a * std::cos(u), a * std::sin(u), b * u}; }; double t1 = r.uni(-2, 2), t2 = t1 + r.uni(.5, 2); c.check(q.isArcLengthParametrized(t1, t2, (int)r.i(2, 12)) == (v == 1), "arc_length_parametrized"); c.close(PathIntegration::ParametricCurveLength(q, t1, t2), v * (t2 - t1), 1e-6, "length"); c.ev("arc_length"); }
MON_MAIN()
