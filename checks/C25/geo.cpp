// C25: computational geometry against exact integer predicates
#include "mon.h"
#include "mml/algorithms/ComputationalGeometry.h"
#include <set>
#include <map>
#include <array>
using namespace MML; using namespace MML::CompGeometry;
typedef long long I; typedef __int128 W; typedef long double L; struct P { I x, y; bool operator<(const P& o) const { return x < o.x || (x == o.x && y < o.y); } bool operator==(const P& o) const { return x == o.x && y == o.y; } }; typedef std::vector<P> VP;
static int sg(W w) { return w > 0 ? 1 : w < 0 ? -1 : 0; }
static W cr(P o, P a, P b) { return (W)(a.x - o.x) * (b.y - o.y) - (W)(a.y - o.y) * (b.x - o.x); }
static I d2(P a, P b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
// power-of-two scaling keeps the integer geometry exact
static thread_local double SC = 1; static Point2Cartesian Q(P p) { return Point2Cartesian(p.x * SC, p.y * SC); } static P B(const Point2Cartesian& p) { return P{(I)llround(p.X() / SC), (I)llround(p.Y() / SC)}; } static bool onGrid(const Point2Cartesian& p) { P b = B(p); return b.x * SC == p.X() && b.y * SC == p.Y(); }
static std::vector<Point2Cartesian> QV(const VP& v) { std::vector<Point2Cartesian> o; for (auto& p : v) o.push_back(Q(p)); return o; }
static void scale(mon::Case& c) { SC = c.r.pick({1., 1., 1., .25, 8., 64.}); c.in("scale", SC); }
static void show(mon::Case& c, const char* n, const VP& v) { std::vector<double> f; for (auto& p : v) { f.push_back(p.x); f.push_back(p.y); } c.in(n, f); }
static VP cloud(mon::Case& c, int n, int kindIn = -1) { auto& r = c.r; int k = kindIn >= 0 ? kindIn : (int)r.i(0, 7); I R = r.pick({2, 4, 10, 50, 400}); VP v; for (int i = 0; i < n; i++) { P p{r.i(-R, R), r.i(-R, R)}; if (k == 1) p.y = 0 * p.x + 3; if (k == 2) { p.y = 2 * p.x - 1; } if (k == 3 && i && r.coin(.4)) p = v[r.i(0, i - 1)]; if (k == 4) { static const I cx[12] = {5, 4, 3, 0, -3, -4, -5, -4, -3, 0, 3, 4}, cy[12] = {0, 3, 4, 5, 4, 3, 0, -3, -4, -5, -4, -3}; int q = (int)r.i(0, 11); p = {cx[q], cy[q]}; } if (k == 5) { p = {r.i(0, 5), r.i(0, 5)}; } if (k == 6) { p.x += 10000; p.y -= 20000; } if (k == 7) { p.x = r.i(-300, 300); p.y = r.i(0, 2); } v.push_back(p); } show(c, "points", v); c.in("kind", k); return v; }
static VP hull(VP v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() < 3) return v; VP h; for (int pass = 0; pass < 2; pass++) { size_t s = h.size(); for (auto& p : v) { while (h.size() >= s + 2 && cr(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(v.begin(), v.end()); } return h; }
static W area2(const VP& v) { W a = 0; for (size_t i = 0; i < v.size(); i++) { auto &p = v[i], &q = v[(i + 1) % v.size()]; a += (W)p.x * q.y - (W)p.y * q.x; } return a; }
#if PART == 1
FAMILY(hull2d, 900) { auto& r = c.r; int n = r.coin(.2) ? (int)r.i(0, 4) : (int)r.sz(3, 80, 400); scale(c); VP v = cloud(c, n), h = hull(v); Polygon2D g = ConvexHull2D::Compute(QV(v)); if (n < 3) { c.check(g.NumVertices() == n, "hull_few"); return; } VP w; std::set<P> in(v.begin(), v.end()); for (int i = 0; i < g.NumVertices(); i++) { c.check(onGrid(g[i]) && in.count(B(g[i])), "hull_vertex_not_input"); w.push_back(B(g[i])); } auto rot = std::min_element(w.begin(), w.end()); if (!w.empty()) std::rotate(w.begin(), rot, w.end()); auto r2 = std::min_element(h.begin(), h.end()); std::rotate(h.begin(), r2, h.end()); c.check(w == h, "hull", [&] { return "got " + std::to_string(w.size()) + " vertices, want " + std::to_string(h.size()); }); c.ev(h.size() > 2 ? "hull" : "hull_degenerate"); if (h.size() > 2) { c.check(g.IsConvex() && g.IsCounterClockwise(), "hull_convex_ccw"); c.check(std::fabs(g.Area() - (double)area2(h) / 2 * SC * SC) <= 1e-9 * g.Area(), "hull_area"); Polygon2D again = ConvexHull2D::Compute(g); c.check(again.NumVertices() == g.NumVertices(), "hull_idempotent"); } }
FAMILY(circle, 700) { auto& r = c.r; int n = r.coin(.3) ? (int)r.i(1, 4) : (int)r.sz(2, 60, 300); scale(c); VP v = cloud(c, n), h = hull(v); Circle2D g = Circles::MinimumEnclosingCircle(QV(v)); double sz = 1; for (auto& p : v) sz = std::max({sz, std::fabs((double)p.x), std::fabs((double)p.y)}); sz *= SC; L best = 1e300L; auto cover = [&](L x, L y) { L m = 0; for (auto& p : h) m = std::max(m, hypotl(p.x - x, p.y - y)); return m; }; if (h.size() == 1) best = 0; for (size_t i = 0; i < h.size(); i++) for (size_t j = i + 1; j < h.size(); j++) { best = std::min(best, cover((h[i].x + h[j].x) / 2.0L, (h[i].y + h[j].y) / 2.0L)); for (size_t k = j + 1; k < h.size(); k++) { L ax = h[j].x - h[i].x, ay = h[j].y - h[i].y, bx = h[k].x - h[i].x, by = h[k].y - h[i].y, d = 2 * (ax * by - ay * bx); if (d == 0) continue; L A = ax * ax + ay * ay, Bq = bx * bx + by * by; best = std::min(best, cover(h[i].x + (by * A - ay * Bq) / d, h[i].y + (ax * Bq - bx * A) / d)); } } double tol = 1e-9 * sz + 1e-9; for (auto& p : v) c.check(Q(p).Dist(g.Center()) <= g.Radius() + tol, "circle_covers"); c.check(std::fabs(g.Radius() - (double)best * SC) <= tol, "circle_minimal", [&] { return std::to_string(g.Radius()) + " want " + std::to_string((double)best * SC); }); c.ev("circle"); auto cp = Circles::ClosestPair(QV(v)); if (n >= 2) { I m = -1; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { I d = d2(v[i], v[j]); if (m < 0 || d < m) m = d; } c.check(std::fabs(cp.distance - std::sqrt((double)m) * SC) <= 1e-12 * sz, "closest_pair"); std::multiset<P> s(v.begin(), v.end()); P a = B(cp.p1), b = B(cp.p2); c.check(s.count(a) && s.count(b) && d2(a, b) == m && (!(a == b) || s.count(a) > 1), "closest_pair_points"); c.ev(m ? "closest" : "duplicates"); } c.check(Circles::MinimumEnclosingCircle(std::vector<Point2Cartesian>{}).Radius() == 0, "circle_empty"); }
// closest pair with many points: strips and vertical lines
FAMILY(closest, 200) { auto& r = c.r; int n = (int)r.i(50, 600); SC = 1; I R = r.pick({30, 1000, 100000}); bool vert = r.coin(.3); VP v; for (int i = 0; i < n; i++) v.push_back({vert ? r.i(0, 2) : r.i(0, R), r.i(0, R)}); I m = -1; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { I d = d2(v[i], v[j]); if (m < 0 || d < m) m = d; } auto cp = Circles::ClosestPair(QV(v)); c.in("n", n); c.in("range", (double)R); c.check(std::fabs(cp.distance - std::sqrt((double)m)) <= 1e-9, "closest_pair_many"); c.ev("closest_many"); }
// a hundred thousand points and more
FAMILY(many_points, 8) { auto& r = c.r; SC = 1; int n = r.pick({30000, 120000, 300000}); c.in("n", n); static const I px[12] = {5, 4, 3, 0, -3, -4, -5, -4, -3, 0, 3, 4}, py[12] = {0, 3, 4, 5, 4, 3, 0, -3, -4, -5, -4, -3}; I K = r.i(10, 300), ox = r.i(-50, 50); int k = (int)r.i(0, 2); c.in("kind", k); VP v; for (int q = 0; q < 12; q += 3) v.push_back({px[q] * K + ox, py[q] * K}); while ((int)v.size() < n) { P p{r.i(-5 * K, 5 * K), r.i(-5 * K, 5 * K)}; if (k == 1) { int q = (int)r.i(0, 11); p = {px[q] * K, py[q] * K}; } if (k == 2) p = {r.i(-3, 3), 0}; if (p.x * p.x + p.y * p.y <= 25 * K * K) v.push_back({p.x + ox, p.y}); } r.shuffle(v);
	Circle2D g = Circles::MinimumEnclosingCircle(QV(v)); c.check(std::fabs(g.Radius() - 5. * K) <= 1e-9 * K && std::fabs(g.Center().X() - ox) <= 1e-6 * K && std::fabs(g.Center().Y()) <= 1e-6 * K, "many_points_circle", [&] { return std::to_string(g.Radius()); }); VP h = hull(v); c.check(ConvexHull2D::Compute(QV(v)).NumVertices() == (int)h.size(), "many_points_hull");
	VP w; int side = (int)std::sqrt((double)n); for (int i = 0; i < side; i++) for (int j = 0; j < side; j++) w.push_back({4 * (I)i + r.i(0, 1), 4 * (I)j + r.i(0, 1)}); P a = w[r.i(0, (I)w.size() - 1)]; w.push_back({a.x + 1, a.y + 1}); r.shuffle(w); auto cp = Circles::ClosestPair(QV(w)); c.check(std::fabs(cp.distance - std::sqrt(2.)) <= 1e-12, "many_points_pair"); c.ev("many_points"); }
// segments: exact classification
static bool onSeg(P a, P b, P p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
FAMILY(segments, 4000) { auto& r = c.r; scale(c); I R = r.pick({1, 2, 5, 100}); VP v; for (int i = 0; i < 4; i++) v.push_back({r.i(-R, R), r.i(-R, R)}); int k = (int)r.i(0, 7); if (k == 1) v[1] = v[0]; if (k == 2) v[3] = v[2]; if (k == 3) for (auto& p : v) p.y = 2 * p.x; if (k == 4) v[2] = v[1]; if (k == 5) { v[2] = {v[0].x * 2 - v[1].x, v[0].y * 2 - v[1].y}; } if (k == 6) { v[0] = {2 * v[0].x, 2 * v[0].y}; v[1] = {2 * v[1].x, 2 * v[1].y}; v[2] = {(v[0].x + v[1].x) / 2, (v[0].y + v[1].y) / 2}; } show(c, "segments", v); P a = v[0], b = v[1], e = v[2], f = v[3]; auto g = Intersections::IntersectSegments(Q(a), Q(b), Q(e), Q(f)); std::set<P> ends; for (P p : {a, b}) if (onSeg(e, f, p)) ends.insert(p); for (P p : {e, f}) if (onSeg(a, b, p)) ends.insert(p); W den = (W)(b.x - a.x) * (f.y - e.y) - (W)(b.y - a.y) * (f.x - e.x); bool proper = sg(cr(a, b, e)) * sg(cr(a, b, f)) < 0 && sg(cr(e, f, a)) * sg(cr(e, f, b)) < 0; double tol = 1e-9 * R * SC * 10; if (proper) { L t = (L)(((W)(e.x - a.x) * (f.y - e.y) - (W)(e.y - a.y) * (f.x - e.x))) / (L)den; c.check(g.type == SegmentIntersectionType::Point && std::fabs(g.point.X() - (double)(a.x + t * (b.x - a.x)) * SC) < tol && std::fabs(g.point.Y() - (double)(a.y + t * (b.y - a.y)) * SC) < tol, "proper_crossing"); c.ev("crossing"); } else if (ends.empty()) { c.check(!g.HasIntersection(), "false_intersection"); c.ev("no_crossing"); } else if (ends.size() == 1) { c.check(g.type == SegmentIntersectionType::Point && g.point.Dist(Q(*ends.begin())) < tol, "touching", [&] { return "type " + std::to_string((int)g.type); }); c.ev("touching"); } else { bool ok = g.type == SegmentIntersectionType::Overlap; P s = B(g.overlapStart), t = B(g.overlapEnd); c.check(ok && ((s == *ends.begin() && t == *ends.rbegin()) || (t == *ends.begin() && s == *ends.rbegin())), "overlap"); c.ev("overlap"); } auto q = Intersections::IntersectSegments(SegmentLine2D(Q(e), Q(f)), SegmentLine2D(Q(b), Q(a))); c.check(q.HasIntersection() == g.HasIntersection() && (!g.HasIntersection() || q.type == g.type), "segment_symmetry"); c.check(SegmentLine2D(Q(a), Q(b)).Intersects(SegmentLine2D(Q(e), Q(f))) == g.HasIntersection(), "segment_intersects");
	if (!(a == b) && !(e == f)) { auto l = Intersections::IntersectLines2D(Line2D(Q(a), Q(b)), Line2D(Q(e), Q(f))); if (den != 0) { L t = (L)(((W)(e.x - a.x) * (f.y - e.y) - (W)(e.y - a.y) * (f.x - e.x))) / (L)den; double x = (double)(a.x + t * (b.x - a.x)) * SC, y = (double)(a.y + t * (b.y - a.y)) * SC, lt = 1e-9 * SC * R * R * R * 10; c.check(l.IsPoint() && std::fabs(l.point.X() - x) < lt && std::fabs(l.point.Y() - y) < lt, "lines_cross"); c.check(Line2D(Q(a), Q(b))(l.t1).Dist(l.point) < lt && Line2D(Q(e), Q(f))(l.t2).Dist(l.point) < lt, "line_parameters"); c.ev("lines"); } else c.check(cr(a, b, e) == 0 ? l.IsCoincident() : l.IsParallel(), "lines_parallel"); } }
// ray / triangle with known barycentric answer
FAMILY(ray, 1500) { auto& r = c.r; auto pt = [&] { return Point3Cartesian(r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)); }; Point3Cartesian a = pt(), b = pt(), d = pt(), o = pt(); Vector3Cartesian e1(a, b), e2(a, d), n = VectorProduct(e1, e2); if (!(n.NormL2() > .3)) { c.trivial(); return; } int k = (int)r.i(0, 3); double u, v; if (k < 2) { u = r.uni(.02, .96); v = r.uni(.01, .98 - u); if (v < .01) { u = .3; v = .3; } } else { u = r.pick({-.5, -.02, .7, 1.3, .2}); v = u == .7 ? .35 : u == .2 ? r.pick({-.1, .9}) : r.uni(0, 1); } bool in = u >= 0 && v >= 0 && u + v <= 1; Point3Cartesian h(a.X() + u * e1.X() + v * e2.X(), a.Y() + u * e1.Y() + v * e2.Y(), a.Z() + u * e1.Z() + v * e2.Z()); double sc = r.pmag(-1, 1); bool back = r.coin(.3); Vector3Cartesian dir(o, h); if (!(std::fabs(ScalarProduct(dir, n)) > .05)) { c.trivial(); return; } dir = dir * (back ? -sc : sc); c.in("u", u); c.in("v", v); c.in("back", (int)back); auto g = Intersections::IntersectRayTriangle(o, dir, a, b, d); bool want = in && !back; c.check(g.hit == want, "ray_hit"); if (want && g.hit) { c.check(std::fabs(g.u - u) < 1e-8 && std::fabs(g.v - v) < 1e-8 && std::fabs(g.t - 1 / sc) < 1e-7 / sc && g.point.Dist(h) < 1e-7, "ray_point"); c.check(std::fabs(g.BarycentricW() - (1 - u - v)) < 1e-8, "ray_w"); c.ev("ray_hits"); } else c.ev("ray_misses"); bool front = ScalarProduct(dir, n) < 0; auto q = Intersections::IntersectRayTriangle(o, dir, a, b, d, true); c.check(q.hit == (want && front), "ray_cull"); auto t = Intersections::IntersectRayTriangle(o, dir, Triangle3D(a, b, d)); c.check(t.hit == g.hit && t.t == g.t, "ray_overload"); Line3D ln(o, dir); auto l = Intersections::IntersectRayTriangle(ln, a, b, d); c.check(l.hit == want && (!want || l.point.Dist(h) < 1e-7), "ray_line"); }
#endif
// random simple polygon: untangle a random tour
static bool touch(P a, P b, P e, P f) { auto on = [](P a, P b, P p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }; if (sg(cr(a, b, e)) * sg(cr(a, b, f)) < 0 && sg(cr(e, f, a)) * sg(cr(e, f, b)) < 0) return true; return on(a, b, e) || on(a, b, f) || on(e, f, a) || on(e, f, b); }
static bool simple(const VP& v) { int n = (int)v.size(); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { P a = v[i], b = v[(i + 1) % n], e = v[j], f = v[(j + 1) % n]; if (j == i + 1) { if (cr(a, b, f) == 0 && (W)(b.x - a.x) * (f.x - b.x) + (W)(b.y - a.y) * (f.y - b.y) <= 0) return false; } else if ((j + 1) % n == i) { if (cr(e, f, b) == 0 && (W)(f.x - e.x) * (b.x - f.x) + (W)(f.y - e.y) * (b.y - f.y) <= 0) return false; } else if (touch(a, b, e, f)) return false; } return true; }
static VP polygon(mon::Case& c, int n) { auto& r = c.r; I R = r.pick({4, 8, 20, 100}); for (int at = 0; at < 40; at++) { VP v; for (int i = 0; i < n; i++) v.push_back({r.i(-R, R), r.i(-R, R)}); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); r.shuffle(v); int m = (int)v.size(); if (m < 3) continue; bool ch = true; for (int it = 0; ch && it < 400; it++) { ch = false; for (int i = 0; i < m && !ch; i++) for (int j = i + 2; j < m && !ch; j++) if ((j + 1) % m != i && touch(v[i], v[i + 1], v[j], v[(j + 1) % m])) { double o = std::sqrt(d2(v[i], v[i + 1])) + std::sqrt(d2(v[j], v[(j + 1) % m])), w = std::sqrt(d2(v[i], v[j])) + std::sqrt(d2(v[i + 1], v[(j + 1) % m])); if (w < o - 1e-9) { std::reverse(v.begin() + i + 1, v.begin() + j + 1); ch = true; } } } if (simple(v)) { // sometimes insert collinear vertices
			if (r.coin(.4)) { for (auto& p : v) { p.x *= 2; p.y *= 2; } VP w; for (size_t i = 0; i < v.size(); i++) { w.push_back(v[i]); if (r.coin(.4)) { P q = v[(i + 1) % v.size()]; w.push_back({(v[i].x + q.x) / 2, (v[i].y + q.y) / 2}); } } v = w; } show(c, "polygon", v); return v; } } return {}; }
static int where(const VP& v, P p) { int n = (int)v.size(), w = 0; for (int i = 0; i < n; i++) { P a = v[i], b = v[(i + 1) % n]; if (cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y)) return 0; if (a.y <= p.y) { if (b.y > p.y && cr(a, b, p) > 0) w++; } else if (b.y <= p.y && cr(a, b, p) < 0) w--; } return w ? 1 : -1; }
#if PART == 2
FAMILY(polygons, 900) { auto& r = c.r; scale(c); VP v = polygon(c, (int)r.sz(3, 16, 60)); if (!(!v.empty())) { c.trivial(); return; } int n = (int)v.size(); Polygon2D g(QV(v)); W A = area2(v); c.ev("polygons"); c.check(g.SignedArea() == (double)A / 2 * SC * SC, "signed_area"); c.check(g.IsCounterClockwise() == (A > 0) && g.IsClockwise() == (A < 0), "orientation"); c.check(g.IsSimple(), "is_simple"); int l = 0, rt = 0; for (int i = 0; i < n; i++) { int s = sg(cr(v[i], v[(i + 1) % n], v[(i + 2) % n])); l += s > 0; rt += s < 0; } c.check(g.IsConvex() == (!l || !rt), "is_convex"); for (int q = 0; q < 20; q++) { P p = r.coin(.5) ? P{r.i(-25, 25), r.i(-25, 25)} : P{v[r.i(0, n - 1)].x + r.i(-1, 1), v[r.i(0, n - 1)].y}; int w = where(v, p); if (w == 0) continue; c.check(g.Contains(Q(p)) == (w > 0), "contains"); c.check(g.WindingNumber(Q(p)) == (w > 0 ? (A > 0 ? 1 : -1) : 0), "winding"); c.ev(w > 0 ? "inside" : "outside"); } L cx = 0, cy = 0; for (int i = 0; i < n; i++) { P a = v[i], b = v[(i + 1) % n]; L k = (L)((W)a.x * b.y - (W)a.y * b.x); cx += (a.x + b.x) * k; cy += (a.y + b.y) * k; } Point2Cartesian ct = g.Centroid(); c.check(std::fabs(ct.X() - (double)(cx / (3 * (L)A)) * SC) < 1e-8 * SC && std::fabs(ct.Y() - (double)(cy / (3 * (L)A)) * SC) < 1e-8 * SC, "centroid");
	// ear clipping partitions the polygon
	auto T = Triangulation::EarClipTriangulation(g); double tot = 0; for (auto& t : T) { double sa = std::fabs(t.SignedArea()); tot += sa; P a = B(t.Pnt1()), b = B(t.Pnt2()), d = B(t.Pnt3()); std::set<P> vs(v.begin(), v.end()); c.check(vs.count(a) && vs.count(b) && vs.count(d), "ear_vertex"); if (cr(a, b, d) != 0) { VP s; for (auto& p : v) s.push_back({3 * p.x, 3 * p.y}); c.check(where(s, {a.x + b.x + d.x, a.y + b.y + d.y}) > 0, "ear_inside"); for (int e = 0; e < 3; e++) { P x = e == 0 ? a : e == 1 ? b : d, y = e == 0 ? b : e == 1 ? d : a; for (int i = 0; i < n; i++) { P s1 = v[i], s2 = v[(i + 1) % n]; c.check(!(sg(cr(x, y, s1)) * sg(cr(x, y, s2)) < 0 && sg(cr(s1, s2, x)) * sg(cr(s1, s2, y)) < 0), "ear_crosses_polygon"); } } } } c.check(std::fabs(tot - std::fabs((double)A) / 2 * SC * SC) <= 1e-9 * tot, "ear_area", [&] { return std::to_string(tot) + " want " + std::to_string(std::fabs((double)A) / 2 * SC * SC); }); c.check((int)T.size() <= n - 2, "ear_count"); }
FAMILY(crossed, 500) { auto& r = c.r; SC = 1; int n = (int)r.i(4, 9); VP v; I R = r.pick({5, 20}); for (int i = 0; i < n; i++) v.push_back({r.i(-R, R), r.i(-R, R)}); bool star = r.coin(.2); if (star) { v = {{0, 10}, {6, -8}, {-10, 3}, {10, 3}, {-6, -8}}; n = 5; } show(c, "polygon", v); bool cross = false; for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) if ((j + 1) % n != i) { P a = v[i], b = v[i + 1], e = v[j], f = v[(j + 1) % n]; cross |= sg(cr(a, b, e)) * sg(cr(a, b, f)) < 0 && sg(cr(e, f, a)) * sg(cr(e, f, b)) < 0; } Polygon2D g(QV(v)); if (cross) { c.check(!g.IsSimple(), "crossing_is_simple"); c.check(!g.IsConvex(), "crossing_is_convex"); c.ev("crossed"); } c.nothrow([&] { Triangulation::EarClipTriangulation(g); }, "ear_crossed"); }
// convex clipping: membership and area against an exact-in-long-double half-plane clipper
typedef std::vector<std::pair<L, L>> VL; static VL clipRef(VL s, const VP& k) { for (size_t i = 0; i < k.size(); i++) { P a = k[i], b = k[(i + 1) % k.size()]; auto sd = [&](std::pair<L, L> p) { return (b.x - a.x) * (p.second - a.y) - (b.y - a.y) * (p.first - a.x); }; VL o; for (size_t j = 0; j < s.size(); j++) { auto p = s[j], q = s[(j + 1) % s.size()]; L x = sd(p), y = sd(q); if (x >= 0) o.push_back(p); if ((x > 0 && y < 0) || (x < 0 && y > 0)) { L t = x / (x - y); o.push_back({p.first + t * (q.first - p.first), p.second + t * (q.second - p.second)}); } } s = o; } return s; } static L areaL(const VL& s) { L a = 0; for (size_t i = 0; i < s.size(); i++) { auto p = s[i], q = s[(i + 1) % s.size()]; a += p.first * q.second - p.second * q.first; } return a / 2; }
FAMILY(clip, 900) { auto& r = c.r; scale(c); VP v = polygon(c, (int)r.sz(3, 12, 40)); if (!(!v.empty())) { c.trivial(); return; } VP k; for (int i = 0; i < (int)r.i(3, 9); i++) k.push_back({r.i(-20, 20), r.i(-20, 20)}); k = hull(k); if (!(k.size() > 2)) { c.trivial(); return; } bool cw = r.coin(.3); VP kk = k; if (cw) std::reverse(kk.begin(), kk.end()); show(c, "clip", kk); VL s; for (auto& p : v) s.push_back({p.x, p.y}); L want = fabsl(areaL(clipRef(s, k))) * SC * SC; Polygon2D g = PolygonOps::ClipPolygon(Polygon2D(QV(v)), Polygon2D(QV(kk))); double tol = 1e-8 * SC * SC * 1000; c.check(std::fabs(g.Area() - (double)want) <= tol, "clip_area", [&] { return std::to_string(g.Area()) + " want " + std::to_string((double)want); }); for (int i = 0; i < g.NumVertices(); i++) for (size_t e = 0; e < k.size(); e++) { P a = k[e], b = k[(e + 1) % k.size()]; double s = (b.x - a.x) * (g[i].Y() / SC - a.y) - (b.y - a.y) * (g[i].X() / SC - a.x); c.check(s >= -1e-7, "clip_inside_region"); } c.ev(want > 0 ? "clipped" : "clipped_away"); auto I2 = PolygonOps::PolygonIntersectionApprox(Polygon2D(QV(v)), Polygon2D(QV(kk))); double ia = I2.empty() ? 0 : I2[0].Area(); c.check(std::fabs(ia - (double)want) <= tol, "intersection_convex"); auto U = PolygonOps::PolygonUnionApprox(Polygon2D(QV(v)), Polygon2D(QV(kk))); VP all = v; all.insert(all.end(), k.begin(), k.end()); c.check(U.size() == 1 && std::fabs(U[0].Area() - (double)area2(hull(all)) / 2 * SC * SC) < tol, "union_hull"); I x0 = r.i(-15, 0), x1 = r.i(1, 15), y0 = r.i(-15, 0), y1 = r.i(1, 15); VL rc = clipRef(s, VP{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}); Polygon2D q = PolygonOps::ClipToRect(Polygon2D(QV(v)), x0 * SC, y0 * SC, x1 * SC, y1 * SC); c.check(std::fabs(q.Area() - (double)fabsl(areaL(rc)) * SC * SC) <= tol, "clip_rect"); c.nothrow([&] { PolygonOps::PolygonDifferenceApprox(Polygon2D(QV(v)), Polygon2D(QV(kk))); }, "difference"); c.check(PolygonOps::ClipPolygon(Polygon2D(), Polygon2D(QV(k))).NumVertices() == 0, "clip_empty"); }
#endif
#if PART == 3
static int incirc(P a, P b, P d, P p) { W ax = a.x - p.x, ay = a.y - p.y, bx = b.x - p.x, by = b.y - p.y, cx = d.x - p.x, cy = d.y - p.y; W A = ax * ax + ay * ay, Bq = bx * bx + by * by, C = cx * cx + cy * cy; return sg(ax * (by * C - Bq * cy) - ay * (bx * C - Bq * cx) + A * (bx * cy - by * cx)); }
FAMILY(delaunay, 900) { auto& r = c.r; int n = r.coin(.2) ? (int)r.i(0, 5) : (int)r.sz(3, 40, 120); scale(c); VP v = cloud(c, n), h = hull(v); auto D = Triangulation::ComputeDelaunay(QV(v)); c.check(D.NumPoints() == n, "delaunay_points"); if (h.size() < 3) { c.check(D.NumTriangles() == 0, "delaunay_degenerate"); c.ev("delaunay_degenerate"); return; } c.ev("delaunay"); W tot = 0; std::set<P> used, all(v.begin(), v.end()); std::map<std::pair<int, int>, int> dir; for (int t = 0; t < D.NumTriangles(); t++) { auto q = D.triangles[t]; bool ok = true; for (int k : q) ok = ok && k >= 0 && k < n; if (!c.check(ok, "delaunay_index")) return; P a = v[q[0]], b = v[q[1]], d = v[q[2]]; c.check(cr(a, b, d) > 0, "delaunay_ccw"); tot += cr(a, b, d); for (int k = 0; k < 3; k++) { used.insert(v[q[k]]); c.check(++dir[{q[k], q[(k + 1) % 3]}] == 1, "delaunay_edge_twice"); } for (auto& p : v) if (!c.check(incirc(a, b, d, p) <= 0, "delaunay_empty_circle")) break; } c.check(tot == area2(h), "delaunay_covers_hull", [&] { return "area " + std::to_string((double)tot) + " hull " + std::to_string((double)area2(h)); }); c.check(used == all, "delaunay_uses_points"); if (!c.check(D.neighbors.size() == D.triangles.size(), "neighbors_size")) return; for (int t = 0; t < D.NumTriangles(); t++) for (int k = 0; k < 3; k++) { int u = D.triangles[t][k], w = D.triangles[t][(k + 1) % 3], nb = D.neighbors[t][k]; bool has = dir.count({w, u}); if (!has) { c.check(nb == -1, "neighbor_hull"); for (auto& p : v) if (!c.check(cr(v[u], v[w], p) >= 0, "hull_edge")) break; } else { bool m = false; if (nb >= 0 && nb < D.NumTriangles()) for (int e = 0; e < 3; e++) m |= D.triangles[nb][e] == w && D.triangles[nb][(e + 1) % 3] == u; c.check(m, "neighbor"); } } size_t he = 0; for (auto& e : dir) he += !dir.count({e.first.second, e.first.first}); c.check(D.GetConvexHullEdges().size() == he, "hull_edges");
	// location and interpolation
	std::vector<Real> val; double ka = r.uni(-2, 2), kb = r.uni(-2, 2), kc = r.uni(-5, 5); for (auto& p : v) val.push_back(ka * p.x + kb * p.y + kc); for (int q = 0; q < 15; q++) { P p{v[0].x + r.i(-9, 9), v[0].y + r.i(-9, 9)}; bool in = true; for (size_t i = 0; i < h.size(); i++) in &= cr(h[i], h[(i + 1) % h.size()], p) >= 0; int t = D.LocatePoint(Q(p)); if (in) { if (c.check(t >= 0, "locate_inside")) { auto& w = D.triangles[t]; c.check(cr(v[w[0]], v[w[1]], p) >= 0 && cr(v[w[1]], v[w[2]], p) >= 0 && cr(v[w[2]], v[w[0]], p) >= 0, "locate_wrong_triangle"); double g = D.Interpolate(Q(p), val, -1e9), wv = ka * p.x + kb * p.y + kc; c.check(std::fabs(g - wv) < 1e-7 * (1 + std::fabs(ka * p.x) + std::fabs(kb * p.y)), "interpolate"); c.ev("located"); } } else { c.check(t == -1, "locate_outside"); c.check(D.Interpolate(Q(p), val, -1e9) == -1e9, "interpolate_outside"); } } }
FAMILY(voronoi, 700) { auto& r = c.r; int n = r.coin(.2) ? (int)r.i(0, 4) : (int)r.i(3, 25); SC = 1; VP v = cloud(c, n, r.pick({0, 0, 3, 4, 5, 6, 7, 1})), h = hull(v); auto V = Voronoi::ComputeVoronoi(QV(v)); c.check(V.NumSites() == n && (int)V.cells.size() == n && (int)V.cellIsInfinite.size() == n, "voronoi_sizes"); c.check(V.FindNearestSite(Point2Cartesian(0, 0)) >= (n ? 0 : -1), "nearest_empty"); if (n == 0) return; std::map<P, int> cnt; for (auto& p : v) cnt[p]++; double sz = 1; for (auto& p : v) sz = std::max({sz, std::fabs((double)p.x), std::fabs((double)p.y)}); auto dist = [](const Point2Cartesian& a, P b) { return hypot(a.X() - b.x, a.Y() - b.y); }; auto nearest = [&](const Point2Cartesian& a) { double m = 1e300; for (auto& p : v) m = std::min(m, dist(a, p)); return m; }; bool deg = h.size() < 3;
	if (!deg) { c.ev("voronoi"); for (auto& x : V.vertices) { double m = nearest(x); int k = 0; std::set<P> s; for (auto& p : v) if (dist(x, p) <= m + 1e-5 * (1 + m) && s.insert(p).second) k++; c.check(k >= 3, "vertex_equidistant", [&] { return std::to_string(k); }); } for (auto& e : V.edges) { c.check(e.site1 >= 0 && e.site1 < n && e.site2 >= 0 && e.site2 < n && e.v1 < V.NumVertices() && e.v2 < V.NumVertices(), "edge_index"); P s = v[e.site1], t = v[e.site2]; std::vector<Point2Cartesian> q; if (e.v1 >= 0) q.push_back(V.vertices[e.v1]); if (e.v2 >= 0) q.push_back(V.vertices[e.v2]); if (e.IsInfinite() && !q.empty()) { Point2Cartesian o = q[0]; double len = 50; q.push_back(Point2Cartesian(o.X() + len * e.direction.X(), o.Y() + len * e.direction.Y())); c.check(std::fabs(e.direction.NormL2() - 1) < 1e-9, "edge_direction_unit"); } for (auto& x : q) { double m = nearest(x); c.check(std::fabs(dist(x, s) - m) < 1e-5 * (1 + m) && std::fabs(dist(x, t) - m) < 1e-5 * (1 + m), "edge_equidistant"); } } }
	else c.ev("voronoi_degenerate"); for (int i = 0; i < n; i++) { bool onH = deg; for (size_t k = 0; k < h.size() && !deg; k++) onH |= cr(h[k], h[(k + 1) % h.size()], v[i]) == 0; if (cnt[v[i]] == 1) c.check(V.IsCellInfinite(i) == onH, "cell_infinite"); if (!V.IsCellInfinite(i)) { Polygon2D g = V.GetCell(i); c.check(g.NumVertices() >= 3 && g.SignedArea() > 0, "cell_ccw"); c.check(g.Contains(Q(v[i])), "cell_contains_site"); for (int k : V.GetCellVertexIndices(i)) c.check(k >= 0 && k < V.NumVertices() && std::fabs(dist(V.vertices[k], v[i]) - nearest(V.vertices[k])) < 1e-5 * (1 + nearest(V.vertices[k])), "cell_vertex"); c.ev("finite_cells"); } else if (!deg && cnt[v[i]] == 1) { int inc = 0; std::set<int> vs(V.GetCellVertexIndices(i).begin(), V.GetCellVertexIndices(i).end()); std::set<int> fromEdges; for (auto& e : V.edges) if (e.site1 == i || e.site2 == i) { if (e.v1 >= 0) fromEdges.insert(e.v1); if (e.v2 >= 0) fromEdges.insert(e.v2); inc += e.IsInfinite(); } c.check(inc == 2, "infinite_cell_rays"); c.check(vs == fromEdges, "infinite_cell_vertices"); } }
	double x0 = (double)v[0].x - 7.3, x1 = (double)v[0].x + 9.1, y0 = (double)v[0].y - 5.7, y1 = (double)v[0].y + 8.2, tot = 0; std::set<P> done; std::vector<Polygon2D> cl(n); for (int i = 0; i < n; i++) { cl[i] = V.GetClippedCell(i, x0, y0, x1, y1); if (done.insert(v[i]).second) tot += cl[i].Area(); } if (n >= 2 || true) c.check(std::fabs(tot - (x1 - x0) * (y1 - y0)) < 1e-5 * (x1 - x0) * (y1 - y0), "cells_tile_box", [&] { return std::to_string(tot) + " of " + std::to_string((x1 - x0) * (y1 - y0)); }); for (int q = 0; q < 10; q++) { Point2Cartesian p(r.uni(x0, x1), r.uni(y0, y1)); double m = nearest(p), m2 = 1e300; int s = V.FindNearestSite(p); c.check(s >= 0 && s < n && std::fabs(dist(p, v[s]) - m) < 1e-12 * sz, "nearest_site"); for (auto& w : v) if (!(w == v[s])) m2 = std::min(m2, dist(p, w)); if (m2 > m + 1e-4 * (1 + m)) { c.check(cl[s].Contains(p), "cell_membership"); c.ev("cell_points"); } } c.check(V.GetCell(-1).NumVertices() == 0 && V.GetCell(n).NumVertices() == 0 && V.GetClippedCell(n, 0, 0, 1, 1).NumVertices() == 0 && V.IsCellInfinite(n) && V.GetCellVertexIndices(-1).empty(), "voronoi_bad_index"); (void)sz; }
struct P3 { I x, y, z; bool operator<(const P3& o) const { return std::tie(x, y, z) < std::tie(o.x, o.y, o.z); } }; static W vol(P3 a, P3 b, P3 d, P3 p) { W ax = b.x - a.x, ay = b.y - a.y, az = b.z - a.z, bx = d.x - a.x, by = d.y - a.y, bz = d.z - a.z, px = p.x - a.x, py = p.y - a.y, pz = p.z - a.z; return px * (ay * bz - az * by) + py * (az * bx - ax * bz) + pz * (ax * by - ay * bx); }
FAMILY(hull3d, 700) { auto& r = c.r; int n = r.coin(.2) ? (int)r.i(0, 6) : (int)r.sz(4, 60, 200); int k = (int)r.i(0, 6); I R = r.pick({1, 2, 5, 40, 300}); std::vector<P3> v; std::vector<double> flat; for (int i = 0; i < n; i++) { P3 p{r.i(-R, R), r.i(-R, R), r.i(-R, R)}; if (k == 1) p.z = 2; if (k == 2) p.z = p.x + p.y; if (k == 3 && i && r.coin(.4)) p = v[r.i(0, i - 1)]; if (k == 4) p = {r.i(0, 1) * R, r.i(0, 1) * R, r.i(0, 1) * R}; if (k == 5) { p.y = 2 * p.x; p.z = -p.x; } if (k == 6 && i > 4) { p.x = r.pick({-R, R}); } v.push_back(p); flat.insert(flat.end(), {(double)p.x, (double)p.y, (double)p.z}); } c.in("points", flat); c.in("kind", k); std::vector<Point3Cartesian> q; for (auto& p : v) q.push_back(Point3Cartesian(p.x, p.y, p.z)); auto H = ConvexHull3DComputer::Compute(q); bool solid = false; for (int a = 1; a < n && !solid; a++) for (int b = a + 1; b < n && !solid; b++) for (int d = b + 1; d < n && !solid; d++) solid = vol(v[0], v[a], v[b], v[d]) != 0; std::set<P3> in(v.begin(), v.end()); std::vector<P3> w; for (auto& p : H.vertices) { P3 b{(I)llround(p.X()), (I)llround(p.Y()), (I)llround(p.Z())}; c.check(in.count(b), "hull3_vertex_not_input"); w.push_back(b); } if (!solid) { c.check(std::fabs(H.Volume()) < 1e-9, "flat_volume"); c.ev("hull3_degenerate"); return; } c.ev("hull3"); std::map<std::pair<int, int>, int> e; W v6 = 0; double ar = 0; std::set<int> used; bool okI = true; for (auto& f : H.faces) { for (int t : f) okI = okI && t >= 0 && t < (int)w.size(); if (!c.check(okI, "hull3_index")) return; P3 a = w[f[0]], b = w[f[1]], d = w[f[2]]; v6 += vol(P3{0, 0, 0}, a, b, d); for (int i = 0; i < 3; i++) { c.check(++e[{f[i], f[(i + 1) % 3]}] == 1, "hull3_edge_twice"); used.insert(f[i]); } W nx = (W)(b.y - a.y) * (d.z - a.z) - (W)(b.z - a.z) * (d.y - a.y), ny = (W)(b.z - a.z) * (d.x - a.x) - (W)(b.x - a.x) * (d.z - a.z), nz = (W)(b.x - a.x) * (d.y - a.y) - (W)(b.y - a.y) * (d.x - a.x); c.check(nx || ny || nz, "hull3_flat_face"); ar += std::sqrt((double)(nx * nx + ny * ny + nz * nz)) / 2; for (auto& p : v) if (!c.check(vol(a, b, d, p) <= 0, "hull3_point_outside")) break; } bool closed = !H.faces.empty(); for (auto& x : e) closed &= e.count({x.first.second, x.first.first}); c.check(closed, "hull3_closed"); c.check((int)used.size() - (int)e.size() / 2 + (int)H.faces.size() == 2, "hull3_euler"); 
	double tv = 0; for (auto& f : H.faces) { P3 o = w[H.faces[0][0]], a = w[f[0]], b = w[f[1]], d = w[f[2]]; tv += std::fabs((double)vol(a, b, d, o)); } c.check(std::fabs(H.Volume() - tv / 6) <= 1e-9 * tv, "hull3_volume"); c.check(std::fabs(H.SurfaceArea() - ar) <= 1e-9 * ar, "hull3_area"); for (auto& p : q) c.check(H.Contains(p, 1e-6), "hull3_contains"); for (int t = 0; t < 6; t++) { P3 p{r.i(-R - 2, R + 2), r.i(-R - 2, R + 2), r.i(-R - 2, R + 2)}; bool inside = true; for (auto& f : H.faces) inside &= vol(w[f[0]], w[f[1]], w[f[2]], p) <= 0; c.check(H.Contains(Point3Cartesian(p.x, p.y, p.z), 1e-6) == inside, "hull3_membership"); } if (c.check(H.neighbors.size() == H.faces.size(), "hull3_neighbors_missing")) for (size_t f = 0; f < H.faces.size(); f++) for (int i = 0; i < 3; i++) { int nb = H.neighbors[f][i]; bool m = false; if (nb >= 0 && nb < H.NumFaces()) for (int x = 0; x < 3; x++) m |= H.faces[nb][x] == H.faces[f][(i + 1) % 3] && H.faces[nb][(x + 1) % 3] == H.faces[f][i]; c.check(m, "hull3_neighbor"); } }
#endif
MON_MAIN()
