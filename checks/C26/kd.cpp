// C26: KD-tree queries against a linear scan on integer grids
#include "mon.h"
#include "mml/algorithms/CompGeometry/KDTree.h"
#include <set>
using namespace MML; typedef long long I;
template<int D> struct Ad { typedef KDTree<D> T; typedef VectorN<Real, D> Pt; static Pt mk(const std::vector<double>& v) { Pt p; for (int i = 0; i < D; i++) p[i] = v[i]; return p; } static double at(const Pt& p, int i) { return p[i]; } };
struct Ad2 { typedef KDTree2D T; typedef Point2Cartesian Pt; static Pt mk(const std::vector<double>& v) { return Pt(v[0], v[1]); } static double at(const Pt& p, int i) { return i ? p.Y() : p.X(); } };
struct Ad3 { typedef KDTree3D T; typedef Point3Cartesian Pt; static Pt mk(const std::vector<double>& v) { return Pt(v[0], v[1], v[2]); } static double at(const Pt& p, int i) { return i == 0 ? p.X() : i == 1 ? p.Y() : p.Z(); } };
typedef std::vector<std::vector<double>> VV;
static double d2(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static VV gen(mon::Case& c, int D, int n) { auto& r = c.r; int k = (int)r.i(0, 7); I R = r.pick({1, 3, 10, 100, 10000}); c.in("kind", k); c.in("range", (double)R); VV v; for (int i = 0; i < n; i++) { std::vector<double> p(D); for (auto& x : p) x = r.i(-R, R); if (k == 1) for (auto& x : p) x = p[0]; if (k == 2) p[r.i(0, D - 1)] = 0; if (k == 3 && i && r.coin(.6)) p = v[r.i(0, i - 1)]; if (k == 4) { for (int j = 1; j < D; j++) p[j] = 7; } if (k == 5) p[0] = i % 3; if (k == 6) p[0] = i; if (k == 7 && i) p = v[0]; v.push_back(p); } if (n * D <= 120) { std::vector<double> f; for (auto& p : v) f.insert(f.end(), p.begin(), p.end()); c.in("points", f); } return v; }
static KDTreeConfig conf(mon::Case& c) { KDTreeConfig g; int k = (int)c.r.i(0, 4); if (k == 1) g = KDTreeConfig::HighPerformance(); if (k == 2) g = KDTreeConfig::LowMemory(); if (k >= 3) g.max_leaf_size = c.r.pick({1, 1, 2, 3, 7, 50, 0, -3}); g.balanced = c.r.coin(.7); c.in("leaf", g.max_leaf_size); return g; }
template<class A> static void queries(mon::Case& c, const typename A::T& t, const VV& v, int D, int nq) { auto& r = c.r; int n = (int)v.size(); c.check((int)t.size() == n && t.empty() == (n == 0), "size"); for (int i = 0; i < n; i++) { auto& p = t.point(i); bool ok = true; for (int j = 0; j < D; j++) ok &= A::at(p, j) == v[i][j]; if (!c.check(ok, "stored_point")) break; }
	auto& st = t.stats(); c.check((int)st.num_points == n && (n == 0 ? st.num_nodes == 0 && st.num_leaf_nodes == 0 : st.num_leaf_nodes >= 1 && st.num_nodes == 2 * st.num_leaf_nodes - 1 && (int)st.num_leaf_nodes <= n && st.tree_depth < 64), "stats"); double big = 1; for (auto& p : v) for (double x : p) big = std::max(big, std::fabs(x));
	for (int q = 0; q < nq; q++) { std::vector<double> z(D); int how = (int)r.i(0, 4); if (n && how < 2) { z = v[r.i(0, n - 1)]; if (how == 1) z[r.i(0, D - 1)] += r.pick({-1, 1, 2}); } else if (how == 2 && n) { for (int j = 0; j < D; j++) z[j] = v[r.i(0, n - 1)][j]; } else for (auto& x : z) x = r.i(-(I)big * 2, (I)big * 2); c.in("query", z); std::vector<double> all; for (auto& p : v) all.push_back(d2(z, p)); std::vector<double> srt = all; std::sort(srt.begin(), srt.end()); auto Q = A::mk(z);
		auto nn = t.findNearest(Q); if (n == 0) c.check(!nn.found && nn.status == AlgorithmStatus::InvalidInput, "nearest_empty"); else { c.check(nn.found && nn.index < (size_t)n && all[nn.index] == srt[0] && nn.distance == std::sqrt(srt[0]) && nn.status == AlgorithmStatus::Success, "nearest", [&] { return std::to_string(nn.distance) + " want " + std::to_string(std::sqrt(srt[0])); }); c.check(nn.nodes_visited >= 1 && nn.nodes_visited <= (int)st.num_nodes, "nodes_visited"); c.ev("nearest"); }
		int k = r.pick({1, 1, 2, 3, 5, n, n + 1, n / 2, 1000}); c.in("k", k); auto kn = t.findKNearest(Q, k); size_t want = k <= 0 ? 0 : std::min(k, n); bool ok = kn.indices.size() == want && kn.distances.size() == want; if (k <= 0) c.check(ok && kn.status == AlgorithmStatus::InvalidInput, "k_zero"); else if (c.check(ok, "k_count")) { std::set<size_t> seen; for (size_t i = 0; i < want; i++) { if (!c.check(kn.indices[i] < (size_t)n && seen.insert(kn.indices[i]).second, "k_distinct")) break; c.check(kn.distances[i] == std::sqrt(srt[i]) && all[kn.indices[i]] == srt[i], "k_nearest", [&] { return "rank " + std::to_string(i) + ": " + std::to_string(kn.distances[i]) + " want " + std::to_string(std::sqrt(srt[i])); }); } c.ev("knearest"); } auto kz = t.findKNearest(Q, -(int)r.i(0, 3)); c.check(kz.indices.empty() && kz.status == AlgorithmStatus::InvalidInput, "k_not_positive");
		// radius: integers so that the boundary is exact
		double rad = r.coin(.3) && n ? std::floor(std::sqrt(srt[r.i(0, n - 1)])) : (double)r.i(0, (I)big); c.in("radius", rad); auto ra = t.findInRadius(Q, rad); std::set<size_t> got(ra.indices.begin(), ra.indices.end()), exp; for (int i = 0; i < n; i++) if (all[i] <= rad * rad) exp.insert(i); c.check(got == exp && ra.indices.size() == exp.size() && ra.distances.size() == exp.size(), "radius", [&] { return std::to_string(ra.indices.size()) + " want " + std::to_string(exp.size()); }); for (size_t i = 0; i < ra.indices.size() && i < ra.distances.size(); i++) c.check(ra.indices[i] < (size_t)n && ra.distances[i] == std::sqrt(all[ra.indices[i]]), "radius_distance"); c.ev(exp.empty() ? "radius_none" : "radius_hits"); if (n) { auto bad = t.findInRadius(Q, -1); c.check(bad.indices.empty() && bad.status == AlgorithmStatus::InvalidInput, "radius_negative"); }
		std::vector<double> lo(D), hi(D); for (int j = 0; j < D; j++) { double a = r.coin(.5) && n ? v[r.i(0, n - 1)][j] : (double)r.i(-(I)big, (I)big), b = r.coin(.5) && n ? v[r.i(0, n - 1)][j] : (double)r.i(-(I)big, (I)big); lo[j] = std::min(a, b); hi[j] = std::max(a, b); } if (r.coin(.1)) std::swap(lo[0], hi[0]); c.in("lo", lo); c.in("hi", hi); auto bx = t.findInBox(A::mk(lo), A::mk(hi)); std::set<size_t> bg(bx.begin(), bx.end()), be; for (int i = 0; i < n; i++) { bool in = true; for (int j = 0; j < D; j++) in &= v[i][j] >= lo[j] && v[i][j] <= hi[j]; if (in) be.insert(i); } c.check(bg == be && bx.size() == be.size(), "box", [&] { return std::to_string(bx.size()) + " want " + std::to_string(be.size()); }); c.ev(be.empty() ? "box_none" : "box_hits"); } }
template<class A> static void run(mon::Case& c, int D) { auto& r = c.r; int n = r.coin(.25) ? (int)r.i(0, 12) : r.coin(.8) ? (int)r.i(10, 150) : (int)r.i(150, 900); typename A::T t; if (r.coin(.1)) queries<A>(c, t, VV(), D, 1); VV v = gen(c, D, n); c.in("n", n); std::vector<typename A::Pt> p; for (auto& x : v) p.push_back(A::mk(x)); KDTreeConfig g = conf(c); t.build(p, g); for (auto& x : p) x = A::mk(std::vector<double>(D, 1e9)); queries<A>(c, t, v, D, 8); int act = (int)r.i(0, 3); c.in("then", act); if (act == 0) { t.clear(); queries<A>(c, t, VV(), D, 1); c.ev("cleared"); } if (act <= 1) { VV w = gen(c, D, (int)r.i(0, 60)); std::vector<typename A::Pt> q; for (auto& x : w) q.push_back(A::mk(x)); t.build(q, conf(c)); queries<A>(c, t, w, D, 3); c.ev("rebuilt"); } if (act == 2) { typename A::T u(std::move(t)); queries<A>(c, u, v, D, 3); typename A::T w; w.build({A::mk(std::vector<double>(D, 1))}); w = std::move(u); queries<A>(c, w, v, D, 3); c.check(t.empty() && u.empty() && !t.findNearest(A::mk(v.empty() ? std::vector<double>(D, 0) : v[0])).found, "moved_from_finds_points"); c.ev("moved"); } }
FAMILY(dim1, 120) { run<Ad<1>>(c, 1); }
FAMILY(dim2, 250) { run<Ad<2>>(c, 2); }
FAMILY(dim3, 250) { run<Ad<3>>(c, 3); }
FAMILY(dim5, 150) { run<Ad<5>>(c, 5); }
FAMILY(points2, 250) { run<Ad2>(c, 2); }
FAMILY(points3, 250) { run<Ad3>(c, 3); }
// non-integer coordinates: nearest distances still equal the scan's
FAMILY(reals, 250) { auto& r = c.r; int n = (int)r.i(1, 400); double sc = r.pmag(-6, 6); std::vector<Point2Cartesian> p; std::vector<Point3Cartesian> p3; for (int i = 0; i < n; i++) { p.push_back(Point2Cartesian(r.normal() * sc, r.normal() * sc)); p3.push_back(Point3Cartesian(r.normal() * sc, r.normal() * sc, r.coin(.3) ? 0 : r.normal() * sc)); } c.in("n", n); c.in("scale", sc); KDTree2D t; KDTree3D t3; t.build(p, conf(c)); t3.build(p3, conf(c)); for (int q = 0; q < 20; q++) { Point2Cartesian z(r.normal() * sc * 1.5, r.normal() * sc * 1.5); Point3Cartesian z3(z.X(), z.Y(), r.normal() * sc); auto a = t.findNearest(z), b = FindNearestBruteForce2D(p, z); double m = 1e300; for (auto& x : p) m = std::min(m, x.Dist(z)); c.check(a.found && b.found && std::fabs(a.distance - m) <= 1e-13 * m && std::fabs(b.distance - m) <= 1e-13 * m, "nearest2"); auto a3 = t3.findNearest(z3), b3 = FindNearestBruteForce3D(p3, z3); double m3 = 1e300; for (auto& x : p3) m3 = std::min(m3, x.Dist(z3)); c.check(a3.found && b3.found && std::fabs(a3.distance - m3) <= 1e-13 * m3 && std::fabs(b3.distance - m3) <= 1e-13 * m3, "nearest3"); int k = (int)r.i(1, 20); auto kn = t3.findKNearest(z3, k); std::vector<double> d; for (auto& x : p3) d.push_back(x.Dist(z3)); std::sort(d.begin(), d.end()); c.check((int)kn.distances.size() == std::min(k, n), "k_count"); for (size_t i = 0; i < kn.distances.size(); i++) c.check(std::fabs(kn.distances[i] - d[i]) <= 1e-13 * d[i], "k_nearest"); double rad = d[r.i(0, n - 1)] * r.pick({.7, 1.001}); auto ra = t3.findInRadius(z3, rad); size_t lo = 0, hi = 0; for (double x : d) { lo += x <= rad * (1 - 1e-12); hi += x <= rad * (1 + 1e-12); } c.check(ra.indices.size() >= lo && ra.indices.size() <= hi, "radius"); c.ev("reals"); } c.check(!FindNearestBruteForce2D({}, Point2Cartesian(0, 0)).found && !FindNearestBruteForce3D({}, Point3Cartesian(0, 0, 0)).found, "brute_empty"); }
MON_MAIN()
