// C37: interval classes and set operations against pointwise membership of an independent interval model.
#include "mon.h"
#include "MMLBase.h"
#include "base/Intervals.h"
using namespace MML;
using P = std::unique_ptr<BaseInterval>;
static const double INF = INFINITY;
struct Seg { double lo, hi; bool il, ih; bool has(double x) const { return (x > lo || (il && x == lo)) && (x < hi || (ih && x == hi)); } bool empty() const { return lo > hi || (lo == hi && !(il && ih)); }
	std::string s() const { return std::string(il ? "[" : "(") + mon::str(lo) + ", " + mon::str(hi) + (ih ? "]" : ")"); } };
static P make(int t, double a, double b, Seg& g) {
	switch (t) {
	case 0: g = {a, b, true, true}; return P(new ClosedInterval(a, b));
	case 1: g = {a, b, false, false}; return P(new OpenInterval(a, b));
	case 2: g = {a, b, false, true}; return P(new OpenClosedInterval(a, b));
	case 3: g = {a, b, true, false}; return P(new ClosedOpenInterval(a, b));
	case 4: g = {-INF, b, false, true}; return P(new NegInfToClosedInterval(b));
	case 5: g = {-INF, b, false, false}; return P(new NegInfToOpenInterval(b));
	case 6: g = {a, INF, true, false}; return P(new ClosedToInfInterval(a));
	case 7: g = {a, INF, false, false}; return P(new OpenToInfInterval(a));
	default: g = {-INF, INF, false, false}; return P(new CompleteRInterval());
	}
}
static double bound(mon::Rng& r) { switch (r.i(0, 9)) { case 0: return r.logmag(-300, 300); case 1: return r.uni(-5, 5); case 2: return std::nextafter((double)r.i(-3, 3), r.coin(.5) ? INF : -INF); case 3: return r.pick({1e10, -1e10, 2e10, -2e10, 1e308, -1e308}); default: return r.i(-4, 4); } }
static P draw(mon::Rng& r, Seg& g) { double a = bound(r), b = bound(r); if (a > b) std::swap(a, b); if (r.coin(.1)) b = a; return make(r.coin(.7) ? r.i(0, 3) : r.i(4, 8), a, b, g); }
static std::vector<double> probes(mon::Rng& r, std::initializer_list<const Seg*> gs) {
	std::vector<double> v{0, 1e300, -1e300, DBL_MAX, -DBL_MAX};
	for (auto* g : gs) for (double e : {g->lo, g->hi}) if (std::isfinite(e)) { v.push_back(e); v.push_back(std::nextafter(e, INF)); v.push_back(std::nextafter(e, -INF)); v.push_back(e + 0.5); v.push_back(e - 0.5); }
	for (auto* g : gs) if (std::isfinite(g->lo) && std::isfinite(g->hi)) for (int i = 0; i < 3; i++) v.push_back(g->lo + (g->hi - g->lo) * r.u01());
	for (int i = 0; i < 5; i++) v.push_back(r.uni(-6, 6)); for (int k = -5; k <= 5; k++) v.push_back(k);
	std::vector<double> o; for (double x : v) if (std::isfinite(x)) o.push_back(x); return o;
}
FAMILY(simple, 3000) {
	auto& r = c.r; Seg g; P p = draw(r, g); c.note(g.s()); const IInterval& I = *p;
	for (double x : probes(r, {&g})) { c.check(I.contains(x) == g.has(x), "contains", [&] { return "at " + mon::str(x); }); c.ev("membership"); }
	if (std::isfinite(g.lo)) c.check(I.getLowerBound() == g.lo, "lower"); else c.check(I.getLowerBound() <= -1e300, "lower");
	if (std::isfinite(g.hi)) c.check(I.getUpperBound() == g.hi, "upper"); else c.check(I.getUpperBound() >= 1e300, "upper");
	if (std::isfinite(g.lo) && std::isfinite(g.hi)) { c.check(I.getLength() == g.hi - g.lo, "length"); c.check(I.getMeasure() == g.hi - g.lo, "measure"); } else c.check(I.getLength() >= 7e307, "length-infinite");
	c.check(I.isContinuous(), "continuous");
	std::vector<Real> pts{1, 2, 3}; int n = r.pick({-1, 0, 1, 2, 3, r.i(2, 60)}); p->GetEquidistantCovering(n, pts); c.in("n", (double)n);
	bool roomy = !g.empty() && (!std::isfinite(g.lo) || !std::isfinite(g.hi) || std::nextafter(std::nextafter(g.lo, INF), INF) <= g.hi || (g.il && g.ih));
	if (n <= 0) { c.check(pts.empty(), "covering-none"); return; }
	if (g.empty()) { c.check(pts.empty(), "covering-of-empty-set", [&] { return "first " + mon::str(pts[0]); }); c.ev("empty-set"); return; }
	if (!roomy && pts.empty()) { c.trivial(); return; }
	if (!c.check((int)pts.size() == n, "covering-count", [&] { return std::to_string(pts.size()); })) return;
	for (int i = 0; i < n; i++) { c.check(g.has(pts[i]), "covering-inside", [&] { return "#" + std::to_string(i) + " " + mon::str(pts[i]); }); if (i) c.check(pts[i] >= pts[i - 1], "covering-ordered"); }
	c.ev("covering", n);
	double span = g.hi - g.lo; if (n >= 2 && std::isfinite(span) && span > 1e-290 && span > 1e-6 * std::max(std::fabs(g.lo), std::fabs(g.hi))) { double d = span / (n - 1);
		for (int i = 0; i < n; i++) c.close(pts[i], g.lo + i * d, ((i == 0 || i == n - 1) ? 2e-3 : 1e-9) * d, "covering-equidistant"); if (g.il) c.check(pts[0] == g.lo, "covering-first"); }
}
static void same_set(mon::Case& c, const Interval& S, std::function<bool(double)> want, const std::vector<double>& xs, const char* key) { for (double x : xs) { bool got = S.contains(x); c.check(got == want(x), key, [&] { return "at " + mon::str(x) + " got " + (got ? "in" : "out"); }); c.ev("membership"); } }
FAMILY(set_operations, 8000) {
	auto& r = c.r; Seg a, b; P pa = draw(r, a), pb = draw(r, b); if (r.coin(.15)) { pb = make(r.i(0, 3), std::isfinite(a.lo) ? a.lo : a.hi == INF ? 0 : a.hi, std::isfinite(a.hi) ? a.hi : std::isfinite(a.lo) ? a.lo : 0, b); c.ev("same-bounds"); }
	c.note(a.s() + " and " + b.s()); auto xs = probes(r, {&a, &b});
	if (a.hi == b.lo || a.lo == b.hi) c.ev("touching"); if (a.empty() || b.empty()) c.ev("empty-operand"); if (!std::isfinite(a.lo) || !std::isfinite(a.hi)) c.ev("infinite-operand");
	if ((a.lo < b.lo && b.hi < a.hi)) c.ev("nested");
	Interval I = Interval::Intersection(*pa, *pb), U = Interval::Union(*pa, *pb), D = Interval::Difference(*pa, *pb), C = Interval::Complement(*pa);
	same_set(c, I, [&](double x) { return a.has(x) && b.has(x); }, xs, "intersection");
	same_set(c, U, [&](double x) { return a.has(x) || b.has(x); }, xs, "union");
	same_set(c, D, [&](double x) { return a.has(x) && !b.has(x); }, xs, "difference");
	same_set(c, C, [&](double x) { return !a.has(x); }, xs, "complement");
	same_set(c, Interval::Intersection(*pb, *pa), [&](double x) { return I.contains(x); }, xs, "intersection-commutes");
	same_set(c, Interval::Union(*pb, *pa), [&](double x) { return U.contains(x); }, xs, "union-commutes");
	if (std::isfinite(a.lo) && std::isfinite(a.hi) && std::isfinite(b.lo) && std::isfinite(b.hi)) {
		double la = a.hi - a.lo, lb = b.hi - b.lo, ov = std::max(0., std::min(a.hi, b.hi) - std::max(a.lo, b.lo)), t = 1e-12 * (std::fabs(a.lo) + std::fabs(a.hi) + std::fabs(b.lo) + std::fabs(b.hi));
		if (std::isfinite(la + lb)) { c.close(I.getMeasure(), ov, t, "measure-intersection"); c.close(U.getMeasure(), la + lb - ov, t, "measure-union"); c.close(D.getMeasure(), la - ov, t, "measure-difference"); c.ev("measure"); }
		if (!a.empty() && !b.empty()) { c.check(U.getLowerBound() == std::min(a.lo, b.lo) && U.getUpperBound() == std::max(a.hi, b.hi), "hull"); c.check(U.getLength() == std::max(a.hi, b.hi) - std::min(a.lo, b.lo) , "hull-length"); }
	}
	Interval one; if (auto* q = dynamic_cast<ClosedInterval*>(pa.get())) one.AddInterval(*q); else if (auto* q2 = dynamic_cast<OpenInterval*>(pa.get())) one.AddInterval(*q2); else if (auto* q3 = dynamic_cast<OpenClosedInterval*>(pa.get())) one.AddInterval(*q3); else if (auto* q4 = dynamic_cast<ClosedOpenInterval*>(pa.get())) one.AddInterval(*q4); else return;
	bool sub = b.empty() || (!a.empty() && (b.lo > a.lo || (b.lo == a.lo && (a.il || !b.il))) && (b.hi < a.hi || (b.hi == a.hi && (a.ih || !b.ih))));
	c.check(one.contains(*pb) == sub, "contains-interval", [&] { return std::string(sub ? "should" : "should not"); });
	double l = std::max(a.lo, b.lo), h = std::min(a.hi, b.hi); bool meet = !a.empty() && !b.empty() && (l < h || (l == h && a.has(l) && b.has(l)));
	c.check(one.intersects(*pb) == meet, "intersects", [&] { return std::string(meet ? "should" : "should not"); }); c.ev(meet ? "meeting" : "apart"); c.ev(sub ? "subset" : "not-subset");
}
FAMILY(composite, 2000) {
	auto& r = c.r; int n = (int)r.sz(0, 5, 40); std::vector<Seg> gs; Interval S; bool disjoint = r.coin(.5), raw = r.coin(.1); double at = r.i(-5, 0);
	for (int i = 0; i < n; i++) { Seg g; double lo, hi; if (disjoint) { lo = at + r.uni(.01, 1); hi = lo + r.uni(0.01, 2); at = hi; } else { lo = bound(r); hi = bound(r); if (lo > hi) std::swap(lo, hi); }
		int t = r.i(0, 3); P p = make(t, lo, hi, g); if (g.empty()) continue; gs.push_back(g); c.note(g.s());
		switch (t) { case 0: S.AddInterval(ClosedInterval(lo, hi)); break; case 1: S.AddInterval(OpenInterval(lo, hi)); break; case 2: S.AddInterval(OpenClosedInterval(lo, hi)); break; default: S.AddInterval(ClosedOpenInterval(lo, hi)); } }
	bool inf = r.coin(.2); if (inf) { Seg g; if (r.coin(.5)) { make(8, 0, 0, g); S.AddInterval(CompleteRInterval()); } else { double e = bound(r); make(6, e, 0, g); S.AddInterval(ClosedToInfInterval(e)); } gs.push_back(g); c.ev("infinite-component"); }
	(void)raw; auto in = [&](double x) { for (auto& g : gs) if (g.has(x)) return true; return false; };
	std::vector<double> xs; for (auto& g : gs) for (double x : probes(r, {&g})) xs.push_back(x); xs.push_back(0.25); same_set(c, S, in, xs, "contains");
	std::vector<Real> pts{9}; int k = r.i(0, 40); c.in("k", (double)k); S.GetEquidistantCovering(k, pts); for (double x : pts) c.check(in(x), "covering-inside", [&] { return mon::str(x); }); c.ev("composite-covering", (long)pts.size());
	if (gs.empty()) { c.check(pts.empty() && !S.contains(0.), "empty"); c.ev("empty-composite"); return; }
	double lo = INF, hi = -INF; for (auto& g : gs) lo = std::min(lo, g.lo), hi = std::max(hi, g.hi);
	if (std::isfinite(lo)) c.check(S.getLowerBound() == lo, "lower"); if (std::isfinite(hi)) c.check(S.getUpperBound() == hi, "upper");
	if (disjoint && !inf) { double m = 0; for (auto& g : gs) m += g.hi - g.lo; c.close(S.getMeasure(), m, 1e-12 * (m + 10), "measure"); c.close(S.getLength(), hi - lo, 1e-12 * (m + 10), "length"); c.ev("disjoint-composite");
		if (k > 0) { for (auto& g : gs) { bool any = false; for (double x : pts) any |= g.has(x); c.check(any, "covering-reaches-every-part"); } c.check((int)pts.size() <= k + (int)gs.size(), "covering-count"); } }
}
FAMILY(holes, 2000) {
	auto& r = c.r; double h0 = r.pick({0., M_PI / 2, r.uni(-3, 3)}), d = r.pick({M_PI, 1., r.uni(.05, 10), -r.uni(.1, 3)}); int n = r.coin(.5) ? r.i(-20, 20) : r.i(-100000, 100000); c.in("h0", h0); c.in("d", d); c.in("n", (double)n);
	double x = h0 + n * d, off = r.pick({.5, .25, .1, .01, 1e-3}) * d * (r.coin(.5) ? 1 : -1);
	CompleteRWithReccuringPointHoles R(h0, d); c.check(!R.contains(x), "hole", [&] { return "x " + mon::str(x); }); c.check(R.contains(x + off), "beside-hole"); c.check(!R.isContinuous(), "continuity"); c.ev("hole");
	double a = x - std::fabs(d) * r.uni(0.3, 3), b = x + std::fabs(d) * r.uni(.3, 3); ClosedIntervalWithReccuringPointHoles C(a, b, h0, d);
	c.check(!C.contains(x), "hole-closed"); double y = x + off; c.check(C.contains(y) == (y >= a && y <= b), "beside-hole-closed"); c.check(!C.contains(a - 1) && !C.contains(b + 1), "outside-closed");
	if (std::abs(n) > 1000) c.ev("far-hole");
}
FAMILY(reversed, 300) {
	auto& r = c.r; double a = r.uni(-5, 5), b = a - r.pmag(-10, 3); if (b >= a) b = a - 1; Seg g, e; P p = make(r.i(0, 3), a, b, e); P q = draw(r, g); c.note(e.s() + " and " + g.s());
	auto xs = probes(r, {&g, &e}); for (double x : xs) c.check(!p->contains(x), "member", [&] { return mon::str(x); });
	std::vector<Real> pts{1}; p->GetEquidistantCovering(r.i(1, 10), pts); c.check(pts.empty(), "covering");
	same_set(c, Interval::Intersection(*p, *q), [&](double) { return false; }, xs, "intersection"); same_set(c, Interval::Union(*p, *q), [&](double x) { return g.has(x); }, xs, "union"); same_set(c, Interval::Union(*q, *p), [&](double x) { return g.has(x); }, xs, "union-left");
	same_set(c, Interval::Difference(*q, *p), [&](double x) { return g.has(x); }, xs, "difference"); same_set(c, Interval::Difference(*p, *q), [&](double) { return false; }, xs, "difference-of-empty"); same_set(c, Interval::Complement(*p), [&](double) { return true; }, xs, "complement");
	c.ev("reversed");
}
FAMILY(ownership, 200) {
	Interval S({new ClosedInterval(0, 1), new OpenInterval(2, 3), new NegInfToClosedInterval(-4)}); Interval T = S; c.check(T.contains(.5) && T.contains(2.5) && !T.contains(2.) && T.contains(-100.) && !T.contains(-3.), "list"); { Interval U; U = T; T = Interval(); c.check(U.contains(1.) && !T.contains(1.), "copies"); }
}
MON_MAIN()
