// C38: dynamical systems and discrete maps against independently written equations, and the analyzers against their definitions.
#include "mon.h"
#include "la.h"
#include "MMLBase.h"
#include "systems/DynamicalSystem.h"
using namespace MML; using namespace MML::Systems;
typedef std::vector<double> V; typedef long double L;
struct Ent { const char* name; int n, p; std::function<IDynamicalSystem*(const V&)> mk; std::function<void(const V& P, const L* y, L* f)> rhs; std::function<L(const V&, const L*)> inv; V lo, hi; double box; };
static L sgn(L x) { return x < 0 ? -x : x; }
static const std::vector<Ent>& ents() {
	static std::vector<Ent> E = {
	{"lorenz", 3, 3, [](const V& p) { return new LorenzSystem(p[0], p[1], p[2]); }, [](const V& P, const L* y, L* f) { f[0] = P[0] * (y[1] - y[0]); f[1] = P[1] * y[0] - y[0] * y[2] - y[1]; f[2] = y[0] * y[1] - P[2] * y[2]; }, nullptr, {1, 1, .5}, {20, 60, 5}, 20},
	{"rossler", 3, 3, [](const V& p) { return new RosslerSystem(p[0], p[1], p[2]); }, [](const V& P, const L* y, L* f) { f[0] = -y[1] - y[2]; f[1] = y[0] + P[0] * y[1]; f[2] = P[1] + y[2] * y[0] - P[2] * y[2]; }, nullptr, {.05, .05, 2}, {.4, .4, 10}, 10},
	{"vanderpol", 2, 1, [](const V& p) { return new VanDerPolSystem(p[0]); }, [](const V& P, const L* y, L* f) { f[0] = y[1]; f[1] = P[0] * y[1] - P[0] * y[0] * y[0] * y[1] - y[0]; }, nullptr, {.1}, {5}, 3},
	{"duffing", 3, 5, [](const V& p) { return new DuffingSystem(p[0], p[1], p[2], p[3], p[4]); }, [](const V& P, const L* y, L* f) { f[0] = y[1]; f[1] = P[3] * cosl(y[2]) - P[0] * y[1] - (P[1] + P[2] * y[0] * y[0]) * y[0]; f[2] = P[4]; }, nullptr, {.05, -2, .1, .1, .3}, {1, 2, 2, 1, 3}, 3},
	{"chua", 3, 4, [](const V& p) { return new ChuaCircuit(p[0], p[1], p[2], p[3]); }, [](const V& P, const L* y, L* f) { L x = y[0], g = x >= 1 ? P[3] * x + (P[2] - P[3]) : x <= -1 ? P[3] * x - (P[2] - P[3]) : P[2] * x; f[0] = P[0] * (y[1] - x - g); f[1] = x - y[1] + y[2]; f[2] = -P[1] * y[1]; }, nullptr, {8, 15, -1.3, -.8}, {16, 30, -1.1, -.6}, 3},
	{"henon-heiles", 4, 1, [](const V& p) { return new HenonHeilesSystem(p[0]); }, [](const V&, const L* y, L* f) { f[0] = y[2]; f[1] = y[3]; f[2] = -y[0] - 2 * y[0] * y[1]; f[3] = -y[1] - (y[0] * y[0] - y[1] * y[1]); }, [](const V&, const L* y) { return (y[2] * y[2] + y[3] * y[3]) / 2 + (y[0] * y[0] + y[1] * y[1]) / 2 + y[0] * y[0] * y[1] - y[1] * y[1] * y[1] / 3; }, {.01}, {.16}, .35},
	{"double-pendulum", 4, 5, [](const V& p) { return new DoublePendulumSystem(p[0], p[1], p[2], p[3], p[4]); }, [](const V& P, const L* y, L* f) { // Lagrange equations as a 2x2 mass-matrix solve
		L m1 = P[0], m2 = P[1], l1 = P[2], l2 = P[3], g = P[4], d = y[0] - y[1], a = (m1 + m2) * l1 * l1, b = m2 * l1 * l2 * cosl(d), e = m2 * l2 * l2;
		L r1 = -m2 * l1 * l2 * sinl(d) * y[3] * y[3] - (m1 + m2) * g * l1 * sinl(y[0]), r2 = m2 * l1 * l2 * sinl(d) * y[2] * y[2] - m2 * g * l2 * sinl(y[1]), D = a * e - b * b;
		f[0] = y[2]; f[1] = y[3]; f[2] = (r1 * e - b * r2) / D; f[3] = (a * r2 - b * r1) / D; }, [](const V& P, const L* y) { L x1 = P[2] * y[2] * cosl(y[0]), y1 = P[2] * y[2] * sinl(y[0]), x2 = x1 + P[3] * y[3] * cosl(y[1]), y2 = y1 + P[3] * y[3] * sinl(y[1]); return P[0] * (x1 * x1 + y1 * y1) / 2 + P[1] * (x2 * x2 + y2 * y2) / 2 - P[0] * P[4] * P[2] * cosl(y[0]) - P[1] * P[4] * (P[2] * cosl(y[0]) + P[3] * cosl(y[1])); }, {.5, .5, .5, .5, 1}, {3, 3, 2, 2, 15}, 2},
	};
	return E;
}
struct Draw { const Ent* e; V P, y; std::unique_ptr<IDynamicalSystem> s; };
static Draw draw(mon::Case& c, int k = -1) {
	Draw d; d.e = &ents()[k >= 0 ? k : c.r.i(0, (int)ents().size() - 1)]; for (int i = 0; i < d.e->p; i++) d.P.push_back(c.r.uni(d.e->lo[i], d.e->hi[i])); for (int i = 0; i < d.e->n; i++) d.y.push_back(c.r.uni(-d.e->box, d.e->box));
	d.s.reset(d.e->mk(d.P)); c.note(d.e->name); c.in("P", d.P); c.in("y", d.y); return d;
}
static Vector<Real> vec(const V& y) { Vector<Real> v((int)y.size()); for (size_t i = 0; i < y.size(); i++) v[(int)i] = y[i]; return v; }
// independent RK4 in long double
static void rk(const Ent& e, const V& P, std::vector<L>& y, L t, int N) { int n = e.n; L h = t / N, k1[4], k2[4], k3[4], k4[4], z[4]; for (int s = 0; s < N; s++) { e.rhs(P, y.data(), k1); for (int i = 0; i < n; i++) z[i] = y[i] + h / 2 * k1[i]; e.rhs(P, z, k2); for (int i = 0; i < n; i++) z[i] = y[i] + h / 2 * k2[i]; e.rhs(P, z, k3); for (int i = 0; i < n; i++) z[i] = y[i] + h * k3[i]; e.rhs(P, z, k4); for (int i = 0; i < n; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); } }
FAMILY(equations, 6000) {
	auto d = draw(c); auto& e = *d.e; int n = e.n; auto& s = *d.s; if (c.r.coin(.3)) { auto P2 = d.P; for (int i = 0; i < e.p; i++) { P2[i] = c.r.uni(e.lo[i], e.hi[i]); s.setParam(i, P2[i]); } d.P = P2; if (c.r.coin(.5)) { Vector<Real> q(e.p); for (int i = 0; i < e.p; i++) q[i] = d.P[i] = c.r.uni(e.lo[i], e.hi[i]); s.setParams(q); } c.ev("reparametrized"); }
	c.check(s.getDim() == n && s.getNumParam() == e.p, "dimensions"); auto ps = s.getParams(); for (int i = 0; i < e.p; i++) c.check(s.getParam(i) == d.P[i] && ps[i] == d.P[i], "parameter-readback");
	L y[4], f[4]; L sc = 1; for (int i = 0; i < n; i++) y[i] = d.y[i]; e.rhs(d.P, y, f); for (int i = 0; i < n; i++) sc = std::max(sc, sgn(f[i])); double pm = 1; for (double p : d.P) pm = std::max(pm, std::fabs(p)); sc *= pm * (1 + e.box);
	Vector<Real> x = vec(d.y), o(n); double t = c.r.uni(-5, 5); s.derivs(t, x, o); for (int i = 0; i < n; i++) c.close(o[i], (double)f[i], 1e-12 * (double)sc, "derivatives"); c.ev(e.name);
	Matrix<Real> J(n, n); s.jacobian(t, x, J); c.check(J.rows() == n && J.cols() == n, "jacobian-shape"); bool chua = std::string(e.name) == "chua"; if (chua && std::fabs(std::fabs(d.y[0]) - 1) < 1e-3) return;
	for (int j = 0; j < n; j++) { L h = 1e-4L, a[4], b[4], z[4], a2[4], b2[4]; std::copy(y, y + n, z); z[j] = y[j] + h; e.rhs(d.P, z, a); z[j] = y[j] - h; e.rhs(d.P, z, b); z[j] = y[j] + 2 * h; e.rhs(d.P, z, a2); z[j] = y[j] - 2 * h; e.rhs(d.P, z, b2);
		for (int i = 0; i < n; i++) { double want = (double)((8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * h)); c.close(J(i, j), want, (s.hasAnalyticalJacobian() ? 1e-9 : 1e-5) * (double)sc, "jacobian"); } }
	Matrix<Real> Jn(n, n); s.IDynamicalSystem::jacobian(t, x, Jn); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.close(Jn(i, j), J(i, j), 1e-5 * (double)sc, "numerical-jacobian"); c.ev("jacobian");
	if (e.inv) { c.check(s.getNumInvariants() == 1, "invariant-count"); c.close(s.computeInvariant(0, x), (double)e.inv(d.P, y), 1e-12 * (double)sc, "invariant-value"); }
	c.throws<MMLException>([&] { s.getParam(e.p); }, "parameter-index"); c.throws<MMLException>([&] { s.setParam(-1, 0); }, "parameter-index"); c.throws<MMLException>([&] { s.setParams(Vector<Real>(e.p + 1, 1.0)); }, "parameter-count");
}
FAMILY(conservation, 120) {
	auto d = draw(c, 5 + (c.idx & 1)); auto& e = *d.e; if (c.idx % 2 == 0) for (auto& v : d.y) v *= .5;
	auto tr = PhaseSpaceAnalyzer::IntegrateTrajectory(*d.s, vec(d.y), 4.0, 0.5, 0.0005); double E0 = d.s->computeInvariant(0, vec(d.y)), sc = 1 + std::fabs(E0); for (double p : d.P) sc *= std::max(1., p);
	for (auto& p : tr) c.close(d.s->computeInvariant(0, p), E0, 1e-6 * sc, "energy-drift"); c.ev("conserved", (long)tr.size()); (void)e;
}
FAMILY(trajectory, 400) {
	auto d = draw(c); auto& e = *d.e; double h = c.r.pick({.001, .002, .0005}), out = c.r.pick({.1, .05, .02, h, h / 3, .0375}), T = c.r.pick({.5, .3, 1., .77}); c.in("h", h); c.in("out", out); c.in("T", T); bool stiffish = std::string(e.name) == "double-pendulum"; if (stiffish) for (auto& v : d.y) v *= .4;
	auto tr = PhaseSpaceAnalyzer::IntegrateTrajectory(*d.s, vec(d.y), T, out, h); double step = std::max(out, h); int want = 1 + (int)std::floor(T / step + 1e-6); bool grid = std::fabs(out / h - std::round(out / h)) < 1e-6 || out <= h;
	if (!c.check(std::abs((int)tr.size() - want) <= (grid ? (out < h || std::fabs(T / h - std::round(T / h)) > 1e-6) : 2), "point-count", [&] { return std::to_string(tr.size()) + " want " + std::to_string(want); })) return;
	for (int i = 0; i < e.n; i++) c.check(tr[0][i] == d.y[i], "starts-at-start"); if (!grid) return; double big = 1; std::vector<L> y(d.y.begin(), d.y.end());
	for (size_t k = 1; k < tr.size() && k < 40; k++) { double t1 = std::min(T, k * step); rk(e, d.P, y, t1 - std::min(T, (k - 1) * step), std::max(1, (int)std::ceil(step / .0005))); for (int i = 0; i < e.n; i++) { big = std::max(big, std::fabs((double)y[i])); } if (big > 200) return; for (int i = 0; i < e.n; i++) c.close(tr[k][i], (double)y[i], 2e-4 * big, "point-on-trajectory"); c.ev("trajectory-point"); }
}
// polynomial/linear systems with chosen equilibria
struct Lin : IDynamicalSystem { Matrix<Real> A; Vector<Real> z; double q; int calls = 0; Lin(Matrix<Real> a, Vector<Real> zz, double qq) : A(a), z(zz), q(qq) {} int getDim() const override { return A.rows(); } int getNumParam() const override { return 1; } Real getParam(int) const override { return q; } void setParam(int, Real v) override { q = v; } Vector<Real> getParams() const override { return Vector<Real>(1, q); } void setParams(const Vector<Real>& p) override { q = p[0]; }
	void derivs(Real, const Vector<Real>& x, Vector<Real>& f) const override { int n = A.rows(); for (int i = 0; i < n; i++) { Real s = 0; for (int j = 0; j < n; j++) s += A(i, j) * (x[j] - z[j]); Real u = x[i] - z[i]; f[i] = s + q * u * u; } } };
static Matrix<Real> withEig(mon::Rng& r, const std::vector<std::complex<double>>& ev) { int n = (int)ev.size(); la::M D(n, n), S(n, n); for (int i = 0; i < n; i++) { if (ev[i].imag() > 0) { D(i, i) = D(i + 1, i + 1) = ev[i].real(); D(i, i + 1) = ev[i].imag(); D(i + 1, i) = -ev[i].imag(); i++; } else D(i, i) = ev[i].real(); }
	la::M Q(n, n); for (int i = 0; i < n; i++) Q(i, i) = 1; for (int k = 0; k < 3 * n; k++) { int a = r.i(0, n - 1), b = r.i(0, n - 1); if (a == b) continue; double t = r.uni(0, 6.28); for (int i = 0; i < n; i++) { L u = Q(i, a), v = Q(i, b); Q(i, a) = u * cosl(t) - v * sinl(t); Q(i, b) = u * sinl(t) + v * cosl(t); } }
	Matrix<Real> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { L s = 0; for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) s += Q(i, k) * D(k, l) * Q(j, l); A(i, j) = (double)s; } return A; }
FAMILY(fixed_points, 3000) {
	auto& r = c.r; int kind = r.i(0, 8), n = 0; std::vector<std::complex<double>> ev; auto pos = [&] { return r.uni(.3, 4); }; FixedPointType want = FixedPointType::Unknown; bool stable = false;
	auto pair = [&](double re) { double w = r.uni(.5, 5); ev.push_back({re, w}); ev.push_back({re, -w}); }; int extra = r.i(0, 2);
	switch (kind) {
	case 0: want = FixedPointType::StableNode; stable = true; for (int i = 0; i <= extra; i++) ev.push_back(-pos() - i * 4); break;
	case 1: want = FixedPointType::UnstableNode; for (int i = 0; i <= extra; i++) ev.push_back(pos() + i * 4); break;
	case 2: want = FixedPointType::Saddle; ev = {pos(), -pos()}; for (int i = 0; i < extra; i++) ev.push_back(r.uni(5, 9) * (r.coin(.5) ? 1 : -1) + (i ? 5 : 0)); break;
	case 3: want = FixedPointType::StableFocus; stable = true; pair(-pos()); for (int i = 0; i < extra; i++) ev.push_back(-pos()); if (ev.size() == 4 && r.coin(.5)) { ev.resize(2); pair(-pos()); } break;
	case 4: want = FixedPointType::UnstableFocus; pair(pos()); for (int i = 0; i < extra; i++) ev.push_back(pos()); break;
	case 5: want = FixedPointType::SaddleFocus; pair(pos() * (r.coin(.5) ? 1 : -1)); ev.push_back(ev[0].real() > 0 ? -pos() : pos()); break;
	case 6: want = FixedPointType::Center; pair(0); if (r.coin(.5)) pair(0); break;
	case 7: pair(0); ev.push_back(-pos()); want = FixedPointType::Unknown; c.ev("neutral-pair"); break;
	default: ev = {std::complex<double>(-pos()), std::complex<double>(-pos()), std::complex<double>(0)}; want = FixedPointType::Unknown; // singular
	}
	n = (int)ev.size(); auto A = withEig(r, ev); Vector<Real> z(n), g(n); double scale = r.pick({1., 1., 1e3, .05}); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A(i, j) *= scale; z[i] = r.uni(-3, 3); } double q = r.coin(.3) ? 0 : r.uni(-.2, .2) * scale; for (int i = 0; i < n; i++) g[i] = z[i] + r.uni(-.2, .2); if (kind == 8) g = z; if (kind == 8 || kind == 6 || kind == 7) q = 0;
	Lin s(A, z, q); c.note(ToString(want)); V av; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) av.push_back(A(i, j)); c.in("A", av); c.in("q", q); V gv; for (int i = 0; i < n; i++) gv.push_back(g[i]); c.in("guess", gv);
	double tol = r.pick({1e-8, 1e-10, 1e-6}); auto fp = FixedPointFinder::Find(s, g, tol); auto D = FindFixedPointDetailed(s, g, tol);
	Vector<Real> f(n); s.derivs(0, fp.location, f); double res = f.NormL2(); c.close(fp.convergenceResidual, res, 1e-12 * (res + 1e-3), "residual-is-of-location"); c.check((res < tol) == D.IsSuccess(), "status-matches-residual"); if (!(res < tol)) { c.check(!fp.isStable && fp.type == FixedPointType::Unknown, "failed-is-unclassified"); c.ev("not-converged"); return; }
	double dist = (fp.location - z).NormL2(); if (q == 0 && kind != 8) c.check(dist < 1e-4 * (1 + 1 / scale), "found-the-equilibrium", [&] { return mon::str(dist); });
	if (dist > 1e-3) { c.ev("other-equilibrium"); return; }
	if (!c.check((int)fp.eigenvalues.size() == n, "eigenvalue-count")) return; for (auto& e : ev) { double best = 1e300; for (auto& o : fp.eigenvalues) best = std::min(best, std::abs(o - e * scale)); c.close(best, 0, 2e-3 * scale + 1e-6, "eigenvalues"); }
	c.check(fp.type == want, "classification", [&] { return "got " + ToString(fp.type); }); c.check(fp.isStable == stable, "stability"); c.ev("classified"); c.ev(kind == 0 ? "t0" : kind == 1 ? "t1" : kind == 2 ? "t2" : kind == 3 ? "t3" : kind == 4 ? "t4" : kind == 5 ? "t5" : kind == 6 ? "t6" : kind == 7 ? "t7" : "t8");
}
FAMILY(known_equilibria, 800) {
	auto& r = c.r; double sg = r.uni(5, 15), rho = r.uni(1.5, 40), be = r.uni(.5, 4); c.in("P", V{sg, rho, be}); LorenzSystem s(sg, rho, be); double k = std::sqrt(be * (rho - 1)); std::vector<V> eq{{0, 0, 0}, {k, k, rho - 1}, {-k, -k, rho - 1}}; std::vector<Vector<Real>> guesses; for (auto& e : eq) for (int m = 0; m < 2; m++) { V g = e; for (auto& v : g) v += r.uni(-.05, .05) * (m + .1); guesses.push_back(vec(g)); }
	r.shuffle(guesses); auto all = FixedPointFinder::FindMultiple(s, guesses); c.check(all.size() == 3, "number", [&] { return std::to_string(all.size()); });
	for (auto& e : eq) { double best = 1e300; const FixedPoint<Real>* q = nullptr; for (auto& f : all) { double d = (f.location - vec(e)).NormL2(); if (d < best) best = d, q = &f; } if (!c.check(best < 1e-5, "location", [&] { return mon::str(best); })) continue; bool org = e[0] == 0;
		double crit = sg * (sg + be + 3) / (sg - be - 1); if (org) { c.check(!q->isStable && q->type == FixedPointType::Saddle, "origin-saddle"); } else if (std::fabs(rho / crit - 1) > .05 && sg > be + 1) { c.check(q->isStable == (rho < crit), "hopf"); c.ev(rho < crit ? "stable-branch" : "unstable-branch"); } }
	HenonHeilesSystem hh; auto box = DynamicalSystemAnalyzer<Real>(hh).FindFixedPointsInBox(Vector<Real>({-1.2, -1.2, -.1, -.1}), Vector<Real>({1.2, 1.2, .1, .1}), 3); double wanted[4][2] = {{0, 0}, {0, 1}, {std::sqrt(3) / 2, -.5}, {-std::sqrt(3) / 2, -.5}}; if (c.idx % 8 == 0) for (auto& w : wanted) { bool hit = false; for (auto& f : box) hit |= std::hypot(f.location[0] - w[0], f.location[1] - w[1]) < 1e-5; c.check(hit, "box-search"); c.ev("box-search"); }
}
FAMILY(lyapunov_linear, 150) { // started at an equilibrium the exponents are the real parts of the eigenvalues
	auto& r = c.r; int n = r.i(1, 4); std::vector<std::complex<double>> ev; while ((int)ev.size() < n) { if (n - ev.size() >= 2 && r.coin(.4)) { double re = r.uni(-2, 1), w = r.uni(.5, 3); ev.push_back({re, w}); ev.push_back({re, -w}); } else ev.push_back(r.uni(-2, 1)); }
	auto A = withEig(r, ev); Vector<Real> z(n, 0.5); Lin s(A, z, 0); V av; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) av.push_back(A(i, j)); c.in("A", av); double T = 150, dt = r.pick({1., .5, .3, .25}), h = r.pick({.01, .02}); c.in("dt", dt); auto R = LyapunovAnalyzer::Compute(s, z, T, dt, h);
	V w; double tr = 0; for (auto& e : ev) w.push_back(e.real()), tr += e.real(); std::sort(w.rbegin(), w.rend()); for (int i = 0; i < n; i++) c.close(R.exponents[i], w[i], .06, "exponents"); c.close(R.sum, tr, 1e-6, "sum-is-trace"); c.check(R.maxExponent == R.exponents[0] && R.totalTime == T, "fields"); c.check(R.numOrthonormalizations >= (int)(T / dt - 1) && R.numOrthonormalizations <= (int)(T / dt + 2), "orthonormalizations"); if (std::fabs(w[0]) > .1) c.check(R.isChaotic == (w[0] > 0), "positive-exponent-flag");
	double cs = 0; int j = 0; while (j < n && cs + R.exponents[j] >= 0) cs += R.exponents[j++]; double ky = j == n ? n : j == 0 ? 0 : j + cs / std::fabs(R.exponents[j]); c.close(R.kaplanYorkeDimension, ky, 1e-9, "kaplan-yorke"); c.ev("linear-exponents"); if (j > 0 && j < n) c.ev("fractional-ky");
}
FAMILY(lyapunov_flow, 60) {
	auto& r = c.r; int k = (int)(c.idx % 5); auto d = draw(c, k < 4 ? k : 4); auto& e = *d.e; if (k == 1) { d.P = {.2, .2, 5.7}; d.y = {1, 1, 0}; d.s.reset(e.mk(d.P)); } if (k == 4) { d.P = {15.6, 28, -1.143, -.714}; d.y = {.1, 0, 0}; d.s.reset(e.mk(d.P)); } double T = 30, h = .005; if (k == 2) h = .002; auto R = LyapunovAnalyzer::Compute(*d.s, vec(d.y), T, r.pick({.5, 1., .2}), h);
	std::vector<L> y(d.y.begin(), d.y.end()); L acc = 0; int N = (int)(T / h) ; auto dv = [&](const std::vector<L>& v) -> L { switch (k) { case 0: return -(d.P[0] + 1 + d.P[2]); case 1: return d.P[0] + v[0] - d.P[2]; case 2: return d.P[0] * (1 - v[0] * v[0]); case 3: return -d.P[0]; default: return d.P[0] * (-1 - (sgn(v[0]) > 1 ? d.P[3] : d.P[2])) - 1; } };
	bool chaotic = k == 1 || k == 4; for (int i = 0; i < N; i++) { L a = dv(y); auto y0 = y; std::vector<L> ym = y; rk(e, d.P, ym, h / 2, 1); rk(e, d.P, y, h, 1); acc += h / 6 * (a + 4 * dv(ym) + dv(y)); } double mean = (double)(acc / T); (void)chaotic;
	if (!std::isfinite(mean)) { c.trivial(); return; } c.close(R.sum, mean, (k == 0 || k == 3 ? 1e-5 : k == 4 ? .05 : 2e-3) * (1 + std::fabs(mean)), "sum-is-mean-divergence"); for (int i = 1; i < e.n; i++) c.check(R.exponents[i] <= R.exponents[i - 1], "descending"); if (k == 3) { double best = 1e9; for (int i = 0; i < 3; i++) best = std::min(best, std::fabs(R.exponents[i])); c.check(best < .2, "neutral-direction"); } c.ev("flow-exponents"); c.ev(e.name);
}
FAMILY(maps, 4000) {
	auto& r = c.r; double a = r.uni(-2, 4), b = r.uni(-1, 1), x = r.uni(-2, 2), y = r.uni(-2, 2); c.in("v", V{a, b, x, y}); Matrix<Real> J(2, 2); Vector<Real> v1(1, x), v2({x, y});
	{ LogisticMap m(a); c.close(m.iterate(v1)[0], a * x - a * x * x, 1e-13 * 20, "logistic"); m.jacobian(v1, J); c.close(J(0, 0), a - 2 * a * x, 1e-12, "logistic-jacobian"); m.setParam(0, 3.2); c.check(m.getParam(0) == 3.2, "logistic-param"); auto o = m.orbit(Vector<Real>(1, .3), 5); double t = .3; for (int i = 0; i < 5; i++) { t = 3.2 * t * (1 - t); c.close(o[i][0], t, 1e-12, "logistic-orbit"); } }
	{ HenonMap m(a, b); auto o = m.iterate(v2); c.close(o[0], 1 - a * x * x + y, 1e-12, "henon"); c.close(o[1], b * x, 1e-13, "henon"); m.jacobian(v2, J); c.check(J(0, 0) == -2 * a * x && J(0, 1) == 1 && J(1, 0) == b && J(1, 1) == 0, "henon-jacobian"); c.close(m.jacobianDeterminant(), J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0), 1e-15, "henon-determinant"); auto orb = m.orbit(v2, 3); auto w = v2; for (int i = 0; i < 3; i++) { w = Vector<Real>({1 - a * w[0] * w[0] + w[1], b * w[0]}); double s = 1 + std::fabs(w[0]) * std::fabs(w[0]); if (s < 1e6) { c.close(orb[i][0], w[0], 1e-9 * s, "henon-orbit"); c.close(orb[i][1], w[1], 1e-9 * s, "henon-orbit"); } } }
	{ StandardMap m(a); double p = r.uni(0, 2 * M_PI), th = r.uni(0, 2 * M_PI); Vector<Real> s({p, th}); auto o = m.iterate(s); c.check(o[0] >= 0 && o[0] < 2 * M_PI + 1e-12 && o[1] >= 0 && o[1] < 2 * M_PI + 1e-12, "standard-range"); double p2 = p + a * std::sin(th), t2 = th + p2; c.close(std::remainder(o[0] - p2, 2 * M_PI), 0, 1e-12, "standard"); c.close(std::remainder(o[1] - t2, 2 * M_PI), 0, 1e-12, "standard"); m.jacobian(s, J); double co = a * std::cos(th); c.close(J(0, 0), 1, 1e-15, "standard-jacobian"); c.close(J(0, 1), co, 1e-13, "standard-jacobian"); c.close(J(1, 0), 1, 1e-15, "standard-jacobian"); c.close(J(1, 1), 1 + co, 1e-13, "standard-jacobian"); c.close(J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0), 1, 1e-13, "area"); }
	{ TentMap m(a); c.close(m.iterate(v1)[0], x < .5 ? a * x : a * (1 - x), 1e-13, "tent"); if (std::fabs(x - .5) > 1e-9) { m.jacobian(v1, J); c.check(J(0, 0) == (x < .5 ? a : -a), "tent-jacobian"); } }
	c.ev("map-step");
}
FAMILY(map_exponents, 60) {
	auto& r = c.r; int k = (int)(c.idx % 5);
	if (k == 0) { double mu = r.uni(.5, 1.95); c.in("mu", mu); TentMap m(mu); auto R = DiscreteMapLyapunov<1>::Compute(m, Vector<Real>(1, r.uni(.1, .4)), 500, 10); c.close(R.maxExponent, std::log(mu), 1e-9, "tent"); c.check(R.isChaotic == (R.maxExponent > 0.01), "flag"); c.close(m.analyticalLyapunov(), std::log(mu), 1e-12, "tent-closed-form"); }
	if (k == 1) { LogisticMap m(4.0); auto R = DiscreteMapLyapunov<1>::Compute(m, Vector<Real>(1, r.uni(.1, .4)), 40000, 100); c.close(R.maxExponent, std::log(2.), .02, "logistic-4"); c.check(R.isChaotic, "logistic-4-chaotic"); c.close(m.analyticalLyapunov(), std::log(2.), 1e-12, "logistic-closed-form"); }
	if (k == 2) { double rr = r.uni(1.2, 2.95); c.in("r", rr); LogisticMap m(rr); auto R = DiscreteMapLyapunov<1>::Compute(m, Vector<Real>(1, .3), 2000, 2000); double w = std::log(std::fabs(2 - rr)); if (w > -8) c.close(R.maxExponent, w, 2e-2, "logistic-fixed-point"); c.check(!R.isChaotic, "logistic-regular"); }
	if (k == 3) { double a = r.uni(1.0, 1.3), b = r.uni(.1, .3) * (r.coin(.5) ? 1 : -1); if (b < 0) a = .9; c.in("ab", V{a, b}); HenonMap m(a, b); auto R = DiscreteMapLyapunov<2>::Compute(m, Vector<Real>({.1, .1}), 4000, 500); double s = R.exponents[0] + R.exponents[1]; if (!std::isfinite(s)) { c.trivial(); return; } c.close(s, std::log(std::fabs(b)), 1e-6, "henon-sum"); c.check(R.exponents[0] >= R.exponents[1] && R.maxExponent == R.exponents[0], "descending"); if (b > 0 && r.coin(.3)) { HenonMap q; auto S = DiscreteMapLyapunov<2>::Compute(q, Vector<Real>({.1, .1}), 20000, 500); c.close(S.maxExponent, .419, .02, "henon-classic"); c.ev("henon-classic"); } HenonMap z(a, 0); auto Z = DiscreteMapLyapunov<2>::Compute(z, Vector<Real>({.1, .1}), 100, 10); c.check(Z.exponents[1] < -1e3 && std::isfinite(Z.exponents[0]), "collapsed-direction", [&] { return mon::str(Z.exponents[1]); }); c.ev("collapsed"); }
	if (k == 4) { double K = r.uni(0, 6); c.in("K", K); StandardMap m(K); auto R = DiscreteMapLyapunov<2>::Compute(m, Vector<Real>({r.uni(0, 6), r.uni(0, 6)}), 3000, 10); c.close(R.exponents[0] + R.exponents[1], 0, 1e-6, "standard-sum"); c.check(R.exponents[0] >= R.exponents[1], "descending"); }
	c.ev("map-exponents");
}
FAMILY(poincare, 40) {
	auto& r = c.r; int mode = (int)(c.idx % 4); double w = r.uni(.5, 2), h = r.pick({.01, .005, .02}); c.in("w", w); c.in("h", h); c.in("mode", (double)mode);
	if (mode < 2) { // harmonic oscillator x'' = -w^2 x: section v = 0 or x = x0 known in closed form
		Matrix<Real> A(2, 2); A(0, 0) = 0; A(0, 1) = 1; A(1, 0) = -w * w; A(1, 1) = 0; Vector<Real> z(2, 0.0), x0({r.uni(.5, 2), r.uni(-1, 1)}); Lin s(A, z, 0); double amp = std::hypot(x0[0], x0[1] / w); int var = r.i(0, 1), dir = r.i(-1, 1); double val = mode ? 0 : r.uni(-.6, .6) * amp * (var ? w : 1); PoincareSection<Real> sec(var, val, dir); int N = r.i(1, 20);
		auto P = PhaseSpaceAnalyzer::ComputePoincareSection(s, x0, sec, N, h); c.check((int)P.size() == N, "count"); int last = 0; for (auto& p : P) { c.close(p[var], val, 1e-12 * (1 + amp), "on-section"); double E = std::hypot(p[0], p[1] / w); c.close(E, amp, 2e-3 * amp, "on-orbit"); double rate = var == 0 ? p[1] : -w * w * p[0]; int sg = rate > 0 ? 1 : -1; if (dir) c.check(sg == dir, "direction"); else { if (last) c.check(sg == -last, "alternates"); last = sg; } c.ev("section-point"); }
		auto D = ComputePoincareSectionDetailed(s, x0, sec, N, h); c.check(D.IsSuccess() && (int)D.intersections.size() == N, "detailed"); }
	else if (mode == 2) { // trajectory that never returns: must stop and say so
		Matrix<Real> A(1, 1); A(0, 0) = r.coin(.5) ? -.3 : 1; Lin s(A, Vector<Real>(1, 0.0), 0); auto D = ComputePoincareSectionDetailed(s, Vector<Real>(1, 1.0), PoincareSection<Real>(0, r.pick({5., -1.}), r.i(-1, 1)), 3, h); c.check(!D.IsSuccess(), "no-crossing-reported"); for (auto& p : D.intersections) c.check(std::isfinite(p[0]), "finite"); c.ev("no-crossing"); }
	else { // steps that land exactly on the section: x' = 1 on a dyadic grid, sawtooth in y
		struct Saw : Lin { using Lin::Lin; int getDim() const override { return 2; } void derivs(Real, const Vector<Real>& x, Vector<Real>& f) const override { f[1] = 1; f[0] = std::fmod(x[1], 2.) < 1 ? 1 : -1; } }; Matrix<Real> I(2, 2); Saw s(I, Vector<Real>(2, 0.0), 0); auto P = ComputePoincareSectionDetailed(s, Vector<Real>({0, 0}), PoincareSection<Real>(0, .5, 1), 5, 1. / 64); c.check(P.IsSuccess() && P.intersections.size() == 5, "exact-hit"); if (P.intersections.size() == 5) for (int i = 1; i < 5; i++) c.close(P.intersections[i][1] - P.intersections[i - 1][1], 2, .1, "every-crossing"); c.ev("exact-hit"); }
}
FAMILY(bifurcation, 60) {
	auto& r = c.r; int n = r.pick({1, 1, 2, 3, 5}); double a = r.uni(.5, 1.5), b = a + r.uni(.1, 1); c.in("n", (double)n); VanDerPolSystem s(2.5); auto D = BifurcationAnalyzer::Sweep(s, 0, a, b, n, Vector<Real>({.5, 0}), 0, 40, 20, .01); c.check(s.getParam(0) == 2.5, "restored"); c.check((int)D.parameterValues.size() == n && (int)D.attractorValues.size() == n && D.parameterName == "mu", "size");
	for (int i = 0; i < n && i < (int)D.parameterValues.size(); i++) { c.close(D.parameterValues[i], n == 1 ? a : a + (b - a) * i / (n - 1), 1e-12, "parameter"); c.check(!D.attractorValues[i].empty(), "recorded"); for (double m : D.attractorValues[i]) c.check(m > 1.98 && m < 2.04, "limit-cycle-amplitude", [&] { return mon::str(m); }); c.ev("amplitude", (long)D.attractorValues[i].size()); } if (n == 1) c.ev("single-step");
	struct Bomb : VanDerPolSystem { mutable int k = 0; void derivs(Real t, const Vector<Real>& y, Vector<Real>& f) const override { if (++k > 500) throw std::runtime_error("boom"); VanDerPolSystem::derivs(t, y, f); } }; Bomb B; B.setParam(0, 1.25); bool threw = false; try { BifurcationAnalyzer::Sweep(B, 0, 0, 1, 3, Vector<Real>({.5, 0}), 0, 10, 5, .01); } catch (const std::runtime_error&) { threw = true; } c.check(threw && B.getParam(0) == 1.25, "restored-on-exception"); DynSysConfig cfg; cfg.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; B.k = 0; auto R = SweepBifurcationDetailed(B, 0, 0, 1, 3, Vector<Real>({.5, 0}), 0, 10, 5, .01, cfg); c.check(!R.IsSuccess() && R.error_message.find("boom") != std::string::npos && B.getParam(0) == 1.25, "status-on-exception");
	if (c.idx % 4 == 0) { int m = r.i(1, 3); auto S = DynamicalSystemAnalyzer<Real>(s).ScanChaosVsParameter(0, a, b, m, Vector<Real>({.5, 0}), 20); c.check((int)S.size() == m && s.getParam(0) == 2.5, "scan"); for (int i = 0; i < (int)S.size(); i++) { c.close(S[i].first, m == 1 ? a : a + (b - a) * i / (m - 1), 1e-12, "scan-parameter"); VanDerPolSystem q(S[i].first); auto L1 = LyapunovAnalyzer::Compute(q, Vector<Real>({.5, 0}), 20); c.close(S[i].second, L1.maxExponent, 1e-12, "scan-exponent"); } c.ev("scan"); }
}
FAMILY(report, 16) {
	auto d = draw(c, (int)(c.idx % 3)); if (c.idx % 3 == 1) { d.P = {.2, .2, 5.7}; d.y = {1, 1, 0}; d.s.reset(d.e->mk(d.P)); } auto R = DynamicalSystemAnalyzer<Real>(*d.s).Analyze(vec(d.y), {}, 20); c.check(R.dimension == d.e->n && R.numParameters == d.e->p && (int)R.stateNames.size() == d.e->n, "fields"); for (int i = 0; i < d.e->p; i++) c.check(R.currentParams[i] == d.P[i], "params"); int st = 0; for (auto& f : R.fixedPoints) { st += f.isStable; Vector<Real> o(d.e->n); d.s->derivs(0, f.location, o); c.check(o.NormL2() < 1e-9, "fixed-point-residual"); } c.check(R.numStableFixedPoints == st && R.numStableFixedPoints + R.numUnstableFixedPoints + R.numSaddlePoints == (int)R.fixedPoints.size(), "tally"); c.check(R.isDissipative == (R.lyapunov.sum < -1e-6), "dissipative"); if (R.lyapunov.maxExponent > 1e-8) c.close(R.lyapunovTime * R.lyapunov.maxExponent, 1, 1e-9, "lyapunov-time"); c.check(R.summary.find("Dimension: " + std::to_string(d.e->n)) != std::string::npos, "summary"); c.ev("report");
}
FAMILY(rejects, 40) { LorenzSystem s; Vector<Real> x({1, 1, 1}); for (double h : {0., -1., (double)NAN}) { c.throws<MMLException>([&] { LyapunovAnalyzer::Compute(s, x, 1, 1, h); }, "lyapunov-step"); c.throws<MMLException>([&] { LyapunovAnalyzer::Compute(s, x, 1, h, .01); }, "lyapunov-interval"); c.throws<MMLException>([&] { PhaseSpaceAnalyzer::IntegrateTrajectory(s, x, 1, .1, h); }, "trajectory-step"); c.throws<MMLException>([&] { PhaseSpaceAnalyzer::ComputePoincareSection(s, x, PoincareSection<Real>(0, 0), 2, h); }, "section-step"); } c.throws<MMLException>([&] { PhaseSpaceAnalyzer::ComputePoincareSection(s, x, PoincareSection<Real>(3, 0), 2, .01); }, "section-variable"); c.throws<MMLException>([&] { BifurcationAnalyzer::Sweep(s, 3, 0, 1, 2, x, 0, 1, 1); }, "sweep-parameter"); c.throws<MMLException>([&] { BifurcationAnalyzer::Sweep(s, 0, 0, 1, 2, x, 3, 1, 1); }, "sweep-component"); c.ev("reject"); }
MON_MAIN()
