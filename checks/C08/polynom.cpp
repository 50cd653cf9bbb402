// C08: polynomial ring and division laws against an exact integer coefficient model.
#include "mon.h"
#include "base/Polynom.h"
#include "base/ChebyshevPolynom.h"
using namespace MML; using mon::Case; typedef long double LD; typedef __int128 I;
typedef std::vector<long> P; // exact model, coefficient i of x^i
static P trim(P a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
static P add(const P& a, const P& b, long s = 1) { P r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); i++) r[i] += a[i]; for (size_t i = 0; i < b.size(); i++) r[i] += s * b[i]; return r; }
static P mul(const P& a, const P& b) { if (a.empty() || b.empty()) return P(); P r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static long ev(const P& a, long x) { long r = 0, p = 1; for (size_t i = 0; i < a.size(); i++) { r += a[i] * p; if (i + 1 < a.size()) p *= x; } return r; }
template<class T> static T cv(long v) { return T(v); }
template<class PT, class T> static PT mk(const P& a) { std::vector<T> v(a.begin(), a.end()); return PT(v); }
template<class PT> static bool same(const PT& p, const P& w) { int n = std::max((int)w.size(), p.degree() + 1); for (int i = 0; i < n; i++) if (!(p.coeff(i) == cv<std::decay_t<decltype(p.coeff(0))>>(i < (int)w.size() ? w[i] : 0))) return false; return true; }
static P rnd(Case& c, int maxd, int m, const char* nm) { int d = c.r.i(-1, maxd); P a(d + 1); for (auto& v : a) v = c.r.coin(0.25) ? 0 : c.r.i(-m, m); if (d >= 0 && c.r.coin(0.2)) a.back() = 0; c.in(nm, std::vector<double>(a.begin(), a.end())); return a; }

template<class PT, class T> static void ring(Case& c, const std::string& k, bool derivs) {
	P a = rnd(c, 6, 9, "a"), b = rnd(c, 6, 9, "b"), d = rnd(c, 4, 9, "d"); if (c.r.coin(0.3)) { b.resize(a.size()); for (size_t i = a.size() / 2; i < a.size(); i++) b[i] = c.r.coin() ? -a[i] : a[i]; } long s = c.r.i(-5, 5);
	PT A = mk<PT, T>(a), B = mk<PT, T>(b), D = mk<PT, T>(d); const PT A0 = A, B0 = B;
	c.check(same(A + B, add(a, b)), k + ":add"); c.check(same(A - B, add(a, b, -1)), k + ":sub"); c.check(same(-A, add(P(), a, -1)), k + ":neg"); c.check(same(A * B, mul(a, b)), k + ":mul"); c.check(same((A + B) * D, mul(add(a, b), d)), k + ":distributive"); c.check(same(A * B * D, mul(mul(a, b), d)), k + ":assoc");
	T S = cv<T>(s); P sp{s}; c.check(same(A * S, mul(a, sp)), k + ":scale"); c.check(same(S * A, mul(a, sp)), k + ":lscale"); c.check(same(A + S, add(a, sp)), k + ":add-scalar"); c.check(same(S + A, add(a, sp)), k + ":scalar-add"); c.check(same(A - S, add(a, sp, -1)), k + ":sub-scalar"); c.check(same(S - A, add(sp, a, -1)), k + ":scalar-sub"); if (s) c.check(same((A * S) / S, a), k + ":div-scalar");
	c.check(A.degree() == (int)a.size() - 1, k + ":degree"); c.check(A.isNull() == a.empty(), k + ":isNull"); c.check(A.leadingTerm() == cv<T>(a.empty() ? 0 : a.back()), k + ":leading"); c.check(A.constantTerm() == cv<T>(a.empty() ? 0 : a[0]), k + ":constant"); c.check(A.coeff(-1) == T(0) && A.coeff(99) == T(0), k + ":coeff-outside"); PT R = A; R.Reduce(); c.check(R.degree() == (int)trim(a).size() - 1 && same(R, a), k + ":reduce"); { PT W = A - A; W.Reduce(); c.check(W.isNull(), k + ":cancel-to-null"); }
	c.check((A == B) == (trim(a) == trim(b)) && (A != B) == (trim(a) != trim(b)), k + ":equality"); c.check(A == A0 && B == B0 && A.degree() == A0.degree(), k + ":operands-unchanged"); if (a.size() == b.size()) c.ev("same_length_pairs"); if (trim(a) == trim(b)) c.ev("equal_pairs");
	for (long x = -3; x <= 3; x++) { c.check(A(cv<T>(x)) == cv<T>(ev(a, x)), k + ":eval"); c.check(A.eval(cv<T>(x)) == cv<T>(ev(a, x)), k + ":eval2"); c.check((A * B)(cv<T>(x)) == cv<T>(ev(a, x) * ev(b, x)), k + ":eval-homomorphism"); }
	{ P da(a.size() > 1 ? a.size() - 1 : 0); for (size_t i = 1; i < a.size(); i++) da[i - 1] = a[i] * (long)i; c.check(same(A.derivative(), da), k + ":derivative"); if (derivs) { PT In = A.integral(); c.check(In.constantTerm() == T(0), k + ":integral-constant"); PT bk = In.derivative(); bool ok = bk.degree() == A.degree() || a.size() <= 1; for (size_t i = 0; i < a.size(); i++) ok = ok && std::abs(bk.coeff((int)i) - A.coeff((int)i)) < 1e-13 * 10; c.check(ok, k + ":integral-derivative"); for (size_t i = 0; i < a.size(); i++) c.check(std::abs(In.coeff((int)i + 1) * cv<T>((long)i + 1) - cv<T>(a[i])) < 1e-13, k + ":integral-coefficient"); } }
	c.ev("ring_cases");
}
FAMILY(ring_real, 1500) { ring<PolynomReal, Real>(c, "real", true); }
FAMILY(ring_complex, 700) { ring<PolynomComplex, Complex>(c, "complex", true); }
FAMILY(ring_int, 700) { ring<Polynom<long>, long>(c, "int", false); }
FAMILY(complex_coeffs, 800) { // genuinely complex coefficients against component-wise integers
	auto g = [&](int d) { std::vector<Complex> v(d + 1); for (auto& z : v) z = Complex(c.r.i(-5, 5), c.r.i(-5, 5)); return v; }; auto a = g((int)c.r.sz(0, 5, 9)), b = g((int)c.r.sz(0, 5, 9)); PolynomComplex A(a), B(b), M = A * B; c.in("na", (int)a.size()); std::vector<Complex> w(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) w[i + j] += Complex(a[i].real() * b[j].real() - a[i].imag() * b[j].imag(), a[i].real() * b[j].imag() + a[i].imag() * b[j].real()); bool ok = M.degree() == (int)w.size() - 1; for (size_t i = 0; ok && i < w.size(); i++) ok = M[(int)i] == w[i]; c.check(ok, "mul");
	Complex z(c.r.i(-2, 2), c.r.i(-2, 2)), s = 0, p = 1; for (auto& x : a) { s += x * p; p *= z; } c.check(std::abs(A(z) - s) < 1e-9, "eval"); PolynomComplex q, r; if (b.back() != 0.0) { PolynomComplex::poldiv(M, B, q, r); bool e = true; for (int i = 0; i < (int)a.size(); i++) e = e && std::abs(q.coeff(i) - a[i]) < 1e-6 * std::pow(12, a.size()); c.check(e || std::abs(b.back()) < 1, "div"); }
	std::vector<Real> rc(a.size()); for (size_t i = 0; i < a.size(); i++) rc[i] = a[i].real(); PolynomComplexRealCoef RC(rc); Complex t = 0; p = 1; for (auto x : rc) { t += x * p; p *= z; } c.check(std::abs(RC(z) - t) < 1e-9, "real-coeff-eval"); c.ev("complex_cases");
}
FAMILY(division, 2500) { // exact: divisor with leading coefficient +-1 or power of two
	P v = rnd(c, 5, 6, "v"); P tv = trim(v); PolynomReal V = mk<PolynomReal, Real>(v), q{7.0, 7.0, 7.0}, r{9.0};
	if (tv.empty()) { P u = rnd(c, 5, 6, "u"); c.throws<DivisionByZeroError>([&] { PolynomReal::poldiv(mk<PolynomReal, Real>(u), V, q, r); }, "by-zero"); return; }
	v[tv.size() - 1] = c.r.pick({1, -1, 2, -4}); V = mk<PolynomReal, Real>(v); tv = trim(v); bool built = c.r.coin(); P u, qq, rr; if (built) { qq = rnd(c, 5, 9, "q"); rr = rnd(c, std::max(-1, (int)tv.size() - 2), 9, "r"); u = add(mul(qq, tv), rr); } else u = rnd(c, 8, 9, "u"); c.in("v", std::vector<double>(v.begin(), v.end())); c.in("u", std::vector<double>(u.begin(), u.end()));
	PolynomReal U = mk<PolynomReal, Real>(u); const PolynomReal U0 = U, V0 = V; int al = c.r.i(0, 4); PolynomReal *pq = &q, *pr = &r; PolynomReal Uc = U, Vc = V; if (al == 1) { PolynomReal::poldiv(Uc, V, Uc, r); pq = &Uc; c.ev("aliased"); } else if (al == 2) { PolynomReal::poldiv(U, Vc, q, Vc); pr = &Vc; c.ev("aliased"); } else PolynomReal::poldiv(U, V, q, r); PolynomReal Q = *pq, R = *pr;
	PolynomReal back = Q * V0 + R; c.check(back == U0, "dividend=quotient*divisor+remainder"); PolynomReal Rr = R; Rr.Reduce(); c.check(Rr.degree() < (int)tv.size() - 1 || Rr.isNull(), "remainder-degree"); if (al == 0) c.check(U == U0 && V == V0, "operands-unchanged"); if (built) { c.check(same(Q, qq), "quotient"); c.check(same(R, rr), "remainder"); } c.check(Q.isNull() || Q.leadingTerm() != 0, "quotient-exact-size"); c.ev((int)trim(u).size() < (int)tv.size() ? "small_dividend" : "divisions");
}
FAMILY(fromvalues, 800) {
	int n = c.r.i(1, 7); P a(n); for (auto& v : a) v = c.r.i(-9, 9); std::vector<long> xs; while ((int)xs.size() < n) { long x = c.r.i(-5, 5); if (std::find(xs.begin(), xs.end(), x) == xs.end()) xs.push_back(x); } std::vector<Real> X(xs.begin(), xs.end()), Y; for (auto x : xs) Y.push_back(ev(a, x)); c.in("x", X); c.in("y", Y);
	PolynomReal p = PolynomReal::FromValues(X, Y); double big = 0; for (auto y : Y) big = std::max(big, std::fabs(y)); for (int i = 0; i < n; i++) { c.close(p.coeff(i), a[i], 1e-11L * (1 + big), "coefficient"); c.close(p(X[i]), Y[i], 1e-9L * (1 + big), "node"); } c.ev("interpolations"); if (n > 1) { auto X2 = X; X2[n - 1] = X2[c.r.i(0, n - 2)]; c.throws<ArgumentError>([&] { PolynomReal::FromValues(X2, Y); }, "duplicate"); } auto Y2 = Y; Y2.push_back(1); c.throws<ArgumentError>([&] { PolynomReal::FromValues(X, Y2); }, "sizes"); c.throws<ArgumentError>([&] { PolynomReal::FromValues({}, {}); }, "empty");
}
FAMILY(taylor, 1000) { // all derivatives at a point
	P a = rnd(c, 6, 9, "a"); PolynomReal A = mk<PolynomReal, Real>(a); int nd = (int)c.r.sz(0, 8, 20); long x = c.r.i(-3, 3); c.in("nd", nd); c.in("x", (double)x); Vector<Real> pd(nd + 1, 77.0); A.Derive((Real)x, pd); P d = a; for (int k = 0; k <= nd; k++) { c.check(pd[k] == (Real)ev(d, x), "derivative-" + std::to_string(std::min(k, 3))); P n(d.size() > 1 ? d.size() - 1 : 0); for (size_t i = 1; i < d.size(); i++) n[i - 1] = d[i] * (long)i; d = n; } c.ev("taylor");
	PolynomRealFunc F(std::vector<Real>(a.begin(), a.end())); const IRealFunction& f = F; c.check(f((Real)x) == (Real)ev(a, x), "as-function");
	auto z = PolynomReal::Zero(); c.check(z(3.0) == 0 && z.degree() == 0, "Zero"); int m = c.r.i(0, 6); auto mo = PolynomReal::Monomial(m); P mp(m + 1, 0); mp[m] = 1; c.check(same(mo, mp) && mo.degree() == m, "Monomial"); auto co = PolynomReal::Constant(2.5); c.check(co(9.0) == 2.5, "Constant"); auto li = PolynomReal::Linear(3.0, -2.0); c.check(li(2.0) == 4.0, "Linear");
	PolynomReal B = A; double e = 1e-6; if (!a.empty()) { int i = c.r.i(0, (int)a.size() - 1); B[i] += 3 * e; c.check(!A.IsEqualTo(B, e), "IsEqualTo-no"); B[i] -= 2.5 * e; c.check(A.IsEqualTo(B, e), "IsEqualTo-yes"); PolynomReal L = A; L.SetDegree((int)a.size() + 2); c.check(L == A, "SetDegree-pads"); L[(int)a.size() + 2] = e / 4; L.Reduce(e); c.check(L.degree() <= A.degree() && same(L, a), "Reduce-eps"); }
	std::string s = A.to_string(); c.check(!s.empty(), "to_string"); // parse the printed polynomial back
	P back; { std::istringstream is(s); std::vector<double> co2(20, 0); double sg = 1; std::string t; while (is >> t) { if (t == "+") { sg = 1; continue; } if (t == "-") { sg = -1; continue; } double v = 1, g = sg; size_t p = 0; if (t[0] == '-') { g = -g; p = 1; } if (p < t.size() && (isdigit(t[p]) || t[p] == '.')) { size_t u = 0; v = std::stod(t.substr(p), &u); p += u; } int ex = 0; if (p < t.size() && t[p] == 'x') { ex = 1; if (p + 1 < t.size() && t[p + 1] == '^') ex = std::stoi(t.substr(p + 2)); } co2[ex] += g * v; sg = 1; } bool ok = true; for (int i = 0; i < 20; i++) ok = ok && co2[i] == (double)(i < (int)a.size() ? a[i] : 0); c.check(ok, "print-parse-back", s); }
}
FAMILY(chebyshev, 800) {
	int n = c.r.i(0, 30); double x = c.r.coin(0.3) ? c.r.pick({-1.0, 1.0, 0.0, 0.5}) : c.r.uni(-1, 1); c.in("n", n); c.in("x", x); LD th = acosl(x); c.close(ChebyshevT(n, x), cosl(n * th), 1e-13L * (n + 1) * (n + 1), "T"); LD st = sinl(th); LD u = fabsl(st) < 1e-9L ? (x > 0 ? n + 1 : (n % 2 ? -(n + 1.0L) : n + 1.0L)) : sinl((n + 1) * th) / st; c.close(ChebyshevU(n, x), u, 1e-13L * (n + 1) * (n + 1) * (n + 1), "U"); double y = c.r.uni(1, 2); LD ch = coshl(n * acoshl((LD)y)); c.close(ChebyshevT(n, y), ch, 1e-12L * (n + 1) * ch, "T-outside"); c.throws<ArgumentError>([&] { ChebyshevT(-1 - c.r.i(0, 5), x); }, "T-negative"); c.throws<ArgumentError>([&] { ChebyshevU(-1, x); }, "U-negative"); c.ev("chebyshev");
}
MON_MAIN()
