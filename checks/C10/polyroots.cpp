// C10: polynomial root solvers. Oracle: returned roots multiplied out in long double reproduce the polynomial.
#include "mon.h"
#include "mml/algorithms/RootFinding.h"
using namespace MML; using namespace MML::RootFinding;
typedef long double L; typedef std::complex<long double> CL;

static std::vector<CL> expand(const std::vector<CL>& roots) { std::vector<CL> p{CL(1)}; for (auto& r : roots) { std::vector<CL> q(p.size() + 1, CL(0)); for (size_t i = 0; i < p.size(); i++) { q[i + 1] += p[i]; q[i] -= p[i] * r; } p = q; } return p; }
static L rho(const std::vector<double>& a) { int n = (int)a.size() - 1; L m = 0; for (int k = 1; k <= n; k++) m = std::max(m, std::pow(std::fabs((L)a[n - k] / a[n]), 1.0L / k)); return m; }
// scaled backward error: max_k |c_k - a_k/a_n| / rho^(n-k)
static double backward(const std::vector<double>& a, const std::vector<CL>& roots) {
  int n = (int)a.size() - 1; if ((int)roots.size() != n) return INFINITY; L r = rho(a); auto p = expand(roots); double e = 0;
  for (int k = 0; k < n; k++) { L s = r > 0 ? std::pow(r, (L)(n - k)) : 1; L d = std::abs(p[k] - CL((L)a[k] / a[n])) / s; if (!(d == d)) return INFINITY; e = std::max(e, (double)d); }
  return e;
}
static bool conjClosed(std::vector<CL> r, L tol) { L m = 0; for (auto& x : r) m = std::max(m, std::abs(x)); while (!r.empty()) { CL x = r.back(); r.pop_back(); size_t best = r.size(); L bd = 0; for (size_t i = 0; i < r.size(); i++) { L d = std::abs(r[i] - std::conj(x)); if (best == r.size() || d < bd) { best = i; bd = d; } } if (2 * std::fabs(x.imag()) <= tol * m && (best == r.size() || bd > 2 * std::fabs(x.imag()))) continue; if (best == r.size() || bd > tol * m) { if (2 * std::fabs(x.imag()) <= tol * m) continue; return false; } r.erase(r.begin() + best); } return true; }

// random real polynomial of degree n; kinds: integer coefficients, given roots (simple, clustered, multiple, scaled), gaussian
static std::vector<double> rpoly(mon::Ctx& c, int n, int& kind, std::vector<CL>* truth = nullptr, double* spread = nullptr) {
  auto& r = c.r; kind = (int)r.i(0, 5); std::vector<double> a(n + 1); double sp = 1;
  if (kind == 0) { for (auto& x : a) x = r.coin(.25) ? 0 : (double)r.i(-12, 12); while (a[n] == 0) a[n] = (double)r.i(-12, 12); }
  else if (kind == 1) { for (auto& x : a) x = r.normal(); if (std::fabs(a[n]) < 1e-3) a[n] = 1; }
  else {
    std::vector<CL> rt; double sc = kind == 3 ? std::pow(10.0, r.uni(-8, 8)) : 1; bool ints = r.coin(.5);
    while ((int)rt.size() < n) {
      int left = n - (int)rt.size();
      double re = ints ? (double)r.i(-5, 5) : r.uni(-3, 3), im = ints ? (double)r.i(1, 4) : r.uni(0.1, 3);
      if (kind == 5) { double g = std::pow(10.0, r.uni(-2, 2)); re *= g; im *= g; }
      int mult = kind == 4 ? (int)r.i(1, 3) : 1;
      if (left >= 2 && r.coin(.5)) { for (int k = 0; k < mult && (int)rt.size() + 2 <= n; k++) { if (r.coin(.15)) re = 0; rt.push_back(CL(re, im) * (L)sc); rt.push_back(CL(re, -im) * (L)sc); } }
      else for (int k = 0; k < mult && (int)rt.size() < n; k++) rt.push_back(CL(re) * (L)sc);
    }
    auto p = expand(rt); double lead = std::pow(10.0, r.coin(.5) ? 0 : r.uni(-14, 14)); if (r.coin()) lead = -lead;
    for (int i = 0; i <= n; i++) a[i] = (double)(p[i].real() * lead); if (truth) *truth = rt;
  }
  double k = r.coin(.7) ? 1 : std::pow(10.0, r.uni(-20, 20)); for (auto& x : a) x *= k;
  if (spread) *spread = sp;
  return a;
}
static CL cl(const Complex& z) { return CL(z.real(), z.imag()); }

FAMILY(quadratic, 20000) {
  auto& r = c.r; int kind; auto a = rpoly(c, 2, kind); if (r.coin(.05)) { a[1] = a[0] = 0; } if (r.coin(.1)) a[2] *= std::pow(10.0, r.uni(-30, 0)); c.in("a", a);
  Complex x1, x2; int n = SolveQuadratic(a[2], a[1], a[0], x1, x2);
  double be = backward(a, {cl(x1), cl(x2)}); c.maxi("quad_be", be); c.check(be < 1e-13, "quadratic.roots", [&] { char b[200]; snprintf(b, 200, "be=%g (%g,%g) (%g,%g)", be, x1.real(), x1.imag(), x2.real(), x2.imag()); return std::string(b); });
  // every root has a tiny residual relative to its own terms (also the small root beside a huge one)
  for (CL x : {cl(x1), cl(x2)}) { L v = std::abs((L)a[2] * x * x + (L)a[1] * x + CL((L)a[0])), s = std::abs((L)a[2] * x * x) + std::abs((L)a[1] * x) + std::fabs((L)a[0]); if (s > 0 && n == 2) { c.maxi("quad_res", (double)(v / s)); c.check(v <= 1e-14L * s, "quadratic.residual"); } }
  if (n == 2) c.check(x1.imag() == 0 && x2.imag() == 0, "quadratic.real-roots-not-real"); else c.check(x1 == std::conj(x2) && x1.imag() != 0, "quadratic.not-conjugate");
  if (kind == 0) { L D = (L)a[1] * a[1] - 4.0L * a[0] * a[2]; if (std::fabs(D) > 1e-12L * std::max((L)a[1] * a[1], (L)std::fabs(4.0L * a[0] * a[2])) ) c.check((D >= 0) == (n == 2), "quadratic.real-count"); c.ev(D >= 0 ? "quad_real" : "quad_complex"); if (D == 0) c.ev("quad_double"); }
  Complex y1, y2; SolveQuadratic(Complex(a[2]), Complex(a[1]), Complex(a[0]), y1, y2); double b2 = backward(a, {cl(y1), cl(y2)}); c.maxi("cquad_be", b2); if (std::fabs(a[2]) > 1e-100) c.check(b2 < 1e-13, "quadratic-complex.roots-of-real");
}
FAMILY(quadratic_complex, 6000) {
  auto& r = c.r; double k = r.coin() ? 1 : std::pow(10.0, r.uni(-25, 25)); CL r1(r.normal(), r.normal()), r2(r.normal(), r.normal()); if (r.coin(.2)) r2 = r1; if (r.coin(.3)) r2 *= (L)std::pow(10.0, r.uni(-8, 8)); CL ld(r.normal() * k, r.normal() * k);
  CL a = ld, b = -ld * (r1 + r2), d = ld * r1 * r2; Complex A((double)a.real(), (double)a.imag()), B((double)b.real(), (double)b.imag()), D((double)d.real(), (double)d.imag()); c.in("a", A); c.in("b", B); c.in("c", D);
  Complex x1, x2; SolveQuadratic(A, B, D, x1, x2); for (Complex x : {x1, x2}) { CL z = cl(x); L v = std::abs(cl(A) * z * z + cl(B) * z + cl(D)), s = std::abs(cl(A) * z * z) + std::abs(cl(B) * z) + std::abs(cl(D)); c.maxi("cq_res", (double)(v / s)); c.check(v <= 1e-13L * s, "quadratic-complex.residual"); }
  L sm = std::abs(cl(x1) + cl(x2) - (-cl(B) / cl(A))), pr = std::abs(cl(x1) * cl(x2) - cl(D) / cl(A)); L m = std::max(std::abs(r1), std::abs(r2)); c.check(sm <= 1e-13L * m && pr <= 1e-13L * m * m, "quadratic-complex.vieta"); c.ev("complex_quadratics");
}
FAMILY(cubic, 20000) {
  int kind; auto a = rpoly(c, 3, kind); c.in("a", a); Complex x1, x2, x3; int n = SolveCubic(a[3], a[2], a[1], a[0], x1, x2, x3);
  std::vector<CL> rt{cl(x1), cl(x2), cl(x3)}; double be = backward(a, rt); c.maxi("cubic_be", be);
  c.check(be < 1e-12, "cubic.roots", [&] { char b[300]; snprintf(b, 300, "be=%g n=%d (%.15g,%.15g) (%.15g,%.15g) (%.15g,%.15g)", be, n, x1.real(), x1.imag(), x2.real(), x2.imag(), x3.real(), x3.imag()); return std::string(b); });
  if (n == 3) { c.check(x1.imag() == 0 && x2.imag() == 0 && x3.imag() == 0, "cubic.real-roots-not-real"); c.ev("cubic_three_real"); } else { c.check(n == 1 && x1.imag() == 0 && x2 == std::conj(x3), "cubic.structure"); c.ev("cubic_one_real"); }
  if (kind == 0) { // exact discriminant for the integer family
    L k = std::fabs(a[3]); for (int i = 0; i < 3; i++) if (a[i] != 0) k = std::min(k, (L)std::fabs(a[i])); L A = a[3], B = a[2], C = a[1], D = a[0]; L disc = 18 * A * B * C * D - 4 * B * B * B * D + B * B * C * C - 4 * A * C * C * C - 27 * A * A * D * D; L mag = std::fabs(18 * A * B * C * D) + std::fabs(4 * B * B * B * D) + B * B * C * C + std::fabs(4 * A * C * C * C) + 27 * A * A * D * D;
    if (std::fabs(disc) > 1e-11L * mag) { c.check((disc > 0) == (n == 3), "cubic.real-count"); c.ev("disc_checked"); } }
}
FAMILY(cubic_cardano_branch, 6000) { // x^3 + p x + q with |p|^3 << q^2 and the other way round, both signs; shifted
  auto& r = c.r; double p = r.logmag(-12, 3), q = r.logmag(-3, 3), h = r.coin(.6) ? 0 : (double)r.i(-3, 3); if (r.coin(.1)) p = 0; if (r.coin(.1)) q = 0;
  // (x-h)^3 + p(x-h) + q
  std::vector<double> a{-h * h * h - p * h + q, 3 * h * h + p, -3 * h, 1}; c.in("p", p); c.in("q", q); c.in("h", h); Complex x1, x2, x3; SolveCubic(1, a[2], a[1], a[0], x1, x2, x3); double be = backward(a, {cl(x1), cl(x2), cl(x3)}); c.maxi("cardano_be", be); c.check(be < 1e-12, "cubic.cardano", [&] { char b[80]; snprintf(b, 80, "be=%g", be); return std::string(b); }); c.ev("cardano");
  if (h == 0) { L x = x1.real(); L v = std::fabs(x * x * x + (L)p * x + q), s = std::fabs(x * x * x) + std::fabs((L)p * x) + std::fabs(q); if (p > 0) { c.maxi("cardano_res", 0); c.check(v <= 1e-12L * std::max(s, 1e-300L) || s == 0 || std::fabs(q) < 1e-3 * std::pow(p, 1.5), "cubic.single-real-root"); } }
}
FAMILY(quartic, 20000) {
  int kind; auto a = rpoly(c, 4, kind); if (c.r.coin(.15)) { a[3] = a[1] = 0; c.ev("biquadratic"); } c.in("a", a); Complex x[4]; SolveQuartic(a[4], a[3], a[2], a[1], a[0], x[0], x[1], x[2], x[3]);
  std::vector<CL> rt; for (auto& z : x) rt.push_back(cl(z)); double be = backward(a, rt); c.maxi("quartic_be", be);
  c.check(be < 1e-10, "quartic.roots", [&] { std::string s; char b[100]; snprintf(b, 100, "be=%g", be); s = b; for (auto& z : x) { snprintf(b, 100, " (%.12g,%.12g)", z.real(), z.imag()); s += b; } return s; });
  c.check(conjClosed(rt, kind == 4 || kind == 0 || kind == 2 ? 1e-3L : 1e-5L), "quartic.not-conjugate-closed"); c.ev("quartics");
}
FAMILY(degenerate, 4000) {
  auto& r = c.r; double b = r.normal(), d = r.normal(), e = r.normal(); int how = (int)r.i(0, 5); Complex x[4]; c.in("how", how); c.in("b", b); c.in("d", d); c.in("e", e);
  if (how == 0) { int n = SolveQuadratic(0, b, d, x[0], x[1]); c.check(n == 1 && std::fabs(x[0].real() * b + d) < 1e-13 * (1 + std::fabs(d)) && x[0].imag() == 0 && x[1] == Complex(0), "degenerate.linear"); }
  if (how == 1) { int n = SolveQuadratic(0, 0, d, x[0], x[1]); c.check(n == 0 && x[0] == Complex(0) && x[1] == Complex(0), "degenerate.constant"); }
  if (how == 2) { Complex y[2]; int n = SolveCubic(0, b, d, e, x[0], x[1], x[2]), m = SolveQuadratic(b, d, e, y[0], y[1]); c.check(n == m && x[0] == y[0] && x[1] == y[1] && x[2] == Complex(0), "degenerate.cubic"); }
  if (how == 3) { Complex y[3]; SolveQuartic(0, b, d, e, 1.5, x[0], x[1], x[2], x[3]); SolveCubic(b, d, e, 1.5, y[0], y[1], y[2]); c.check(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == Complex(0), "degenerate.quartic"); }
  if (how == 4) { SolveQuadratic(Complex(0), Complex(b, d), Complex(e, 1), x[0], x[1]); c.check(std::abs(x[0] * Complex(b, d) + Complex(e, 1)) < 1e-12 * (1 + std::abs(Complex(e, 1))) && x[1] == Complex(0), "degenerate.complex-linear"); }
  if (how == 5) { std::vector<double> z; int n = (int)r.i(1, 6); for (int i = 0; i < n; i++) z.push_back(r.normal()); z.push_back(0.0); PolynomReal p(z);
    if (p.degree() == n) { c.throws<RootFindingError>([&] { LaguerreRoots(p); }, "degenerate.laguerre"); c.throws<RootFindingError>([&] { EigenvalueRoots(p); }, "degenerate.eigenvalue"); c.throws<RootFindingError>([&] { BairstowRoots(p); }, "degenerate.bairstow"); } }
  c.ev("degenerate");
}
static std::vector<CL> toV(const Vector<Complex>& v) { std::vector<CL> r; for (int i = 0; i < v.size(); i++) r.push_back(cl(v[i])); return r; }
FAMILY(general, 9000) {
  auto& r = c.r; int n = (int)r.i(1, r.coin(.2) ? r.coin(.15) ? 40 : 14 : 8); int kind; auto a = rpoly(c, n, kind); PolynomReal p(a); c.in("a", a); if (p.degree() != n) { c.trivial(); return; }
  bool zr = false; if (r.coin(.1)) { int z = (int)r.i(1, n); for (int i = 0; i < z; i++) a[i] = 0; p = PolynomReal(a); c.ev("zero_roots"); zr = true; }
  int m = (int)r.i(0, 2); c.in("method", m);
  double tolB = (kind == 5 || n > 8) ? 1e-3 : 5e-4;
  if (m == 0) { Vector<Complex> v; try { v = LaguerreRoots(p); } catch (const RootFindingError&) { c.ev("laguerre_not_converged"); return; } double be = backward(a, toV(v)); c.maxi(n > 8 ? "laguerre_be_hi" : "laguerre_be", be); c.check(be < (kind == 1 || kind == 3 ? tolB : 0.05), "laguerre.roots", [&] { char b[60]; snprintf(b, 60, "be=%g n=%d got %d", be, n, (int)v.size()); return std::string(b); }); (void)zr; c.ev("laguerre"); }
  if (m == 1) { Vector<Complex> v; try { v = EigenvalueRoots(p); } catch (const RootFindingError&) { c.ev("eigen_not_converged"); return; } double be = backward(a, toV(v)); c.maxi("eigen_be", be); c.check(be < 1e-3, "eigenvalue.roots", [&] { char b[60]; snprintf(b, 60, "be=%g n=%d got %d", be, n, (int)v.size()); return std::string(b); }); c.check(conjClosed(toV(v), 1e-12L), "eigenvalue.not-conjugate-closed"); c.ev("eigenvalue"); }
  if (m == 2) { Vector<Complex> v, init; if (r.coin(.3)) { int k = (int)r.i(0, n + 2); for (int i = 0; i < k; i++) init.push_back(Complex(r.normal(), r.coin() ? 0 : r.normal())); } try { v = BairstowRoots(p, init); } catch (const std::runtime_error&) { c.ev("bairstow_not_converged"); return; } double be = backward(a, toV(v)); c.maxi(n > 8 ? "bairstow_be_hi" : "bairstow_be", be); c.check(be < std::max(tolB, 1e-6), "bairstow.roots", [&] { char b[60]; snprintf(b, 60, "be=%g n=%d got %d", be, n, (int)v.size()); return std::string(b); }); c.check(conjClosed(toV(v), 1e-14L), "bairstow.not-conjugate-closed"); c.ev("bairstow"); }
}
FAMILY(limits, 1500) {
  auto& r = c.r; int n = (int)r.i(2, 7); int kind; auto a = rpoly(c, n, kind); a[0] = a[0] == 0 ? a[n] : a[0]; PolynomReal p(a); c.in("a", a); if (p.degree() != n) return;
  c.throws<RootFindingError>([&] { LaguerreRoots(p, 1e-10, 0); }, "limits.laguerre-no-iterations"); c.throws<std::runtime_error>([&] { BairstowRoots(p, Vector<Complex>(), 1e-10, 0); }, "limits.bairstow-no-iterations");
  PolynomReal k(std::vector<Real>{r.normal()}); c.check(LaguerreRoots(k).size() == 0 && EigenvalueRoots(k).size() == 0 && BairstowRoots(k).size() == 0, "limits.constant-has-roots"); PolynomReal e; c.check(LaguerreRoots(e).size() == 0 && EigenvalueRoots(e).size() == 0 && BairstowRoots(e).size() == 0, "limits.empty-has-roots"); c.ev("limits");
  int it = (int)r.i(1, 8); try { auto v = LaguerreRoots(p, 1e-10, it); double be = backward(a, toV(v)); c.check(be < 1e-3, "limits.laguerre-claims-convergence"); c.ev("few_iterations_ok"); } catch (const RootFindingError&) { c.ev("few_iterations_reported"); }
  try { auto v = BairstowRoots(p, Vector<Complex>(), 1e-10, it); double be = backward(a, toV(v)); c.check(be < 1e-3, "limits.bairstow-claims-convergence"); } catch (const std::runtime_error&) { c.ev("few_iterations_reported"); }
}
MON_MAIN()
