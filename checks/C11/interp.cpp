// C11: interpolation classes against long-double reference interpolants.
#include "mon.h"
#include "la.h"
#include "mml/base/InterpolatedFunction.h"
using namespace MML; typedef long double L;
typedef std::vector<double> VD;
static Vector<Real> V(const VD& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[(int)i] = v[i]; return r; }

static VD nodes(mon::Ctx& c, int n, bool desc) {
  auto& r = c.r; VD x(n); double a = r.uni(-5, 5), s = r.coin(.7) ? 1 : std::pow(10.0, r.uni(-4, 4)); int how = (int)r.i(0, 3);
  double cur = a * s; for (int i = 0; i < n; i++) { x[i] = cur; double g = how == 0 ? 1.0 : how == 1 ? r.uni(0.2, 2) : how == 2 ? std::pow(10.0, r.uni(-1.2, 0.5)) : 0.5; cur += g * s; }
  if (how == 3 && s == 1) for (int i = 0; i < n; i++) x[i] = std::round(a) + i;
  if (desc) std::reverse(x.begin(), x.end());
  return x;
}
static VD ys(mon::Ctx& c, const VD& x) {
  auto& r = c.r; int n = (int)x.size(); VD y(n); int how = (int)r.i(0, 4); double A = std::pow(10.0, r.uni(-3, 3));
  for (int i = 0; i < n; i++) y[i] = how == 0 ? A * r.normal() : how == 1 ? A * std::sin(i * 0.7) : how == 2 ? (double)r.i(-4, 4) : how == 3 ? A : (r.coin(.3) ? 0.0 : A * r.uni(-1, 1));
  return y;
}
// query points: nodes, their neighbours, interior, outside
static VD queries(mon::Ctx& c, const VD& x, bool outside) {
  auto& r = c.r; VD q; int n = (int)x.size(); double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]);
  for (int k = 0; k < 6; k++) { q.push_back(r.uni(lo, hi)); int i = (int)r.i(0, n - 1); q.push_back(x[i]); q.push_back(std::nextafter(x[i], x[i] > lo ? lo : hi)); int j = (int)r.i(0, n - 2); q.push_back(0.5 * (x[j] + x[j + 1])); }
  q.push_back(lo); q.push_back(hi);
  if (outside) { q.push_back(lo - r.uni(0.01, 1) * (hi - lo)); q.push_back(hi + r.uni(0.01, 1) * (hi - lo)); q.push_back(std::nextafter(lo, lo - 1)); q.push_back(std::nextafter(hi, hi + 1)); }
  r.shuffle(q); return q;
}
static int bracket(const VD& x, double t) { // index i with t between x[i], x[i+1] (clamped), linear scan
  int n = (int)x.size(); bool asc = x[n - 1] >= x[0]; int i = 0; while (i < n - 2 && (asc ? t >= x[i + 1] : t <= x[i + 1])) i++; return i;
}
static L ymax(const VD& y) { L m = 0; for (double v : y) m = std::max(m, std::fabs((L)v)); return m; }
static L lagr(const VD& x, const VD& y, int s, int m, L t, L* cond = nullptr) { L v = 0, k = 0; for (int i = s; i < s + m; i++) { L p = 1; for (int j = s; j < s + m; j++) if (j != i) p *= (t - x[j]) / ((L)x[i] - x[j]); v += p * y[i]; k += std::fabs(p * y[i]); } if (cond) *cond = k; return v; }
template<class F> static void repeatable(mon::Ctx& c, F& f, const VD& q, const std::vector<double>& got, const char* key) {
  for (int k = 0; k < (int)q.size(); k++) { int i = (int)c.r.i(0, (int)q.size() - 1); double v = f(q[i]); c.check(v == got[i] || (std::isnan(v) && std::isnan(got[i])), key); }
}
#if PART == 1
FAMILY(linear, 6000) {
  auto& r = c.r; bool desc = r.coin(.4), ext = r.coin(); int n = (int)r.i(2, 25); VD x = nodes(c, n, desc), y = ys(c, x); c.in("x", x); c.in("y", y); c.in("ext", ext);
  Vector<Real> xv = V(x), yv = V(y); LinearInterpRealFunc f(xv, yv, ext); for (int i = 0; i < n; i++) { xv[i] = 1e9; yv[i] = -7; }
  double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]);
  c.check(f.MinX() == lo && f.MaxX() == hi, "linear.range"); c.check(f.getNumPoints() == n && f.getInterpOrder() == 2, "linear.sizes");
  for (int i = 0; i < n; i++) { c.check(f.X(i) == x[i] && f.Y(i) == y[i], "linear.data"); c.close(f(x[i]), y[i], 1e-14L * ymax(y), "linear.node"); }
  VD q = queries(c, x, true); VD got;
  for (double t : q) { double v = f(t); got.push_back(v); bool in = t >= lo && t <= hi; if (!in && !ext) { c.check(v == 0, "linear.outside-not-zero"); c.ev("outside_zero"); continue; }
    int i = bracket(x, t); L h = (L)x[i + 1] - x[i]; L w = y[i] + ((L)t - x[i]) / h * ((L)y[i + 1] - y[i]); L sc = ymax(y) * (1 + std::fabs(((L)t - x[i]) / h)); c.close(v, w, 1e-13L * sc + 1e-300L, in ? "linear.value" : "linear.extrapolation"); if (in) { c.check(v >= std::min(y[i], y[i + 1]) - 1e-13 * (double)sc && v <= std::max(y[i], y[i + 1]) + 1e-13 * (double)sc, "linear.overshoot"); } }
  repeatable(c, f, q, got, "linear.history-dependent"); c.ev("linear"); if (desc) c.ev("descending");
}
FAMILY(polynomial, 6000) {
  auto& r = c.r; bool desc = r.coin(.3); int n = (int)r.i(2, 18), m = (int)r.i(2, std::min(n, 9)); VD x = nodes(c, n, desc), y = ys(c, x); c.in("x", x); c.in("y", y); c.in("m", m);
  PolynomInterpRealFunc f(V(x), V(y), m); VD q = queries(c, x, true), got;
  for (double t : q) { double v = f(t); got.push_back(v); int j = bracket(x, t); bool ok = false; L best = 0, kb = 0; for (int s : {j - (m - 2) / 2, j - (m - 1) / 2}) { s = std::max(0, std::min(n - m, s)); L k; L w = lagr(x, y, s, m, t, &k); L tol = 1e-12L * (k + ymax(y)); if (std::fabs(v - w) <= tol) ok = true; best = w; kb = k; }
    c.check(ok, "polynomial.value", [&] { char b[160]; snprintf(b, 160, "x=%.17g got %.15g want %.15Lg cond %.3Lg", t, v, best, kb); return std::string(b); }); c.check(std::isfinite(f.getLastErrorEst()), "polynomial.error-estimate"); }
  for (int i = 0; i < n; i++) c.close(f(x[i]), y[i], 1e-12L * ymax(y), "polynomial.node"); repeatable(c, f, q, got, "polynomial.history-dependent");
  // data of degree < m are reproduced everywhere and the error estimate says so
  std::vector<L> cf(m); for (auto& v : cf) v = r.i(-3, 3); L xm = 0; for (double t : x) xm = std::max(xm, std::fabs((L)t)); L x0 = x[n / 2], w = std::fabs((L)x[n - 1] - x[0]); auto P = [&](L t) { L v = 0; for (int k = m - 1; k >= 0; k--) v = v * ((t - x0) / w) + cf[k]; return v; }; VD yp(n); for (int i = 0; i < n; i++) yp[i] = (double)P(x[i]);
  PolynomInterpRealFunc g(V(x), V(yp), m); for (double t : q) { int j = bracket(x, t); L k; lagr(x, yp, std::max(0, std::min(n - m, j - (m - 2) / 2)), m, t, &k); c.close(g(t), P(t), 1e-11L * (k + 10), "polynomial.exactness"); } c.ev("polynomial"); c.ev("poly_exact", (long)q.size());
}
// cubic spline reference: dense system for second derivatives
struct RefSpline { VD x, y; std::vector<L> m; int n;
  RefSpline(const VD& X, const VD& Y, double yp1, double ypn) : x(X), y(Y), m(X.size()), n((int)X.size()) {
    la::M A(n, n); std::vector<L> b(n, 0);
    auto h = [&](int i) { return (L)x[i + 1] - x[i]; }; auto d = [&](int i) { return ((L)y[i + 1] - y[i]) / h(i); };
    if (yp1 > 0.99e99) A(0, 0) = 1; else { A(0, 0) = h(0) / 3; A(0, 1) = h(0) / 6; b[0] = d(0) - yp1; }
    for (int i = 1; i < n - 1; i++) { A(i, i - 1) = h(i - 1) / 6; A(i, i) = (h(i - 1) + h(i)) / 3; A(i, i + 1) = h(i) / 6; b[i] = d(i) - d(i - 1); }
    if (ypn > 0.99e99) A(n - 1, n - 1) = 1; else { A(n - 1, n - 2) = h(n - 2) / 6; A(n - 1, n - 1) = h(n - 2) / 3; b[n - 1] = ypn - d(n - 2); }
    // row scaling then plain elimination with pivoting
    for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) { L si = 0, sp = 0; for (int j = k; j < n; j++) { si = std::max(si, std::fabs(A(i, j))); sp = std::max(sp, std::fabs(A(p, j))); } if (std::fabs(A(i, k)) * sp > std::fabs(A(p, k)) * si) p = i; } if (p != k) { for (int j = 0; j < n; j++) std::swap(A(p, j), A(k, j)); std::swap(b[p], b[k]); } for (int i = k + 1; i < n; i++) { L f = A(i, k) / A(k, k); if (f == 0) continue; for (int j = k; j < n; j++) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; } }
    for (int i = n - 1; i >= 0; i--) { L s = b[i]; for (int j = i + 1; j < n; j++) s -= A(i, j) * m[j]; m[i] = s / A(i, i); }
  }
  L val(L t, int i) const { L h = (L)x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h; return a * y[i] + b * y[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6; }
  L d1(L t, int i) const { L h = (L)x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h; return ((L)y[i + 1] - y[i]) / h - (3 * a * a - 1) / 6 * h * m[i] + (3 * b * b - 1) / 6 * h * m[i + 1]; }
  L d2(L t, int i) const { L h = (L)x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h; return a * m[i] + b * m[i + 1]; }
  // 3-point Gauss per segment piece is exact for cubics
  L integ(L a, L b) const { if (a > b) return -integ(b, a); L s = 0; static const L g = 0.774596669241483377035853L; for (int i = 0; i + 1 < n; i++) { L lo = std::min((L)x[i], (L)x[i + 1]), hi = std::max((L)x[i], (L)x[i + 1]); L p = std::max(a, lo), q = std::min(b, hi); if (q <= p) continue; L c = (p + q) / 2, h = (q - p) / 2; s += h * (5 * val(c - g * h, i) + 8 * val(c, i) + 5 * val(c + g * h, i)) / 9; } return s; }
};
FAMILY(spline, 7000) {
  auto& r = c.r; bool desc = r.coin(.3); int n = (int)r.i(2, 20); VD x = nodes(c, n, desc), y = ys(c, x); double nat = 1e99; bool cl1 = r.coin(), cl2 = r.coin(); double sl = ymax(y) / std::fabs(x[1] - x[0]); double yp1 = cl1 ? r.uni(-1, 1) * sl : nat, ypn = cl2 ? r.uni(-1, 1) * sl : nat;
  c.in("x", x); c.in("y", y); c.in("yp1", yp1); c.in("ypn", ypn);
  SplineInterpRealFunc f(V(x), V(y), yp1, ypn); RefSpline R(x, y, yp1, ypn); L ms = 0; double hmin = 1e300, hmax = 0; for (int i = 0; i + 1 < n; i++) { double h = std::fabs(x[i + 1] - x[i]); hmin = std::min(hmin, h); hmax = std::max(hmax, h); } for (auto v : R.m) ms = std::max(ms, std::fabs(v)); L sc = ymax(y) + ms * hmax * hmax;
  L t2 = 1e-11L * (ms + ymax(y) / hmin / hmin), t1 = 1e-11L * sc / hmin, t0 = 1e-12L * sc;
  for (int i = 0; i < n; i++) { c.close(f.GetSecondDerivative(i), R.m[i], t2, "spline.second-derivative-at-node"); c.close(f(x[i]), y[i], t0, "spline.node"); }
  if (!cl1) c.check(f.GetSecondDerivative(0) == 0, "spline.natural-start"); if (!cl2) c.check(std::fabs(f.GetSecondDerivative(n - 1)) <= (double)t2, "spline.natural-end");
  if (cl1) c.close(f.Derivative(x[0]), yp1, t1, "spline.clamped-start"); if (cl2) c.close(f.Derivative(x[n - 1]), ypn, t1, "spline.clamped-end");
  VD q = queries(c, x, r.coin(.3)), got;
  for (double t : q) { int i = bracket(x, t); double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]); L e = t < lo ? (lo - t) / hmin : t > hi ? (t - hi) / hmin : 0; L am = (1 + e) * (1 + e) * (1 + e); double v = f(t); got.push_back(v); c.close(v, R.val(t, i), t0 * am * 10, "spline.value"); c.close(f.Derivative(t), R.d1(t, i), t1 * am * 10, "spline.derivative"); c.close(f.SecondDerivative(t), R.d2(t, i), t2 * am, "spline.second-derivative"); }
  repeatable(c, f, q, got, "spline.history-dependent");
  double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]), a = r.coin(.3) ? x[r.i(0, n - 1)] : r.uni(lo, hi), b = r.coin(.3) ? x[r.i(0, n - 1)] : r.uni(lo, hi); if (r.coin(.1)) { a = lo; b = hi; } c.in("a", a); c.in("b", b); L ti = 1e-11L * sc * (hi - lo) * 10;
  double I = f.Integrate(a, b); c.close(I, R.integ(a, b), ti, "spline.integral"); c.close(f.Integrate(b, a), -(L)I, ti, "spline.integral-reversed"); double m = r.uni(lo, hi); c.close((L)f.Integrate(a, m) + f.Integrate(m, b), I, ti, "spline.integral-additive"); c.check(std::fabs(f.Integrate(a, a)) <= (double)ti, "spline.integral-empty");
  c.throws<DomainError>([&] { f.Integrate(lo - 0.1 * (hi - lo), hi); }, "spline.integral-below"); c.throws<DomainError>([&] { f.Integrate(hi + 0.1 * (hi - lo), lo); }, "spline.integral-above"); c.throws<IndexError>([&] { f.GetSecondDerivative(n); }, "spline.index"); c.throws<IndexError>([&] { f.GetSecondDerivative(-1); }, "spline.index");
  // a clamped spline reproduces a cubic, a natural one a straight line
  L k[4]; for (auto& v : k) v = r.i(-3, 3); L x0 = x[n / 2], w = std::fabs((L)x[n - 1] - x[0]); bool lin = r.coin(.3); if (lin) k[2] = k[3] = 0; auto P = [&](L t) { L u = (t - x0) / w; return ((k[3] * u + k[2]) * u + k[1]) * u + k[0]; }; auto D = [&](L t) { L u = (t - x0) / w; return ((3 * k[3] * u + 2 * k[2]) * u + k[1]) / w; }; VD yc(n); for (int i = 0; i < n; i++) yc[i] = (double)P(x[i]);
  SplineInterpRealFunc g(V(x), V(yc), lin && r.coin() ? nat : (double)D(x[0]), lin && r.coin() ? nat : (double)D(x[n - 1])); L cond = w / hmin; for (double t : q) if (t >= lo && t <= hi) c.close(g(t), P(t), 1e-13L * 20 * cond, "spline.cubic-not-reproduced"); c.ev("spline"); if (desc) c.ev("descending");
}
#elif PART == 2
FAMILY(rational, 5000) {
  auto& r = c.r; int m = (int)r.i(2, 8), n = (int)r.i(m, 14); VD x = nodes(c, n, r.coin(.3)); c.in("x", x); c.in("m", m); double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]), W = hi - lo; int den = m / 2, num = (m - 1) / 2;
  // p/q with poles away from the table
  std::vector<L> p(num + 1); for (auto& v : p) v = r.uni(-3, 3); std::vector<std::complex<L>> z; for (int i = 0; i < den; i++) z.push_back(std::complex<L>(r.uni(-0.2, 1.2), r.uni(0.6, 1.5) * (r.coin() ? 1 : -1))); 
  auto F = [&](L t) { L u = (t - lo) / W; L v = 0; for (int k = num; k >= 0; k--) v = v * u + p[k]; L d = 1; for (int i = 0; i + 1 < den; i += 2) d *= std::norm(u - z[i]); if (den % 2) d *= (u + 1.3L); return v / d; };
  VD y(n); L ym = 0; for (int i = 0; i < n; i++) { y[i] = (double)F(x[i]); ym = std::max(ym, std::fabs((L)y[i])); } c.in("y", y);
  RationalInterpRealFunc f(V(x), V(y), m); for (int i = 0; i < n; i++) { if (i) try { (void)f((x[i - 1] + x[i]) / 2); } catch (const RealFuncInterpRuntimeError&) {} c.close(f(x[i]), y[i], 0, "rational.node"); c.check(f.getLastErrorEst() == 0, "rational.node-error-estimate"); }
  VD q = queries(c, x, false), got; VD q2; long ok = 0;
  for (double t : q) { double v; try { v = f(t); } catch (const RealFuncInterpRuntimeError&) { c.ev("rational_pole_reported"); continue; } q2.push_back(t); got.push_back(v); L want = F(t); L rel = std::fabs(v - want) / (ym + 1e-300L); if (m <= 5) { c.maxi("rational_err", (double)rel); if (rel < 1e-6L) ok++; } else if (rel < 1e-3L) ok++; }
  // cancellation can spoil single points; the bulk must be reproduced
  c.check(ok * 10 >= (long)q2.size() * 8, "rational.model-not-reproduced", [&] { return std::to_string(ok) + "/" + std::to_string(q2.size()); }); if (q2.size()) repeatable(c, f, q2, got, "rational.history-dependent"); c.ev("rational", (long)q2.size());
  if (r.coin(.3)) { // arbitrary data: passes through nodes
    VD w = ys(c, x); RationalInterpRealFunc g(V(x), V(w), m); for (int i = 0; i < n; i++) c.check(g(x[i]) == w[i], "rational.node-arbitrary"); }
}
FAMILY(barycentric, 5000) {
  auto& r = c.r; int n = (int)r.i(1, 20), d = (int)r.i(0, std::min(n - 1, 6)); VD x = nodes(c, std::max(n, 2), r.coin(.3)); x.resize(n); VD y = ys(c, x); c.in("x", x); c.in("y", y); c.in("d", d);
  BarycentricRationalInterp f(V(x), V(y), d); c.check(f.getNumPoints() == n && f.getBlendingParameter() == d, "barycentric.sizes"); c.check(f.MinX() == *std::min_element(x.begin(), x.end()) && f.MaxX() == *std::max_element(x.begin(), x.end()), "barycentric.range");
  for (int i = 0; i < n; i++) { c.check(f(x[i]) == y[i], "barycentric.node"); } for (int i = 0; i + 1 < n; i++) c.check(f.getWeight(i) * f.getWeight(i + 1) < 0 || f.getWeight(i) == 0, "barycentric.weights-alternate"); c.throws<IndexError>([&] { f.getWeight(n); }, "barycentric.weight-index"); c.throws<IndexError>([&] { f.getWeight(-1); }, "barycentric.weight-index");
  if (n < 2) return; VD q = queries(c, x, false), got;
  std::vector<L> k(d + 1); for (auto& v : k) v = r.i(-3, 3); L x0 = x[n / 2], w = std::fabs((L)x[n - 1] - x[0]); auto P = [&](L t) { L v = 0; for (int j = d; j >= 0; j--) v = v * ((t - x0) / w) + k[j]; return v; }; VD yp(n); for (int i = 0; i < n; i++) yp[i] = (double)P(x[i]); BarycentricRationalInterp g(V(x), V(yp), d);
  for (double t : q) { double v = f(t); got.push_back(v); bool node = false; for (double s : x) if (s == t) node = true; if (node) continue;
    // blending definition: sum lambda_i p_i / sum lambda_i
    L nu = 0, de = 0, cd = 0; for (int i = 0; i + d < n; i++) { L lam = (i & 1) ? -1 : 1; for (int j = i; j <= i + d; j++) lam /= ((L)t - x[j]); L kk; L pv = lagr(x, y, i, d + 1, t, &kk); nu += lam * pv; de += lam; cd += std::fabs(lam) * kk; } L amp = cd / std::fabs(de) + ymax(y); L bw = 0; for (int i = 0; i < n; i++) bw += std::fabs(f.getWeight(i) / (t - x[i])); L bd = 0; for (int i = 0; i < n; i++) bd += (L)f.getWeight(i) / ((L)t - x[i]); L am2 = bw / std::fabs(bd) * (ymax(y) + std::fabs((L)v)); c.close(v, nu / de, 1e-12L * (amp + am2), "barycentric.value"); c.close(g(t), P(t), 1e-12L * 20 * (bw / std::fabs(bd) * (1 + std::fabs(P(t)) / (d + 1)) + 1), "barycentric.polynomial-not-reproduced"); }
  repeatable(c, f, q, got, "barycentric.history-dependent"); c.ev("barycentric");
}
FAMILY(grid2d, 3000) {
  auto& r = c.r; int m = (int)r.i(2, 8), n = (int)r.i(2, 8); VD x1 = nodes(c, m, r.coin(.25)), x2 = nodes(c, n, r.coin(.25)); Matrix<Real> z(m, n); double zm = 0; std::string zs; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { z(i, j) = r.coin(.3) ? (double)r.i(-3, 3) : r.normal(); zm = std::max(zm, std::fabs(z(i, j))); } c.in("x1", x1); c.in("x2", x2); c.in("z00", z(0, 0));
  BilinearInterp2D f(V(x1), V(x2), z); BicubicSplineInterp2D g(V(x1), V(x2), z); c.check(f.getGridDim1() == m && f.getGridDim2() == n && g.getGridDim1() == m && g.getGridDim2() == n, "grid.dims");
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { c.close(f(x1[i], x2[j]), z(i, j), 1e-13L * zm, "bilinear.node"); c.close(g(x1[i], x2[j]), z(i, j), 1e-10L * zm, "bicubic.node"); }
  auto natm = [&](const VD& x, const VD& y) { int k = (int)x.size(); std::vector<L> mm(k, 0), cp(k, 0), dp(k, 0); for (int i = 1; i < k - 1; i++) { L h0 = (L)x[i] - x[i - 1], h1 = (L)x[i + 1] - x[i]; L a = h0 / 6, b = (h0 + h1) / 3, cc = h1 / 6, d = ((L)y[i + 1] - y[i]) / h1 - ((L)y[i] - y[i - 1]) / h0; L den = b - a * cp[i - 1]; cp[i] = cc / den; dp[i] = (d - a * dp[i - 1]) / den; } for (int i = k - 2; i >= 1; i--) mm[i] = dp[i] - cp[i] * mm[i + 1]; return mm; };
  auto sv = [&](const VD& x, const VD& y, const std::vector<L>& mm, L t, int der) { int i = bracket(x, (double)t); L h = (L)x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = (t - x[i]) / h; return der == 0 ? a * y[i] + b * y[i + 1] + ((a * a * a - a) * mm[i] + (b * b * b - b) * mm[i + 1]) * h * h / 6 : ((L)y[i + 1] - y[i]) / h - (3 * a * a - 1) / 6 * h * mm[i] + (3 * b * b - 1) / 6 * h * mm[i + 1]; };
  double h1 = 1e300, h2 = 1e300; for (int i = 0; i + 1 < m; i++) h1 = std::min(h1, std::fabs(x1[i + 1] - x1[i])); for (int i = 0; i + 1 < n; i++) h2 = std::min(h2, std::fabs(x2[i + 1] - x2[i]));
  for (int t = 0; t < 8; t++) {
    double a = r.uni(std::min(x1[0], x1[m - 1]), std::max(x1[0], x1[m - 1])), b = r.uni(std::min(x2[0], x2[n - 1]), std::max(x2[0], x2[n - 1])); int i = bracket(x1, a), j = bracket(x2, b); L T = ((L)a - x1[i]) / ((L)x1[i + 1] - x1[i]), U = ((L)b - x2[j]) / ((L)x2[j + 1] - x2[j]);
    L w = (1 - T) * (1 - U) * z(i, j) + T * (1 - U) * z(i + 1, j) + (1 - T) * U * z(i, j + 1) + T * U * z(i + 1, j + 1); c.close(f(a, b), w, 1e-13L * zm * 10, "bilinear.value"); Real zz, d1, d2; f.interpWithDerivatives(a, b, zz, d1, d2); c.close(zz, w, 1e-13L * zm * 10, "bilinear.value2"); c.close(d1, ((1 - U) * (z(i + 1, j) - z(i, j)) + U * (z(i + 1, j + 1) - z(i, j + 1))) / ((L)x1[i + 1] - x1[i]), 1e-12L * zm / h1 * 10, "bilinear.d1"); c.close(d2, ((1 - T) * (z(i, j + 1) - z(i, j)) + T * (z(i + 1, j + 1) - z(i + 1, j))) / ((L)x2[j + 1] - x2[j]), 1e-12L * zm / h2 * 10, "bilinear.d2");
    VD col(m), dcol(m); for (int k = 0; k < m; k++) { VD row(n); for (int l = 0; l < n; l++) row[l] = z(k, l); auto mm = natm(x2, row); col[k] = (double)sv(x2, row, mm, b, 0); dcol[k] = (double)sv(x2, row, mm, b, 1); } auto mc = natm(x1, col), md = natm(x1, dcol); L big = 0, bigd = 0; for (int k = 0; k < m; k++) { big = std::max(big, std::fabs((L)col[k])); bigd = std::max(bigd, std::fabs((L)dcol[k])); } L e1 = (x1[m - 1] - x1[0]) / h1; L amp = 1e-11L * (big + zm) * e1 * e1; Real gz, g1, g2; g.interpWithDerivatives(a, b, gz, g1, g2); c.close(g(a, b), sv(x1, col, mc, a, 0), amp, "bicubic.value"); c.close(gz, sv(x1, col, mc, a, 0), amp, "bicubic.value2"); c.close(g1, sv(x1, col, mc, a, 1), amp / h1, "bicubic.d1"); c.close(g2, sv(x1, dcol, md, a, 0), 1e-10L * (bigd + zm / h2) * e1 * e1, "bicubic.d2"); c.ev("grid_points");
  }
}
template<int N> static void curves(mon::Ctx& c) {
  auto& r = c.r; int n = (int)r.i(2, 12); bool closed = r.coin(.4); Matrix<Real> P(n, N); for (int i = 0; i < n; i++) for (int j = 0; j < N; j++) P(i, j) = r.coin(.3) ? (double)r.i(-4, 4) : r.uni(-4, 4); for (int i = 1; i < n; i++) { bool same = true; for (int j = 0; j < N; j++) same &= P(i, j) == P(i - 1, j); if (same) P(i, 0) += 1; } bool same0 = true; for (int j = 0; j < N; j++) same0 &= P(n - 1, j) == P(0, j); if (same0) P(n - 1, 0) += 0.5;
  { std::vector<double> fl; for (int i = 0; i < n; i++) for (int j = 0; j < N; j++) fl.push_back(P(i, j)); c.in("P", fl); c.in("closed", closed); }
  auto dist = [&](int a, int b) { L s = 0; for (int j = 0; j < N; j++) s += ((L)P(a, j) - P(b, j)) * ((L)P(a, j) - P(b, j)); return std::sqrt(s); };
  // linear
  { LinInterpParametricCurve<N> f(P, closed); c.check(f.getMinT() == 0 && f.getMaxT() == 1, "lincurve.range"); int k = closed ? n + 1 : n; std::vector<L> s(k, 0); for (int i = 1; i < k; i++) s[i] = s[i - 1] + dist(i % n, i - 1); L tot = s[k - 1]; for (auto& v : s) v /= tot;
    for (int i = 0; i < k; i++) { double t = (double)s[i]; auto v = f(t); for (int j = 0; j < N; j++) c.close(v[j], P(i % n, j), 1e-12L * 10 * (double)tot, "lincurve.node"); }
    for (int q = 0; q < 8; q++) { double t = r.u01(); int i = 0; while (i < k - 2 && t > s[i + 1]) i++; L a = (t - s[i]) / (s[i + 1] - s[i]); auto v = f(t); for (int j = 0; j < N; j++) c.close(v[j], (1 - a) * P(i, j) + a * P((i + 1) % n, j), 1e-12L * 10 * tot * tot / std::min((L)1, std::max((L)1e-3, dist(i, (i + 1) % n))), "lincurve.value"); double off = (double)r.i(1, 3); auto w = f(t + off), u = f(t - off); if (closed) { for (int j = 0; j < N; j++) { c.close(w[j], v[j], 1e-11L * 10 * tot * tot, "lincurve.periodic"); c.close(u[j], v[j], 1e-11L * 10 * tot * tot, "lincurve.periodic"); } } else for (int j = 0; j < N; j++) { c.check(w[j] == P(n - 1, j) || std::fabs(w[j] - P(n - 1, j)) < 1e-12, "lincurve.clamp-end"); c.check(u[j] == P(0, j), "lincurve.clamp-start"); } } c.ev("linear_curves"); }
  // spline
  { double t1 = r.coin(.4) ? 0.0 : r.uni(-3, 3), t2 = r.coin(.4) ? t1 + 1 : t1 + r.uni(0.5, 8); bool deflt = t1 == 0 && t2 == 1 && r.coin(); c.in("t1", t1); c.in("t2", t2); SplineInterpParametricCurve<N> f0 = deflt ? SplineInterpParametricCurve<N>(P, closed) : SplineInterpParametricCurve<N>(t1, t2, P, closed); SplineInterpParametricCurve<N> f(f0); if (r.coin()) { SplineInterpParametricCurve<N> g(t1, t2, P, !closed); g = f0; f = g; c.ev("curve_copies"); }
    c.check(f.getMinT() == t1 && f.getMaxT() == t2, "splcurve.range"); std::vector<L> s(n, 0); for (int i = 1; i < n; i++) s[i] = s[i - 1] + dist(i, i - 1); L tot = s[n - 1] + (closed ? dist(0, n - 1) : 0); for (auto& v : s) v /= tot; L hm = 1; for (int i = 1; i < n; i++) hm = std::min(hm, s[i] - s[i - 1]); if (closed) hm = std::min(hm, dist(0, n - 1) / tot);
    for (int i = 0; i < n; i++) { double t = (double)(t1 + s[i] * ((L)t2 - t1)); t = std::min(std::max(t, t1), t2); auto v = f(t); for (int j = 0; j < N; j++) c.close(v[j], P(i, j), 1e-11L * 100 / hm / hm + 0, "splcurve.node"); }
    if (closed) { auto v = f(t2), w = f(t1); for (int j = 0; j < N; j++) { c.close(v[j], P(0, j), 1e-11L * 100 / hm / hm, "splcurve.closure"); c.close(w[j], P(0, j), 1e-11L * 100 / hm / hm, "splcurve.closure"); } auto e = f(t2 - 1e-9 * (t2 - t1)); for (int j = 0; j < N; j++) c.close(e[j], P(0, j), 1e-5L / hm / hm, "splcurve.closure-continuity"); c.throws<DomainError>([&] { f(t2 + 0.1); }, "splcurve.outside"); c.throws<DomainError>([&] { f(t1 - 0.1); }, "splcurve.outside"); c.ev("closed_curves"); }
    // straight line through unevenly spaced points is reproduced
    VectorN<Real, N> d; for (int j = 0; j < N; j++) d[j] = r.uni(-1, 1); d[0] += 2; Matrix<Real> Q(n, N); L acc = 0; std::vector<L> pos; for (int i = 0; i < n; i++) { for (int j = 0; j < N; j++) Q(i, j) = (double)(d[j] * acc); pos.push_back(acc); acc += r.uni(0.2, 1); } SplineInterpParametricCurve<N> ln(t1, t2, Q, false); for (int q = 0; q < 4; q++) { double u = r.u01(); auto v = ln(t1 + u * (t2 - t1)); L ue = ((L)(t1 + u * (t2 - t1)) - t1) / ((L)t2 - t1); for (int j = 0; j < N; j++) c.close(v[j], d[j] * pos.back() * ue, 1e-10L, "splcurve.straight-line"); }
    // open curve with >= 4 points: end slopes from the cubic through 4 points -> coordinates that are cubic polynomials of the parameter are reproduced (checked via dense small-step curve of a parabola is not exact, so only C1 continuity at nodes)
    c.ev("spline_curves"); }
}
FAMILY(curve2, 1500) { curves<2>(c); }
FAMILY(curve3, 1500) { curves<3>(c); }
FAMILY(bad_tables, 4000) {
  auto& r = c.r; int n = (int)r.i(2, 10); VD x = nodes(c, n, r.coin(.3)), y = ys(c, x); int how = (int)r.i(0, 9); c.in("how", how); c.in("n", n); c.in("x", x);
  Vector<Real> xv = V(x), yv = V(y);
  if (how == 0) { VD ysh(y.begin(), y.end() - 1); Vector<Real> w = V(ysh); if (r.coin()) { ysh.push_back(1); ysh.push_back(2); w = V(ysh); } c.throws<RealFuncInterpInitError>([&] { LinearInterpRealFunc f(xv, w); }, "bad.linear-size"); c.throws<RealFuncInterpInitError>([&] { PolynomInterpRealFunc f(xv, w, 2); }, "bad.poly-size"); c.throws<RealFuncInterpInitError>([&] { SplineInterpRealFunc f(xv, w); }, "bad.spline-size"); c.throws<RealFuncInterpInitError>([&] { RationalInterpRealFunc f(xv, w, 2); }, "bad.rational-size"); c.throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(xv, w, 1); }, "bad.bary-size"); }
  if (how == 1) { int i = (int)r.i(0, n - 1), j = (int)r.i(0, n - 1); if (i == j) return; xv[i] = xv[j]; c.throws<RealFuncInterpInitError>([&] { LinearInterpRealFunc f(xv, yv); }, "bad.linear-duplicate"); c.throws<RealFuncInterpInitError>([&] { PolynomInterpRealFunc f(xv, yv, 2); }, "bad.poly-duplicate"); c.throws<RealFuncInterpInitError>([&] { SplineInterpRealFunc f(xv, yv); }, "bad.spline-duplicate"); c.throws<RealFuncInterpInitError>([&] { RationalInterpRealFunc f(xv, yv, 2); }, "bad.rational-duplicate"); c.throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(xv, yv, 1); }, "bad.bary-duplicate"); }
  if (how == 2) { int m = (int)r.pick({-1, 0, 1, n + 1, n + 7}); c.throws<RealFuncInterpInitError>([&] { PolynomInterpRealFunc f(xv, yv, m); }, "bad.poly-order"); c.throws<RealFuncInterpInitError>([&] { RationalInterpRealFunc f(xv, yv, m); }, "bad.rational-order"); }
  if (how == 3) { int k = (int)r.i(0, 1); Vector<Real> a(k), b(k); c.throws<RealFuncInterpInitError>([&] { LinearInterpRealFunc f(a, b); }, "bad.linear-few"); c.throws<RealFuncInterpInitError>([&] { SplineInterpRealFunc f(a, b); }, "bad.spline-few"); c.throws<RealFuncInterpInitError>([&] { PolynomInterpRealFunc f(a, b, 2); }, "bad.poly-few"); c.throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(a, b, k); }, "bad.bary-few"); }
  if (how == 4) { c.throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(xv, yv, (int)(n + c.r.i(0, 3))); }, "bad.bary-d"); c.throws<RealFuncInterpInitError>([&] { BarycentricRationalInterp f(xv, yv, (int)-c.r.i(1, 3)); }, "bad.bary-negative-d"); }
  if (how == 5) { int m = (int)r.i(2, 5); VD x2 = nodes(c, m, false); int a = n + (int)r.i(-1, 1), b = m + (int)r.i(-1, 1); if (a == n && b == m) a++; Matrix<Real> z(a, b); c.throws<RealFuncInterpInitError>([&] { BilinearInterp2D f(xv, V(x2), z); }, "bad.bilinear-dims"); c.throws<RealFuncInterpInitError>([&] { BicubicSplineInterp2D f(xv, V(x2), z); }, "bad.bicubic-dims"); }
  if (how == 6) { Matrix<Real> z(1, n); Vector<Real> one(1, 0.5); c.throws<RealFuncInterpInitError>([&] { BilinearInterp2D f(one, xv, z); }, "bad.bilinear-few"); c.throws<RealFuncInterpInitError>([&] { BicubicSplineInterp2D f(one, xv, z); }, "bad.bicubic-few"); Matrix<Real> zt(n, 1); c.throws<RealFuncInterpInitError>([&] { BilinearInterp2D f(xv, one, zt); }, "bad.bilinear-few"); c.throws<RealFuncInterpInitError>([&] { BicubicSplineInterp2D f(xv, one, zt); }, "bad.bicubic-few"); }
  if (how == 7) { Matrix<Real> p(n, 2, 1.0); for (int i = 0; i < n; i++) p(i, 0) = i; c.throws<MatrixDimensionError>([&] { SplineInterpParametricCurve<3> f(p); }, "bad.splcurve-dim"); c.throws<MatrixDimensionError>([&] { LinInterpParametricCurve<3> f(p); }, "bad.lincurve-dim"); }
  if (how == 8) { Matrix<Real> p(1, 2, 1.0); bool cl = r.coin(); c.throws<RealFuncInterpInitError>([&] { SplineInterpParametricCurve<2> f(p, cl); }, "bad.splcurve-few"); c.throws<RealFuncInterpInitError>([&] { LinInterpParametricCurve<2> f(p, cl); }, "bad.lincurve-few"); }
  if (how == 9) { Matrix<Real> p(n + 1, 2); for (int i = 0; i <= n; i++) { p(i, 0) = i; p(i, 1) = i * i; } int k = (int)r.i(1, n); p(k, 0) = p(k - 1, 0); p(k, 1) = p(k - 1, 1); bool cl = r.coin(); c.throws<RealFuncInterpRuntimeError>([&] { SplineInterpParametricCurve<2> f(p, cl); }, "bad.splcurve-duplicate"); }
  c.ev("bad_tables");
}
#endif
MON_MAIN()
