// random polynomial ODE systems with a long-double Taylor-series reference solution
#pragma once
#include "mon.h"
#include "mml/interfaces/IODESystem.h"
namespace ode {
typedef long double L; typedef std::vector<L> VL; typedef std::vector<double> VD;
// x_i' = c_i + e_i t + sum a_ij x_j + sum_k b_k x_j x_l (+ t x_0 f_i); optionally second-order layout (x, v): x' = v, v' = g(t, x)
struct Sys : MML::IODESystem {
  int n = 1; struct Q { int i, j, k; double b; }; std::vector<double> c, e, f; std::vector<std::vector<double>> a; std::vector<Q> q; mutable long calls = 0; mutable double tlo = 1e300, thi = -1e300; mutable std::vector<double> ts; bool rec = false;
  int getDim() const override { return n; }
  void derivs(const Real t, const MML::Vector<Real>& x, MML::Vector<Real>& d) const override { calls++; tlo = std::min(tlo, (double)t); thi = std::max(thi, (double)t); if (rec) ts.push_back(t); for (int i = 0; i < n; i++) { double s = c[i] + e[i] * t + f[i] * t * x[0]; for (int j = 0; j < n; j++) if (a[i][j] != 0) s += a[i][j] * x[j]; d[i] = s; } for (auto& v : q) d[v.i] += v.b * x[v.j] * x[v.k]; }
  void zero(int d) { n = d; c.assign(n, 0); e = f = c; a.assign(n, c); q.clear(); }
  void gen(mon::Rng& r, int d, double s = 1, bool nonauto = true) { zero(d); for (int i = 0; i < n; i++) { c[i] = s * r.uni(-1, 1); if (nonauto) { e[i] = s * r.uni(-.5, .5); f[i] = r.coin(.3) ? s * r.uni(-.5, .5) : 0; } for (int j = 0; j < n; j++) a[i][j] = s * r.uni(-1, 1); for (int k = 0; k < 2; k++) q.push_back({i, (int)r.i(0, n - 1), (int)r.i(0, n - 1), s * r.uni(-.6, .6)}); } }
  void gen2(mon::Rng& r, int half, bool quad = true, bool nonauto = true) { zero(2 * half); for (int i = 0; i < half; i++) { a[i][half + i] = 1; c[half + i] = r.uni(-1, 1); if (nonauto) e[half + i] = r.uni(-.5, .5); for (int j = 0; j < half; j++) a[half + i][j] = r.uni(-1, 1) - (i == j ? 1.5 : 0); if (quad) q.push_back({half + i, (int)r.i(0, half - 1), (int)r.i(0, half - 1), r.uni(-.5, .5)}); } }
  void log(mon::Case& cs) const { cs.in("dim", n); cs.in("c", c); cs.in("e", e); cs.in("f", f); for (auto& v : a) cs.in("a", v); VD b; for (auto& v : q) { b.push_back(v.i); b.push_back(v.j); b.push_back(v.k); b.push_back(v.b); } cs.in("q", b); }
  // one Taylor step of order K about t0
  std::vector<VL> series(L t0, const VL& x, int K = 28) const { std::vector<VL> X(n, VL(K + 1, 0)); for (int i = 0; i < n; i++) X[i][0] = x[i]; for (int m = 0; m < K; m++) { VL d(n, 0); for (int i = 0; i < n; i++) { L s = 0; if (m == 0) s += c[i] + e[i] * t0; if (m == 1) s += e[i]; if (f[i] != 0) s += f[i] * (t0 * X[0][m] + (m ? X[0][m - 1] : 0)); for (int j = 0; j < n; j++) if (a[i][j] != 0) s += (L)a[i][j] * X[j][m]; d[i] = s; } for (auto& v : q) { L s = 0; for (int p = 0; p <= m; p++) s += X[v.j][p] * X[v.k][m - p]; d[v.i] += v.b * s; } for (int i = 0; i < n; i++) X[i][m + 1] = d[i] / (m + 1); } return X; }
  VL step(L t0, const VL& x, L h, int K = 28) const { auto X = series(t0, x, K); VL y(n); for (int i = 0; i < n; i++) { L s = 0; for (int m = K; m >= 0; m--) s = s * h + X[i][m]; y[i] = s; } return y; }
  // reference flow; returns false if the solution leaves |x| < lim
  bool flow(L t0, VL x, L t1, VL& out, L lim = 20, L hmax = 0.02L) const { long N = std::max(1L, (long)ceill(fabsl(t1 - t0) / hmax)); L h = (t1 - t0) / N; for (long s = 0; s < N; s++) { x = step(t0 + s * h, x, h); for (auto v : x) if (!(fabsl(v) < lim)) return false; } out = x; return true; } };
inline VL toL(const VD& v) { return VL(v.begin(), v.end()); }
inline MML::Vector<Real> toV(const VD& v) { MML::Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[(int)i] = v[i]; return r; }
inline VD rnd(mon::Rng& r, int n, double s = 1) { VD x(n); for (auto& v : x) v = r.uni(-s, s); return x; }
inline L diff(const MML::Vector<Real>& a, const VL& b) { L m = 0; for (int i = 0; i < (int)b.size(); i++) m = std::max(m, fabsl((L)a[i] - b[i])); return m; }
}
