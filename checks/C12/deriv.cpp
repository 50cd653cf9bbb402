// C12: finite differences vs analytic derivatives with evaluation-point monitoring; forward AD vs long-double jets with running error bounds
#include "mon.h"
#include <limits>
#include "mml/base/Function.h"
#include "mml/core/Derivation.h"
#include "mml/core/Derivation/Jacobians.h"
#include "mml/core/Derivation/ForwardAD.h"
#include "mml/core/RichardsonExtrapolation.h"
using namespace MML; using namespace MML::Derivation;
typedef long double L; typedef std::vector<double> VD;
static const L EPS = 2.3e-16L;
// ---- plane-wave sums: f(x)=sum a sin(w.x+p) (+ polynomial part in 1-D); every derivative known and bounded
template<int N> struct Wave { struct T { L a, w[N], p; }; std::vector<T> t;
  void gen(mon::Rng& r) { int k = (int)r.i(1, 3); double s = r.logmag(-3, 3); for (int i = 0; i < k; i++) { T q; q.a = r.uni(-2, 2) * s; for (auto& v : q.w) v = r.uni(-2.5, 2.5); q.p = r.uni(-3, 3); t.push_back(q); } }
  template<class P> L der(const P& x, const int* mu) const { L s = 0; for (auto& q : t) { L ph = q.p; int n = 0; L c = q.a; for (int j = 0; j < N; j++) { ph += q.w[j] * (L)x[j]; for (int m = 0; m < mu[j]; m++) c *= q.w[j]; n += mu[j]; } switch (n & 3) { case 0: s += c * sinl(ph); break; case 1: s += c * cosl(ph); break; case 2: s -= c * sinl(ph); break; default: s -= c * cosl(ph); } } return s; }
  template<class P> L val(const P& x) const { int mu[N] = {}; return der(x, mu); }
  L bound(int n) const { L s = 0; for (auto& q : t) { L m = 0; for (auto v : q.w) m = std::max(m, fabsl(v)); s += fabsl(q.a) * powl(m, n); } return s; } };
// rounding allowance of a stencil of derivative order d with step h at point magnitude X
template<class W> L rnd(const W& w, L h, L X, int d, L K = 60) { return K * EPS * (w.bound(0) + (X + 4 * fabsl(h)) * w.bound(1)) / powl(fabsl(h), d); }
static const int P1[5] = {1, 2, 4, 6, 8}; static const L C1[5] = {0.5L, 1 / 6.L, 1 / 30.L, 1 / 140.L, 1 / 630.L}; static const double H1[5] = {NDer1_h, NDer2_h, NDer4_h, NDer6_h, NDer8_h};
static double randX(mon::Rng& r) { return r.coin(.15) ? 0.0 : r.coin(.15) ? r.uni(-1, 1) * pow(10, r.uni(1, 4)) : r.uni(-4, 4); }
static double randH(mon::Rng& r, int p) { return pow(10.0, r.uni(p <= 2 ? -5 : p <= 4 ? -3.5 : -2.5, p <= 2 ? -1.5 : -0.8)); }
struct Rec : IRealFunction { const Wave<1>& w; mutable VD xs; Rec(const Wave<1>& w) : w(w) {} Real operator()(Real x) const override { xs.push_back(x); double v[1] = {x}; return (double)w.val(v); } };
#if PART == 1
typedef Real (*F3)(const IRealFunction&, Real, Real, Real*); typedef Real (*F2)(const IRealFunction&, Real, Real*); typedef Real (*F1)(const IRealFunction&, Real); typedef DerivativeResult<Real> (*FD)(const IRealFunction&, Real, Real, const DerivativeConfig&); typedef DerivativeResult<Real> (*FC)(const IRealFunction&, Real, const DerivativeConfig&);
FAMILY(first, 4000) {
  auto& r = c.r; Wave<1> w; w.gen(r); double x = randX(r); int k = (int)r.i(0, 4); double h = randH(r, P1[k]); c.in("x", x); c.in("h", h); c.in("order", P1[k]); for (auto& q : w.t) { c.in("a", (double)q.a); c.in("w", (double)q.w[0]); c.in("p", (double)q.p); }
  static const F3 f3[5] = {NDer1, NDer2, NDer4, NDer6, NDer8}; static const F2 f2[5] = {NDer1, NDer2, NDer4, NDer6, NDer8}; static const F1 f1[5] = {NDer1, NDer2, NDer4, NDer6, NDer8}; static const FD fd[5] = {NDer1Detailed, NDer2Detailed, NDer4Detailed, NDer6Detailed, NDer8Detailed}; static const FC fc[5] = {NDer1Detailed, NDer2Detailed, NDer4Detailed, NDer6Detailed, NDer8Detailed};
  double xv[1] = {x}; auto D = [&](int n) { int mu[1] = {n}; return w.der(xv, mu); }; L want = D(1); int p = P1[k]; std::string key = "NDer" + std::to_string(p);
  auto judge = [&](double got, L hh, const char* what) { L tol = 1.5L * C1[k] * powl(hh, p) * w.bound(p + 1) + rnd(w, hh, fabsl((L)x), 1); c.close(got, want, tol, key + what); };
  auto judgeErr = [&](double est, L hh, const char* what) { L lead = C1[k] * powl(hh, p) * fabsl(D(p + 1)); L next = p == 1 ? hh * hh * w.bound(3) : 8 * powl(hh, p + 2) * w.bound(p + 3); L tol = next + rnd(w, hh, fabsl((L)x), 1) + 0.02L * lead; c.check(est >= 0 && fabsl((L)est - lead) <= tol, key + what, [&] { char b[160]; snprintf(b, 160, "estimate %.6Lg leading error term %.6Lg allowance %.3Lg", (L)est, lead, tol); return std::string(b); }); };
  auto points = [&](const Rec& f, L hh, int reach, const char* what) { for (double t : f.xs) if (!(fabsl((L)t - x) <= reach * hh * (1 + 1e-12L) + 4 * EPS * fabsl((L)x))) { c.fail(key + what, "evaluated at " + std::to_string(t)); break; } };
  L hs = H1[k] * std::max(1.0, std::fabs(x)); double e; int half = p == 1 ? 1 : p / 2;
  { Rec f(w); judge(f1[k](f, x), hs, ".value-default-step"); points(f, hs, half, ".evaluation-point"); c.check((int)f.xs.size() == (p == 1 ? 2 : p), key + ".evaluation-count"); }
  { Rec f(w); judge(f2[k](f, x, &e), hs, ".value-with-error"); judgeErr(e, hs, ".error-estimate-default"); points(f, hs, half + 1, ".evaluation-point"); }
  { Rec f(w); judge(f3[k](f, x, h, nullptr), h, ".value-step"); points(f, h, half, ".evaluation-point"); }
  { Rec f(w); judge(f3[k](f, x, h, &e), h, ".value-step-error"); judgeErr(e, h, ".error-estimate"); points(f, h, half + 1, ".evaluation-point"); }
  { Rec f(w); DerivativeConfig cf; cf.estimate_error = r.coin(); auto R = fd[k](f, x, h, cf); judge(R.value, h, ".detailed"); c.check(R.step_used == h && R.function_evaluations == (int)f.xs.size() && R.status == AlgorithmStatus::Success, key + ".detailed-bookkeeping", [&] { return "evaluations reported " + std::to_string(R.function_evaluations) + " observed " + std::to_string(f.xs.size()); }); if (cf.estimate_error) judgeErr(R.error, h, ".detailed-error"); else c.check(R.error == 0, key + ".detailed-no-error"); }
  { Rec f(w); DerivativeConfig cf; cf.step = r.coin() ? h : 0; auto R = fc[k](f, x, cf); L hh = cf.step ? h : hs; judge(R.value, hh, ".config"); c.check(std::fabs(R.step_used - (double)hh) <= 1e-12 * hh, key + ".config-step"); }
  c.ev("first"); if (k == 2) { Rec f(w); judge(Derive(f, x), hs, ".default-alias"); judge(DeriveErr(f, x, &e), hs, ".default-alias"); }
}
FAMILY(one_sided, 3000) {
  auto& r = c.r; Wave<1> w; w.gen(r); double x = randX(r); int k = (int)r.i(0, 4); double h = randH(r, 8) * .1; bool err = r.coin(), dflt = r.coin(), left = r.coin(); c.in("x", x); c.in("h", h); c.in("order", P1[k]); c.in("flags", err + 2 * dflt + 4 * left);
  static const F3 l3[5] = {NDer1Left, NDer2Left, NDer4Left, NDer6Left, NDer8Left}, r3[5] = {NDer1Right, NDer2Right, NDer4Right, NDer6Right, NDer8Right}; static const F2 l2[5] = {NDer1Left, NDer2Left, NDer4Left, NDer6Left, NDer8Left}, r2[5] = {NDer1Right, NDer2Right, NDer4Right, NDer6Right, NDer8Right};
  L hh = dflt ? H1[k] * std::max(1.0, std::fabs(x)) : h; double e = -1; Rec f(w); double got = dflt ? (left ? l2 : r2)[k](f, x, err ? &e : nullptr) : (left ? l3 : r3)[k](f, x, h, err ? &e : nullptr);
  int mu[1] = {1}; double xv[1] = {x}; L want = w.der(xv, mu); // the stencil sits within 12 steps of x: first-order accurate
  c.close(got, want, 8 * hh * w.bound(2) + C1[k] * powl(hh, P1[k]) * w.bound(P1[k] + 1) + rnd(w, hh, fabsl((L)x), 1), "one-sided.value"); if (err) c.check(e >= 0, "one-sided.error-estimate");
  L slack = 8 * EPS * (fabsl((L)x) + 12 * hh); for (double t : f.xs) { if (left ? (L)t > x + slack : (L)t < x - slack) { c.fail("one-sided.wrong-side", [&] { char b[128]; snprintf(b, 128, "%s NDer%d evaluated at x%+.3Lg (h=%.3Lg)", left ? "left" : "right", P1[k], (L)t - x, hh); return std::string(b); }()); break; } c.check(fabsl((L)t - x) <= 12.5L * hh, "one-sided.reach"); }
  c.ev("one_sided");
}
FAMILY(higher, 4000) {
  auto& r = c.r; Wave<1> w; w.gen(r); double x = randX(r); int k = (int)r.i(0, 3); double h = pow(10, r.uni(-2.5, -0.7)); c.in("x", x); c.in("h", h); c.in("kind", k); for (auto& q : w.t) { c.in("a", (double)q.a); c.in("w", (double)q.w[0]); c.in("p", (double)q.p); }
  static const F3 f3[4] = {NSecDer2, NSecDer4, NThirdDer2, NThirdDer4}; static const F2 f2[4] = {NSecDer2, NSecDer4, NThirdDer2, NThirdDer4}; static const FD fd[4] = {NSecDer2Detailed, NSecDer4Detailed, NThirdDer2Detailed, NThirdDer4Detailed}; static const FC fc[4] = {NSecDer2Detailed, NSecDer4Detailed, NThirdDer2Detailed, NThirdDer4Detailed};
  static const char* nm[4] = {"NSecDer2", "NSecDer4", "NThirdDer2", "NThirdDer4"}; static const int p[4] = {2, 4, 2, 4}, d[4] = {2, 2, 3, 3}, hw[4] = {1, 2, 2, 3}; static const L C[4] = {1 / 12.L, 1 / 90.L, 0.25L, 7 / 120.L}; static const double H[4] = {NDer2_h, NDer4_h, NDer4_h, NDer4_h}; std::string key = nm[k];
  double xv[1] = {x}; auto D = [&](int n) { int mu[1] = {n}; return w.der(xv, mu); }; L want = D(d[k]);
  auto judge = [&](double got, L hh, const char* what) { c.close(got, want, 1.5L * C[k] * powl(hh, p[k]) * w.bound(p[k] + d[k]) + rnd(w, hh, fabsl((L)x), d[k], 150), key + what); };
  auto judgeErr = [&](double est, L hh, const char* what) { L lead = C[k] * powl(hh, p[k]) * fabsl(D(p[k] + d[k])); L tol = 8 * powl(hh, p[k] + 2) * w.bound(p[k] + d[k] + 2) + rnd(w, hh, fabsl((L)x), d[k], 300) + 0.02L * lead; c.check(est >= 0 && fabsl((L)est - lead) <= tol, key + what, [&] { char b[160]; snprintf(b, 160, "estimate %.6Lg leading error term %.6Lg allowance %.3Lg", (L)est, lead, tol); return std::string(b); }); };
  auto points = [&](const Rec& f, L hh, int reach) { for (double t : f.xs) if (!(fabsl((L)t - x) <= reach * hh * (1 + 1e-12L) + 4 * EPS * fabsl((L)x))) { c.fail(key + ".evaluation-point", "evaluated at " + std::to_string(t)); break; } };
  L hs = H[k] * std::max(1.0, std::fabs(x)); double e;
  { Rec f(w); judge(f2[k](f, x, nullptr), hs, ".default"); points(f, hs, hw[k]); } { Rec f(w); judge(f2[k](f, x, &e), hs, ".default-with-error"); judgeErr(e, hs, ".error-estimate-default"); points(f, hs, hw[k] + 1); }
  { Rec f(w); judge(f3[k](f, x, h, nullptr), h, ".step"); points(f, h, hw[k]); } { Rec f(w); judge(f3[k](f, x, h, &e), h, ".step-with-error"); judgeErr(e, h, ".error-estimate"); points(f, h, hw[k] + 1); }
  { Rec f(w); DerivativeConfig cf; cf.estimate_error = r.coin(); auto R = fd[k](f, x, h, cf); judge(R.value, h, ".detailed"); c.check(R.function_evaluations == (int)f.xs.size() && R.step_used == h, key + ".detailed-bookkeeping", [&] { return std::to_string(R.function_evaluations) + " vs " + std::to_string(f.xs.size()); }); }
  { Rec f(w); DerivativeConfig cf; cf.step = h; auto R = fc[k](f, x, cf); judge(R.value, h, ".config"); }
  if (k == 1) { Rec f(w); judge(DeriveSec(f, x, nullptr), hs, ".default-alias"); } if (k == 2) { Rec f(w); judge(DeriveThird(f, x, nullptr), hs, ".default-alias"); }
  c.ev("higher");
}
FAMILY(richardson, 300) {
  // the stopping rule is a heuristic, so accuracy is judged on batches: all loose, nearly all tight
  auto& r = c.r; const int B = 16; int bad[8][6] = {}; VD xs_; double worst[8][6] = {};
  typedef Real (*R6)(const IRealFunction&, Real, Real, Real*, int, Real); static const R6 f[3] = {NDerRichardson, NSecDerRichardson, NThirdDerRichardson}; static const F2 f2[3] = {NDerRichardson, NSecDerRichardson, NThirdDerRichardson}, fa[3] = {NDerAdaptive, NSecDerAdaptive, NThirdDerAdaptive}; static const L tol[3] = {3e-10L, 3e-8L, 1e-5L}; static const char* nm[3] = {"NDerRichardson", "NSecDerRichardson", "NThirdDerRichardson"};
  for (int b = 0; b < B; b++) { Wave<1> w; w.gen(r); double x = r.coin(.1) ? 0 : r.uni(-4, 4); xs_.push_back(x); double xv[1] = {x}; auto D = [&](int n) { int mu[1] = {n}; return w.der(xv, mu); }; double e = -1; L S = w.bound(0) + w.bound(4);
    for (int k = 0; k < 3; k++) { L want = D(k + 1); double h0 = k == 2 ? .2 : .1; Rec g(w); auto judge = [&](double got, int col) { L d = fabsl((L)got - want); bad[k][col] += !(d <= tol[k] * S); worst[k][col] = std::max(worst[k][col], (double)(d / (tol[k] * S))); c.check(d <= (k == 2 ? .1L : 1e-2L) * S, std::string(nm[k]) + ".value"); c.check(e >= 0 && std::isfinite(e), std::string(nm[k]) + ".error-estimate"); bad[k][3] += !(d <= 100 * e + tol[k] * .1L * S); };
      judge(f2[k](g, x, &e), 0); judge(fa[k](g, x, &e), 1); double h = h0 * r.uni(.5, 1.2), con = r.uni(1.3, 2); judge(f[k](g, x, h, &e, (int)r.i(8, 12), con), 2);
      for (double t : g.xs) c.check(fabsl((L)t - x) <= (k == 2 ? 2 : 1) * 1.2L * h0 * (1 + 1e-12L), std::string(nm[k]) + ".evaluation-point"); double z = f[k](g, x, 0.0, &e, 10, 1.4); c.check(z == 0 && e == std::numeric_limits<double>::max(), std::string(nm[k]) + ".zero-step"); }
    // generic extrapolators: exact model y(h)=sum c_j h^(2j)
    int n = (int)r.i(2, 8); std::vector<L> cf(n); for (auto& v : cf) v = r.uni(-2, 2); auto y = [&](double h) { L s = 0; for (int j = n - 1; j >= 0; j--) s = s * ((L)h * h) + cf[j]; return (double)s; }; double con = r.uni(1.4, 2.2);
    std::vector<Real> xs, ys; double h = r.uni(.3, 1.5); for (int j = 0; j < n; j++) { xs.push_back(h * h); ys.push_back(y(h)); h /= con; } auto R = Richardson::NevilleExtrapolate(ys, xs); c.check(R.converged, "Neville.not-converged"); c.close(R.value, cf[0], 1e-9L, "Neville.value"); if (n > 2) c.check(R.error_estimate >= 0, "Neville.error-estimate");
    auto Q = Richardson::Extrapolate([&](Real h) { return y(h); }, r.uni(.2, .6), con, 10); L d = fabsl((L)Q.value - cf[0]); if (n <= 2) c.close(Q.value, cf[0], 1e-8L, "Extrapolate.value"); c.check(d <= .5L, "Extrapolate.value"); bad[3][0] += !(d <= 1e-6L); bad[3][1] += !(d <= 30 * (L)Q.error_estimate + 1e-8L); c.check(Q.error_estimate >= 0, "Extrapolate.error-estimate");
    int pp = (int)r.i(1, 6); double H = r.uni(.1, 1), rr = r.uni(1.5, 3); auto m = [&](L q) { return cf[0] + 1.5L * powl(q, pp); }; c.close(Richardson::SimpleExtrapolate((double)m(H), (double)m((L)H / rr), rr, pp), cf[0], 1e-11L, "SimpleExtrapolate.value"); }
  c.in("x", xs_); static const char* cn[4] = {".accuracy", ".adaptive-accuracy", ".parameters-accuracy", ".error-estimate-honesty"};
  for (int k = 0; k < 3; k++) for (int j = 0; j < 4; j++) c.check(bad[k][j] <= (j == 3 ? 9 : 4), std::string(nm[k]) + cn[j], [&] { return std::to_string(bad[k][j]) + " of a batch of 16 off, worst by " + std::to_string(worst[k][j]) + " tolerances"; });
  c.check(bad[3][0] <= 10, "Extrapolate.accuracy", [&] { return std::to_string(bad[3][0]); }); c.check(bad[3][1] <= 5, "Extrapolate.error-estimate-honesty", [&] { return std::to_string(bad[3][1]); });
  c.maxi("bad_extrapolate", bad[3][0]); c.maxi("bad_estimate", bad[3][1]); for (int k = 0; k < 3; k++) for (int j = 0; j < 4; j++) c.maxi("bad_richardson", bad[k][j]); c.ev("richardson", B);
}
static const double NaN_ = std::numeric_limits<double>::quiet_NaN(), Inf_ = std::numeric_limits<double>::infinity();
FAMILY(bad_steps, 1500) {
  auto& r = c.r; Wave<1> w; w.gen(r); double x = r.uni(-2, 2); double bad = r.pick({0.0, NaN_, Inf_, -Inf_}); int k = (int)r.i(0, 8); c.in("k", k); c.in("h", bad); Rec f(w);
  static const FD fd[9] = {NDer1Detailed, NDer2Detailed, NDer4Detailed, NDer6Detailed, NDer8Detailed, NSecDer2Detailed, NSecDer4Detailed, NThirdDer2Detailed, NThirdDer4Detailed};
  DerivativeConfig cf; cf.exception_policy = EvaluationExceptionPolicy::Propagate; c.throws<MMLException>([&] { fd[k](f, x, bad, cf); }, "bad-step.propagate"); cf = {}; 
  cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto R = fd[k](f, x, bad, cf); c.check(R.status == AlgorithmStatus::InvalidInput && !R.error_message.empty(), "bad-step.status"); c.check(f.xs.empty(), "bad-step.evaluated-anyway");
  // non-finite result with check_finite is reported
  struct NF : IRealFunction { double v; Real operator()(Real) const override { return v; } } nf; nf.v = r.pick({NaN_, Inf_}); cf.check_finite = true; auto Q = fd[k](nf, x, 0.01, cf); c.check(Q.status == AlgorithmStatus::NumericalInstability, "non-finite.status"); cf.exception_policy = EvaluationExceptionPolicy::Propagate; c.throws<NumericalMethodError>([&] { fd[k](nf, x, 0.01, cf); }, "non-finite.propagate");
  struct TH : IRealFunction { Real operator()(Real) const override { throw std::runtime_error("user"); } } th; c.throws<std::runtime_error>([&] { fd[k](th, x, 0.01, cf); }, "user-exception.propagate"); cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; c.check(fd[k](th, x, 0.01, cf).status == AlgorithmStatus::AlgorithmSpecificFailure, "user-exception.status"); c.ev("bad_steps");
}
#endif
#if PART == 2
template<int N> struct RecS : IScalarFunction<N> { const Wave<N>& w; mutable std::vector<VectorN<Real, N>> xs; RecS(const Wave<N>& w) : w(w) {} Real operator()(const VectorN<Real, N>& x) const override { xs.push_back(x); return (double)w.val(x); } };
template<int N> struct RecV : IVectorFunction<N> { const std::vector<Wave<N>>& w; mutable std::vector<VectorN<Real, N>> xs; RecV(const std::vector<Wave<N>>& w) : w(w) {} VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { xs.push_back(x); VectorN<Real, N> v; for (int i = 0; i < N; i++) v[i] = (double)w[i].val(x); return v; } };
template<int N> VectorN<Real, N> randP(mon::Case& c) { VectorN<Real, N> p; VD v(N); for (int i = 0; i < N; i++) v[i] = p[i] = c.r.coin(.1) ? 0 : c.r.coin(.1) ? c.r.uni(-300, 300) : c.r.uni(-3, 3); c.in("point", v); return p; }
template<int N, class RF> void only(mon::Case& c, const RF& f, const VectorN<Real, N>& p, const std::vector<int>& act, L reach, const char* key) { for (auto& x : f.xs) for (int j = 0; j < N; j++) { bool a = std::find(act.begin(), act.end(), j) != act.end(); if (!(a ? fabsl((L)x[j] - p[j]) <= reach * (1 + 1e-12L) + 4 * EPS * fabsl((L)p[j]) : x[j] == p[j])) { c.fail(key, "coordinate " + std::to_string(j) + " moved to " + std::to_string(x[j])); return; } } }
template<int N, class W> L judgeTol(const W& w, int k, L h, const VectorN<Real, N>& p) { L X = 0; for (int i = 0; i < N; i++) X += fabsl((L)p[i]); return 1.5L * C1[k] * powl(h, P1[k]) * w.bound(P1[k] + 1) + rnd(w, h, X, 1); }
template<int N> void scalar(mon::Case& c) {
  auto& r = c.r; Wave<N> w; w.gen(r); auto p = randP<N>(c); int k = (int)r.i(0, 4), i = (int)r.i(0, N - 1); double h = randH(r, P1[k]); c.in("order", P1[k]); c.in("i", i); c.in("h", h); RecS<N> f(w); double e = -1; VectorN<Real, N> ev, g, g2; int half = P1[k] == 1 ? 1 : P1[k] / 2; double v1, v2, v3;
  switch (k) { 
#define ONE(K, F) case K: v1 = F##Partial(f, i, p, h); v2 = F##Partial(f, i, p, h, &e); break;
    ONE(0, NDer1) ONE(1, NDer2) ONE(2, NDer4) ONE(3, NDer6) default: v1 = NDer8Partial(f, i, p, h); v2 = NDer8Partial(f, i, p, h, &e); }
  auto D = [&](int j) { int mu[N] = {}; mu[j] = 1; return w.der(p, mu); }; c.close(v1, D(i), judgeTol<N>(w, k, h, p), "scalar.partial"); c.close(v2, D(i), judgeTol<N>(w, k, h, p), "scalar.partial-with-error"); only<N>(c, f, p, {i}, (half + 1) * (L)h, "scalar.partial-evaluation-point");
  { int mu[N] = {}; mu[i] = P1[k] + 1; L lead = C1[k] * powl(h, P1[k]) * fabsl(w.der(p, mu)); L next = P1[k] == 1 ? (L)h * h * w.bound(3) : 8 * powl(h, P1[k] + 2) * w.bound(P1[k] + 3); L X = 0; for (int j = 0; j < N; j++) X += fabsl((L)p[j]); c.check(e >= 0 && fabsl(e - lead) <= next + rnd(w, h, X, 1) + .02L * lead, "scalar.error-estimate", [&] { return std::to_string(e) + " leading " + std::to_string((double)lead); }); }
  f.xs.clear(); L hs = H1[k] * std::max(1.0, std::fabs(p[i])); switch (k) { case 0: v3 = NDer1Partial(f, i, p); g = NDer1PartialByAll(f, p); g2 = NDer1PartialByAll(f, p, h, &ev); break; case 1: v3 = NDer2Partial(f, i, p); g = NDer2PartialByAll(f, p); g2 = NDer2PartialByAll(f, p, h, &ev); break; case 2: v3 = NDer4Partial(f, i, p); g = NDer4PartialByAll(f, p); g2 = NDer4PartialByAll(f, p, h, &ev); break; case 3: v3 = NDer6Partial(f, i, p); g = NDer6PartialByAll(f, p); g2 = NDer6PartialByAll(f, p, h, &ev); break; default: v3 = NDer8Partial(f, i, p); g = NDer8PartialByAll(f, p); g2 = NDer8PartialByAll(f, p, h, &ev); }
  c.close(v3, D(i), judgeTol<N>(w, k, hs, p), "scalar.partial-default-step"); for (int j = 0; j < N; j++) { c.close(g[j], D(j), judgeTol<N>(w, k, H1[k] * std::max(1.0, std::fabs(p[j])), p), "scalar.gradient"); c.close(g2[j], D(j), judgeTol<N>(w, k, h, p), "scalar.gradient-step"); } c.check(std::fabs(ev[i] - e) <= 1e-9 * std::fabs(e) + 1e-300, "scalar.gradient-error-slot");
  // second partials
  int j = (int)r.i(0, N - 1); double H = pow(10, r.uni(-2.5, -.9)); L X = 0; for (int q = 0; q < N; q++) X += fabsl((L)p[q]); int mu[N] = {}; mu[i]++; mu[j]++; L want = w.der(p, mu); c.in("j", j); c.in("H", H);
  f.xs.clear(); L t2 = (L)H * H * w.bound(4) + rnd(w, H, X, 2, 150), t4 = powl(H, 4) * w.bound(6) + rnd(w, H, X, 2, 150); c.close(NSecDer2Partial(f, i, j, p, H), want, t2, i == j ? "scalar.second2-pure" : "scalar.second2-mixed"); only<N>(c, f, p, {i, j}, H, "scalar.second2-evaluation-point"); f.xs.clear(); c.close(NSecDer4Partial(f, i, j, p, H, &e), want, t4, i == j ? "scalar.second4-pure" : "scalar.second4-mixed"); only<N>(c, f, p, {i, j}, 3 * (L)H, "scalar.second4-evaluation-point");
  if (i == j) { int m6[N] = {}; m6[i] = 6; L lead = powl(H, 4) / 90 * fabsl(w.der(p, m6)); c.check(e >= 0 && fabsl(e - lead) <= 8 * powl(H, 6) * w.bound(8) + rnd(w, H, X, 2, 300) + .02L * lead, "scalar.second4-error-estimate"); NSecDer2Partial(f, i, j, p, H, &e); int m4[N] = {}; m4[i] = 4; lead = powl(H, 2) / 12 * fabsl(w.der(p, m4)); c.check(e >= 0 && fabsl(e - lead) <= 8 * powl(H, 4) * w.bound(6) + rnd(w, H, X, 2, 300) + .02L * lead, "scalar.second2-error-estimate"); }
  L sc = std::max(1.0, std::max(std::fabs(p[i]), std::fabs(p[j]))); L h2 = NDer2_h * sc, h4 = NDer4_h * sc; c.close(NSecDer2Partial(f, i, j, p), want, h2 * h2 * w.bound(4) + rnd(w, h2, X, 2, 150), "scalar.second2-default"); c.close(NSecDer4Partial(f, i, j, p), want, powl(h4, 4) * w.bound(6) + rnd(w, h4, X, 2, 150), "scalar.second4-default");
  c.ev("scalar");
}
FAMILY(scalar1, 500) { scalar<1>(c); } FAMILY(scalar2, 1000) { scalar<2>(c); } FAMILY(scalar3, 1200) { scalar<3>(c); } FAMILY(scalar4, 800) { scalar<4>(c); }
template<int N> void vectorf(mon::Case& c) {
  auto& r = c.r; std::vector<Wave<N>> w(N); for (auto& q : w) q.gen(r); auto p = randP<N>(c); int k = (int)r.i(0, 4), a = (int)r.i(0, N - 1), i = (int)r.i(0, N - 1); double h = randH(r, P1[k]); c.in("order", P1[k]); c.in("a", a); c.in("i", i); c.in("h", h); RecV<N> f(w); VectorN<Real, N> ev, g, g2; MatrixNM<Real, N, N> J, J2, E; double v = 0, v3 = 0, e = -1;
  auto D = [&](int a, int j) { int mu[N] = {}; mu[j] = 1; return w[a].der(p, mu); }; int half = P1[k] == 1 ? 1 : P1[k] / 2; bool err = r.coin();
#define VCASE(K, F) case K: v = F##Partial(f, a, i, p, h, err ? &e : nullptr); only<N>(c, f, p, {i}, (half + 1) * (L)h, "vector.evaluation-point"); v3 = F##Partial(f, a, i, p); g = F##PartialByAll(f, a, p); g2 = F##PartialByAll(f, a, p, h, &ev); J = F##PartialAllByAll(f, p); J2 = F##PartialAllByAll(f, p, h, err ? &E : nullptr); break;
  switch (k) { VCASE(0, NDer1) VCASE(1, NDer2) VCASE(2, NDer4) VCASE(3, NDer6) VCASE(4, NDer8) }
  auto T = [&](int a, int j, bool dflt) { return judgeTol<N>(w[a], k, dflt ? (L)H1[k] * std::max(1.0, std::fabs(p[j])) : (L)h, p); };
  c.close(v, D(a, i), T(a, i, false), "vector.partial"); c.close(v3, D(a, i), T(a, i, true), "vector.partial-default"); for (int j = 0; j < N; j++) { c.close(g[j], D(a, j), T(a, j, true), "vector.by-all"); c.close(g2[j], D(a, j), T(a, j, false), "vector.by-all-step"); for (int b = 0; b < N; b++) { c.close(J(b, j), D(b, j), T(b, j, true), "vector.all-by-all"); c.close(J2(b, j), D(b, j), T(b, j, false), "vector.all-by-all-step"); if (err) c.check(E(b, j) >= 0 && (b != a || std::fabs(E(b, j) - ev[j]) <= 1e-9 * std::fabs(ev[j]) + 1e-300), "vector.error-slot"); } } if (err) c.check(std::fabs(e - ev[i]) <= 1e-9 * std::fabs(e) + 1e-300, "vector.error-slot");
  // Jacobians
  auto Jc = calcJacobian(f, p); for (int b = 0; b < N; b++) for (int j = 0; j < N; j++) c.close(Jc(b, j), D(b, j), judgeTol<N>(w[b], 2, (L)H1[2] * std::max(1.0, std::fabs(p[j])), p), "jacobian.static");
  c.ev("vector");
}
FAMILY(vector2, 800) { vectorf<2>(c); } FAMILY(vector3, 1000) { vectorf<3>(c); } FAMILY(vector4, 500) { vectorf<4>(c); }
template<int N, int M> struct FNM : IVectorFunctionNM<N, M> { const std::vector<Wave<N>>& w; FNM(const std::vector<Wave<N>>& w) : w(w) {} VectorN<Real, M> operator()(const VectorN<Real, N>& x) const override { VectorN<Real, M> v; for (int i = 0; i < M; i++) v[i] = (double)w[i].val(x); return v; } };
template<int N, int M> void jacnm(mon::Case& c) { auto& r = c.r; std::vector<Wave<N>> w(M); for (auto& q : w) q.gen(r); auto p = randP<N>(c); FNM<N, M> f(w); auto J = calcJacobian(f, p); for (int b = 0; b < M; b++) for (int j = 0; j < N; j++) { int mu[N] = {}; mu[j] = 1; c.close(J(b, j), w[b].der(p, mu), judgeTol<N>(w[b], 2, (L)H1[2] * std::max(1.0, std::fabs(p[j])), p) + judgeTol<N>(w[b], 2, (L)H1[2], p), "jacobian.rectangular"); } c.ev("jac_rect"); }
FAMILY(jac23, 400) { jacnm<2, 3>(c); } FAMILY(jac32, 400) { jacnm<3, 2>(c); } FAMILY(jac41, 300) { jacnm<4, 1>(c); }
FAMILY(jac_dyn, 1000) {
  auto& r = c.r; int n = (int)r.i(1, 4), m = (int)r.i(1, 5); std::vector<Wave<4>> w(5); for (auto& q : w) { q.gen(r); for (auto& t : q.t) for (int j = n; j < 4; j++) t.w[j] = 0; } Vector<Real> x(n); VD xv(4, 0); for (int i = 0; i < n; i++) xv[i] = x[i] = r.coin(.1) ? r.uni(-50, 50) : r.uni(-3, 3); c.in("x", xv); c.in("n", n); c.in("m", m);
  auto F = [&](int m) { return [&w, n, m](const Vector<Real>& y) { double z[4] = {}; for (int i = 0; i < n; i++) z[i] = y[i]; Vector<Real> v(m); for (int i = 0; i < m; i++) v[i] = (double)w[i].val(z); return v; }; }; auto D = [&](int a, int j) { int mu[4] = {}; mu[j] = 1; return w[a].der(xv, mu); }; L X = 0; for (double v : xv) X += std::fabs(v);
  double h = r.coin() ? 0 : pow(10, r.uni(-3, -1.5)); c.in("h", h); L h4 = h ? h : pow(2.2e-16, .2), h2 = h ? h : pow(2.2e-16, 1 / 3.); auto t4 = [&](int a) { return 1.5L / 30 * powl(h4, 4) * w[a].bound(5) + rnd(w[a], h4, X, 1); }; auto t2 = [&](int a) { return 1.5L / 6 * powl(h2, 2) * w[a].bound(3) + rnd(w[a], h2, X, 1); };
  auto J = calcJacobianDyn(F(n), x, h); Matrix<Real> Ji; calcJacobianDynInPlace(F(n), x, Ji, h); auto Jm = calcJacobianDyn(F(m), x, m, h); auto J2 = calcJacobianDyn2(F(n), x, h); c.check(J.rows() == n && J.cols() == n && Jm.rows() == m && Jm.cols() == n && Ji.rows() == n && J2.rows() == n, "jacobian.dyn-shape");
  for (int j = 0; j < n; j++) { for (int a = 0; a < n; a++) { c.close(J(a, j), D(a, j), t4(a), "jacobian.dyn"); c.close(Ji(a, j), D(a, j), t4(a), "jacobian.dyn-in-place"); c.close(J2(a, j), D(a, j), t2(a), "jacobian.dyn2"); } for (int a = 0; a < m; a++) c.close(Jm(a, j), D(a, j), t4(a), "jacobian.dyn-rect"); }
  double t = r.uni(-2, 2); L he = 1.5e-8L; auto ode = [&](Real tt, const Vector<Real>& y, Vector<Real>& d) { auto v = F(n)(y); for (int i = 0; i < n; i++) d[i] = v[i] + 3 * tt; if (tt != t) throw std::runtime_error("time moved"); }; Matrix<Real> Jo = calcJacobianODE(ode, t, x), Jo2; calcJacobianODE(ode, t, x, Jo2); Matrix<Real> Jp; calcJacobianMap(F(n), x, Jp);
  for (int a = 0; a < n; a++) for (int j = 0; j < n; j++) { L hj = he * std::max(1.0, std::fabs(xv[j])), tol = hj * hj * w[a].bound(3) + rnd(w[a], hj, X, 1) + 60 * EPS * 10 / hj; c.close(Jo(a, j), D(a, j), tol, "jacobian.ode"); c.check(Jo(a, j) == Jo2(a, j), "jacobian.ode-out"); c.close(Jp(a, j), D(a, j), tol, "jacobian.map"); } for (int i = 0; i < n; i++) c.check(x[i] == xv[i], "jacobian.input-changed"); c.ev("jac_dyn");
}
#endif
#if PART == 3
template<int N> struct Cv : IParametricCurve<N> { const std::vector<Wave<1>>& w; mutable VD ts; Cv(const std::vector<Wave<1>>& w) : w(w) {} VectorN<Real, N> operator()(Real t) const override { ts.push_back(t); double x[1] = {t}; VectorN<Real, N> v; for (int i = 0; i < N; i++) v[i] = (double)w[i].val(x); return v; } Real getMinT() const override { return -1e9; } Real getMaxT() const override { return 1e9; } };
template<int N> void curve(mon::Case& c) {
  auto& r = c.r; std::vector<Wave<1>> w(N); for (auto& q : w) q.gen(r); double t = randX(r); int k = (int)r.i(0, 8); c.in("t", t); c.in("kind", k); static const int p[9] = {1, 2, 4, 6, 8, 2, 4, 2, 4}, d[9] = {1, 1, 1, 1, 1, 2, 2, 3, 3}; static const L C[9] = {.5L, 1 / 6.L, 1 / 30.L, 1 / 140.L, 1 / 630.L, 1 / 12.L, 1 / 90.L, .25L, 7 / 120.L}; double h = k < 5 ? randH(r, p[k]) : pow(10, r.uni(-2.5, -.7)); c.in("h", h); Cv<N> f(w); VectorN<Real, N> a, b; double e = -1; bool err = r.coin();
#define CC(K, F) case K: a = F<N>(f, t, h, err ? &e : nullptr); { for (double s : f.ts) c.check(std::fabs(s - t) <= 5 * h * (1 + 1e-12) + 1e-15 * std::fabs(t), "curve.evaluation-point"); } b = F<N>(f, t); break;
  static const double H[9] = {NDer1_h, NDer2_h, NDer4_h, NDer6_h, NDer8_h, NDer2_h, NDer4_h, NDer4_h, NDer4_h};
  switch (k) { CC(0, NDer1) CC(1, NDer2) CC(2, NDer4) CC(3, NDer6) CC(4, NDer8) CC(5, NSecDer2) CC(6, NSecDer4) CC(7, NThirdDer2) CC(8, NThirdDer4) }
  double x[1] = {t}; L hs = (L)H[k] * std::max(1.0, std::fabs(t)); for (int i = 0; i < N; i++) { int mu[1] = {d[k]}; L want = w[i].der(x, mu); auto tol = [&](L hh) { return 1.5L * C[k] * powl(hh, p[k]) * w[i].bound(p[k] + d[k]) + rnd(w[i], hh, fabsl((L)t), d[k], 150); }; c.close(a[i], want, tol(h), "curve.value"); c.close(b[i], want, tol(hs), "curve.default-step"); }
  if (err) { L lead = 0, nb = 0, rb = 0; for (int i = 0; i < N; i++) { int mu[1] = {p[k] + d[k]}; L v = w[i].der(x, mu); lead += v * v; nb += w[i].bound(p[k] + d[k] + 2) + (p[k] == 1 ? w[i].bound(3) / (L)h : 0); rb += rnd(w[i], h, fabsl((L)t), d[k], 300); } lead = C[k] * powl(h, p[k]) * sqrtl(lead); c.check(e >= 0 && fabsl(e - lead) <= 8 * powl(h, p[k] + 2) * nb + rb + .02L * lead, "curve.error-estimate", [&] { char q[128]; snprintf(q, 128, "kind %d estimate %.6g leading term %.6Lg", k, e, lead); return std::string(q); }); }
  if (k == 2) { auto v = DeriveCurve<N>(f, t, nullptr); for (int i = 0; i < N; i++) c.close(v[i], b[i], 1e-9L * (1 + w[i].bound(1)), "curve.alias"); } c.ev("curve");
}
FAMILY(curve2, 1500) { curve<2>(c); } FAMILY(curve3, 1500) { curve<3>(c); }
template<int N> struct Sf : IParametricSurfaceRect<N> { const std::vector<Wave<2>>& w; mutable std::vector<std::array<double, 2>> ps; Sf(const std::vector<Wave<2>>& w) : w(w) {} VectorN<Real, N> operator()(Real u, Real v) const override { ps.push_back({u, v}); double x[2] = {u, v}; VectorN<Real, N> q; for (int i = 0; i < N; i++) q[i] = (double)w[i].val(x); return q; } Real getMinU() const override { return -1e9; } Real getMaxU() const override { return 1e9; } Real getMinW() const override { return -1e9; } Real getMaxW() const override { return 1e9; } };
FAMILY(surface, 2500) {
  constexpr int N = 3; auto& r = c.r; std::vector<Wave<2>> w(N); for (auto& q : w) q.gen(r); double u = randX(r), v = randX(r); int k = (int)r.i(0, 6); c.in("u", u); c.in("w", v); c.in("kind", k); double h = k < 4 ? randH(r, 2) : pow(10, r.uni(-3, -1)), h2 = h * r.uni(.5, 2); c.in("h", h); Sf<N> f(w); VectorN<Real, N> a, b; double e = -1; Real* E = r.coin() ? &e : nullptr; int mu[2] = {}; double x[2] = {u, v};
  switch (k) { case 0: a = NDer1_u<N>(f, u, v, h, E); b = NDer1_u<N>(f, u, v); mu[0] = 1; break; case 1: a = NDer1_w<N>(f, u, v, h, E); b = NDer1_w<N>(f, u, v); mu[1] = 1; break; case 2: a = NDer2_u<N>(f, u, v, h, E); b = NDer2_u<N>(f, u, v); mu[0] = 1; break; case 3: a = NDer2_w<N>(f, u, v, h, E); b = NDer2_w<N>(f, u, v); mu[1] = 1; break;
    case 4: a = NDer2_uu<N>(f, u, v, h, E); b = NDer2_uu<N>(f, u, v); mu[0] = 2; break; case 5: a = NDer2_ww<N>(f, u, v, h, E); b = NDer2_ww<N>(f, u, v); mu[1] = 2; break; default: a = r.coin() ? NDer2_uw<N>(f, u, v, h, E) : NDer2_uw<N>(f, u, v, h, h2, E); b = NDer2_uw<N>(f, u, v); mu[0] = mu[1] = 1; h2 = std::max(h, h2); }
  int d = mu[0] + mu[1]; double X = std::fabs(u) + std::fabs(v), sc = d == 2 && mu[0] == 1 ? std::max(1.0, std::max(std::fabs(u), std::fabs(v))) : std::max(1.0, std::fabs(mu[0] ? u : v)); L hs = (k < 2 ? NDer1_h : NDer2_h) * sc;
  for (int i = 0; i < N; i++) { L want = w[i].der(x, mu); auto tol = [&](L hh, L hb) { L tr = k < 2 ? .75L * hh * w[i].bound(2) : .5L * hb * hb * w[i].bound(d + 2); return tr + rnd(w[i], hh, X, d, 150); }; c.close(a[i], want, k == 6 ? tol(h * .5, 2 * h) : tol(h, h), "surface.value"); c.close(b[i], want, tol(hs, hs), "surface.default-step"); }
  if (E) c.check(e >= 0, "surface.error-estimate"); c.ev("surface");
}
template<int N> struct T2f : ITensorField2<N> { const std::vector<Wave<N>>& w; T2f(const std::vector<Wave<N>>& w) : ITensorField2<N>(1, 1), w(w) {} Real Component(int i, int j, const VectorN<Real, N>& p) const override { return (double)w[i * N + j].val(p); } Tensor2<N> operator()(const VectorN<Real, N>& p) const override { Tensor2<N> t(1, 1); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t(i, j) = Component(i, j, p); return t; } };
template<int N> struct T3f : ITensorField3<N> { const std::vector<Wave<N>>& w; T3f(const std::vector<Wave<N>>& w) : ITensorField3<N>(1, 2), w(w) {} Real Component(int i, int j, int k, const VectorN<Real, N>& p) const override { return (double)w[(i * N + j) * N + k].val(p); } Tensor3<N> operator()(const VectorN<Real, N>&) const override { return Tensor3<N>(1, 2); } };
template<int N> struct T4f : ITensorField4<N> { const std::vector<Wave<N>>& w; T4f(const std::vector<Wave<N>>& w) : ITensorField4<N>(2, 2), w(w) {} Real Component(int i, int j, int k, int l, const VectorN<Real, N>& p) const override { return (double)w[((i * N + j) * N + k) * N + l].val(p); } Tensor4<N> operator()(const VectorN<Real, N>&) const override { return Tensor4<N>(2, 2); } };
FAMILY(tensor, 2000) {
  constexpr int N = 3; auto& r = c.r; std::vector<Wave<N>> w(81); for (auto& q : w) q.gen(r); VectorN<Real, N> p; VD pv; for (int i = 0; i < N; i++) pv.push_back(p[i] = r.coin(.1) ? 0 : r.uni(-3, 3)); c.in("point", pv); int k = (int)r.i(0, 2), rank = (int)r.i(2, 4), i = (int)r.i(0, 2), j = (int)r.i(0, 2), m = (int)r.i(0, 2), l = (int)r.i(0, 2), d = (int)r.i(0, 2); double h = randH(r, P1[k]); c.in("idx", i * 1000 + j * 100 + m * 10 + l); c.in("d", d); c.in("rank", rank); c.in("order", P1[k]); c.in("h", h); double a, b, e = -1; Real* E = r.coin() ? &e : nullptr; int id;
  T2f<N> f2(w); T3f<N> f3(w); T4f<N> f4(w);
#define TC(K, F) case K: if (rank == 2) { a = F(f2, i, j, d, p, h, E); b = F(f2, i, j, d, p, E); id = i * N + j; } else if (rank == 3) { a = F(f3, i, j, m, d, p, h, E); b = F(f3, i, j, m, d, p, E); id = (i * N + j) * N + m; } else { a = F(f4, i, j, m, l, d, p, h, E); b = F(f4, i, j, m, l, d, p, E); id = ((i * N + j) * N + m) * N + l; } break;
  switch (k) { TC(0, NDer1Partial) TC(1, NDer2Partial) TC(2, NDer4Partial) } int mu[N] = {}; mu[d] = 1; L want = w[id].der(p, mu); L X = 9, hs = (L)H1[k] * std::max(1.0, std::fabs(p[d])); auto tol = [&](L hh) { return 1.5L * C1[k] * powl(hh, P1[k]) * w[id].bound(P1[k] + 1) + rnd(w[id], hh, X, 1); }; c.close(a, want, tol(h), "tensor.partial"); c.close(b, want, tol(hs), "tensor.partial-default"); c.ev("tensor");
}
// ------------------------------------------------------------------ forward AD against long-double jets with running error bounds
namespace S = MML::Symbolic; typedef S::Dual<double> Du;
struct Jet { L v = 0, d = 0, ev = 0, ed = 0; };
static const L U = 1.2e-16L;
static Jet un(const Jet& a, L f, L f1, L f2, L cond = 4) { Jet o; o.v = f; o.d = f1 * a.d; o.ev = fabsl(f1) * a.ev + cond * U * fabsl(f); o.ed = fabsl(f2 * a.d) * a.ev + fabsl(f1) * a.ed + 2 * cond * U * fabsl(o.d) + cond * U * fabsl(a.d) * fabsl(f2) * fabsl(a.v); return o; }
static Jet bi(const Jet& a, const Jet& b, L f, L fa, L fb, L faa, L fab, L fbb) { Jet o; o.v = f; o.d = fa * a.d + fb * b.d; o.ev = fabsl(fa) * a.ev + fabsl(fb) * b.ev + 6 * U * fabsl(f); o.ed = (fabsl(faa * a.d) + fabsl(fab * b.d)) * a.ev + (fabsl(fab * a.d) + fabsl(fbb * b.d)) * b.ev + fabsl(fa) * a.ed + fabsl(fb) * b.ed + 16 * U * (fabsl(fa * a.d) + fabsl(fb * b.d)) * (1 + fabsl(f) * 0); return o; }
FAMILY(forward_ad, 6000) {
  auto& r = c.r; int nv = (int)r.i(1, 4), len = (int)r.i(1, 12); VD x(nv); for (auto& v : x) v = r.coin(.2) ? r.i(-3, 3) : r.uni(-3, 3); c.in("x", x);
  struct Op { int op, a, b; double k; }; std::vector<Op> prog;
  // build a program whose operands stay in the domain, on the reference values
  std::vector<L> val(x.begin(), x.end()); std::string txt; for (int s = 0; s < len; s++) { Op o; o.op = (int)r.i(0, 33); o.a = r.coin(.4) ? (int)val.size() - 1 : (int)r.i(0, (int)val.size() - 1); o.b = (int)r.i(0, (int)val.size() - 1); o.k = r.coin() ? r.i(-4, 4) : r.uni(-3, 3); L a = val[o.a], b = val[o.b], k = o.k, y; bool ok = true;
    switch (o.op) { case 0: case 1: y = a + b; break; case 2: case 3: y = a - b; break; case 4: case 5: y = a * b; break; case 6: case 7: y = a / b; ok = fabsl(b) > .05L; break; case 8: y = -a; break; case 9: y = sqrtl(a); ok = a > .01L; break; case 10: y = powl(a, k); ok = a > .05L || (a < -.05L && k == floorl(k)) || (a == 0 && k == floorl(k) && k >= 0); break; case 11: y = powl(fabsl(k) + .1L, a); ok = true; break; case 12: y = powl(a, b); ok = a > .05L; break; case 13: y = expl(a); ok = a < 6; break; case 14: y = logl(a); ok = a > .02L; break; case 15: y = log10l(a); ok = a > .02L; break; case 16: y = sinl(a); break; case 17: y = cosl(a); break; case 18: y = tanl(a); ok = fabsl(cosl(a)) > .05L; break; case 19: y = asinl(a); ok = fabsl(a) < .98L; break; case 20: y = acosl(a); ok = fabsl(a) < .98L; break; case 21: y = atanl(a); break; case 22: y = sinhl(a); ok = fabsl(a) < 5; break; case 23: y = coshl(a); ok = fabsl(a) < 5; break; case 24: y = tanhl(a); break; case 25: y = fabsl(a); ok = fabsl(a) > 1e-3L; break; case 26: y = floorl(a); ok = fabsl(a - roundl(a)) > 1e-3L; break; case 27: y = ceill(a); ok = fabsl(a - roundl(a)) > 1e-3L; break; case 28: y = atan2l(a, b); ok = a * a + b * b > .01L && !(fabsl(a) < 1e-6L && b < 0); break; case 29: y = a * b + k; break; case 30: y = a + k; break; case 31: y = k - a; break; case 32: y = k * a; break; default: y = k / a; ok = fabsl(a) > .05L; }
    if (!ok || !(fabsl(y) < 500)) { s--; if (r.coin(.02)) break; continue; } prog.push_back(o); val.push_back(y); txt += std::to_string(o.op) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.k) + ") "; }
  c.in("ops", txt);
  auto run = [&](const std::vector<Du>& in) { std::vector<Du> t(in); for (auto& o : prog) { Du a = t[o.a], b = t[o.b], y; double k = o.k; switch (o.op) { case 0: y = a + b; break; case 1: y = a; y += b; break; case 2: y = a - b; break; case 3: y = a; y -= b; break; case 4: y = a * b; break; case 5: y = a; if (o.a == o.b) y *= y; else y *= b; break; case 6: y = a / b; break; case 7: y = a; if (o.a == o.b) y /= y; else y /= b; break; case 8: y = -a; break; case 9: y = sqrt(a); break; case 10: y = (o.b & 1) ? pow(a, k) : pow(a, Du(k)); if (k == std::floor(k) && (o.b & 2)) y = pow(a, (int)k); break; case 11: y = (o.b & 1) ? pow(std::fabs(k) + .1, a) : pow(Du(std::fabs(k) + .1), a); break; case 12: y = pow(a, b); break; case 13: y = exp(a); break; case 14: y = log(a); break; case 15: y = log10(a); break; case 16: y = sin(a); break; case 17: y = cos(a); break; case 18: y = tan(a); break; case 19: y = asin(a); break; case 20: y = acos(a); break; case 21: y = atan(a); break; case 22: y = sinh(a); break; case 23: y = cosh(a); break; case 24: y = tanh(a); break; case 25: y = abs(a); break; case 26: y = floor(a); break; case 27: y = ceil(a); break; case 28: y = atan2(a, b); break; case 29: y = fma(a, b, Du(k)); break; case 30: y = (o.b & 1) ? a + k : k + a; break; case 31: y = k - a; break; case 32: y = (o.b & 1) ? a * k : k * a; break; default: y = k / a; } t.push_back(y); } return t.back(); };
  auto ref = [&](int seed) { std::vector<Jet> t(nv); for (int i = 0; i < nv; i++) { t[i].v = x[i]; t[i].d = i == seed; } for (auto& o : prog) { const Jet a = t[o.a], b = o.a == o.b ? a : t[o.b]; L k = o.k, A = a.v, B = b.v; Jet K; K.v = k; Jet y; switch (o.op) { case 0: case 1: y = bi(a, b, A + B, 1, 1, 0, 0, 0); break; case 2: case 3: y = bi(a, b, A - B, 1, -1, 0, 0, 0); break; case 4: case 5: y = bi(a, b, A * B, B, A, 0, 1, 0); break; case 6: case 7: y = bi(a, b, A / B, 1 / B, -A / B / B, 0, -1 / B / B, 2 * A / B / B / B); break; case 8: y = un(a, -A, -1, 0); break; case 9: y = un(a, sqrtl(A), .5L / sqrtl(A), .25L / A / sqrtl(A)); break; case 10: if (A == 0) { if (a.ev > 0) { y.ev = y.ed = 1e9L; break; } y = un(a, k == 0 ? 1 : 0, k == 1 ? 1 : 0, k == 2 ? 2 : 0); } else y = un(a, powl(A, k), k * powl(A, k - 1), k * (k - 1) * powl(A, k - 2)); break; case 11: { L q = fabsl((L)(std::fabs(o.k) + .1)); y = un(a, powl(q, A), powl(q, A) * logl(q), powl(q, A) * logl(q) * logl(q), 8 + 4 * fabsl(A * logl(q))); break; } case 12: { L p = powl(A, B), g = logl(A); y = bi(a, b, p, B * p / A, p * g, B * (B - 1) * p / A / A, p / A * (1 + B * g), p * g * g); y.ev += 8 * U * fabsl(p) * (1 + fabsl(B * g)); y.ed += 16 * U * (1 + fabsl(B * g)) * (fabsl(B * p / A * a.d) + fabsl(p * b.d) * (fabsl(g) + 1)); break; } case 13: y = un(a, expl(A), expl(A), expl(A)); break; case 14: y = un(a, logl(A), 1 / A, 1 / A / A); y.ev += 1e-18L; break; case 15: y = un(a, log10l(A), 1 / (A * logl(10)), 1 / (A * A * logl(10))); break; case 16: y = un(a, sinl(A), cosl(A), 1); break; case 17: y = un(a, cosl(A), -sinl(A), 1); break; case 18: { L q = 1 / (cosl(A) * cosl(A)); y = un(a, tanl(A), q, 2 * q * tanl(A)); y.ed += 20 * U * fabsl(q * tanl(A) * a.d) * (1 + fabsl(A)); break; } case 19: { L q = 1 / sqrtl(1 - A * A); y = un(a, asinl(A), q, A * q * q * q); y.ed += 8 * U * q * q * q * fabsl(a.d); break; } case 20: { L q = 1 / sqrtl(1 - A * A); y = un(a, acosl(A), -q, A * q * q * q); y.ed += 8 * U * q * q * q * fabsl(a.d); break; } case 21: y = un(a, atanl(A), 1 / (1 + A * A), 2 * A / (1 + A * A) / (1 + A * A)); break; case 22: y = un(a, sinhl(A), coshl(A), sinhl(A)); break; case 23: y = un(a, coshl(A), sinhl(A), coshl(A)); break; case 24: { L h = tanhl(A); y = un(a, h, 1 - h * h, 2 * h * (1 - h * h)); y.ed += 8 * U * fabsl(a.d); break; } case 25: y = un(a, fabsl(A), A > 0 ? 1 : -1, 0); break; case 26: y = un(a, floorl(A), 0, 0); break; case 27: y = un(a, ceill(A), 0, 0); break; case 28: { L q = A * A + B * B; y = bi(a, b, atan2l(A, B), B / q, -A / q, 2 / q, 2 / q, 2 / q); break; } case 29: { Jet m = bi(a, b, A * B, B, A, 0, 1, 0); y = bi(m, K, A * B + k, 1, 1, 0, 0, 0); break; } case 30: y = bi(a, K, A + k, 1, 1, 0, 0, 0); break; case 31: y = bi(K, a, k - A, 1, -1, 0, 0, 0); break; case 32: y = bi(K, a, k * A, A, k, 0, 1, 0); break; default: y = bi(K, a, k / A, 1 / A, -k / A / A, 0, -1 / A / A, 2 * k / A / A / A); } t.push_back(y); } return t.back(); };
  if (prog.empty()) { c.trivial(); return; }
  auto grad = S::gradient([&](const std::vector<Du>& in) { return run(in); }, x); c.check((int)grad.size() == nv, "ad.gradient-size");
  for (int s = 0; s < nv; s++) { Jet w = ref(s); std::vector<Du> in; for (int i = 0; i < nv; i++) in.push_back(Du(x[i], i == s ? 1.0 : 0.0)); Du y = run(in); if (!(w.ev < 1e-6L * (1 + fabsl(w.v)) && w.ed < 1e-4L * (1 + fabsl(w.d)))) { c.ev("ad_ill_conditioned"); continue; } c.close(y.value, w.v, 4 * w.ev + 1e-300L, "ad.value"); c.close(y.deriv, w.d, 4 * w.ed + 1e-300L, "ad.derivative"); c.check(grad[s] == y.deriv, "ad.gradient-slot"); c.ev("ad");
    if (nv == 1) { auto pr = S::derivative([&](Du q) { return run({q}); }, x[0]); c.check(pr.first == y.value && pr.second == y.deriv, "ad.derivative-helper"); } }
  Du a(x[0], 1.0), b(r.pick({x[0], x[0] + 1}), 5.0); c.check((a == b) == (a.value == b.value) && (a != b) == (a.value != b.value) && (a < b) == (a.value < b.value) && (a <= b) == (a.value <= b.value) && (a > b) == (a.value > b.value) && (a >= b) == (a.value >= b.value), "ad.comparisons");
}
#endif
MON_MAIN()
