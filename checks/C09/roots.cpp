// C09: scalar root finders and bracketing searches.
#include "mon.h"
#include "mml/algorithms/RootFinding.h"
using namespace MML; using namespace MML::RootFinding;

struct Fn : public IRealFunction {
  std::function<double(double)> f; mutable std::vector<double> xs; mutable long n = 0;
  Real operator()(Real x) const override { n++; if (xs.size() < 20000) xs.push_back(x); return f(x); }
};
struct Prob { Fn fn; std::string kind; double root; double w; bool smooth, simple, mono; double amp; };

static const char* KINDS[] = {"linear","cubic","pow3","pow5","exp","atan","tanh","sinh","log","sqrtlike","cbrt","step","kink","rational","poly_noise","flat9"};
static Prob make(mon::Ctx& c, int kind, bool extreme) {
  auto& r = c.r; Prob p; p.kind = KINDS[kind];
  double root = r.pick({0.0, 1.0, -1.0, 0.5, 3.0, -7.25, 1e-3, 100.0});
  if (r.coin(.6)) root = r.uni(-10, 10) * r.pick({1.0, 1.0, 1.0, 1e-3, 50.0});
  double A = r.coin(.4) ? 1.0 : std::pow(10.0, r.uni(-8, 8)); if (extreme) A = std::pow(10.0, r.pick({-180.0, -165.0, -150.0, 150.0, 160.0, 200.0}));
  if (r.coin()) A = -A;
  double k = r.uni(0.3, 3);
  p.root = root; p.amp = A; p.smooth = true; p.simple = true; p.mono = true; p.w = 1;
  switch (kind) {
    case 0: p.fn.f = [=](double x){ return A * k * (x - root); }; break;
    case 1: p.fn.f = [=](double x){ double d = x - root; return A * (d * d * d + k * d); }; break;
    case 2: p.fn.f = [=](double x){ double d = x - root; return A * d * d * d; }; p.simple = false; break;
    case 3: p.fn.f = [=](double x){ double d = x - root; return A * d * d * d * d * d; }; p.simple = false; break;
    case 4: p.fn.f = [=](double x){ return A * std::expm1(k * (x - root)); }; break;
    case 5: p.fn.f = [=](double x){ return A * std::atan(k * (x - root)); }; break;
    case 6: p.fn.f = [=](double x){ return A * std::tanh(k * (x - root)); }; break;
    case 7: p.fn.f = [=](double x){ return A * std::sinh(k * (x - root)); }; break;
    case 8: p.fn.f = [=](double x){ return A * std::log1p(std::max(-0.999, k * (x - root) / 12)); }; p.smooth = false; break;
    case 9: p.fn.f = [=](double x){ double d = x - root; return A * std::copysign(std::sqrt(std::fabs(d)), d); }; p.smooth = false; break;
    case 10: p.fn.f = [=](double x){ return A * std::cbrt(x - root); }; p.smooth = false; break;
    case 11: p.fn.f = [=](double x){ return x < root ? -A * k : A * (1 + x - root); }; p.smooth = false; break;
    case 12: p.fn.f = [=](double x){ double d = x - root; return A * (d < 0 ? d : 50 * d); }; p.smooth = false; break;
    case 13: p.fn.f = [=](double x){ double d = x - root; return A * d / (1 + d * d); }; p.mono = false; break;
    case 14: p.fn.f = [=](double x){ double d = x - root; return A * (d + 0.3 * std::sin(2 * d)); }; break;
    default: p.fn.f = [=](double x){ double d = x - root; return A * std::pow(d, 9); }; p.simple = false; break;
  }
  return p;
}
typedef RootFindingResult (*CfgFn)(const IRealFunction&, Real, Real, const RootFindingConfig&);
typedef Real (*SimpleFn)(const IRealFunction&, Real, Real, Real);
static const char* MN[] = {"bisection", "falsepos", "newton", "secant", "ridders", "brent"};
static CfgFn CF[] = {FindRootBisection, FindRootFalsePosition, FindRootNewton, FindRootSecant, FindRootRidders, FindRootBrent};
static SimpleFn SF[] = {FindRootBisection, FindRootFalsePosition, FindRootNewton, FindRootSecant, FindRootRidders, FindRootBrent};

static bool opp(double a, double b) { return a == 0 || b == 0 || (a < 0) != (b < 0); }
static double ulps(double x, int n) { return n * std::max(std::fabs(x) * 2.3e-16, 1e-300); }
static bool sameBits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void judge(mon::Ctx& c, int m, Prob& p, double x1, double x2, const RootFindingConfig& cfg, bool bracketed, bool finiteEnds) {
  p.fn.n = 0; p.fn.xs.clear();
  RootFindingResult res;
  std::string K = MN[m];
  if (!c.nothrow([&] { res = CF[m](p.fn, x1, x2, cfg); }, K + ".config-overload-threw")) return;
  long n = p.fn.n; auto xs = p.fn.xs;
  int defIt = (m == 2 || m == 3) ? 20 : (m == 5 ? 100 : 50);
  int mi = cfg.max_iterations > 0 ? cfg.max_iterations : defIt;
  c.ev("runs");
  c.check(n <= 2 + 6L * (mi + 2), K + ".too-many-evaluations", [&] { return "n=" + std::to_string(n); });
  c.check(res.iterations_used >= 0 && res.iterations_used <= mi, K + ".iteration-count");
  double lo = std::min(x1, x2), hi = std::max(x1, x2);
  if (res.converged) {
    c.ev("converged");
    c.check(res.status == AlgorithmStatus::Success && res.error_message.empty(), K + ".status-on-success");
    if (m != 2 && m != 3) c.check(bracketed && finiteEnds, K + ".claims-root-without-bracket");
    else if (!bracketed || !finiteEnds) { c.check(!(finiteEnds && !bracketed), K + ".claims-root-without-bracket"); return; }
    if (!bracketed) return;
    double sl = ulps(std::max(std::fabs(lo), std::fabs(hi)), 32);
    double root = res.root;
    if (m != 3) c.check(root >= lo - sl && root <= hi + sl, K + ".root-outside-bracket");
    if (m != 2 && m != 3) for (double x : xs) if (!(x >= lo - sl && x <= hi + sl)) { c.fail(K + ".evaluated-outside-bracket"); break; }
    double fr = p.fn.f(root);
    c.check(sameBits(fr, res.function_value), K + ".function_value-not-f(root)");
    double tol = std::fabs(cfg.tolerance);
    double mult = m == 0 ? 1 : m == 5 ? 1 : m == 1 ? 1 : 4;
    double w = mult * tol * (1 + 1e-9) + ulps(root, 16) + ulps(hi - lo, m == 0 ? 0 : 4);
    bool sign = opp(p.fn.f(root - w), fr) || opp(p.fn.f(root + w), fr);
    bool small = (m == 1 || m == 4) && std::fabs(fr) < tol;
    if (m <= 1 || m == 5) {
      c.check(sign || small, K + ".no-root-within-tolerance", [&] { char b[200]; snprintf(b, 200, "%s root=%.17g true=%.17g tol=%g f=%g", p.kind.c_str(), root, p.root, tol, fr); return std::string(b); });
      c.ev("accuracy_checked");
    } else {
      // open or superlinear methods: their own step criterion; judged on functions with a simple root
      double err = std::fabs(root - p.root);
      if ((p.simple && p.smooth && p.mono) ) {
        double lim = tol + ulps(p.root, 50) + ulps(hi - lo, 50);
        double fac = small ? 0 : err / lim; if (cfg.tolerance <= 1e-4) { c.maxi(("accfac_" + K).c_str(), fac); c.check(fac < 20, K + ".no-root-within-tolerance", [&] { char b[200]; snprintf(b, 200, "%s root=%.17g true=%.17g tol=%g f=%g", p.kind.c_str(), root, p.root, tol, fr); return std::string(b); }); c.ev("accuracy_checked"); }
      } else if (m == 4) {
        // Ridders on multiple / non-smooth roots: bracket shrinks, value small or root close
        double lim = std::max(tol, 1e-12);
        bool ok = small || err < 1e3 * lim + ulps(root, 50);
        if (cfg.tolerance <= 1e-6) { c.check(ok || !sign ? ok : true, K + ".no-root-within-tolerance", [&] { char b[200]; snprintf(b, 200, "%s root=%.17g true=%.17g tol=%g f=%g", p.kind.c_str(), root, p.root, tol, fr); return std::string(b); }); c.ev("accuracy_checked"); }
      }
    }
  } else {
    c.ev("reported_failure");
    c.check(res.status != AlgorithmStatus::Success, K + ".status-success-on-failure");
    c.check(!res.error_message.empty(), K + ".no-message-on-failure");
    if (!bracketed || !finiteEnds) c.ev("rejected_bracket");
    // guaranteed convergence
    if (bracketed && finiteEnds && cfg.tolerance > 0) {
      double minTol = ulps(std::max(std::fabs(lo), std::fabs(hi)), 8);
      double tol = std::max(cfg.tolerance, minTol);
      double need = std::log2(std::max(2.0, (hi - lo) / tol)) + 3;
      if (m == 0) c.check(!(mi >= need && cfg.tolerance >= minTol) , K + ".did-not-converge");
      if (m == 4) c.check(!(mi >= 2 * need + 4 && cfg.tolerance >= minTol), K + ".did-not-converge");
      if (m == 5) c.check(!(mi >= need * need && mi >= 60), K + ".did-not-converge");
      if (m == 5 && p.smooth && p.simple) c.check(!(mi >= 2.5 * need + 10), K + ".did-not-converge-smooth");
      if ((m == 1) && p.kind == "linear" && mi >= 4 && cfg.tolerance >= minTol * 10 && cfg.tolerance > 1e-12 * std::fabs(p.amp)*(1+std::fabs(p.root)*10)) c.fail(K + ".linear-did-not-converge");
      if ((m == 2 || m == 3) && p.kind == "linear" && mi >= 5 && cfg.tolerance >= minTol * 10 + 1e-11 && std::fabs(p.amp) > 1e-3 && std::fabs(p.amp) < 1e100) c.fail(K + ".linear-did-not-converge");
      c.ev("guarantee_checked");
    }
  }
  // determinism and the throwing overload
  if (cfg.max_iterations == 0) {
    bool threw = false; double v = 0;
    try { v = SF[m](p.fn, x1, x2, cfg.tolerance); } catch (const RootFindingError& e) { threw = true; c.check(res.error_message.size() && std::string(e.what()).find(res.error_message) != std::string::npos, K + ".simple-overload-message"); }
    c.check(threw == !res.converged, K + ".simple-overload-disagrees");
    if (!threw) c.check(sameBits(v, res.root), K + ".simple-overload-root");
    c.ev("simple_overload");
  }
}
static RootFindingConfig rcfg(mon::Ctx& c) {
  RootFindingConfig g; auto& r = c.r;
  g.tolerance = r.coin(.75) ? std::pow(10.0, r.uni(-13, -1)) : r.pick({1e-10, 1e-12, 1e-14, 1e-15, 0.0, -1e-9, 1e-300, 0.3});
  g.max_iterations = r.coin(.4) ? 0 : r.coin(.5) ? (int)r.i(1, 12) : (int)r.pick({50, 100, 200, 3000});
  return g;
}
FAMILY(bracketed, 30000) {
  auto& r = c.r; Prob p = make(c, (int)r.i(0, 15), false);
  double a = r.coin(.2) ? std::pow(10.0, r.uni(-6, 0)) : r.uni(0.01, 9), b = r.coin(.2) ? std::pow(10.0, r.uni(-6, 0)) : r.uni(0.01, 9);
  if (p.kind == "log") { a = std::min(a, 3.0); b = std::min(b, 3.0); }
  double x1 = p.root - a, x2 = p.root + b; if (r.coin(.5)) std::swap(x1, x2);
  RootFindingConfig g = rcfg(c); int m = (int)r.i(0, 5);
  c.in("method", MN[m]); c.in("kind", p.kind); c.in("root", p.root); c.in("A", p.amp); c.in("x1", x1); c.in("x2", x2); c.in("tol", g.tolerance); c.in("maxit", g.max_iterations);
  double f1 = p.fn.f(x1), f2 = p.fn.f(x2);
  bool br = (f1 < 0 && f2 > 0) || (f1 > 0 && f2 < 0);
  if (!br) c.trivial();
  if (!br && (m == 2 || m == 3) && (f1 == 0 || f2 == 0)) return;
  judge(c, m, p, x1, x2, g, br, true);
}
FAMILY(extreme_scale, 6000) {
  auto& r = c.r; Prob p = make(c, (int)r.i(0, 8), true); if (p.kind == "pow5" || p.kind == "pow3") { c.trivial(); return; }
  double x1 = p.root - r.uni(0.1, 2), x2 = p.root + r.uni(0.1, 2); if (r.coin()) std::swap(x1, x2);
  RootFindingConfig g = rcfg(c); if (g.tolerance <= 0) g.tolerance = 1e-9; int m = (int)r.pick({0, 1, 4, 5, 5, 4});
  if (m == 4 && std::fabs(p.amp) < 1 ) { g.tolerance = std::max(g.tolerance, 1e-10); }
  c.in("method", MN[m]); c.in("kind", p.kind); c.in("root", p.root); c.in("A", p.amp); c.in("x1", x1); c.in("x2", x2); c.in("tol", g.tolerance); c.in("maxit", g.max_iterations);
  double f1 = p.fn.f(x1), f2 = p.fn.f(x2);
  bool br = (f1 < 0 && f2 > 0) || (f1 > 0 && f2 < 0); c.ev("extreme");
  bool fin = std::isfinite(f1) && std::isfinite(f2) ;
  RootFindingResult res = CF[m](p.fn, x1, x2, g);
  if (br && fin) c.check(res.status != AlgorithmStatus::InvalidInput, std::string(MN[m]) + ".valid-bracket-rejected");
  judge(c, m, p, x1, x2, g, br, fin);
}
FAMILY(no_bracket, 8000) {
  auto& r = c.r; Prob p = make(c, (int)r.i(0, 15), r.coin(.2)); int m = (int)r.i(0, 5);
  double d = r.uni(0.1, 5), x1, x2; int how = (int)r.i(0, 5);
  x1 = p.root + d; x2 = p.root + d * r.uni(1.0, 3.0); if (r.coin()) { x1 = p.root - d * .5; x2 = p.root - d; }
  if (how == 1) x2 = x1;
  auto base = p.fn.f; bool fin = true;
  if (how == 2) { double A = p.amp; p.fn.f = [=](double x) { return std::fabs(A) * (1 + (x - d) * (x - d)); }; x1 = -d; }
  if (how == 3) { p.fn.f = [=](double x) { return std::fabs(base(x)); }; x1 = p.root - d; x2 = p.root + d; }
  if (how == 4) { double nan = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}); double at = r.coin() ? x1 : x2; p.fn.f = [=](double x) { return x == at ? nan : base(x); }; fin = false; }
  if (how == 5) { x1 = p.root; x2 = p.root + d; double rt = p.root; p.fn.f = [=](double x) { return x == rt ? 0.0 : std::fabs(base(x)) + 1e-3; }; if (m == 2 || m == 3) { c.trivial(); return; } }
  if (r.coin()) std::swap(x1, x2);
  RootFindingConfig g = rcfg(c);
  c.in("method", MN[m]); c.in("kind", p.kind); c.in("how", how); c.in("x1", x1); c.in("x2", x2); c.in("A", p.amp); c.in("tol", g.tolerance); c.in("maxit", g.max_iterations);
  double f1 = p.fn.f(x1), f2 = p.fn.f(x2); bool br = (f1 < 0 && f2 > 0) || (f1 > 0 && f2 < 0);
  if (fin && br) { c.trivial(); return; }
  if (f1 == 0 || f2 == 0) if (m == 2 || m == 3) { c.trivial(); return; }
  if (!fin && (m == 2)) { c.trivial(); return; }
  p.fn.n = 0;
  RootFindingResult res; if (!c.nothrow([&] { res = CF[m](p.fn, x1, x2, g); }, std::string(MN[m]) + ".threw")) return;
  c.check(!res.converged, std::string(MN[m]) + ".claims-root-without-bracket", [&] { return p.kind + " how=" + std::to_string(how); });
  c.check(!res.error_message.empty() && res.status != AlgorithmStatus::Success, std::string(MN[m]) + ".failure-not-reported");
  c.throws<RootFindingError>([&] { SF[m](p.fn, x1, x2, g.tolerance); }, std::string(MN[m]) + ".no-exception");
  c.ev("invalid_rejected");
}
FAMILY(nan_inside, 3000) {  // non-finite values met on the way are reported, never returned as a root
  auto& r = c.r; Prob p = make(c, (int)r.i(0, 7), false); int m = (int)r.pick({0, 1, 3, 4, 5});
  double a = r.uni(1, 5), b = r.uni(1, 5), x1 = p.root - a, x2 = p.root + b; auto base = p.fn.f; double rt = p.root, wid = r.uni(0.05, 0.9); double bad = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY});
  p.fn.f = [=](double x) { return std::fabs(x - rt) < wid ? bad : base(x); };
  RootFindingConfig g; g.tolerance = std::pow(10, r.uni(-12, -6)); g.max_iterations = 500;
  c.in("method", MN[m]); c.in("kind", p.kind); c.in("root", rt); c.in("wid", wid); c.in("bad", bad); c.in("x1", x1); c.in("x2", x2); c.in("tol", g.tolerance);
  RootFindingResult res; if (!c.nothrow([&] { res = CF[m](p.fn, x1, x2, g); }, std::string(MN[m]) + ".threw")) return;
  c.check(!res.converged || std::fabs(p.fn.f(res.root)) < 1e-5 * std::fabs(p.amp) || (m == 1 || m == 4 ? std::fabs(res.function_value) < g.tolerance : false), std::string(MN[m]) + ".claims-root-in-nonfinite-region", [&] { char bb[100]; snprintf(bb, 100, "root %g f %g", res.root, res.function_value); return std::string(bb); });
  if (!res.converged) c.check(res.status != AlgorithmStatus::Success && !res.error_message.empty(), std::string(MN[m]) + ".nonfinite-not-reported");
  c.ev("nonfinite_inside");
}
FAMILY(bracket_expand, 8000) {
  auto& r = c.r; Prob p = make(c, (int)r.i(0, 14), r.coin(.15)); double off = r.uni(-30, 30), w = r.uni(0.05, 3); if (r.coin()) w = -w;
  double a = p.root + off, b = a + w; int mt = r.coin(.5) ? 50 : (int)r.i(0, 6); c.in("kind", p.kind); c.in("root", p.root); c.in("A", p.amp); c.in("x1", a); c.in("x2", b); c.in("MaxTry", mt);
  double x1 = a, x2 = b; p.fn.n = 0; bool ok = BracketRoot(p.fn, x1, x2, mt);
  c.check(p.fn.n <= mt + 2, "expand.evaluations");
  double f1 = p.fn.f(x1), f2 = p.fn.f(x2); bool br = (f1 < 0 && f2 > 0) || (f1 > 0 && f2 < 0);
  if (ok) { c.check(br, "expand.true-without-sign-change"); c.ev("expanded"); }
  c.check(std::min(x1, x2) <= std::min(a, b) && std::max(x1, x2) >= std::max(a, b), "expand.interval-shrunk");
  double g1 = p.fn.f(a), g2 = p.fn.f(b); if (((g1 < 0 && g2 > 0) || (g1 > 0 && g2 < 0)) && mt > 0) c.check(ok && x1 == a && x2 == b, "expand.already-bracketed");
  if (p.mono && mt == 50 && std::fabs(p.amp) < 1e100 && std::fabs(p.amp) > 1e-100 && std::string(p.kind) != "log" && p.kind != "tanh" && p.kind != "step" && p.kind != "sinh" && p.kind != "exp") c.check(ok, "expand.not-found");
  c.throws<RootFindingError>([&] { double q = a, s = a; BracketRoot(p.fn, q, s); }, "expand.equal-ends");
}
FAMILY(bracket_scan, 6000) {
  auto& r = c.r; int nr = (int)r.i(0, 30); double lo = r.uni(-20, 20), L = r.uni(0.5, 30); int np = (int)r.i(1, 400); double A = r.coin(.7) ? 1.0 : std::pow(10.0, r.pick({-170.0, -200.0, -12.0, 12.0})) ; if (r.coin()) A = -A;
  std::vector<double> rt; double dx = L / np;
  for (int i = 0; i < nr; i++) rt.push_back(lo + r.uni(0, 1) * L);
  std::sort(rt.begin(), rt.end());
  int mode = (int)r.i(0, 3); double om = r.uni(0.2, 12), ph = r.uni(0, 6);
  Fn f; if (mode == 0) f.f = [=](double x) { int k = 0; for (double t : rt) if (x > t) k++; return A * (k % 2 ? 1.0 : -1.0); };
  else if (mode == 1) f.f = [=](double x) { double v = 1; for (double t : rt) v *= std::tanh(3 * (x - t)); return A * v; };
  else if (mode == 2) f.f = [=](double x) { return A * std::sin(om * x + ph); };
  else f.f = [=](double x) { return A * std::round(3 * std::sin(om * x + ph)); };  // exact zeros on nodes
  bool rev = r.coin(.3); double x1 = rev ? lo + L : lo, x2 = rev ? lo : lo + L;
  c.in("mode", mode); c.in("roots", rt); c.in("A", A); c.in("x1", x1); c.in("x2", x2); c.in("np", np); c.in("om", om); c.in("ph", ph);
  Vector<Real> b1, b2; f.n = 0; int n = FindRootBrackets(f, x1, x2, np, b1, b2); auto xs = f.xs;
  c.check(f.n <= np + 2, "scan.evaluations");
  c.check(n >= 0 && b1.size() == n && b2.size() == n, "scan.sizes"); if (b1.size() < n || b2.size() < n) return;
  // reference over the points really sampled
  std::vector<std::pair<double, double>> ref; for (size_t i = 1; i < xs.size(); i++) if (opp(f.f(xs[i - 1]), f.f(xs[i]))) ref.push_back({xs[i - 1], xs[i]});
  c.check((int)ref.size() == n, "scan.count", [&] { return std::to_string(n) + " vs " + std::to_string(ref.size()); });
  for (int i = 0; i < n; i++) {
    c.check(opp(f.f(b1[i]), f.f(b2[i])), "scan.no-sign-change");
    c.check(std::fabs(std::fabs(b2[i] - b1[i]) - dx) <= 1e-9 * dx + 1e-12 * (std::fabs(lo) + L), "scan.width");
    c.check(std::min(b1[i], b2[i]) >= lo - 1e-9 * L && std::max(b1[i], b2[i]) <= lo + L + 1e-9 * L, "scan.outside-range");
    if (i < (int)ref.size()) c.check(std::fabs(b1[i] - ref[i].first) < 1e-9 * dx + 1e-12 * (std::fabs(lo) + L), "scan.position");
  }
  c.check((int)xs.size() >= np + 1 && std::fabs(xs.front() - x1) < 1e-12 * (1 + std::fabs(x1)) && std::fabs(xs[np] - x2) < 1e-9 * (L + std::fabs(lo)), "scan.range-not-covered");
  if (n >= 20) c.ev("many_brackets"); c.ev("scans"); c.ev("brackets", n);
}
MON_MAIN()
