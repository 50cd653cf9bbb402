// C45: the visualizer hands each viewer exactly the data it was given, touches nothing else and reports what happened.
// Everything happens inside a private tree: root/a/b/proj is the project; names given to the library can escape at most into root.
#include "mon.h"
#include <filesystem>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/Function.h"
#include "mml/tools/Serializer.h"
namespace fs = std::filesystem;
static std::string ROOT, PROJ, RES, LOG;
extern char** environ;
static void slurpEnv(std::vector<std::string>& v) { v.clear(); for (char** e = environ; *e; e++) v.push_back(*e); }
__attribute__((constructor(101))) static void prepare() {
	const char* t = getenv("TMPDIR"); char b[4096]; snprintf(b, sizeof b, "%s/mon-c45-XXXXXX", t && *t ? t : "/tmp"); if (!mkdtemp(b)) _exit(2);
	setenv("VIZROOT", b, 1); char p[4200]; snprintf(p, sizeof p, "%s/a", b); mkdir(p, 0755); snprintf(p, sizeof p, "%s/a/b c", b); mkdir(p, 0755); snprintf(p, sizeof p, "%s/a/b c/proj", b); mkdir(p, 0755); setenv("MML_PROJECT_PATH", p, 1); unsetenv("MML_VISUALIZER_BACKEND");
}
#include "mml/tools/Visualizer.h"
using namespace MML;
using mon::Case;
typedef Vector<Real> V;
static std::string rd(const std::string& f) { std::ifstream in(f, std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
static void wr(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary); o << b; }
static const char* VIEWERS[] = {"MML_RealFunctionVisualizer", "MML_ScalarFunction2D_Visualizer", "MML_ParametricCurve2D_Visualizer", "MML_ParametricCurve3D_Visualizer", "MML_VectorField2D_Visualizer", "MML_VectorField3D_Visualizer", "MML_ParticleVisualizer2D", "MML_ParticleVisualizer3D", "MML_ParametricSurface_Visualizer", "MML_ScalarFunction3D_Visualizer", "MML_RigidBodyMovement_Visualizer"};
static std::string viewer(const std::string& name, bool fltk) { return PROJ + "/tools/visualizers/linux/" + (fltk ? "FLTK/" + name + "_FLTK" : "Qt/" + name); }
// the stand-in viewer: appends one record per run (program, argument count, arguments, search path), copies what it was given, then behaves as VIZMODE says
static const char* SCRIPT = "#!/bin/sh\n[ \"$VIZMODE\" = slow ] && sleep 0.15\n{ printf '%s\\0%s\\0' \"$0\" \"$#\"; for a; do printf '%s\\0' \"$a\"; done; printf '%s\\0%s\\0' \"$LD_LIBRARY_PATH\" \"$QT_PLUGIN_PATH\"; } >> \"$VIZLOG\"\ni=0; for a; do i=$((i+1)); cp -- \"$a\" \"$VIZLOG.$i\"; done\ncase \"$VIZMODE\" in kill) kill -9 $$;; term) kill -15 $$;; [0-9]*) exit $VIZMODE;; esac\nexit 0\n";
static void plant(const std::string& f, int mode) { wr(f, SCRIPT); chmod(f.c_str(), mode); }
struct Setup { Setup() {
	ROOT = getenv("VIZROOT"); PROJ = getenv("MML_PROJECT_PATH"); RES = PROJ + "/results"; LOG = ROOT + "/log"; setenv("VIZLOG", LOG.c_str(), 1); setenv("VIZMODE", "0", 1);
	fs::create_directories(PROJ + "/tools/visualizers/linux/Qt"); fs::create_directories(PROJ + "/tools/visualizers/linux/FLTK"); for (auto v : VIEWERS) for (int k = 0; k < 2; k++) plant(viewer(v, k), 0755);
	fs::create_directories(ROOT + "/outside"); wr(ROOT + "/outside/precious", "precious\n"); fs::create_directories(ROOT + "/cwd"); if (chdir((ROOT + "/cwd").c_str())) _exit(2);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGXFSZ, &sa, nullptr);
	struct NB : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } }; std::cerr.rdbuf(new NB);
	atexit([] { std::error_code ec; if (ROOT.find("/mon-c45-") != std::string::npos) { if (chdir("/")) {} fs::remove_all(ROOT, ec); } });
} };
static void setup() { static Setup s; }
struct Snap { std::map<std::string, std::string> m; };
static Snap snap() { Snap s; std::error_code ec; for (auto it = fs::recursive_directory_iterator(ROOT, ec); it != fs::recursive_directory_iterator(); it.increment(ec)) { std::string p = it->path().string(); if (p.compare(0, LOG.size(), LOG) == 0) continue; if (fs::is_symlink(it->symlink_status())) s.m[p] = "->" + fs::read_symlink(p).string(); else if (fs::is_directory(it->symlink_status())) s.m[p] = "/"; else s.m[p] = "=" + rd(p); } return s; }
struct Run { std::string prog; std::vector<std::string> args; std::string ld, qt; };
static std::vector<Run> runs() { std::vector<Run> r; std::string b = rd(LOG); std::vector<std::string> f; size_t p = 0; while (p < b.size()) { size_t q = b.find('\0', p); if (q == std::string::npos) break; f.push_back(b.substr(p, q - p)); p = q + 1; }
	for (size_t i = 0; i + 1 < f.size();) { Run x; x.prog = f[i]; int n = atoi(f[i + 1].c_str()); i += 2; for (int k = 0; k < n && i < f.size(); k++) x.args.push_back(f[i++]); if (i < f.size()) x.ld = f[i++]; if (i < f.size()) x.qt = f[i++]; r.push_back(x); } return r; }
static void clearLog() { std::error_code ec; for (auto& e : fs::directory_iterator(ROOT, ec)) if (e.path().string().compare(0, LOG.size(), LOG) == 0) fs::remove(e.path(), ec); }
static void clearResults() { std::error_code ec; fs::remove_all(RES, ec); }

// ------------------------------------------------------------ what can be visualised
struct G { double a, b, w, s; double operator()(double x) const { return s * (a * std::sin(w * x) + b * x + 1); } };
static G gen(Case& c) { return G{c.r.uni(-2, 2), c.r.uni(-2, 2), c.r.uni(0.1, 3), c.r.pmag(-4, 4)}; }
struct Rf : IRealFunction { G g; Rf(G q) : g(q) {} Real operator()(Real x) const override { return g(x); } };
template <int N> struct Cf : IRealToVectorFunction<N> { G g; Cf(G q) : g(q) {} VectorN<Real, N> operator()(Real t) const override { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = g(t + i); return r; } };
template <int N> struct Sf : IScalarFunction<N> { G g; Sf(G q) : g(q) {} Real operator()(const VectorN<Real, N>& x) const override { double s = 0; for (int i = 0; i < N; i++) s += (i + 1) * g(x[i]); return s; } };
template <int N> struct Vf : IVectorFunction<N> { G g; Vf(G q) : g(q) {} VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = g(x[(i + 1) % N]) + i * g.s; return r; } };
struct Su : IParametricSurface<3> { G g; Su(G q) : g(q) {} VectorN<Real, 3> operator()(Real u, Real w) const override { return VectorN<Real, 3>{g(u), g(w), g(u) + u * w * g.s}; }
	VectorN<Real, 3> operator()(const VectorN<Real, 2>& x) const override { return (*this)(x[0], x[1]); }
	Real getMinU() const override { return -1e9; } Real getMaxU() const override { return 1e9; } Real getMinW(Real) const override { return -1e9; } Real getMaxW(Real) const override { return 1e9; } };
struct Sr : IParametricSurfaceRect<3> { G g; double q[4]; Sr(G x, double a, double b, double d, double e) : g(x), q{a, b, d, e} {} VectorN<Real, 3> operator()(Real u, Real w) const override { return VectorN<Real, 3>{g(u), g(w), g(u) + u * w * g.s}; }
	VectorN<Real, 3> operator()(const VectorN<Real, 2>& x) const override { return (*this)(x[0], x[1]); }
	Real getMinU() const override { return q[0]; } Real getMaxU() const override { return q[1]; } Real getMinW() const override { return q[2]; } Real getMaxW() const override { return q[3]; } };
static std::string title(Case& c) { return c.r.pick({std::string("sin(x)"), std::string("A long title with spaces, commas; 1 2 3"), std::string("x1: 5"), std::string("\xc3\xa9t\xc3\xa9 \xcf\x80")}); }
typedef std::function<VisualizerResult(const std::string&)> Call;
typedef std::function<std::vector<SerializeResult>(const std::string&)> Ref;  // writes base, base_1.mml, ... the way the serializer is documented to
struct Job { const char* viewer; bool multi = false; int files = 1; bool run = true; Call call; Ref ref; bool bad = false; std::string what; };
static const int KINDS = 22;
static Job job(Case& c, int kind) {
	Job J; double a = c.r.uni(-5, 5), b = a + c.r.uni(0.5, 5), d = c.r.uni(-5, 5), e = d + c.r.uni(0.5, 5), p = c.r.uni(-3, 3), q = p + c.r.uni(0.5, 3); int n = c.r.i(2, 12), m = c.r.i(2, 9), l = c.r.i(2, 4), k = c.r.i(1, 4);
	bool mis = c.r.coin(0.1); std::string t = title(c); std::vector<std::string> leg; for (int i = 0; i < k; i++) leg.push_back("curve " + std::to_string(i) + "(x)"); if (mis) { if (c.r.coin()) leg.pop_back(); else leg.push_back("extra"); }
	auto g = gen(c); auto one = [](SerializeResult r) { return std::vector<SerializeResult>{r}; };
	auto fsh = std::make_shared<std::vector<Rf>>(); auto li = std::make_shared<std::vector<LinearInterpRealFunc>>(); auto po = std::make_shared<std::vector<PolynomInterpRealFunc>>(); auto sp = std::make_shared<std::vector<SplineInterpRealFunc>>();
	V px(7); for (int i = 0; i < 7; i++) px[i] = a - 0.5 + (b - a + 1) * i / 6.0;
	for (int i = 0; i < k; i++) { G h = gen(c); fsh->emplace_back(h); V y(7); for (int j = 0; j < 7; j++) y[j] = h(px[j]); li->emplace_back(px, y); po->emplace_back(px, y, 4); sp->emplace_back(px, y); }
	auto c2 = std::make_shared<std::vector<Cf<2>>>(); auto c3 = std::make_shared<std::vector<Cf<3>>>(); for (int i = 0; i < k; i++) { c2->emplace_back(gen(c)); c3->emplace_back(gen(c)); }
	int dim = c.r.i(3, 5), steps = c.r.i(2, 20); auto sol = std::make_shared<ODESystemSolution>(a, b, dim, steps); for (int i = 0; i < steps; i++) { V x(dim); for (int j = 0; j < dim; j++) x[j] = c.r.logmag(-6, 6); sol->fillValues(i, a + (b - a) * i / steps, x); } sol->setFinalSize(steps - 1); int i1 = c.r.i(0, dim - 1), i2 = c.r.i(0, dim - 1), i3 = c.r.i(0, dim - 1); std::vector<std::string> ol; for (int j = 0; j < dim; j++) ol.push_back("x" + std::to_string(j)); if (mis) ol.pop_back();
	c.in("kind", (double)kind); c.in("k", (double)k); c.in("n", (double)n); c.in("a", a); c.in("b", b); c.in("w", g.w);
	switch (kind) {
	case 0: { J.viewer = VIEWERS[0]; Rf f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeRealFunction(f, t, a, b, n, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveRealFunc(f, t, a, b, n, s)); }; } break;
	case 1: { J.viewer = VIEWERS[0]; Rf f(g); V pts(n); for (int i = 0; i < n; i++) pts[i] = a + i * c.r.uni(0.9, 1.0); J.call = [=](const std::string& s) { return Visualizer::VisualizeRealFunction(f, t, pts, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveRealFunc(f, t, pts, s)); }; } break;
	case 2: J.viewer = VIEWERS[0]; J.bad = mis; J.call = [=](const std::string& s) { std::vector<IRealFunction*> v; for (auto& f : *fsh) v.push_back(&f); return Visualizer::VisualizeMultiRealFunction(v, t, leg, a, b, n, s); }; J.ref = [=](const std::string& s) { std::vector<IRealFunction*> v; for (auto& f : *fsh) v.push_back(&f); return one(Serializer::SaveRealMultiFunc(v, t, leg, a, b, n, s)); }; break;
	case 3: J.viewer = VIEWERS[0]; J.bad = mis; J.call = [=](const std::string& s) { return Visualizer::VisualizeMultiRealFunction(*li, t, leg, a, b, n, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveRealMultiFunc(*li, t, leg, a, b, n, s)); }; break;
	case 4: J.viewer = VIEWERS[0]; J.bad = mis; J.call = [=](const std::string& s) { return Visualizer::VisualizeMultiRealFunction(*po, t, leg, a, b, n, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveRealMultiFunc(*po, t, leg, a, b, n, s)); }; break;
	case 5: J.viewer = VIEWERS[0]; J.bad = mis; J.call = [=](const std::string& s) { return Visualizer::VisualizeMultiRealFunction(*sp, t, leg, a, b, n, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveRealMultiFunc(*sp, t, leg, a, b, n, s)); }; break;
	case 6: { J.viewer = VIEWERS[0]; J.bad = mis; J.multi = true; J.files = k; double A = c.r.coin() ? a : a - 2, B = c.r.coin() ? b : b + 2; J.call = [=](const std::string& s) { return Visualizer::VisualizeMultiRealFunctionSeparately(*li, t, leg, A, B, n, s); };
		J.ref = [=](const std::string& s) { std::vector<SerializeResult> r; for (int i = 0; i < k; i++) r.push_back(Serializer::SaveRealFunc((*li)[i], leg[i], std::max<double>(A, px[0]), std::min<double>(B, px[6]), n, s + "_" + std::to_string(i + 1) + ".mml")); return r; }; } break;
	case 7: { J.viewer = VIEWERS[1]; Sf<2> f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeScalarFunc2DCartesian(f, t, a, b, n, d, e, m, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveScalarFunc2DCartesian(f, t, a, b, n, d, e, m, s)); }; } break;
	case 8: { J.viewer = VIEWERS[4]; Vf<2> f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeVectorField2DCartesian(f, t, a, b, n, d, e, m, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveVectorFunc2DCartesian(f, t, a, b, n, d, e, m, s)); }; } break;
	case 9: { J.viewer = VIEWERS[5]; g.s = c.r.uni(0.1, 2); Vf<3> f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeVectorField3DCartesian(f, t, a, b, n, d, e, m, p, q, l, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveVectorFunc3DCartesian(f, t, a, b, n, d, e, m, p, q, l, s, 3.0)); }; } break;
	case 10: { J.viewer = VIEWERS[2]; Cf<2> f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeParamCurve2D(f, t, a, b, n, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveParamCurveCartesian2DResult(f, t, a, b, n, s)); }; } break;
	case 11: { J.viewer = VIEWERS[3]; Cf<3> f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeParamCurve3D(f, t, a, b, n, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveParamCurveCartesian3DResult(f, t, a, b, n, s)); }; } break;
	case 12: case 13: J.viewer = VIEWERS[2]; J.multi = true; J.files = k; J.bad = mis && kind == 13; J.call = [=](const std::string& s) { std::vector<IRealToVectorFunction<2>*> v; for (auto& f : *c2) v.push_back(&f); return kind == 12 ? Visualizer::VisualizeMultiParamCurve2D(v, t, a, b, n, s) : Visualizer::VisualizeMultiParamCurve2D(v, leg, a, b, n, s); };
		J.ref = [=](const std::string& s) { std::vector<SerializeResult> r; for (int i = 0; i < k; i++) r.push_back(Serializer::SaveParamCurveCartesian2DResult((*c2)[i], kind == 12 ? t : leg[i], a, b, n, s + "_" + std::to_string(i + 1) + ".mml")); return r; }; break;
	case 14: J.viewer = VIEWERS[3]; J.multi = true; J.files = k; J.call = [=](const std::string& s) { std::vector<IRealToVectorFunction<3>*> v; for (auto& f : *c3) v.push_back(&f); return Visualizer::VisualizeMultiParamCurve3D(v, t, a, b, n, s); };
		J.ref = [=](const std::string& s) { std::vector<SerializeResult> r; for (int i = 0; i < k; i++) r.push_back(Serializer::SaveParamCurveCartesian3DResult((*c3)[i], t, a, b, n, s + "_" + std::to_string(i + 1) + ".mml")); return r; }; break;
	case 15: J.viewer = VIEWERS[0]; J.call = [=](const std::string& s) { return Visualizer::VisualizeODESysSolCompAsFunc(*sol, i1, t, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveODESolutionComponentAsFunc(*sol, i1, t, s)); }; break;
	case 16: J.viewer = VIEWERS[0]; J.bad = mis; J.call = [=](const std::string& s) { return Visualizer::VisualizeODESysSolAsMultiFunc(*sol, t, ol, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveODESolutionAsMultiFunc(*sol, t, ol, s)); }; break;
	case 17: J.viewer = VIEWERS[2]; J.call = [=](const std::string& s) { return Visualizer::VisualizeODESysSolAsParamCurve2(*sol, i1, i2, t, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveODESolAsParametricCurve2D(*sol, s, i1, i2, t)); }; break;
	case 18: J.viewer = VIEWERS[3]; J.call = [=](const std::string& s) { return Visualizer::VisualizeODESysSolAsParamCurve3(*sol, i1, i2, i3, t, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveODESolAsParametricCurve3D(*sol, s, i1, i2, i3, t)); }; break;
	case 19: { J.viewer = VIEWERS[8]; Su f(g); Sr r(g, a, b, d, e); int v = c.r.i(0, 2);
		J.call = [=](const std::string& s) { return v == 0 ? Visualizer::VisualizeParametricSurface(static_cast<const IParametricSurface<3>&>(f), t, a, b, n, d, e, m, s) : v == 1 ? Visualizer::VisualizeParametricSurface(static_cast<const IParametricSurfaceRect<3>&>(r), t, n, m, s) : Visualizer::VisualizeParametricSurface(static_cast<const IVectorFunctionNM<2, 3>&>(f), t, a, b, n, d, e, m, s); };
		J.ref = [=](const std::string& s) { return one(v == 0 ? Serializer::SaveParametricSurface(static_cast<const IParametricSurface<3>&>(f), t, a, b, n, d, e, m, s) : v == 1 ? Serializer::SaveParametricSurface(static_cast<const IParametricSurfaceRect<3>&>(r), t, n, m, s) : Serializer::SaveParametricSurface(static_cast<const IVectorFunctionNM<2, 3>&>(f), t, a, b, n, d, e, m, s)); }; } break;
	case 20: { J.viewer = VIEWERS[9]; Sf<3> f(g); J.call = [=](const std::string& s) { return Visualizer::VisualizeScalarFunc3DCartesian(f, t, a, b, n, d, e, m, p, q, l, s); }; J.ref = [=](const std::string& s) { return one(Serializer::SaveScalarFunc3DCartesian(f, t, a, b, n, d, e, m, p, q, l, s)); }; } break;
	default: { J.viewer = ""; J.run = false; bool d3 = c.r.coin(); std::vector<FieldLine2D> f2(k); std::vector<FieldLine3D> f3(k); for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) { double x = c.r.logmag(-5, 5), y = c.r.uni(-1, 1); f2[i].points.push_back({x, y}); f3[i].points.push_back({x, y, x - y}); }
		J.call = [=](const std::string& s) { return d3 ? Visualizer::VisualizeFieldLines3D(f3, t, s) : Visualizer::VisualizeFieldLines2D(f2, t, s); }; J.ref = [=](const std::string& s) { return one(d3 ? Serializer::SaveFieldLines3D(f3, t, s) : Serializer::SaveFieldLines2D(f2, t, s)); }; } }
	return J;
}
// documented name rule: last path component, anything but letters, digits, '_', '-', '.' becomes '_', no leading dots, "output" when nothing is left
static std::string safeName(const std::string& s) { std::string b = s.substr(s.rfind('/') == std::string::npos ? 0 : s.rfind('/') + 1); if (b.empty()) b = "output"; std::string r; for (unsigned char ch : b) r += (ch < 128 && isalnum(ch)) || ch == '_' || ch == '-' || ch == '.' ? (char)ch : '_'; size_t p = r.find_first_not_of('.'); r = p == std::string::npos ? "" : r.substr(p); return r.empty() ? "output" : r; }
// names that try to leave the results folder can reach at most ROOT
static std::string name(Case& c) {
	static const char* N[] = {"plot.txt", "data.mml", "a b.txt", "../escape.txt", "../../escape.txt", "../../../escape.txt", "sub/dir/x.txt", ".hidden", "...", "..", ".", "", "/", "x/", "semi;colon.txt", "$(touch pwned).txt", "`touch pwned`", "a|b&c>d<e", "quote'\"q.txt", "new\nline.txt", "back\\slash.txt", "..\\..\\escape.txt", "\xc3\xa9t\xc3\xa9.mml", "-rf", "--help", "a..b", "tab\tname", "~", "~/x", "*?.txt", "%s%n.txt", "con:aux", "..hidden..", "results", "_1.mml"};
	if (c.r.coin(0.08)) return ROOT + "/outside/precious"; if (c.r.coin(0.05)) return ROOT + "/outside/" + c.r.pick({std::string("new"), std::string("../cwd/new"), std::string("precious/x")});
	if (c.r.coin(0.15)) { std::string s; int k = c.r.i(1, 30); for (int i = 0; i < k; i++) s += (char)(c.r.coin(0.8) ? c.r.i(33, 126) == '/' ? 'x' : c.r.i(48, 126) : c.r.pick({'.', ' ', '-', '_'})); return s; }
	return N[c.r.i(0, (int)(sizeof N / sizeof *N) - 1)];
}
struct Backend { bool fltk; };
static Backend backend(Case& c) {
	int how = c.r.i(0, 9); c.in("backend", (double)how); unsetenv("MML_VISUALIZER_BACKEND"); SetVisualizerBackend(VisualizerBackend::Auto); bool f = false;
	auto env = [&](const char* v) { setenv("MML_VISUALIZER_BACKEND", v, 1); };
	switch (how) { case 1: SetVisualizerBackend(VisualizerBackend::FLTK); f = true; break; case 2: SetVisualizerBackend(VisualizerBackend::Qt); break; case 3: env("fltk"); f = true; break; case 4: SetVisualizerBackend(VisualizerBackend::FLTK); env("Qt5"); break; case 5: SetVisualizerBackend(VisualizerBackend::FLTK); env("auto"); break; case 6: SetVisualizerBackend(VisualizerBackend::FLTK); env("nonsense"); f = true; break; case 7: SetVisualizerBackend(VisualizerBackend::FLTK); SetVisualizerBackend(VisualizerBackend::WPF); break; case 8: SetVisualizerBackend(VisualizerBackend::Qt); env("FLTK"); f = true; break; case 9: SetVisualizerBackend(VisualizerBackend::FLTK); env("qt"); break; default:; }
	c.check(GetVisualizerBackend() == (f ? VisualizerBackend::FLTK : VisualizerBackend::Qt), "backend-selected");
	c.check(IsBackendAvailable(VisualizerBackend::Qt) && IsBackendAvailable(VisualizerBackend::FLTK) && !IsBackendAvailable(VisualizerBackend::WPF) && IsBackendAvailable(VisualizerBackend::Auto), "backend-available");
	return {f};
}
static volatile long ticks = 0;
static void tick(int) { ticks = ticks + 1; }
// one monitored call; expectFiles: files that must be handed over (already on disk or written by the call); saves: absolute path -> content
struct Expect { std::string prog; bool runs = true; bool fail = false; std::vector<std::string> args; std::map<std::string, std::string> saves; bool looseSaves = false; int viz = 0; int code = 0; bool emptyPathOk = false; };
static void observe(Case& c, const std::function<VisualizerResult()>& call, const Expect& x) {
	clearLog(); Snap before = snap(); std::vector<std::string> e0, e1; slurpEnv(e0); std::string cwd0 = fs::current_path().string(); VisualizerResult r{false, false, 0, "", ""};
	try { r = call(); } catch (const std::exception& ex) { c.fail("exception-escapes", ex.what()); return; }
	slurpEnv(e1); std::sort(e0.begin(), e0.end()); std::sort(e1.begin(), e1.end()); c.check(e0 == e1, "environment-changed"); c.check(fs::current_path().string() == cwd0, "working-directory-changed");
	int st; pid_t w = waitpid(-1, &st, WNOHANG); c.check(w == -1 && errno == ECHILD, "child-left-behind"); while (waitpid(-1, &st, 0) > 0) {}
	auto rs = runs(); Snap after = snap();
	for (auto& kv : before.m) { auto it = after.m.find(kv.first); if (it == after.m.end()) { c.fail("file-removed", kv.first); continue; } if (it->second != kv.second && !x.saves.count(kv.first)) { if (x.looseSaves && kv.first.compare(0, RES.size() + 1, RES + "/") == 0) continue; c.fail("unrelated-file-changed", kv.first); } }
	for (auto& kv : after.m) if (!before.m.count(kv.first) && kv.first != RES && !x.saves.count(kv.first)) { if (x.looseSaves && kv.first.compare(0, RES.size() + 1, RES + "/") == 0 && kv.second[0] == '=') continue; c.fail("unexpected-file-created", kv.first); }
	c.ev("calls"); if (!before.m.empty()) c.ev("snapshots");
	if (!x.fail || x.runs) for (auto& kv : x.saves) { auto it = after.m.find(kv.first); if (!c.check(it != after.m.end(), "data-file-missing", [&] { return kv.first; })) continue; c.check(it->second == "=" + kv.second, "data-file-content", [&] { return kv.first + ": " + it->second.substr(0, 300); }); c.ev("files"); }
	if (x.runs) { if (c.check(rs.size() == 1, "viewer-runs", [&] { return mon::str((double)rs.size()) + " instead of 1 " + r.errorMessage; })) {
			c.ev("viewer-runs"); c.check(rs[0].prog == x.prog, "wrong-viewer", [&] { return rs[0].prog + " instead of " + x.prog; });
			if (c.check(rs[0].args.size() == x.args.size(), "argument-count", [&] { return mon::str((double)rs[0].args.size()) + " want " + mon::str((double)x.args.size()); })) for (size_t i = 0; i < x.args.size(); i++) { std::error_code ec; c.check(rs[0].args[i] == x.args[i] || (fs::exists(x.args[i]) && fs::equivalent(rs[0].args[i], x.args[i], ec)), "argument", [&] { return rs[0].args[i] + " instead of " + x.args[i]; });
				auto s = x.saves.find(x.args[i]); if (s != x.saves.end()) { c.check(rd(LOG + "." + std::to_string(i + 1)) == s->second, "data-incomplete-when-viewer-started"); c.ev("viewer-saw-data"); } }
			std::string dir = x.prog.substr(0, x.prog.rfind('/')); c.check(rs[0].ld.compare(0, dir.size() + 4, dir + "/lib") == 0 && rs[0].qt == dir + "/plugins", "viewer-environment"); } }
	else c.check(rs.empty(), "viewer-run-after-failure", [&] { return rs[0].prog; });
	c.check(r.success == !x.fail, x.fail ? "failure-reported-as-success" : "success-reported-as-failure", [&] { return r.errorMessage; }); c.check((bool)r == r.success, "bool-conversion"); c.check(!r.timedOut, "timeout-without-limit");
	if (!r.success) { c.check(!r.errorMessage.empty(), "failure-without-message"); c.ev("failures"); if (x.code > 0) c.check(r.exitCode == x.code, "exit-code", [&] { return mon::str((double)r.exitCode) + " want " + mon::str((double)x.code); }); c.check(r.exitCode != 0, "failure-with-exit-code-0"); }
	else { c.check(r.exitCode == 0 && r.errorMessage.empty(), "success-with-error"); c.ev("successes"); }
	if (!x.args.empty() && (x.runs || !x.fail)) { std::error_code ec; c.check(r.dataFilePath == x.args[0] || fs::equivalent(r.dataFilePath, x.args[0], ec), "data-file-path", [&] { return r.dataFilePath + " instead of " + x.args[0]; }); }
}
static std::map<std::string, std::string> reference(Case& c, const Job& J, const std::string& base, std::vector<std::string>& args) {
	std::map<std::string, std::string> m; std::string dir = ROOT + "/ref"; fs::create_directories(dir); auto rs = J.ref(dir + "/r"); for (auto& r : rs) c.check(r.success, "reference-save", [&] { return r.message; });
	for (int i = 0; i < J.files; i++) { std::string suf = J.multi ? "_" + std::to_string(i + 1) + ".mml" : ""; m[RES + "/" + base + suf] = rd(dir + "/r" + suf); args.push_back(RES + "/" + base + suf); c.check(!rd(dir + "/r" + suf).empty(), "reference-empty"); }
	fs::remove_all(dir); return m;
}
FAMILY(handed_over, 22 * 14) {
	setup(); clearResults(); if (c.r.coin()) fs::create_directories(RES); int kind = c.idx % KINDS; Job J = job(c, kind); std::string nm = name(c), base = safeName(nm); c.in("name", nm); Backend b = backend(c); Expect x; x.prog = J.run ? viewer(J.viewer, b.fltk) : "";
	if (fs::exists(RES) && c.r.coin(0.3)) wr(RES + "/" + base, "old content that is much longer than nothing\n");  // an earlier result is replaced
	if (fs::exists(RES)) wr(RES + "/other.mml", "other\n");
	if (base == "other.mml") { c.trivial(); return; }
	int mode = J.bad ? 0 : c.r.i(0, 9); c.in("mode", (double)mode); x.runs = J.run; setenv("VIZMODE", "0", 1);
	if (J.bad) { x.fail = true; x.runs = false; x.looseSaves = true; c.ev("legend-mismatch"); }
	else { x.saves = reference(c, J, base, x.args);
		if (J.run) { if (mode == 5) { int ec = c.r.pick({1, 2, 3, 64, 126, 127, 200, 255}); setenv("VIZMODE", std::to_string(ec).c_str(), 1); x.fail = true; x.code = ec; } else if (mode == 6) { setenv("VIZMODE", c.r.coin() ? "kill" : "term", 1); x.fail = true; } else if (mode == 7) { setenv("LD_LIBRARY_PATH", "/some/where", 1); } } }
	observe(c, [&] { return J.call(nm); }, x); setenv("VIZMODE", "0", 1); unsetenv("LD_LIBRARY_PATH"); unsetenv("MML_VISUALIZER_BACKEND"); c.ev(J.multi ? "multi" : "single");
}
// a viewer that is missing, not executable, not a program, or whose backend folder is absent
FAMILY(no_viewer, 60) {
	setup(); clearResults(); Job J = job(c, c.idx % (KINDS - 1)); if (J.bad) { c.trivial(); return; } Backend b = backend(c); Expect x; std::string v = viewer(J.viewer, b.fltk); x.prog = v; x.runs = false; x.fail = true; x.code = 127; x.saves = reference(c, J, "nv.mml", x.args); int how = c.r.i(0, 3); c.in("how", (double)how);
	unlink(v.c_str()); if (how == 1) { wr(v, SCRIPT); chmod(v.c_str(), 0644); } else if (how == 2) fs::create_directories(v); else if (how == 3) { wr(v, "\x7f" "ELF garbage"); chmod(v.c_str(), 0755); }
	if (how != 3) x.runs = false; observe(c, [&] { return J.call("nv.mml"); }, x); fs::remove_all(v); plant(v, 0755); unsetenv("MML_VISUALIZER_BACKEND"); c.ev("no-viewer");
}
// the place to write to is hostile: a directory, a link leading out, a dangling link, a results folder that is a file, a full disk
FAMILY(hostile_target, 90) {
	setup(); clearResults(); fs::create_directories(RES); Job J = job(c, c.idx % KINDS); if (J.bad) { c.trivial(); return; } unsetenv("MML_VISUALIZER_BACKEND"); SetVisualizerBackend(VisualizerBackend::Auto); Expect x; x.prog = J.run ? viewer(J.viewer, false) : ""; x.saves = reference(c, J, "t.mml", x.args); if (J.files > 1 && c.r.coin()) {}
	int bad = J.multi ? c.r.i(0, J.files - 1) : 0, how = c.r.i(0, 6); c.in("how", (double)how); std::string tgt = x.args[bad]; x.fail = true; x.runs = false; x.looseSaves = true; rlimit old; getrlimit(RLIMIT_FSIZE, &old);
	auto saves = x.saves; x.saves.clear();
	switch (how) {
	case 0: fs::create_directories(tgt); break; case 1: fs::create_symlink(ROOT + "/outside/precious", tgt); break; case 2: fs::create_symlink(ROOT + "/outside/fresh", tgt); break; case 3: fs::create_symlink("../../../outside/fresh2", tgt); break;
	case 4: clearResults(); wr(RES, "I am a file\n"); break;
	case 5: { size_t sz = saves[tgt].size(); rlimit rl = old; rl.rlim_cur = sz > 1 ? c.r.i(0, (int)std::min<size_t>(sz - 1, 1 << 20)) : 0; setrlimit(RLIMIT_FSIZE, &rl); } break;
	default: { x.fail = false; x.runs = J.run; x.looseSaves = false; x.saves = saves; wr(RES + "/real.mml", "x"); std::string body = saves[tgt]; fs::create_symlink(RES + "/real.mml", tgt); x.saves.erase(tgt); x.saves[RES + "/real.mml"] = body; x.args[bad] = RES + "/real.mml"; } }  // a link that stays inside is followed
	observe(c, [&] { return J.call("t.mml"); }, x); setrlimit(RLIMIT_FSIZE, &old); c.check(rd(ROOT + "/outside/precious") == "precious\n", "file-outside-overwritten"); std::error_code ec; fs::remove(ROOT + "/outside/fresh", ec); fs::remove(ROOT + "/outside/fresh2", ec); wr(ROOT + "/outside/precious", "precious\n"); if (how == 4) unlink(RES.c_str()); c.ev("hostile-target");
}
// existing files
typedef VisualizerResult (*FromFile)(std::string); typedef VisualizerResult (*FromFiles)(std::vector<std::string>);
FAMILY(from_file, 220) {
	setup(); clearResults(); fs::create_directories(RES + "/sub"); fs::create_directories(ROOT + "/cwd/sub"); Backend b = backend(c); setenv("VIZMODE", "0", 1);
	static const struct { FromFile f; int v; } F[] = {{&Visualizer::VisualizeRealFunctionFromFile, 0}, {&Visualizer::VisualizeScalarFunc2DFromFile, 1}, {&Visualizer::VisualizeVectorField2DFromFile, 4}, {&Visualizer::VisualizeVectorField3DFromFile, 5}, {&Visualizer::VisualizeParticleSimulation2D, 6}, {&Visualizer::VisualizeParticleSimulation3D, 7}, {&Visualizer::VisualizeParametricSurfaceFromFile, 8}, {&Visualizer::VisualizeScalarFunc3DFromFile, 9}, {static_cast<FromFile>(&Visualizer::VisualizeRigidBodyTrajectory), 10}};
	static const struct { FromFiles f; int v; } M[] = {{static_cast<FromFiles>(&Visualizer::VisualizeMultiParamCurve2D), 2}, {static_cast<FromFiles>(&Visualizer::VisualizeMultiParamCurve3D), 3}, {static_cast<FromFiles>(&Visualizer::VisualizeRigidBodyTrajectory), 10}};
	int k = c.idx % 12; c.in("entry", (double)k); int n = k < 9 ? 1 : c.r.i(1, 4); std::vector<std::string> given, want; bool missing = false; std::vector<std::string> made;
	for (int i = 0; i < n; i++) {
		std::string bn = "f" + std::to_string(i) + c.r.pick({std::string(".mml"), std::string(" with space.txt"), std::string("\\back.mml"), std::string("-x.mml"), std::string("\xc3\xa9.mml")}), body = "data " + std::to_string(i) + "\n"; int how = c.r.i(0, 8); bool plainName = safeName(bn) == bn;
		switch (how) {
		case 0: wr(RES + "/" + safeName(bn), body); given.push_back(bn); want.push_back(RES + "/" + safeName(bn)); made.push_back(want.back()); break;                         // bare name, in results
		case 1: wr(ROOT + "/outside/" + bn, body); given.push_back(ROOT + "/outside/" + bn); want.push_back(given.back()); made.push_back(want.back()); break;               // absolute
		case 2: wr(ROOT + "/cwd/" + bn, body); given.push_back(bn); want.push_back(ROOT + "/cwd/" + bn); made.push_back(want.back()); break;                                 // relative to the working directory
		case 3: wr(ROOT + "/cwd/" + bn, body); wr(RES + "/" + safeName(bn), "other\n"); given.push_back(bn); want.push_back(ROOT + "/cwd/" + bn); made.push_back(want.back()); made.push_back(RES + "/" + safeName(bn)); break; // both: as given first
		case 4: wr(ROOT + "/cwd/sub/" + bn, body); given.push_back("./sub/../sub//" + bn); want.push_back(ROOT + "/cwd/sub/" + bn); made.push_back(want.back()); break;
		case 5: given.push_back("missing-" + bn); want.push_back(""); missing = true; break;
		case 6: given.push_back(std::string(300, 'x') + ".mml"); want.push_back(""); missing = true; c.ev("long-name"); break;                                              // name no file system accepts
		case 7: fs::create_symlink("loop" + std::to_string(i), ROOT + "/cwd/loop" + std::to_string(i)); made.push_back(ROOT + "/cwd/loop" + std::to_string(i)); given.push_back("loop" + std::to_string(i)); want.push_back(""); missing = true; c.ev("link-loop"); break;
		default: (void)plainName; wr(ROOT + "/cwd/t" + std::to_string(i), body); fs::create_symlink("t" + std::to_string(i), ROOT + "/cwd/" + bn); given.push_back(bn); want.push_back(ROOT + "/cwd/t" + std::to_string(i)); made.push_back(want.back()); made.push_back(ROOT + "/cwd/" + bn); }
	}
	std::string g; for (auto& s : given) g += s.substr(0, 40) + "|"; c.in("names", g);
	Expect x; int v = k < 9 ? F[k].v : M[k - 9].v; x.prog = viewer(VIEWERS[v], b.fltk); x.runs = !missing; x.fail = missing; if (!missing) x.args = want; if (!missing && c.r.coin(0.15)) { setenv("VIZMODE", "3", 1); x.fail = true; x.code = 3; }
	observe(c, [&] { return k < 9 ? F[k].f(given[0]) : M[k - 9].f(given); }, x);
	for (auto& f : made) unlink(f.c_str()); setenv("VIZMODE", "0", 1); unsetenv("MML_VISUALIZER_BACKEND"); c.ev(missing ? "missing-file" : "existing-file");
}
// signals interrupt the wait: the call must still wait for the viewer and report how it ended
FAMILY(interrupted, 24) {
	setup(); clearResults(); Job J = job(c, c.idx % (KINDS - 1)); if (J.bad) { c.trivial(); return; } unsetenv("MML_VISUALIZER_BACKEND"); SetVisualizerBackend(VisualizerBackend::Auto); Expect x; x.prog = viewer(J.viewer, false); x.saves = reference(c, J, "i.mml", x.args); setenv("VIZMODE", "slow", 1);
	struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGALRM, &sa, &old); itimerval it{{0, 20000}, {0, 20000}}, off{{0, 0}, {0, 0}}; ticks = 0;
	observe(c, [&] { setitimer(ITIMER_REAL, &it, nullptr); auto r = J.call("i.mml"); setitimer(ITIMER_REAL, &off, nullptr); return r; }, x);
	setitimer(ITIMER_REAL, &off, nullptr); sigaction(SIGALRM, &old, nullptr); setenv("VIZMODE", "0", 1); if (ticks > 0) c.ev("interruptions", ticks);
}
// backend query without the backend's folder
FAMILY(backend_missing, 10) {
	setup(); unsetenv("MML_VISUALIZER_BACKEND"); SetVisualizerBackend(VisualizerBackend::Auto); std::string d = PROJ + "/tools/visualizers/linux/FLTK"; fs::rename(d, d + ".away"); c.in("i", (double)c.idx);
	c.check(!IsBackendAvailable(VisualizerBackend::FLTK), "absent-backend-available"); SetVisualizerBackend(VisualizerBackend::Qt); SetVisualizerBackend(VisualizerBackend::FLTK); c.check(GetVisualizerBackend() == VisualizerBackend::Qt, "absent-backend-selected"); fs::rename(d + ".away", d); c.check(GetVisualizerBackend() == VisualizerBackend::Qt, "absent-backend-remembered");
	c.check(GetVisualizerPath("X", VisualizerBackend::FLTK) == d + "/X_FLTK" && GetVisualizerPath("X") == PROJ + "/tools/visualizers/linux/Qt/X", "viewer-path"); c.throws<VisualizerError>([] { GetVisualizerPath("X", VisualizerBackend::WPF); }, "wpf-on-linux"); c.ev("backend-queries");
}
MON_MAIN()
