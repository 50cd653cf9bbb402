// C47: containers when memory runs out. Every allocation of an operation is made to fail in turn; afterwards the container must
// still be a consistent object (dimensions that agree with the storage, every element reachable) and its operands must be intact.
#include <cstdlib>
#include <new>
#include <utility>
#include "mon.h"
static thread_local long long g_left = -1; // <0: off
static thread_local long long g_failed = 0;
static void* get(std::size_t n) { if (g_left >= 0 && g_left-- == 0) { ++g_failed; throw std::bad_alloc(); } void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#include "mml/MMLBase.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/base/Matrix/MatrixSym.h"
#include "mml/base/Matrix/MatrixTriDiag.h"
#include "mml/base/Matrix/MatrixBandDiag.h"
#include "mml/base/Matrix/Matrix3D.h"
#include "mml/base/ODESystemSolution.h"
#include "mml/base/Graph.h"
#include "mml/base/Polynom.h"
using namespace MML;
typedef std::vector<Real> Img; // the whole observable state of an object
template<class F> static bool failing(long long k, F&& f) { g_left = k; bool bad = false; try { f(); } catch (const std::bad_alloc&) { bad = true; } catch (const std::exception&) { bad = true; } g_left = -1; return bad; }
// Runs op on copies of `proto` with the k-th allocation failing, k = 0, 1, ... until it succeeds.
// image() reads every element the object's own dimensions promise (ASan watches). strong: a failed op leaves the object as it was.
template<class T, class I, class O> static void sweep(mon::Case& c, const T& proto, I image, O op, bool strong, const char* what) {
	for (long long k = 0; k < 60; ++k) {
		T x(proto); Img before = image(x);
		bool bad = failing(k, [&] { op(x); });
		Img after = image(x); c.ev("states_read");
		if (!bad) { c.ev("ops_done"); return; }
		c.ev("alloc_failures");
		if (strong) c.check(after == before, std::string(what) + ": object unchanged after a failed allocation");
		T y(x); c.check(image(y) == after, std::string(what) + ": object copyable after a failed allocation");
		op(x); c.ev("recovered"); // and it can be used again
		T ref(proto); op(ref); if (strong) c.check(image(x) == image(ref), std::string(what) + ": the retried operation gives the usual result");
	}
}
static Img img(const Vector<Real>& v) { Img o{Real(v.size())}; for (int i = 0; i < v.size(); ++i) o.push_back(v.at(i)); return o; }
static Img img(const Matrix<Real>& m) { Img o{Real(m.rows()), Real(m.cols())}; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) o.push_back(m.at(i, j)); return o; }
static Img img(const MatrixSym<Real>& m) { Img o{Real(m.rows())}; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.rows(); ++j) o.push_back(m(i, j)); return o; }
static Img img(const Matrix3D<Real>& m) { Img o{Real(m.dim1()), Real(m.dim2()), Real(m.dim3())}; for (int i = 0; i < m.dim1(); ++i) for (int j = 0; j < m.dim2(); ++j) for (int k = 0; k < m.dim3(); ++k) o.push_back(m(i, j, k)); return o; }
static Vector<Real> rv(mon::Rng& r, int n) { Vector<Real> v(n); for (int i = 0; i < n; ++i) v[i] = r.i(-9, 9); return v; }
static Matrix<Real> rm(mon::Rng& r, int n, int m) { Matrix<Real> v(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = r.i(-9, 9); return v; }

FAMILY(nomem_vector, 300) {
	auto& r = c.r; int n = r.i(0, 9), k = r.i(1, 12); c.in("n", n); c.in("k", k); auto a = rv(r, n), b = rv(r, k), b0 = b; auto I = [](const Vector<Real>& v) { return img(v); };
	sweep(c, a, I, [&](Vector<Real>& v) { v = b; }, false, "v=v");
	sweep(c, a, I, [&](Vector<Real>& v) { v.Resize(k, true); }, true, "Vector::Resize keep");
	sweep(c, a, I, [&](Vector<Real>& v) { v.push_back(3); }, true, "push_back");
	sweep(c, b, I, [&](Vector<Real>& v) { v = v + b; }, true, "v=v+w");
	c.check(img(b) == img(b0), "operand intact");
}
FAMILY(nomem_matrix, 300) {
	auto& r = c.r; int n = r.i(1, 6), m = r.i(1, 6), p = r.i(1, 8), q = r.i(1, 8); c.in("n", n); c.in("m", m); c.in("p", p); c.in("q", q); auto a = rm(r, n, m), b = rm(r, p, q), b0 = b, s = rm(r, n, m), g = rm(r, m, q); auto I = [](const Matrix<Real>& v) { return img(v); };
	sweep(c, a, I, [&](Matrix<Real>& v) { v = b; }, true, "m=m");
	sweep(c, a, I, [&](Matrix<Real>& v) { v.Resize(p, q); }, false, "Resize");
	sweep(c, a, I, [&](Matrix<Real>& v) { v.Resize(p, q, true); }, true, "Resize keep");
	sweep(c, a, I, [&](Matrix<Real>& v) { v = v + s; }, true, "m=m+m");
	sweep(c, a, I, [&](Matrix<Real>& v) { v = v * g; }, true, "m=m*m");
	sweep(c, a, I, [&](Matrix<Real>& v) { v = v.transpose(); }, true, "m=m^T");
	if (n == m) sweep(c, a, I, [&](Matrix<Real>& v) { v.Transpose(); }, true, "Transpose");
	c.check(img(b) == img(b0), "operand intact");
}
FAMILY(nomem_special, 300) {
	auto& r = c.r; int n = r.i(1, 6), p = r.i(1, 8); c.in("n", n); c.in("p", p);
	MatrixSym<Real> a(n), b(p); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) a(i, j) = r.i(-9, 9); for (int i = 0; i < p; ++i) for (int j = 0; j <= i; ++j) b(i, j) = r.i(-9, 9); Img b0 = img(b);
	sweep(c, a, [](const MatrixSym<Real>& v) { return img(v); }, [&](MatrixSym<Real>& v) { v = b; }, true, "sym=sym"); sweep(c, a, [](const MatrixSym<Real>& v) { return img(v); }, [&](MatrixSym<Real>& v) { v.Resize(p); }, false, "sym.Resize"); sweep(c, a, [](const MatrixSym<Real>& v) { return img(v); }, [&](MatrixSym<Real>& v) { v.Resize(p, true); }, false, "sym.Resize keep"); c.check(img(b) == b0, "operand intact");
	int d1 = r.i(1, 4), d2 = r.i(1, 4), d3 = r.i(1, 4); Matrix3D<Real> x(d1, d2, d3), y(d3, d1, d2 + 1); for (int i = 0; i < d1; ++i) for (int j = 0; j < d2; ++j) for (int k = 0; k < d3; ++k) x(i, j, k) = r.i(-9, 9); for (int i = 0; i < d3; ++i) for (int j = 0; j < d1; ++j) for (int k = 0; k <= d2; ++k) y(i, j, k) = r.i(-9, 9);
	sweep(c, x, [](const Matrix3D<Real>& v) { return img(v); }, [&](Matrix3D<Real>& v) { v = y; }, true, "3D=3D"); sweep(c, x, [](const Matrix3D<Real>& v) { Img o = img(v); for (int i = 0; i < v.dim1(); ++i) for (int j = 0; j < v.dim2(); ++j) for (int k = 0; k < v.dim3(); ++k) o.push_back(v[i][j][k]); return o; }, [&](Matrix3D<Real>& v) { v.Resize(d3 + 1, d1, d2); }, false, "3D.Resize"); sweep(c, x, [](const Matrix3D<Real>& v) { Img o = img(v); for (int i = 0; i < v.dim1(); ++i) for (int j = 0; j < v.dim2(); ++j) for (int k = 0; k < v.dim3(); ++k) o.push_back(v[i][j][k]); return o; }, [&](Matrix3D<Real>& v) { v.Resize(d3 + 1, d1, d2, 4.0); }, false, "3D.Resize value");
	auto TI = [](const TridiagonalMatrix<Real>& t) { Img o{Real(t.rows())}; for (int i = 0; i < t.rows(); ++i) for (int j = std::max(0, i - 1); j <= std::min(t.rows() - 1, i + 1); ++j) o.push_back(t(i, j)); return o; };
	int u = r.i(3, 8), w = r.i(3, 8); TridiagonalMatrix<Real> t(u, rv(r, u), rv(r, u), rv(r, u)), s(w, rv(r, w), rv(r, w), rv(r, w)); sweep(c, t, TI, [&](TridiagonalMatrix<Real>& v) { v = s; }, true, "tri=tri");
	int m1 = r.i(0, 2), m2 = r.i(0, 2), h1 = r.i(0, 2), h2 = r.i(0, 2); BandDiagonalMatrix f(n, m1, m2, rm(r, n, m1 + m2 + 1)), h(p, h1, h2, rm(r, p, h1 + h2 + 1)); sweep(c, f, [](const BandDiagonalMatrix& v) { Img o{Real(v.rows())}; for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.rows(); ++j) o.push_back(std::as_const(v)(i, j)); return o; }, [&](BandDiagonalMatrix& v) { v = h; }, true, "band=band");
	PolynomReal pa, pb; { std::vector<Real> w1, w2; for (int i = 0; i < n; ++i) w1.push_back(r.i(-9, 9)); for (int i = 0; i < p; ++i) w2.push_back(r.i(1, 9)); pa = PolynomReal(w1); pb = PolynomReal(w2); }; auto PI = [](const PolynomReal& v) { Img o{Real(v.degree())}; for (int i = 0; i <= v.degree(); ++i) o.push_back(v[i]); return o; }; sweep(c, pa, PI, [&](PolynomReal& v) { v = pb; }, true, "p=p"); sweep(c, pa, PI, [&](PolynomReal& v) { v = v * pb; }, true, "p=p*p"); sweep(c, pa, PI, [&](PolynomReal& v) { v = v + pb; }, true, "p=p+p");
}
FAMILY(nomem_solution, 300) {
	auto& r = c.r; int dim = r.i(1, 4), cap = r.i(1, 5), cap2 = r.i(1, 9); c.in("dim", dim); c.in("cap", cap); c.in("cap2", cap2);
	ODESystemSolution a(0, 1, dim, cap), b(0, 1, r.i(1, 4), cap2);
	auto I = [](const ODESystemSolution& s) { Img o{Real(s.getSysDim()), Real(s.getTotalSavedSteps())}; auto t = s.getTValues(); auto x = s.getXValues(); o.push_back(t.size()); o.push_back(x.rows()); o.push_back(x.cols()); for (int i = 0; i < t.size(); ++i) o.push_back(t.at(i)); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) o.push_back(x.at(i, j)); return o; };
	auto inv = [&](const ODESystemSolution& s) { c.check(s.getTValues().size() == s.getTotalSavedSteps() && s.getXValues().cols() == s.getTotalSavedSteps() && s.getXValues().rows() == s.getSysDim(), "solution: capacity agrees with the storage"); };
	for (int k = 0; k < 8; ++k) { ODESystemSolution x(a); bool bad = failing(k, [&] { x.reserve(cap + cap2); }); c.ev(bad ? "alloc_failures" : "ops_done"); Vector<Real> st = rv(r, dim); for (int i = 0; i < cap + cap2; ++i) x.fillValues(i, i * 0.1, st); c.ev("recovered"); }
	for (int k = 0; k < 8; ++k) { ODESystemSolution x(a); Vector<Real> st = rv(r, dim); bool bad = failing(k, [&] { for (int i = 0; i <= cap + cap2; ++i) x.fillValues(i, i * 0.1, st); }); c.ev(bad ? "alloc_failures" : "ops_done"); for (int i = 0; i <= cap + cap2; ++i) x.fillValues(i, i * 0.1, st); c.ev("recovered"); }
	sweep(c, a, I, [&](ODESystemSolution& s) { s = b; }, true, "solution=solution"); (void)inv;
}
FAMILY(nomem_graph, 300) {
	auto& r = c.r; typedef Graph<int, Real> G; G g(r.coin() ? G::Type::Undirected : G::Type::Directed); int n = r.i(2, 7); c.in("n", n); for (int i = 0; i < n; ++i) g.addVertex(i); for (int q = 0; q < 2 * n; ++q) { int u = r.i(0, n - 1), v = r.i(0, n - 1); if (u != v && !g.hasEdge(u, v)) g.addEdge(u, v, r.i(1, 9)); }
	auto I = [](const G& g) { Img o{Real(g.numVertices()), Real(g.numEdges())}; for (size_t i = 0; i < g.numVertices(); ++i) { for (auto& e : g.neighbors(i)) { o.push_back(e.to); o.push_back(e.weight); } o.push_back(-1); } return o; };
	auto sane = [&](const G& g, const char* w) { size_t h = 0, loops = 0; for (size_t i = 0; i < g.numVertices(); ++i) for (auto& e : g.neighbors(i)) { ++h; if (e.to == i) ++loops; if (!g.isDirected()) c.check(g.hasEdge(e.to, i), std::string(w) + ": both halves of an undirected edge"); } c.check(g.isDirected() ? h == g.numEdges() : h + loops == 2 * g.numEdges(), std::string(w) + ": edge count"); };
	int u = r.i(0, n - 1), v; do v = r.i(0, n - 1); while (u == v); if (!g.hasEdge(u, v)) sweep(c, g, I, [&](G& x) { x.addEdge(u, v, 5); }, true, "addEdge");
	for (int k = 0; k < 6; ++k) { G x(g); failing(k, [&] { if (!x.hasEdge(u, v)) x.addEdge(u, v, 5); }); sane(x, "addEdge failing"); }
	sweep(c, g, I, [&](G& x) { x.addVertex(77); }, true, "addVertex");
}
MON_MAIN()
