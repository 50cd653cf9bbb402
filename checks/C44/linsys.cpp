// C44: the linear-system facade: every route to a solution against a known solution, decompositions and analysis against definitions.
#include "mon.h"
#include "la.h"
#include "MMLBase.h"
#include "systems/LinearSystem.h"
using namespace MML; using namespace MML::Systems;
typedef Matrix<Real> Mat; typedef Vector<Real> Vec; typedef std::vector<double> V; typedef long double LD;
static const double EPS = 2.3e-16;
static Vec vec(const la::M& m) { Vec v(m.r); for (int i = 0; i < m.r; i++) v[i] = (double)m(i, 0); return v; }
static V svals(mon::Rng& r, int k, double cond) { V s; for (int i = 0; i < k; i++) s.push_back(i == 0 ? 1 : i == k - 1 ? 1 / cond : std::pow(cond, -r.u01())); if (k == 1) s = {1}; std::sort(s.rbegin(), s.rend()); return s; }
static void log(mon::Case& c, const Mat& A) { V v; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) v.push_back(A(i, j)); c.in("rows", (double)A.rows()); c.in("A", v); }
struct Sys { Mat A; Vec b; la::M x; double cond, scale; int kind; };
static Sys square(mon::Case& c) {
	auto& r = c.r; Sys s; int n = r.sz(1, 7, 24); s.kind = r.i(0, 8); s.scale = r.coin(.5) ? 1 : std::pow(10., r.i(-14, 12)); double cd = std::pow(10., r.uni(0, 5)); la::M A(n, n), u = la::orth(r, n, n), v = la::orth(r, n, n); auto sv = svals(r, n, cd);
	switch (s.kind) {
	case 1: A = la::usv(u, sv, u); break; // SPD
	case 2: { auto t = sv; for (auto& q : t) if (r.coin(.5)) q = -q; A = la::usv(u, t, u); break; } // symmetric, any inertia
	case 3: case 4: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j) A(i, j) = r.uni(.5, 2) * (r.coin(.5) ? 1 : -1); else if ((s.kind == 3) == (j > i)) A(i, j) = r.uni(-1, 1); break;
	case 5: for (int i = 0; i < n; i++) A(i, i) = r.uni(.01, 2) * (r.coin(.5) ? 1 : -1); break;
	case 6: for (int i = 0; i < n; i++) { LD t = 0; for (int j = 0; j < n; j++) if (j != i) { A(i, j) = r.uni(-1, 1); t += fabsl(A(i, j)); } A(i, i) = (t + r.uni(.1, 1)) * (r.coin(.5) ? 1 : -1); } break;
	case 7: { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; r.shuffle(p); for (int i = 0; i < n; i++) A(i, p[i]) = r.uni(.5, 3); break; } // scaled permutation: zero pivots
	case 8: { for (int i = 0; i < n; i++) { A(i, i) = r.uni(.5, 2); for (int j = 0; j < i; j++) A(i, j) = A(j, i) = r.uni(-.3, .3); } for (int k = 0; k < 2; k++) { int i = r.i(0, n - 1), j = r.i(0, n - 1); if (i != j) A(i, j) += 0.1; } break; } // almost symmetric
	default: A = la::usv(u, sv, v);
	}
	for (auto& q : A.a) q = (double)(q * s.scale); if (s.kind == 1 || s.kind == 2) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(i, j) = A(j, i);
	s.x = la::M(n, 1); for (int i = 0; i < n; i++) s.x(i, 0) = r.uni(-3, 3); s.A = la::to<Mat>(A); la::M b = la::mul(A, s.x); s.b = vec(b);
	la::M inv; double kappa = 1e300; if (la::solve(A, la::eye(n), inv)) kappa = (double)(la::nfro(A) * la::nfro(inv)); s.cond = kappa; log(c, s.A); c.in("kind", (double)s.kind); return s;
}
static void near(mon::Case& c, const Vec& x, const la::M& w, double tol, const char* key) { if (!c.check(x.size() == w.r, key, "wrong size")) return; LD m = 0, d = 0; for (int i = 0; i < w.r; i++) { m = std::max(m, fabsl(w(i, 0))); d = std::max(d, fabsl((LD)x[i] - w(i, 0))); if (!std::isfinite(x[i])) d = INFINITY; } c.close((double)d, 0, tol * (double)(m + 1e-300), key); }
FAMILY(square_solvers, 6000) {
	auto s = square(c); if (s.cond > 1e9) { c.trivial(); return; } double tol = 200 * EPS * s.cond + 1e-14; LinearSystem<Real> S(s.A, s.b); if (c.r.coin(.3)) S.Analyze();
	near(c, S.Solve(), s.x, tol, "solve"); near(c, SolveLinearSystem<Real>(s.A, s.b), s.x, tol, "free-function"); near(c, S.SolveByLU(), s.x, tol, "lu"); near(c, S.SolveByGaussJordan(), s.x, tol, "gauss-jordan"); near(c, S.SolveByQR(), s.x, tol, "qr"); near(c, S.SolveBySVD(), s.x, tol, "svd"); near(c, S.SolveLeastSquares(), s.x, tol, "least-squares");
	if (s.kind == 1) { near(c, S.SolveByCholesky(), s.x, tol, "cholesky"); c.ev("cholesky"); } if (s.scale < 1e-8) c.ev("tiny-scale"); c.ev("square"); static const char* K[9] = {"general", "spd", "symmetric", "upper", "lower", "diagonal", "dominant", "permutation", "almost-symmetric"}; c.ev(K[s.kind]);
	Vec x = S.SolveByLU(); int n = s.A.rows(); LD r2 = 0, b2 = 0; for (int i = 0; i < n; i++) { LD t = -(LD)s.b[i]; for (int j = 0; j < n; j++) t += (LD)s.A(i, j) * x[j]; r2 += t * t; b2 += (LD)s.b[i] * s.b[i]; } double bn = (double)sqrtl(b2), noise = 1e-13 * n * (double)la::nmax(la::from(s.A)) * 10; c.close(S.ResidualNorm(x), (double)sqrtl(r2), noise, "residual"); if (bn > 1e-20) { c.close(S.RelativeResidual(x) * bn, (double)sqrtl(r2), noise, "relative-residual"); auto v = S.Verify(x); c.close(v.absoluteResidual, (double)sqrtl(r2), noise, "verify-residual"); if (bn > 1e-3 * s.scale) c.check(v.isAccurate, "verify-accepts"); Vec y = x; y[c.r.i(0, n - 1)] += 5; auto w = S.Verify(y); c.check(w.absoluteResidual > v.absoluteResidual, "verify-orders"); if (w.relativeResidual > 1e-7) c.check(!w.isAccurate, "verify-rejects"); }
}
FAMILY(rectangular, 3000) {
	auto& r = c.r; int m = r.sz(1, 7, 20), n = r.sz(1, 7, 20); if (m == n) n++; int k = std::min(m, n); double cd = std::pow(10., r.uni(0, 4)); la::M u = la::orth(r, m, k), v = la::orth(r, n, k); auto sv = svals(r, k, cd); double sc = r.coin(.6) ? 1 : std::pow(10., r.i(-10, 10)); for (auto& q : sv) q *= sc; la::M A = la::usv(u, sv, v); for (auto& q : A.a) q = (double)q; Mat MA = la::to<Mat>(A); Vec b(m); for (int i = 0; i < m; i++) b[i] = r.uni(-2, 2) * sc; log(c, MA); LinearSystem<Real> S(MA, b);
	if (r.coin(.15) && m > n) { for (int i = 1; i < m; i++) for (int j = 0; j < std::min(i, n); j++) A(i, j) = 0; for (int i = 0; i < n; i++) A(i, i) = sc * r.uni(.5, 2); MA = la::to<Mat>(A); S = LinearSystem<Real>(MA, b); c.ev("tall-triangular"); cd = 100; }
	// reference: pseudo-inverse solution in long double via normal equations of the smaller side
	la::M bb(m, 1); for (int i = 0; i < m; i++) bb(i, 0) = b[i]; la::M G = m > n ? la::mul(la::tr(A), A) : la::mul(A, la::tr(A)), y; if (!la::solve(G, m > n ? la::mul(la::tr(A), bb) : bb, y)) { c.trivial(); return; } la::M x = m > n ? y : la::mul(la::tr(A), y); double xn = (double)la::nmax(x); if (m > n) cd = cd * (1 + cd * 2 / std::max(1e-3, xn));
	double tol = 500 * EPS * cd * (1 + cd) + 1e-11; near(c, S.Solve(), x, tol, "solve"); near(c, S.SolveLeastSquares(), x, tol, "least-squares"); near(c, S.SolveBySVD(), x, tol, "svd"); near(c, SolveLeastSquares<Real>(MA, b), x, tol, "free-least-squares"); if (m > n) near(c, S.SolveByQR(), x, tol, "qr"); c.ev(m > n ? "tall" : "wide");
	c.check(S.isOverdetermined() == (m > n) && S.isUnderdetermined() == (m < n) && !S.isSquare() && S.rows() == m && S.cols() == n, "shape"); c.throws<MMLException>([&] { S.SolveByLU(); }, "lu-needs-square"); c.throws<MMLException>([&] { S.Determinant(); }, "det-needs-square"); c.throws<MMLException>([&] { S.Inverse(); }, "inverse-needs-square");
	if (std::fabs(cd) < 1e300 && m < n) { auto an = S.Analyze(); c.check(!an.hasUniqueSolution && an.hasInfiniteSolutions, "wide-not-unique"); c.close(S.ConditionNumber(), (double)(sv[0] / sv[k - 1]), 1e-8 * sv[0] / sv[k - 1], "wide-condition"); }
}
FAMILY(rank_structure, 3000) {
	auto& r = c.r; int m = r.i(1, 7), n = r.i(1, 7), k = r.i(0, std::min(m, n)); double sc = r.coin(.6) ? 1 : std::pow(10., r.i(-8, 8)); la::M A(m, n); V sv = k ? svals(r, k, std::pow(10., r.uni(0, 4))) : V(); for (auto& q : sv) q *= sc; if (k) A = la::usv(la::orth(r, m, k), sv, la::orth(r, n, k)); for (auto& q : A.a) q = (double)q; Mat MA = la::to<Mat>(A); log(c, MA); c.in("k", (double)k); LinearSystem<Real> S(MA);
	if (m >= n) { SVDecompositionSolver<Real> D(MA); auto W = D.getW(); int pos = 0; for (int i = 0; i < (int)W.size(); i++) pos += W[i] > 0; c.check(D.Rank(0) == pos, "rank-zero-threshold"); c.check(D.Nullity(0) == (int)W.size() - pos, "nullity-zero-threshold"); }
	double thr = 1e-11 * sc; if (r.coin(.5)) { int hi = 0; double t = sc * std::pow(10., r.uni(-5, .5)); bool clear = true; for (double q : sv) { hi += q > t; clear &= std::fabs(q / t - 1) > 1e-3; } if (clear) { c.check(S.Rank(t) == hi, "rank-threshold", [&] { return std::to_string(S.Rank(t)) + " want " + std::to_string(hi); }); c.check(S.Nullity(t) == n - hi, "nullity-threshold"); c.ev("thresholded"); } }
	c.check(S.Rank(thr) == k, "rank", [&] { return std::to_string(S.Rank(thr)); }); c.check(S.Nullity(thr) == n - k, "nullity"); if (k == std::min(m, n)) c.check(S.Rank() == k, "full-rank-default"); c.ev(k < std::min(m, n) ? "deficient" : "full");
	Mat N = S.NullSpace(thr), C = S.ColumnSpace(thr); double t = 1e-11 * (1 + sc); c.check(N.cols() == n - k && (n == k || N.rows() == n), "nullspace-dimension"); c.check(C.cols() == k && (k == 0 || C.rows() == m), "columnspace-dimension");
	if (n > k && N.cols() == n - k) { la::M L = la::from(N); c.close((double)la::nmax(la::mul(A, L)), 0, 1e-12 * sc * n, "nullspace-annihilated"); la::M I = la::mul(la::tr(L), L); for (int i = 0; i < I.r; i++) I(i, i) -= 1; c.close((double)la::nmax(I), 0, 1e-11, "nullspace-orthonormal"); }
	if (k && C.cols() == k) { la::M L = la::from(C); la::M P = la::mul(L, la::mul(la::tr(L), A)); for (size_t i = 0; i < P.a.size(); i++) P.a[i] -= A.a[i]; c.close((double)la::nmax(P), 0, 1e-11 * sc, "columnspace-spans"); }
	Mat X = S.PseudoInverse(thr); if (!c.check(X.rows() == n && X.cols() == m, "pinv-shape")) return; la::M Y = la::from(X); auto diff = [](la::M p, const la::M& q) { for (size_t i = 0; i < p.a.size(); i++) p.a[i] -= q.a[i]; return (double)la::nmax(p); }; double yn = (double)la::nmax(Y), K = 1e-11 * (1 + yn * sc); la::M AY = la::mul(A, Y), YA = la::mul(Y, A);
	c.close(diff(la::mul(AY, A), A), 0, K * sc, "pinv-AXA"); c.close(diff(la::mul(YA, Y), Y), 0, K * (yn + 1e-300) * 10, "pinv-XAX"); c.close(diff(la::tr(AY), AY), 0, K, "pinv-AX-symmetric"); c.close(diff(la::tr(YA), YA), 0, K, "pinv-XA-symmetric"); c.ev("pseudoinverse"); (void)t;
}
FAMILY(factorizations, 3000) {
	auto s = square(c); if (s.cond > 1e9) { c.trivial(); return; } LinearSystem<Real> S(s.A, s.b); int n = s.A.rows(); la::M A = la::from(s.A); double an = (double)la::nmax(A), t = 1e-12 * an * n; auto diff = [](la::M p, const la::M& q) { for (size_t i = 0; i < p.a.size(); i++) p.a[i] -= q.a[i]; return (double)la::nmax(p); };
	for (int pass = 0; pass < 2; pass++) {
		auto F = S.GetLU(); if (!c.check(F.valid, "lu-valid")) break; if (!c.check((int)F.permutation.size() == n, "lu-permutation-size")) break; V seen(n, 0); la::M PA(n, n); for (int i = 0; i < n; i++) { int p = F.permutation[i]; if (!c.check(p >= 0 && p < n && !seen[p], "lu-permutation")) return; seen[p] = 1; for (int j = 0; j < n; j++) PA(i, j) = A(p, j); }
		la::M L = la::from(F.L), U = la::from(F.U); c.close(diff(la::mul(L, U), PA), 0, t * 10, "lu-product"); for (int i = 0; i < n; i++) { c.check(L(i, i) == 1, "lu-unit"); for (int j = 0; j < n; j++) { if (j > i) c.check(L(i, j) == 0, "lu-lower"); if (j < i) c.check(U(i, j) == 0, "lu-upper"); } } LD d = la::det(A); double ds = std::pow((double)la::nfro(A), n); c.close(F.determinant, (double)d, 1e-12 * ds + 1e-9 * std::fabs((double)d), "lu-determinant"); c.close(S.Determinant(), (double)d, 1e-12 * ds + 1e-9 * std::fabs((double)d), "determinant"); }
	auto Q = S.GetQR(); if (c.check(Q.valid, "qr-valid")) { la::M q = la::from(Q.Q), R = la::from(Q.R); c.close(diff(la::mul(q, R), A), 0, t * 10, "qr-product"); c.close(diff(la::mul(la::tr(q), q), la::eye(n)), 0, 1e-12, "qr-orthogonal"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) c.check(std::fabs((double)R(i, j)) <= 1e-13 * an, "qr-upper"); }
	auto D = S.GetSVD(); if (c.check(D.valid, "svd-valid")) { la::M u = la::from(D.U), v = la::from(D.V), W(n, n); for (int i = 0; i < n; i++) { W(i, i) = D.singularValues[i]; c.check(D.singularValues[i] >= 0 && (i == 0 || D.singularValues[i] <= D.singularValues[i - 1]), "svd-ordered"); } c.close(diff(la::mul(u, la::mul(W, la::tr(v))), A), 0, t * 10, "svd-product"); c.check(D.rank == n, "svd-rank"); }
	auto C = S.GetCholesky(); if (s.kind == 1) { if (c.check(C.valid, "cholesky-valid")) { la::M l = la::from(C.L); c.close(diff(la::mul(l, la::tr(l)), A), 0, t * 10, "cholesky-product"); } c.check(S.isPositiveDefinite(), "spd"); c.ev("cholesky"); } else if (s.kind == 2 || s.kind == 8) { bool neg = false; for (int i = 0; i < n; i++) { la::M sub(i + 1, i + 1); for (int a = 0; a <= i; a++) for (int b = 0; b <= i; b++) sub(a, b) = A(a, b); LD dd = la::det(sub); neg |= dd < 0; } if (s.kind == 2 && neg) { c.check(!C.valid && !S.isPositiveDefinite(), "indefinite"); c.ev("indefinite"); } }
	la::M inv; if (la::solve(A, la::eye(n), inv)) { la::M I = la::from(S.Inverse()); c.close(diff(I, inv), 0, (200 * EPS * s.cond + 1e-13) * (double)la::nmax(inv), "inverse"); 
		double n1 = 0, i1 = 0, ni = 0, ii = 0; for (int j = 0; j < n; j++) { double a = 0, b = 0, p = 0, q = 0; for (int i = 0; i < n; i++) { a += std::fabs((double)A(i, j)); b += std::fabs((double)inv(i, j)); p += std::fabs((double)A(j, i)); q += std::fabs((double)inv(j, i)); } n1 = std::max(n1, a); i1 = std::max(i1, b); ni = std::max(ni, p); ii = std::max(ii, q); } c.close(S.ConditionNumber1(), n1 * i1, 1e-6 * n1 * i1, "condition-1"); c.close(S.ConditionNumberInf(), ni * ii, 1e-6 * ni * ii, "condition-inf"); }
	double k2 = S.ConditionNumber(); c.check(k2 <= s.cond * 1.001 && k2 * n >= s.cond * .999, "condition-2-range"); c.check(S.AssessStability() == (k2 >= 1e12 ? MatrixStability::Singular : k2 >= 1e8 ? MatrixStability::IllConditioned : k2 >= 1e4 ? MatrixStability::ModeratelyConditioned : MatrixStability::WellConditioned), "stability-class"); c.check(S.ExpectedDigitsLost() == (int)std::log10(std::max(k2, 1.)), "digits-lost"); c.ev("factored");
}
FAMILY(several_rhs, 800) {
	auto s = square(c); if (s.cond > 1e9) { c.trivial(); return; } int n = s.A.rows(), p = c.r.i(1, 4); la::M X(n, p), A = la::from(s.A); for (auto& q : X.a) q = c.r.uni(-2, 2); Mat B = la::to<Mat>(la::mul(A, X)); LinearSystem<Real> S(s.A, B); Mat Y = S.SolveMultiple(); if (c.check(Y.rows() == n && Y.cols() == p, "shape")) for (int j = 0; j < p; j++) { Vec y(n); la::M x(n, 1); for (int i = 0; i < n; i++) { y[i] = Y(i, j); x(i, 0) = X(i, j); } near(c, y, x, 500 * EPS * s.cond + 1e-13, "column"); }
	c.throws<std::exception>([&] { S.Solve(); }, "single-solve-refused"); c.throws<std::exception>([&] { S.SolveByLU(); }, "single-solve-refused"); c.throws<std::exception>([&] { S.GetRHS(); }, "rhs-refused"); LinearSystem<Real> T(s.A, s.b), Z(s.A); c.throws<std::exception>([&] { T.SolveMultiple(); }, "multiple-refused"); c.throws<std::exception>([&] { Z.Solve(); }, "no-rhs"); c.throws<std::exception>([&] { Z.ResidualNorm(s.b); }, "no-rhs"); c.throws<MMLException>([&] { LinearSystem<Real>(s.A, Vec(n + 1, 1.0)); }, "rhs-size"); c.ev("several-rhs");
}
FAMILY(structure, 3000) {
	auto& r = c.r; int m = r.i(1, 5), n = r.coin(.7) ? m : r.i(1, 5); Mat A(m, n); bool sq = m == n; int kind = r.i(0, 5); double e = std::pow(10., r.uni(-13, -1));
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double v = r.coin(.3) ? 0 : r.i(-3, 3); if (kind == 1 && j < i) v = 0; if (kind == 2 && j > i) v = 0; if (kind == 3 && i != j) v = 0; A(i, j) = v; } if (kind == 4 && sq) for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) A(i, j) = A(j, i); int pi = r.i(0, m - 1), pj = r.i(0, n - 1); if (r.coin(.6)) { A(pi, pj) += e; c.ev("perturbed"); } log(c, A); LinearSystem<Real> S(A);
	V tols{1e-12, 1e-9, 1e-6, 1e-3, 0}; r.shuffle(tols); for (double t : tols) { bool sy = sq, up = true, lo = true; bool edge = false; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double v = std::fabs(A(i, j)); if (j < i && v > t) up = false; if (j > i && v > t) lo = false; if (sq && std::fabs(A(i, j) - A(j, i)) > t) sy = false; } (void)edge;
		c.check(S.isSymmetric(t) == sy, "symmetric-within", [&] { return "tol " + mon::str(t); }); c.check(S.isUpperTriangular(t) == up, "upper-within"); c.check(S.isLowerTriangular(t) == lo, "lower-within"); if (sq) c.check(S.isDiagonal(t) == (up && lo), "diagonal-within"); int z = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) z += std::fabs(A(i, j)) <= t; c.close(S.Sparsity(t), (double)z / (m * n), 1e-12, "sparsity"); c.ev("tolerance-query"); bool pd; if (!c.nothrow([&] { pd = S.isPositiveDefinite(t); }, "positive-definite-answers")) return; if (!sy) c.check(!pd, "positive-definite-needs-symmetry"); }
	bool dom = sq; for (int i = 0; i < m && sq; i++) { double o = 0; for (int j = 0; j < n; j++) if (j != i) o += std::fabs(A(i, j)); if (!(std::fabs(A(i, i)) > o)) dom = false; } c.check(S.isDiagonallyDominant() == dom, "dominance");
	auto an = S.Analyze(); c.check(an.rows == m && an.cols == n && an.isSquare == sq && an.rank == S.Rank() && an.nullity == n - an.rank && an.isSymmetric == S.isSymmetric() && an.isDiagonallyDominant == dom && an.isUpperTriangular == S.isUpperTriangular() && an.isLowerTriangular == S.isLowerTriangular(), "analysis-agrees"); if (sq) { c.check(an.hasUniqueSolution == (an.rank == n), "unique-iff-full-rank"); la::M L = la::from(A); c.close(an.determinant, (double)la::det(L), 1e-9 * std::pow(1 + (double)la::nfro(L), n), "analysis-determinant"); } c.check(an.analysisReport.find(std::to_string(m) + "x" + std::to_string(n)) != std::string::npos, "report"); c.ev("analysed");
}
FAMILY(singular, 1500) { // never silent infinities or NaN
	auto& r = c.r; int n = r.i(1, 5); Mat A(n, n); int kind = r.i(0, 3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = (kind == 0 && j < i) || (kind == 1 && j > i) ? 0 : r.i(-3, 3); int z = r.i(0, n - 1); if (kind <= 1) A(z, z) = 0; else if (kind == 2) for (int j = 0; j < n; j++) A(z, j) = n > 1 ? A((z + 1) % n, j) * 2 : 0; else for (int j = 0; j < n; j++) A(j, z) = 0;
	if (std::fabs((double)la::det(la::from(A))) > 1e-9) { c.trivial(); return; } log(c, A); Vec x0(n), b(n); for (int i = 0; i < n; i++) x0[i] = r.i(-3, 3); bool consistent = r.coin(.5); for (int i = 0; i < n; i++) { b[i] = consistent ? 0 : r.i(-3, 3); if (consistent) for (int j = 0; j < n; j++) b[i] += A(i, j) * x0[j]; } LinearSystem<Real> S(A, b); auto fin = [](const Vec& v) { for (int i = 0; i < v.size(); i++) if (!std::isfinite(v[i])) return false; return true; };
	try { Vec x = S.Solve(); c.check(fin(x), "solve-finite"); if (fin(x) && consistent) c.close(S.ResidualNorm(x), 0, 1e-9, "consistent-singular"); c.ev("solved"); } catch (const std::exception&) { c.ev("refused"); }
	try { Vec x = S.SolveByLU(); c.fail("lu-accepts-singular"); } catch (const std::exception&) {} try { Vec x = S.SolveByGaussJordan(); c.fail("gauss-jordan-accepts-singular"); } catch (const std::exception&) {} Vec y; if (c.nothrow([&] { y = S.SolveBySVD(); }, "svd-handles-singular")) { c.check(fin(y), "svd-finite"); if (fin(y)) { la::M L = la::from(A); for (int j = 0; j < n; j++) { LD t = 0; for (int i = 0; i < n; i++) { LD q = -(LD)b[i]; for (int k = 0; k < n; k++) q += L(i, k) * y[k]; t += q * L(i, j); } c.close((double)t, 0, 1e-9, "svd-least-squares"); } } }
	c.check(S.ConditionNumber1() >= 1e12 || n == 0, "condition-1-singular"); c.check(S.AssessStability() == MatrixStability::Singular || S.ConditionNumber() > 1e12, "stability"); c.ev("singular");
}
FAMILY(iteration_and_eigen, 1200) {
	auto& r = c.r; int n = r.sz(1, 6, 24); Mat A(n, n); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) if (j != i) { A(i, j) = r.uni(-1, 1); t += std::fabs(A(i, j)); } A(i, i) = (1.5 * t + .2) * (r.coin(.8) ? 1 : -1); } la::M x(n, 1); for (int i = 0; i < n; i++) x(i, 0) = r.uni(-2, 2); Vec b = vec(la::mul(la::from(A), x)); log(c, A); LinearSystem<Real> S(A, b); for (auto m : {IterativeMethod::Auto, IterativeMethod::Jacobi, IterativeMethod::GaussSeidel}) near(c, S.SolveIterative(m, 1e-10, 2000), x, 1e-7, "iterative"); c.ev("iterative"); try { Vec y = S.SolveIterative(IterativeMethod::SOR, 1e-10, 3000); near(c, y, x, 1e-7, "sor"); c.ev("sor"); } catch (const MMLException&) { c.ev("sor-refused"); }
	la::M u = la::orth(r, n, n); V ev; double base = r.uni(-5, 5); for (int i = 0; i < n; i++) ev.push_back(base + i * r.uni(.3, 2) * (i + 1)); la::M W(n, n); for (int i = 0; i < n; i++) W(i, i) = ev[i]; la::M E = la::mul(u, la::mul(W, la::tr(u))); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) E(i, j) = E(j, i) = (double)E(i, j); LinearSystem<Real> T(la::to<Mat>(E)); auto srt = [](Vec v) { V o; for (int i = 0; i < v.size(); i++) o.push_back(v[i]); std::sort(o.begin(), o.end()); return o; }; auto a = srt(T.Eigenvalues()), q = srt(T.EigenvaluesSymmetric()); std::sort(ev.begin(), ev.end()); double mx = 1; for (double v : ev) mx = std::max(mx, std::fabs(v)); if (c.check((int)a.size() == n && (int)q.size() == n, "eigen-count")) for (int i = 0; i < n; i++) { c.close(a[i], ev[i], 1e-7 * mx, "eigenvalues"); c.close(q[i], ev[i], 1e-8 * mx, "eigenvalues-symmetric"); } double rho = 0; for (double v : ev) rho = std::max(rho, std::fabs(v)); c.close(T.SpectralRadius(), rho, 1e-7 * mx, "spectral-radius"); c.check(!T.HasComplexEigenvalues(1e-6), "symmetric-real"); c.ev("eigen");
	double th = r.uni(.3, 2.8), sc = r.uni(.5, 3); Mat R(2, 2); R(0, 0) = R(1, 1) = sc * std::cos(th); R(0, 1) = -sc * std::sin(th); R(1, 0) = sc * std::sin(th); LinearSystem<Real> O(R); c.check(O.HasComplexEigenvalues(), "rotation-complex"); c.close(O.SpectralRadius(), sc, 1e-9 * sc, "rotation-radius"); if (n > 1) c.throws<MMLException>([&] { LinearSystem<Real>(A).EigenvaluesSymmetric(); }, "symmetric-only");
}
MON_MAIN()
