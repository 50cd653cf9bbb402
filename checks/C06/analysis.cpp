// C06: matrix analysis: predicates, scalars, characteristic polynomial, rank, SVD, subspaces, pseudo-inverse, Hessenberg, definiteness.
#include "mon.h"
#include "la.h"
#include "core/MatrixUtils.h"
#include "algorithms/MatrixAlg.h"
using namespace MML; using mon::Case; using la::LD;
static const double EPS = 2.220446049250313e-16;
static Matrix<Real> toM(const la::M& a) { return la::to<Matrix<Real>>(a); }
static void rec(Case& c, const Matrix<Real>& A) { std::vector<double> v; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) v.push_back(A(i, j)); c.in("r", A.rows()); c.in("c", A.cols()); c.in("A", v); }
static bool eqM(const Matrix<Real>& a, const Matrix<Real>& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (!(a(i, j) == b(i, j))) return false; return true; }

#if PART == 1
// ---- structural predicates against the definition, with one element on either side of the tolerance
FAMILY(predicates, 3000) {
	int r = c.r.i(1, 6), k = c.r.coin(0.7) ? r : c.r.i(1, 6); int kind = c.r.i(0, 6); Matrix<Real> A(r, k);
	for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { bool z = kind == 0 ? i > j : kind == 1 ? i < j : kind == 2 ? i != j : kind == 3 ? i > j + 1 : false; A(i, j) = z ? 0 : c.r.uni(-3, 3); }
	if (r == k && kind >= 4 && kind <= 5) for (int i = 0; i < r; i++) { for (int j = 0; j < i; j++) A(i, j) = kind == 4 ? A(j, i) : -A(j, i); if (kind == 5) A(i, i) = 0; }
	double tol = c.r.pick({1e-10, 1e-6, 1e-3}); if (c.r.coin(0.7)) { int i = c.r.i(0, r - 1), j = c.r.i(0, k - 1); A(i, j) += (c.r.coin() ? 1 : -1) * tol * c.r.pick({0.3, 3.0, 1e3}); }
	rec(c, A); c.in("tol", tol);
	bool up = true, lo = true, di = true, he = true, sy = r == k, sk = r == k;
	for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { bool nz = std::fabs(A(i, j)) > tol; if (nz && i > j) up = false; if (nz && j > i) lo = false; if (nz && i != j) di = false; if (nz && i > j + 1) he = false; if (r == k) { if (std::fabs(A(i, j) - A(j, i)) > tol) sy = false; if (std::fabs(A(i, j) + A(j, i)) > (i == j ? 2 * tol : tol)) sk = false; } }
	c.check(Utils::IsUpperTriangular(A, tol) == up, "upper"); c.check(Utils::IsLowerTriangular(A, tol) == lo, "lower"); if (r == k) { c.check(Utils::IsDiagonal(A, tol) == di, "diagonal"); c.check(Utils::IsUpperHessenberg(A, tol) == he, "hessenberg"); }
	else { c.check(Utils::IsDiagonal(A, tol) == di, "diagonal-rect"); c.check(Utils::IsUpperHessenberg(A, tol) == he, "hessenberg-rect"); }
	c.check(Utils::IsSymmetric(A, tol) == sy, "symmetric"); c.check(Utils::IsSkewSymmetric(A, tol) == sk, "skew"); c.check(MatrixAlg::IsSymmetric(A, tol) == sy, "alg-symmetric"); c.check(MatrixAlg::IsSkewSymmetric(A, tol) == sk, "alg-skew");
	c.ev("predicate_true", up + lo + di + he + sy + sk); c.ev("predicate_false", 6 - (up + lo + di + he + sy + sk));
}
FAMILY(scalars, 1500) {
	int r = c.r.i(1, 7), k = c.r.i(1, 7); double sc = c.r.pick({1.0, 1e-8, 1e9}); Matrix<Real> A(r, k), B(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { A(i, j) = c.r.normal() * sc; B(i, j) = c.r.normal() * sc; } rec(c, A);
	LD t = 0, f = 0, inf = 0, one = 0, md = 0, at = 0; for (int i = 0; i < std::min(r, k); i++) { t += A(i, i); at += fabsl(A(i, i)); } for (int i = 0; i < r; i++) { LD s = 0; for (int j = 0; j < k; j++) { s += fabsl((LD)A(i, j)); f += (LD)A(i, j) * A(i, j); md = std::max(md, fabsl((LD)A(i, j) - B(i, j))); } inf = std::max(inf, s); } for (int j = 0; j < k; j++) { LD s = 0; for (int i = 0; i < r; i++) s += fabsl((LD)A(i, j)); one = std::max(one, s); }
	double e = 64 * EPS; c.close(Utils::Trace(A), t, e * at, "trace"); c.close(Utils::FrobeniusNorm(A), sqrtl(f), e * sqrtl(f), "frobenius"); c.close(Utils::InfinityNorm(A), inf, e * inf, "inf-norm"); c.close(Utils::OneNorm(A), one, e * one, "one-norm"); c.close(Utils::MaxAbsDiff(A, B), md, e * md, "maxabsdiff");
	int n = c.r.i(1, 5); Matrix<Real> Q(n, n), S(n, n); la::M q(n, n), s(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { q(i, j) = Q(i, j) = c.r.i(-4, 4); s(i, j) = S(i, j) = c.r.i(-4, 4); }
	Matrix<Real> R = Utils::SimilarityTransform(Q, S); c.check(eqM(R, toM(la::mul(la::mul(la::tr(q), s), q))), "similarity"); c.ev("scalars");
}
// integer matrices: similarity of a strictly triangular one by a unimodular one is nilpotent
FAMILY(nilpotent, 1500) {
	int n = c.r.i(1, 5); la::M N(n, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) N(i, j) = c.r.coin(0.6) ? c.r.i(-3, 3) : 0; bool nil = true; if (c.r.coin(0.5)) { for (int i = 0; i < n; i++) if (c.r.coin(0.5)) { N(i, i) = c.r.pick({1, -1, 2, -2}); nil = false; } }
	la::M L = la::eye(n), Li; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) L(i, j) = c.r.i(-1, 1); la::solve(L, la::eye(n), Li); for (auto& v : Li.a) v = roundl(v); la::M P = la::mul(la::mul(L, N), Li); Matrix<Real> A = toM(P); rec(c, A); c.in("nil", nil);
	c.check(Utils::IsNilpotent(A) == nil, "nilpotent"); Matrix<Real> U = A + Matrix<Real>::Identity(n); c.check(Utils::IsUnipotent(U) == nil, "unipotent"); c.ev(nil ? "nilpotent_yes" : "nilpotent_no");
	Matrix<Real> W(n, n + 1); c.throws<MatrixDimensionError>([&] { Utils::IsNilpotent(W); }, "nilpotent-rect"); c.throws<MatrixDimensionError>([&] { Utils::IsUnipotent(W); }, "unipotent-rect");
}
FAMILY(charpoly, 1200) {
	int n = c.r.i(1, 6); la::M a(n, n); int m = c.r.pick({1, 3, 9}); for (auto& v : a.a) v = c.r.i(-m, m); if (c.r.coin(0.2) && n > 1) for (int j = 0; j < n; j++) a(0, j) = a(n - 1, j) * 2; Matrix<Real> A = toM(a); rec(c, A);
	PolynomRealFunc p; Real d = 0; Matrix<Real> inv(n, n); Utils::FaddeevAlg(A, p, d, inv); c.check(p.degree() == n, "degree"); c.check(p[n] == 1, "monic"); LD big = std::pow((double)m * n + 1, n);
	for (int x = -3; x <= 3; x++) { la::M q = a; for (auto& v : q.a) v = -v; for (int i = 0; i < n; i++) q(i, i) += x; c.close(p(x), la::det(q), 1e-9L * big * std::pow(4.0, n), "charpoly-value"); }
	LD dt = la::det(a); c.close(d, dt, 1e-10L * big, "faddeev-det"); LD tr = 0; for (int i = 0; i < n; i++) tr += a(i, i); c.close(p[n - 1], -tr, 1e-12L * (1 + big), "charpoly-trace");
	if (fabsl(dt) > 0.5L) { la::M e = la::mul(a, la::from(inv)); for (int i = 0; i < n; i++) e(i, i) -= 1; c.close(la::nmax(e), 0, 1e-10L * big, "faddeev-inverse"); c.ev("faddeev_inverse"); } c.ev("charpoly");
}
template<int N> static void detNM(Case& c) {
	MatrixNM<Real, N, N> A; la::M a(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) a(i, j) = A(i, j) = c.r.i(-6, 6); LD w = la::det(a); c.close(Utils::Det(A), w, 1e-9L * (1 + std::pow(6.0 * N, N) * 1e-3), "det-fixed" + std::to_string(N)); if (N <= 3) c.close(Utils::Det(A), roundl(w), 0, "det-fixed-exact" + std::to_string(N)); c.ev("det_fixed");
}
FAMILY(dets, 1500) {
	detNM<1>(c); detNM<2>(c); detNM<3>(c); detNM<4>(c); detNM<5>(c);
	int n = c.r.i(1, 6); la::M a(n, n); for (auto& v : a.a) v = c.r.i(-5, 5); bool sing = false; if (n > 1 && c.r.coin(0.25)) { int i = c.r.i(0, n - 1), j = (i + 1 + c.r.i(0, n - 2)) % n; for (int k = 0; k < n; k++) a(i, k) = 0; (void)j; sing = true; } Matrix<Real> A = toM(a); rec(c, A); LD w = la::det(a); Real g = Utils::Det(A); c.close(g, w, 1e-10L * (1 + std::pow(5.0 * n, n) * 1e-2), "det"); if (sing) c.close(g, 0, 0, "det-singular");
	double sc = c.r.pick({2.0, 0.5, -1.0, 8.0}); Matrix<Real> S = A; for (int j = 0; j < n; j++) S(0, j) *= sc; c.close(Utils::Det(S), w * sc, 1e-10L * (1 + std::pow(5.0 * n, n) * 1e-2) * 8, "det-row-scale");
	Matrix<Complex> Z(n, n); la::M ri(2 * n, 2 * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = a(i, j), y = c.r.i(-3, 3); Z(i, j) = Complex(x, y); ri(i, j) = ri(n + i, n + j) = x; ri(i, n + j) = -y; ri(n + i, j) = y; } Complex dz = Utils::Det(Z); LD m2 = (LD)dz.real() * dz.real() + (LD)dz.imag() * dz.imag(); LD want = la::det(ri); c.close(m2, want, 1e-9L * (1 + std::pow(8.0 * n, 2 * n) * 1e-3), "det-complex-modulus"); c.ev("det_dynamic");
}
#else
struct Spec { la::M a, u, v; std::vector<double> s; int m, n, rank; double sc; };
static Spec gen(Case& c, bool square = false) {
	Spec g; g.m = c.r.i(1, 8); g.n = square ? g.m : c.r.i(1, 8); int p = std::min(g.m, g.n); g.rank = c.r.coin(0.5) ? p : c.r.i(0, p); g.sc = c.r.pick({1.0, 1.0, 1e-7, 1e8}); double cd = std::pow(10.0, c.r.uni(0, 4)); for (int i = 0; i < g.rank; i++) g.s.push_back(c.r.coin(0.2) && i ? g.s[0] : std::pow(cd, -c.r.u01()));
	g.u = la::orth(c.r, g.m, std::max(1, g.rank)); g.v = la::orth(c.r, g.n, std::max(1, g.rank)); g.a = la::M(g.m, g.n); if (g.rank) g.a = la::usv(g.u, g.s, g.v); for (auto& x : g.a.a) x = (double)(x * g.sc); for (auto& x : g.s) x *= g.sc; std::sort(g.s.rbegin(), g.s.rend());
	if (g.rank == 0) c.ev("zero_matrix"); if (g.rank < p) c.ev("rank_deficient"); return g;
}
static LD orthErr(const la::M& q) { la::M e = la::mul(la::tr(q), q); for (int i = 0; i < e.r; i++) e(i, i) -= 1; return la::nmax(e); }
static double smax(const Spec& g) { return g.s.empty() ? 0 : g.s[0]; }
FAMILY(svd, 1500) {
	Spec g = gen(c); Matrix<Real> A = toM(g.a), keep = A; rec(c, A); int m = g.m, n = g.n; LD s0 = smax(g), tol = 300 * EPS * (s0 + 1e-300L) * std::max(m, n);
	auto R = Utils::ComputeSVD(A, 1e-9 * (double)s0); c.check(eqM(A, keep), "input-modified");
	if (!c.check(R.singularValues.size() == n && R.U.rows() == m && R.U.cols() == n && R.V.rows() == n && R.V.cols() == n, "svd-shape")) return;
	for (int i = 0; i < n; i++) { c.check(R.singularValues[i] >= 0, "sv-negative"); if (i) c.check(R.singularValues[i] <= R.singularValues[i - 1], "sv-order"); c.close(R.singularValues[i], i < (int)g.s.size() ? g.s[i] : 0, tol, "sv-value"); }
	la::M us = la::from(R.U); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) us(i, j) *= R.singularValues[j]; la::M e = la::mul(us, la::tr(la::from(R.V))); for (size_t i = 0; i < e.a.size(); i++) e.a[i] -= g.a.a[i]; c.close(la::nmax(e), 0, tol, "svd-recombine"); c.close(orthErr(la::from(R.V)), 0, 300 * EPS * n, "V-orth");
	{ la::M U = la::from(R.U); la::M q(m, g.rank); for (int j = 0; j < g.rank; j++) for (int i = 0; i < m; i++) q(i, j) = U(i, j); if (g.rank) c.close(orthErr(q), 0, 300 * EPS * m * 1e4, "U-orth"); }
	c.check(R.rank == g.rank, "svd-rank"); c.check(Utils::RankSVD(A, 1e-9 * (double)s0) == g.rank, "RankSVD"); c.check(Utils::Nullity(A, 1e-9 * (double)s0) == n - g.rank, "nullity"); int r = Utils::RankSVD(A); c.check(r >= g.rank && r <= n, "rank-default-low"); if (g.rank == 0) c.check(r == 0, "rank-of-zero");
	if (g.rank == std::min(m, n) && m >= n) c.check(r == g.rank, "rank-default-full"); Vector<Real> sv = Utils::SingularValues(A); for (int i = 0; i < n; i++) c.check(sv[i] == R.singularValues[i], "SingularValues");
	double cn = Utils::ConditionNumber(A); if (g.rank == n) { LD want = (LD)g.s[0] / g.s[n - 1]; c.close(cn, want, want * 1e-9L, "condition"); c.close(R.conditionNumber, want, want * 1e-9L, "condition-result"); } else c.check(!(cn < 1e13), "condition-singular");
	{ SVDecompositionSolver<Real> sd(A); double ic = sd.inv_condition(); if (g.rank == n) c.close(ic, (LD)g.s[n - 1] / g.s[0], 1e-9L, "inv-condition"); else c.close(ic, 0, 1e-13L, "inv-condition-singular"); }
	c.check(Utils::RankGaussian(A, 1e-8 * (double)s0) == g.rank, "RankGaussian"); c.ev("svd");
}
static void subspace(Case& c, const la::M& got, int dim, int want, const la::M& ann, LD tol, const std::string& key) { // orthonormal columns annihilated by ann
	if (!c.check(got.c == want && (want == 0 || got.r == dim), key + ":dim", std::to_string(got.c) + " vs " + std::to_string(want))) return; if (!want) return; c.close(orthErr(got), 0, 300 * EPS * dim * 1e4, key + ":orthonormal"); if (ann.r && ann.c) c.close(la::nmax(la::mul(ann, got)), 0, tol, key + ":annihilated");
}
FAMILY(subspaces, 1200) {
	Spec g = gen(c); Matrix<Real> A = toM(g.a); rec(c, A); int m = g.m, n = g.n, r = g.rank; double s0 = smax(g), th = 1e-9 * s0; LD tn = 300 * EPS * s0 * (m + n);
	la::M at = la::tr(g.a); auto F = Utils::ComputeFundamentalSubspaces(A, th); c.check(F.rank == r, "rank");
	subspace(c, la::from(F.nullSpace), n, n - r, g.a, tn, "null"); subspace(c, la::from(Utils::NullSpace(A, th)), n, n - r, g.a, tn, "NullSpace"); subspace(c, la::from(Utils::Kernel(A, th)), n, n - r, g.a, tn, "Kernel");
	subspace(c, la::from(F.leftNullSpace), m, m - r, at, tn, "leftnull"); subspace(c, la::from(Utils::LeftNullSpace(A, th)), m, m - r, at, tn, "LeftNullSpace");
	// the range must contain every column: (I - QQ^T) A = 0
	auto contains = [&](const Matrix<Real>& q0, const la::M& a, int dim, const std::string& key) { la::M q = la::from(q0); subspace(c, q, dim, r, la::M(), 0, key); if (q.c == 0) { c.close(la::nmax(a), 0, 0, key + ":contains"); return; } la::M p = la::mul(q, la::mul(la::tr(q), a)); for (size_t i = 0; i < p.a.size(); i++) p.a[i] -= a.a[i]; c.close(la::nmax(p), 0, tn * 1e3, key + ":contains"); };
	contains(F.columnSpace, g.a, m, "col"); contains(Utils::ColumnSpace(A, th), g.a, m, "ColumnSpace"); contains(Utils::Range(A, th), g.a, m, "Range"); contains(F.rowSpace, at, n, "row"); contains(Utils::RowSpace(A, th), at, n, "RowSpace"); c.ev("subspaces");
}
FAMILY(pseudoinverse, 1200) {
	Spec g = gen(c); Matrix<Real> A = toM(g.a); rec(c, A); int m = g.m, n = g.n; double s0 = smax(g); Matrix<Real> P = Utils::PseudoInverse(A, 1e-9 * s0); if (!c.check(P.rows() == n && P.cols() == m, "shape")) return; la::M p = la::from(P); if (g.rank == 0) { c.close(la::nmax(p), 0, 0, "zero"); return; }
	LD cd = (LD)g.s[0] / g.s[g.rank - 1], e = 500 * EPS * (m + n) * cd; la::M ap = la::mul(g.a, p), pa = la::mul(p, g.a); auto sub = [](la::M x, const la::M& y) { for (size_t i = 0; i < x.a.size(); i++) x.a[i] -= y.a[i]; return la::nmax(x); };
	c.close(sub(la::mul(ap, g.a), g.a), 0, e * s0 * cd, "ApA=A"); c.close(sub(la::mul(pa, p), p), 0, e * cd / g.s[g.rank - 1], "pAp=p"); c.close(sub(ap, la::tr(ap)), 0, e * cd, "Ap-symmetric"); c.close(sub(pa, la::tr(pa)), 0, e * cd, "pA-symmetric"); c.ev("pseudoinverses");
	if (g.rank == std::min(m, n) && m >= n) { Matrix<Real> Q = Utils::PseudoInverse(A); c.close(sub(la::from(Q), p), 0, e * cd / g.s[g.rank - 1], "default-tolerance"); }
}
FAMILY(hessenberg, 1200) {
	int n = c.r.sz(1, 8, 24); la::M a(n, n); int k = c.r.i(0, 4); double sc = c.r.pick({1.0, 1e-6, 1e6, 1e-25, 1e25}); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = (double)(sc * (k == 0 ? c.r.normal() : k == 1 ? c.r.i(-2, 2) : k == 2 ? (i > j + 1 ? 0 : c.r.normal()) : k == 3 ? (c.r.coin(0.3) ? c.r.normal() : 0) : c.r.normal() * std::pow(10.0, c.r.uni(-9, 3)))); Matrix<Real> A = toM(a); rec(c, A);
	auto H = MatrixAlg::ReduceToHessenberg(A); la::M h = la::from(H.H), q = la::from(H.Q); LD nm = la::nfro(a) + 1e-300L, e = 300 * EPS * n; LD sub = 0; for (int i = 0; i < n; i++) for (int j = 0; j + 1 < i; j++) sub = std::max(sub, fabsl(h(i, j))); c.close(sub, 0, e * nm, "is-hessenberg"); c.close(orthErr(q), 0, e, "Q-orth"); la::M b = la::mul(la::mul(q, h), la::tr(q)); for (size_t i = 0; i < b.a.size(); i++) b.a[i] -= a.a[i]; c.close(la::nmax(b), 0, e * nm, "recombine"); c.ev("hessenberg");
}
FAMILY(definiteness, 1500) {
	int n = c.r.sz(1, 6, 20); std::vector<double> s(n); int kind = c.r.i(0, 5); int pos = 0, neg = 0, zero = 0; for (int i = 0; i < n; i++) { int sg = kind == 0 ? 1 : kind == 1 ? -1 : kind == 2 ? c.r.pick({0, 1}) : kind == 3 ? c.r.pick({0, -1}) : kind == 4 ? c.r.pick({-1, 0, 1}) : 0; s[i] = sg * c.r.uni(0.01, 4); pos += sg > 0; neg += sg < 0; zero += sg == 0; }
	la::M q = la::orth(c.r, n, n), a = la::usv(q, s, q); MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = (double)((a(i, j) + a(j, i)) / 2); Matrix<Real> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double k = i == j ? 0 : (i < j ? 1 : -1) * ((i * 7 + j * 7) % 5); A(i, j) = S(std::max(i, j), std::min(i, j)) + k; } // the general version uses the symmetric part
	rec(c, A); c.in("pos", pos); c.in("neg", neg); c.in("zero", zero); double tol = 1e-8; using D = MatrixAlg::Definiteness;
	bool pd = pos == n, nd = neg == n, psd = neg == 0, nsd = pos == 0, ind = pos && neg;
	for (int g = 0; g < 2; g++) { std::string k = g ? "general" : "sym"; D d = g ? MatrixAlg::ClassifyDefiniteness(A, tol) : MatrixAlg::ClassifyDefiniteness(S, tol); if (pos + neg == 0) { c.check(d == D::PositiveSemiDefinite || d == D::NegativeSemiDefinite, k + ":classify-zero"); c.ev("zero_matrix"); } else c.check(d == (pd ? D::PositiveDefinite : nd ? D::NegativeDefinite : psd ? D::PositiveSemiDefinite : nsd ? D::NegativeSemiDefinite : D::Indefinite), k + ":classify");
		c.check((g ? MatrixAlg::IsPositiveDefinite(A, tol) : MatrixAlg::IsPositiveDefinite(S, tol)) == pd, k + ":pd"); c.check((g ? MatrixAlg::IsPositiveSemiDefinite(A, tol) : MatrixAlg::IsPositiveSemiDefinite(S, tol)) == psd, k + ":psd"); c.check((g ? MatrixAlg::IsNegativeDefinite(A, tol) : MatrixAlg::IsNegativeDefinite(S, tol)) == nd, k + ":nd"); c.check((g ? MatrixAlg::IsNegativeSemiDefinite(A, tol) : MatrixAlg::IsNegativeSemiDefinite(S, tol)) == nsd, k + ":nsd"); c.check((g ? MatrixAlg::IsIndefinite(A, tol) : MatrixAlg::IsIndefinite(S, tol)) == ind, k + ":indefinite"); }
	Matrix<Real> W(n, n + 1); c.throws<MatrixDimensionError>([&] { MatrixAlg::ClassifyDefiniteness(W); }, "rect"); c.ev(pd ? "pd" : nd ? "nd" : ind ? "indef" : "semi");
}
#endif
MON_MAIN()
