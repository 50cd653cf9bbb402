// Independent long-double linear algebra used as reference by the oracles.
#pragma once
#include "mon.h"
namespace la {
typedef long double LD;
struct M { int r = 0, c = 0; std::vector<LD> a; M() {} M(int r, int c) : r(r), c(c), a((size_t)r * c, 0) {} LD& operator()(int i, int j) { return a[(size_t)i * c + j]; } LD operator()(int i, int j) const { return a[(size_t)i * c + j]; } };
inline M mul(const M& x, const M& y) { M z(x.r, y.c); for (int i = 0; i < x.r; i++) for (int k = 0; k < x.c; k++) for (int j = 0; j < y.c; j++) z(i, j) += x(i, k) * y(k, j); return z; }
inline M tr(const M& x) { M z(x.c, x.r); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) z(j, i) = x(i, j); return z; }
inline M eye(int n) { M z(n, n); for (int i = 0; i < n; i++) z(i, i) = 1; return z; }
inline LD nmax(const M& x) { LD m = 0; for (auto v : x.a) m = std::max(m, v < 0 ? -v : v); return m; }
inline LD nfro(const M& x) { LD s = 0; for (auto v : x.a) s += v * v; return sqrtl(s); }
// random orthonormal columns (r x c, r >= c)
inline M orth(mon::Rng& g, int r, int c) {
	M q(r, c);
	for (int j = 0; j < c; j++) for (int tries = 0;; tries++) {
		std::vector<LD> v(r); for (auto& x : v) x = g.normal();
		for (int rep = 0; rep < 2; rep++) for (int k = 0; k < j; k++) { LD s = 0; for (int i = 0; i < r; i++) s += v[i] * q(i, k); for (int i = 0; i < r; i++) v[i] -= s * q(i, k); }
		LD n = 0; for (auto x : v) n += x * x; n = sqrtl(n); if (n < 1e-3L) { if (tries < 200) continue; n = 1; }
		for (int i = 0; i < r; i++) q(i, j) = v[i] / n; break;
	}
	return q;
}
inline M usv(const M& u, const std::vector<double>& s, const M& v) { M z(u.r, v.r); for (size_t k = 0; k < s.size(); k++) for (int i = 0; i < u.r; i++) for (int j = 0; j < v.r; j++) z(i, j) += u(i, (int)k) * s[k] * v(j, (int)k); return z; }
// solve by full pivoting in long double; returns false if singular
inline bool solve(M a, M b, M& x) {
	int n = a.r; std::vector<int> pc(n); for (int i = 0; i < n; i++) pc[i] = i;
	for (int k = 0; k < n; k++) {
		int pi = k, pj = k; LD best = 0; for (int i = k; i < n; i++) for (int j = k; j < n; j++) { LD v = fabsl(a(i, j)); if (v > best) { best = v; pi = i; pj = j; } }
		if (best == 0) return false;
		for (int j = 0; j < n; j++) std::swap(a(k, j), a(pi, j)); for (int j = 0; j < b.c; j++) std::swap(b(k, j), b(pi, j));
		for (int i = 0; i < n; i++) std::swap(a(i, k), a(i, pj)); std::swap(pc[k], pc[pj]);
		for (int i = k + 1; i < n; i++) { LD f = a(i, k) / a(k, k); if (f == 0) continue; for (int j = k; j < n; j++) a(i, j) -= f * a(k, j); for (int j = 0; j < b.c; j++) b(i, j) -= f * b(k, j); }
	}
	x = M(n, b.c);
	for (int j = 0; j < b.c; j++) for (int i = n - 1; i >= 0; i--) { LD s = b(i, j); for (int k = i + 1; k < n; k++) s -= a(i, k) * x(pc[k], j); x(pc[i], j) = s / a(i, i); }
	return true;
}
inline LD det(M a) {
	int n = a.r; LD d = 1;
	for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i; if (a(p, k) == 0) return 0; if (p != k) { d = -d; for (int j = 0; j < n; j++) std::swap(a(k, j), a(p, j)); } d *= a(k, k); for (int i = k + 1; i < n; i++) { LD f = a(i, k) / a(k, k); for (int j = k; j < n; j++) a(i, j) -= f * a(k, j); } }
	return d;
}
// exact rank of an integer matrix by modular elimination over a 61-bit prime (wrong with negligible probability)
inline int rankInt(const std::vector<std::vector<long>>& in) {
	typedef unsigned __int128 U; const unsigned long long P = 2305843009213693951ULL; int r = (int)in.size(), c = r ? (int)in[0].size() : 0;
	std::vector<std::vector<unsigned long long>> a(r, std::vector<unsigned long long>(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a[i][j] = in[i][j] >= 0 ? in[i][j] % P : P - ((-in[i][j]) % P);
	auto pw = [&](unsigned long long b, unsigned long long e) { U x = 1, y = b; while (e) { if (e & 1) x = x * y % P; y = y * y % P; e >>= 1; } return (unsigned long long)x; };
	int rank = 0; for (int j = 0; j < c && rank < r; j++) { int p = -1; for (int i = rank; i < r; i++) if (a[i][j]) { p = i; break; } if (p < 0) continue; std::swap(a[p], a[rank]); unsigned long long inv = pw(a[rank][j], P - 2); for (int i = rank + 1; i < r; i++) if (a[i][j]) { U f = (U)a[i][j] * inv % P; for (int k = j; k < c; k++) a[i][k] = (unsigned long long)((a[i][k] + (U)P * P - f * a[rank][k]) % P); } rank++; }
	return rank;
}
template<class MT> M from(const MT& x) { M z(x.rows(), x.cols()); for (int i = 0; i < z.r; i++) for (int j = 0; j < z.c; j++) z(i, j) = x(i, j); return z; }
template<class MT> MT to(const M& x) { MT z(x.r, x.c); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) z(i, j) = (double)x(i, j); return z; }
} // namespace la
