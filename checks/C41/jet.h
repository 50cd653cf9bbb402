// truncated Taylor arithmetic in long double: c[k] = f^(k)(t0)/k!, k = 0..3
#pragma once
#include <cmath>
typedef long double L;
struct J { L c[4]; J(L v = 0) { c[0] = v; c[1] = c[2] = c[3] = 0; } static J var(L t, L d = 1) { J r(t); r.c[1] = d; return r; } };
inline J operator+(J a, const J& b) { for (int i = 0; i < 4; i++) a.c[i] += b.c[i]; return a; }
inline J operator-(J a, const J& b) { for (int i = 0; i < 4; i++) a.c[i] -= b.c[i]; return a; }
inline J operator*(const J& a, const J& b) { J r; for (int i = 0; i < 4; i++) for (int j = 0; i + j < 4; j++) r.c[i + j] += a.c[i] * b.c[j]; return r; }
// composition with g given g(a0), g'(a0), g''/2, g'''/6
inline J comp(const J& a, L g0, L g1, L g2, L g3) { J d = a; d.c[0] = 0; J d2 = d * d, d3 = d2 * d; J r(g0); for (int i = 0; i < 4; i++) r.c[i] += g1 * d.c[i] + g2 * d2.c[i] + g3 * d3.c[i]; return r; }
inline J inv(const J& a) { L x = a.c[0]; return comp(a, 1 / x, -1 / (x * x), 1 / (x * x * x), -1 / (x * x * x * x)); }
inline J operator/(const J& a, const J& b) { return a * inv(b); }
inline J sinj(const J& a) { L s = sinl(a.c[0]), k = cosl(a.c[0]); return comp(a, s, k, -s / 2, -k / 6); }
inline J cosj(const J& a) { L s = sinl(a.c[0]), k = cosl(a.c[0]); return comp(a, k, -s, -k / 2, s / 6); }
inline J expj(const J& a) { L e = expl(a.c[0]); return comp(a, e, e, e / 2, e / 6); }
inline J sqrtj(const J& a) { L x = a.c[0], q = sqrtl(x); return comp(a, q, 1 / (2 * q), -1 / (8 * q * x), 1 / (16 * q * x * x)); }
inline J logj(const J& a) { L x = a.c[0]; return comp(a, logl(x), 1 / x, -1 / (2 * x * x), 1 / (3 * x * x * x)); }
inline J coshj(const J& a) { J e = expj(a); return J(.5L) * (e + inv(e)); }
inline J sinhj(const J& a) { J e = expj(a); return J(.5L) * (e - inv(e)); }
struct V3 { L x, y, z; };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(L k, V3 a) { return {k * a.x, k * a.y, k * a.z}; }
inline L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline L len(V3 a) { return sqrtl(dot(a, a)); }
struct P3 { J x, y, z; V3 d(int k) const { L f = k == 2 ? 2 : k == 3 ? 6 : 1; return {f * x.c[k], f * y.c[k], f * z.c[k]}; } };
