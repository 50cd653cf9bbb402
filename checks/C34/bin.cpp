// C34: vectors and matrices saved and loaded back; every truncation and corruption; failing writes.
#include "mon.h"
#include "scratch.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/tools/serializer/MatrixIO.h"
#include "mml/tools/serializer/VectorIO.h"
using namespace MML;
using mon::Case;
typedef std::complex<double> Cx;

static double anyDouble(mon::Rng& r) {
	switch (r.i(0, 9)) {
	case 0: return r.pick({0.0, -0.0, 1.0, -1.0, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON});
	case 1: return r.pick({(double)INFINITY, -(double)INFINITY, (double)NAN, 4.9e-324, -3e-310});
	case 2: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return d; }
	case 3: return (double)r.i(-1000000, 1000000);
	default: return r.logmag(-300, 300);
	}
}
static double finDouble(mon::Rng& r) { for (;;) { double d = anyDouble(r); if (std::isfinite(d) && std::fabs(d) < 1e308) return d; } }
template <class T> T anyVal(mon::Rng& r);
template <> double anyVal<double>(mon::Rng& r) { return anyDouble(r); }
template <> float anyVal<float>(mon::Rng& r) { if (r.coin(0.1)) return r.pick({INFINITY, -INFINITY, NAN}); return (float)r.logmag(-30, 30); }
template <> int anyVal<int>(mon::Rng& r) { return r.coin(0.2) ? r.pick({INT_MIN, INT_MAX, 0, -1}) : (int)(r.next() & 0xffffffff); }
template <> Cx anyVal<Cx>(mon::Rng& r) { double a = anyDouble(r), b = anyDouble(r); return Cx(a, b); }
template <class T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }

template <class T> static void vecBin(Case& c, int n) {
	Vector<T> v(n), w(c.r.i(0, 5));
	for (int i = 0; i < n; i++) v[i] = anyVal<T>(c.r);
	auto f = scratch::file("v.bin");
	if (!c.check(Vector<T>::SaveToBinary(v, f), "save")) return;
	auto b = scratch::read(f);
	c.check(b.size() == 16 + n * sizeof(T), "file-size");
	uint32_t h[4]; if (b.size() >= 16) { memcpy(h, b.data(), 16);
		c.check(h[0] == 0x4D4D4C56 && h[2] == (uint32_t)n && h[3] == sizeof(T), "header"); }
	if (!c.check(Vector<T>::LoadFromBinary(f, w), "load")) return;
	if (!c.check((int)w.size() == n, "size")) return;
	bool ok = true; for (int i = 0; i < n; i++) ok = ok && same<T>(w[i], v[i]);
	c.check(ok, "bits");
	c.ev("vec-bin", n);
}
FAMILY(bin_vector, 600) {
	int n = c.r.coin(0.2) ? c.r.i(0, 2) : c.r.coin(0.1) ? c.r.i(500, 3000) : c.r.i(1, 40);
	c.in("n", (double)n);
	switch (c.idx % 4) { case 0: vecBin<double>(c, n); break; case 1: vecBin<float>(c, n); break; case 2: vecBin<int>(c, n); break; default: vecBin<Cx>(c, n); }
}
template <class T> static void matBin(Case& c, int n, int m) {
	Matrix<T> v(n, m), w(c.r.i(1, 4), c.r.i(1, 4));
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = anyVal<T>(c.r);
	auto f = scratch::file("m.bin");
	if (!c.check(Serializer::SaveMatrixToBinary(v, f), "save")) return;
	auto b = scratch::read(f);
	c.check(b.size() == 24 + (size_t)n * m * sizeof(T), "file-size");
	c.check(Serializer::EstimateMatrixBinaryFileSize<T>(n, m) == b.size(), "estimated-size");
	uint32_t h[6]; if (b.size() >= 24) { memcpy(h, b.data(), 24);
		c.check(h[0] == 0x4D4D4C4D && h[2] == (uint32_t)n && h[3] == (uint32_t)m && h[4] == sizeof(T), "header"); }
	if (!c.check(Serializer::LoadMatrixFromBinary(f, w), "load")) return;
	if (!c.check(w.rows() == n && w.cols() == m, "size")) return;
	bool ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ok = ok && same<T>(w(i, j), v(i, j));
		T x; memcpy(&x, b.data() + 24 + ((size_t)i * m + j) * sizeof(T), sizeof(T)); ok = ok && same<T>(x, v(i, j)); }
	c.check(ok, "bits");
	c.ev("mat-bin", n * m);
}
FAMILY(bin_matrix, 500) {
	int n = c.r.coin(0.1) ? c.r.i(30, 80) : c.r.i(1, 9), m = c.r.coin(0.1) ? c.r.i(30, 80) : c.r.i(1, 9);
	c.in("n", (double)n); c.in("m", (double)m);
	switch (c.idx % 4) { case 0: matBin<double>(c, n, m); break; case 1: matBin<float>(c, n, m); break; case 2: matBin<int>(c, n, m); break; default: matBin<Cx>(c, n, m); }
}
FAMILY(bin_complex, 400) {
	int n = c.r.coin(0.1) ? 0 : c.r.i(1, 60);
	c.in("n", (double)n);
	auto f = scratch::file("c.bin");
	std::vector<Cx> v(n), w(c.r.i(0, 70), Cx(7, 7));
	for (auto& x : v) x = anyVal<Cx>(c.r);
	int mode = c.r.i(0, 2);
	if (mode == 0) { if (!c.check(Serializer::SaveComplexVector(v, f), "save")) return; }
	else {
		for (auto& x : v) x = Cx(x.real(), 0.0);
		std::vector<double> re(n); for (int i = 0; i < n; i++) re[i] = v[i].real();
		if (mode == 1) { if (!c.check(Serializer::SaveRealAsComplex(re, f), "save-real")) return; }
		else { Vector<double> x(n); for (int i = 0; i < n; i++) x[i] = re[i]; if (!c.check(Serializer::SaveVectorAsComplex(x, f), "save-vector")) return; }
	}
	if (!c.check(Serializer::LoadComplexVector(f, w), "load")) return;
	if (!c.check((int)w.size() == n, "size")) return;
	bool ok = true; for (int i = 0; i < n; i++) ok = ok && same(w[i], v[i]);
	c.check(ok, "bits");
	std::vector<double> re(3, 5.0); Vector<double> rv(2);
	if (c.check(Serializer::LoadComplexAsReal(f, re), "load-as-real") && c.check((int)re.size() == n, "size-as-real")) {
		ok = true; for (int i = 0; i < n; i++) ok = ok && same(re[i], v[i].real()); c.check(ok, "bits-as-real"); }
	if (c.check(Serializer::LoadComplexAsVector(f, rv), "load-as-vector") && c.check((int)rv.size() == n, "size-as-vector")) {
		ok = true; for (int i = 0; i < n; i++) ok = ok && same((double)rv[i], v[i].real()); c.check(ok, "bits-as-vector"); }
	c.ev("complex-bin", n);
}

// ---- text -----------------------------------------------------------------------------------
static bool closeTxt(double got, double want) { return std::fabs(got - want) <= 6e-6 * std::fabs(want) + 1e-323; }
FAMILY(text_vector, 500) {
	int n = c.r.coin(0.1) ? 0 : c.r.i(1, 40); bool fin = c.r.coin(0.8);
	Vector<double> v(n), w(c.r.i(0, 50)); bool allfin = true;
	for (int i = 0; i < n; i++) { v[i] = fin ? finDouble(c.r) : anyDouble(c.r); allfin = allfin && std::isfinite(v[i]) && std::fabs(v[i]) < 1e308; }
	std::vector<double> vv; for (int i = 0; i < n; i++) vv.push_back(v[i]); c.in("v", vv);
	auto f = scratch::file("v.txt");
	if (!c.check(Vector<double>::SaveToFile(v, f), "save")) return;
	bool ok = Vector<double>::LoadFromFile(f, w);
	if (allfin && !c.check(ok, "load")) return;
	if (!ok) { c.ev("nonfinite-reported"); return; }
	if (!c.check((int)w.size() == n, "size")) return;
	for (int i = 0; i < n; i++)
		c.check(std::isfinite(v[i]) ? closeTxt(w[i], v[i]) : (same((double)w[i], (double)v[i]) || (std::isnan(v[i]) && std::isnan(w[i]))), "value", [&] { return mon::str(v[i]) + " read back as " + mon::str(w[i]); });
	c.ev("vec-text", n);
}
FAMILY(text_vector_int, 100) {
	int n = c.r.i(0, 30); Vector<int> v(n), w;
	for (int i = 0; i < n; i++) v[i] = anyVal<int>(c.r);
	auto f = scratch::file("vi.txt");
	if (!c.check(Vector<int>::SaveToFile(v, f), "save") || !c.check(Vector<int>::LoadFromFile(f, w), "load") || !c.check((int)w.size() == n, "size")) return;
	for (int i = 0; i < n; i++) c.check(w[i] == v[i], "value");
	c.ev("vec-text", n);
}
FAMILY(text_matrix, 600) {
	int n = (int)c.r.sz(1, 9, 60), m = (int)c.r.sz(1, 9, 60); bool fin = c.r.coin(0.8), csv = c.idx % 2;
	c.in("n", (double)n); c.in("m", (double)m);
	Matrix<double> v(n, m), w(c.r.i(1, 3), c.r.i(1, 3)); bool allfin = true;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double x = fin ? finDouble(c.r) : anyDouble(c.r); v(i, j) = x; allfin = allfin && std::isfinite(x) && std::fabs(x) < 1e308; }
	auto f = scratch::file("m.txt");
	if (!c.check(csv ? Serializer::SaveMatrixToCSV(v, f) : Serializer::SaveMatrixToFile(v, f), "save")) return;
	bool ok = csv ? Serializer::LoadMatrixFromCSV(f, w) : Serializer::LoadMatrixFromFile(f, w);
	if (allfin && !c.check(ok, "load")) return;
	if (!ok) { c.ev("nonfinite-reported"); return; }
	if (!c.check(w.rows() == n && w.cols() == m, "size")) return;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
		double a = v(i, j), b = w(i, j);
		c.check(std::isfinite(a) ? closeTxt(b, a) : (a == b || (std::isnan(a) && std::isnan(b))), "value", [&] { return mon::str(a) + " read back as " + mon::str(b); });
	}
	c.ev(csv ? "mat-csv" : "mat-text", n * m);
}
FAMILY(text_complex_matrix, 60) {
	int n = c.r.i(1, 4), m = c.r.i(1, 4);
	Matrix<Cx> v(n, m), w(1, 1);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double a = finDouble(c.r), b = finDouble(c.r); v(i, j) = Cx(a, b); }
	auto f = scratch::file("mc.txt");
	if (!c.check(Serializer::SaveMatrixToFile(v, f), "save") || !c.check(Serializer::LoadMatrixFromFile(f, w), "load") || !c.check(w.rows() == n && w.cols() == m, "size")) return;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c.check(closeTxt(w(i, j).real(), v(i, j).real()) && closeTxt(w(i, j).imag(), v(i, j).imag()), "value");
	c.ev("mat-text", n * m);
}

// ---- broken files ----------------------------------------------------------------------------
// kind: 0 vec bin, 1 mat bin, 2 complex bin, 3 vec text, 4 mat text, 5 mat csv
struct Loaded { bool ok = false, threw = false; int rows = 0, cols = 0; std::vector<Cx> vals; };
static Loaded load(int kind, const std::string& f) {
	Loaded L;
	try {
		if (kind == 0 || kind == 3) { Vector<double> v(2); L.ok = kind == 0 ? Vector<double>::LoadFromBinary(f, v) : Vector<double>::LoadFromFile(f, v);
			L.rows = (int)v.size(); L.cols = 1; for (int i = 0; i < L.rows; i++) L.vals.push_back(v[i]); }
		else if (kind == 2) { std::vector<Cx> v; L.ok = Serializer::LoadComplexVector(f, v); L.rows = (int)v.size(); L.cols = 1; L.vals = v; }
		else { Matrix<double> v(1, 1); L.ok = kind == 1 ? Serializer::LoadMatrixFromBinary(f, v) : kind == 4 ? Serializer::LoadMatrixFromFile(f, v) : Serializer::LoadMatrixFromCSV(f, v);
			L.rows = v.rows(); L.cols = v.cols(); for (int i = 0; i < L.rows; i++) for (int j = 0; j < L.cols; j++) L.vals.push_back(v(i, j)); }
	} catch (const std::bad_alloc&) { L.threw = true; L.ok = false; } catch (const std::exception&) { L.threw = true; L.ok = false; }
	return L;
}
static std::string good(Case& c, int kind, const std::string& f) {
	int n = c.r.i(1, 4), m = c.r.i(1, 4);
	auto val = [&] { return c.r.coin() ? (double)c.r.i(-99, 99) : c.r.uni(-10, 10); };
	if (kind == 0 || kind == 3) { Vector<double> v(n); for (int i = 0; i < n; i++) v[i] = val(); kind == 0 ? Vector<double>::SaveToBinary(v, f) : Vector<double>::SaveToFile(v, f); }
	else if (kind == 2) { std::vector<Cx> v(n); for (auto& x : v) { double a = val(), b = val(); x = Cx(a, b); } Serializer::SaveComplexVector(v, f); }
	else { Matrix<double> v(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = val(); kind == 1 ? Serializer::SaveMatrixToBinary(v, f) : kind == 4 ? Serializer::SaveMatrixToFile(v, f) : Serializer::SaveMatrixToCSV(v, f); }
	return scratch::read(f);
}
// what the bytes of a file mean, decided independently; ok=false: not a complete well-formed file
static Loaded meaning(int kind, const std::string& b) {
	Loaded L;
	auto u32 = [&](size_t o) { uint32_t x = 0; if (b.size() >= o + 4) memcpy(&x, b.data() + o, 4); return x; };
	auto dbl = [&](size_t o) { double x; memcpy(&x, b.data() + o, 8); return x; };
	if (kind == 0) { if (b.size() < 16 || u32(0) != 0x4D4D4C56 || u32(4) != 1 || u32(12) != 8) return L;
		uint64_t n = u32(8); if ((b.size() - 16) / 8 < n) return L; L.ok = true; L.rows = n; L.cols = 1; for (size_t i = 0; i < n; i++) L.vals.push_back(dbl(16 + 8 * i)); return L; }
	if (kind == 1) { if (b.size() < 24 || u32(0) != 0x4D4D4C4D || u32(4) != 1 || u32(16) != 8) return L;
		uint64_t n = u32(8), m = u32(12); if (!n || !m || n > 100000 || m > 100000 || (b.size() - 24) / 8 < n * m) return L; L.ok = true; L.rows = n; L.cols = m; for (size_t i = 0; i < n * m; i++) L.vals.push_back(dbl(24 + 8 * i)); return L; }
	if (kind == 2) { if (b.size() < 16 || u32(0) != 0x4D4D4C43 || u32(4) != 1 || u32(12) != 8) return L;
		uint64_t n = u32(8); if ((b.size() - 16) / 16 < n) return L; L.ok = true; L.rows = n; L.cols = 1; for (size_t i = 0; i < n; i++) L.vals.push_back(Cx(dbl(16 + 8 * i), dbl(16 + 8 * (n + i)))); return L; }
	if (kind == 5) { // csv: every cell one number, all rows equally long
		std::istringstream in(b); std::string line; size_t cols = 0; int rows = 0;
		while (std::getline(in, line)) { if (line.empty()) continue; std::istringstream s(line); std::string cell; size_t k = 0;
			while (std::getline(s, cell, ',')) { const char* p = cell.c_str(); char* e; double x = strtod(p, &e); if (e == p) return L; while (*e && isspace((unsigned char)*e)) e++; if (*e) return L; L.vals.push_back(x); k++; }
			if (rows && k != cols) return L; cols = k; rows++; }
		if (!rows) return L; L.ok = true; L.rows = rows; L.cols = cols; return L; }
	const char* p = b.c_str(); char* e;
	auto num = [&](double& x) { while (*p && isspace((unsigned char)*p)) p++; x = strtod(p, &e); if (e == p) return false; p = e; return true; };
	auto whole = [&](uint64_t& x) { while (*p && isspace((unsigned char)*p)) p++; if (!isdigit((unsigned char)*p) && *p != '+' && *p != '-') return false; long long y = strtoll(p, &e, 10); if (e == p || y < 0) return false; x = y; p = e; return true; };
	uint64_t n = 0, m = 1; if (!whole(n)) return L; if (kind == 4 && !whole(m)) return L;
	if (kind == 4 && (!n || !m || n > 100000 || m > 100000)) return L;
	if (n > 1000000) return L;
	for (size_t i = 0; i < n * m; i++) { double x; if (!num(x)) return L; L.vals.push_back(x); }
	L.ok = true; L.rows = n; L.cols = m; return L;
}
static void judge(Case& c, int kind, const std::string& bytes, const std::string& f, const char* key, bool exact) {
	scratch::write(f, bytes);
	Loaded L = load(kind, f), M = meaning(kind, bytes);
	if (!M.ok) { c.ev(L.threw ? "rejected-exception" : "rejected"); c.check(!L.ok, key, [&] { return "a broken file was loaded as " + mon::str(L.rows) + "x" + mon::str(L.cols) + ": " + scratch::show(bytes); }); return; }
	if (exact) c.check(L.ok, "complete-file-rejected", [&] { return scratch::show(bytes); });
	if (L.ok) { c.ev("accepted-consistent");
		bool ok = L.rows == M.rows && L.cols == M.cols && L.vals.size() == M.vals.size();
		for (size_t i = 0; ok && i < L.vals.size(); i++) ok = memcmp(&L.vals[i], &M.vals[i], 16) == 0 || L.vals[i] == M.vals[i];
		c.check(ok, "made-up-data", [&] { return scratch::show(bytes); }); }
	else c.ev("rejected");
}
static const char* kindName[] = {"vec-bin", "mat-bin", "complex-bin", "vec-text", "mat-text", "mat-csv"};
FAMILY(broken_truncated, 240) {
	int kind = c.idx % 6; c.note(kindName[kind]);
	auto f = scratch::file("t"); std::string b = good(c, kind, f);
	for (size_t k = 0; k < b.size(); k++) { judge(c, kind, b.substr(0, k), f, "truncated-file-loaded", false); c.ev("truncations"); }
}
FAMILY(broken_corrupted, 360) {
	int kind = c.idx % 6; c.note(kindName[kind]);
	auto f = scratch::file("t"); std::string b = good(c, kind, f);
	int rounds = kind < 3 ? 60 : 40;
	for (int k = 0; k < rounds; k++) {
		std::string d = b; int nb = c.r.i(1, 3);
		for (int q = 0; q < nb; q++) {
			size_t hdr = kind < 3 ? std::min<size_t>(24, d.size()) : d.size();
			size_t pos = c.r.i(0, (int)(c.r.coin(0.8) ? hdr : d.size()) - 1);
			if (kind < 3) d[pos] = c.r.coin(0.3) ? (char)c.r.pick({0, 1, 127, 128, 255}) : (char)c.r.i(0, 255);
			else d[pos] = c.r.pick({'0', '9', '-', '.', 'e', ' ', 'z', ',', '\n', '#'});
		}
		if (c.r.coin(0.2)) d.erase(c.r.i(0, (int)d.size() - 1), c.r.i(1, 4));
		if (c.r.coin(0.1)) d.insert(c.r.i(0, (int)d.size()), kind < 3 ? std::string(c.r.i(1, 9), '\0') : std::string("999"));
		judge(c, kind, d, f, "corrupted-file-loaded", kind < 3); c.ev("corruptions");
	}
}
// headers that declare sizes the file cannot hold
FAMILY(broken_huge, 60) {
	int kind = c.idx % 6; if (kind == 5) kind = 0;
	auto f = scratch::file("t"); std::string b = good(c, kind, f);
	if (kind == 3) b = c.r.pick({std::string("18446744073709551615\n1\n"), std::string("4000000000\n1\n2\n"), std::string("-1\n3\n"), std::string("99999999999999999999999\n1\n"), std::string("abc\n1\n")});
	else if (kind == 4) b = c.r.pick({std::string("100000 100000\n1 2 3\n"), std::string("-3 2\n1 2 3\n"), std::string("2147483648 1\n1\n"), std::string("3\n"), std::string("x 3\n")});
	else { uint32_t big = c.r.pick({0xffffffffu, 0x7fffffffu, 0x80000000u, 100000u, 99999u, 0x10000000u, 0x20000000u}); memcpy(&b[8], &big, 4); if (kind == 1 && c.r.coin()) memcpy(&b[12], &big, 4); }
	judge(c, kind, b, f, "impossible-size-loaded", false); c.ev("huge");
}
FAMILY(broken_missing, 12) {
	int kind = c.idx % 6;
	for (std::string f : {scratch::dir() + "/does/not/exist", std::string(""), scratch::dir()}) {
		Loaded L = load(kind, f); c.check(!L.ok, "missing-file-loaded", [&] { return std::string(kindName[kind]) + " " + f; }); c.ev("missing"); }
	auto f = scratch::file("empty"); scratch::write(f, ""); Loaded L = load(kind, f); c.check(!L.ok, "empty-file-loaded");
}
static bool save(int kind, const std::string& f, int n) {
	Vector<double> v(n); for (int i = 0; i < n; i++) v[i] = i * 0.25;
	Matrix<double> m(n, 2); for (int i = 0; i < n; i++) m(i, 0) = m(i, 1) = i;
	std::vector<Cx> z(n, Cx(1, 2)); std::vector<double> re(n, 1.5);
	switch (kind) { case 0: return Vector<double>::SaveToBinary(v, f); case 1: return Serializer::SaveMatrixToBinary(m, f); case 2: return Serializer::SaveComplexVector(z, f);
	case 3: return Vector<double>::SaveToFile(v, f); case 4: return Serializer::SaveMatrixToFile(m, f); case 5: return Serializer::SaveMatrixToCSV(m, f);
	case 6: return Serializer::SaveRealAsComplex(re, f); default: return Serializer::SaveVectorAsComplex(v, f); }
}
FAMILY(write_unwritable, 48) {
	int kind = c.idx % 8, n = c.r.pick({1, 5, 2000, 20000});
	c.in("n", (double)n); c.in("kind", (double)kind);
	c.check(!save(kind, scratch::dir() + "/no/such/dir/f", n), "unwritable-target-reported-saved");
	c.check(!save(kind, scratch::dir(), n), "directory-target-reported-saved");
	if (access("/dev/full", W_OK) == 0) { c.check(!save(kind, "/dev/full", n), "full-device-reported-saved"); c.ev("disk-full"); }
	// a reader that goes away in the middle of the write
	std::string p = scratch::fifo();
	if (n >= 20000 && !p.empty()) {
		std::thread rd([&] { int fd = open(p.c_str(), O_RDONLY); char buf[4096]; ssize_t got = 0, k; while (got < 8192 && (k = read(fd, buf, sizeof buf)) > 0) got += k; close(fd); });
		bool ok = save(kind, p, n); rd.join();
		c.check(!ok, "interrupted-write-reported-saved"); c.ev("interrupted-write");
	}
}
int main(int argc, char** argv) { scratch::quiet(); return mon::main_impl(argc, argv); }
