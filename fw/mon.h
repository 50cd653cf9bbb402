// Runtime-monitoring framework: case generation, monitors (oracles), event counters, evidence.
// One executable = several "families" of cases; every case is replayable from (seed, family, index).
#pragma once
#include <algorithm>
#include <atomic>
#include <array>
#include <cfloat>
#include <climits>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <memory>
#include <numeric>
#include <optional>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}
inline uint64_t hstr(const char* s) {
	uint64_t h = 1469598103934665603ULL;
	while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; }
	return h;
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
#ifdef MON_HOSTILE
	// hostile mode: some of the numbers a case asks for are replaced by unusual ones (never by other ints than a case may draw)
	double hp = 0; int hset = 0;
	void hostile() { hp = 0; double q = raw01(); static const double ps[] = {0, .01, .03, .1, .3, 1}; double p = ps[next() % 6]; (void)q; hset = (int)(next() % 12); hp = p; }
	bool hit() { return hp > 0 && raw01() < hp; }
	double odd(double a, double b) {
		static const double all[] = {0.0, -0.0, 1, -1, 2.220446049250313e-16, -2.220446049250313e-16, 4.9e-324, -4.9e-324, 2.2250738585072014e-308, -1e-310, 1.7976931348623157e308, -1.7976931348623157e308, 1e300, -1e300, 1e-300, 1e154, 1e155, -1e160, 1e-160, 2147483647.0, 2147483648.0, -2147483649.0, 9.3e18, -9.3e18, 4294967296.0, 1e10, 1e-10, 0.5, 1e16, 3.5e38, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
		switch (hset) {
		case 0: return __builtin_nan("");
		case 1: return coin() ? __builtin_inf() : -__builtin_inf();
		case 2: return 0;
		case 3: return coin() ? a : b;
		case 4: return coin() ? 1e308 : -1e308;
		case 5: return coin() ? 5e-324 : -5e-324;
		case 6: return -a;
		case 7: return 1;
		default: return all[next() % (sizeof all / sizeof *all)];
		}
	}
#else
	bool hit() { return false; }
	double odd(double, double) { return 0; }
#endif
	double raw01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double u01() { if (hit()) return odd(0, 1); return raw01(); }
	double uni(double a, double b) { if (hit()) return odd(a, b); return a + (b - a) * raw01(); }
	int sz(int lo, int hi, int big = 30, double p = .07) { return coin(p) ? i(hi + 1, big) : i(lo, hi); } // sizes: mostly small, sometimes well beyond
	int i(int a, int b) { if (hit()) return coin() ? a : b; return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
	bool coin(double p = 0.5) { return raw01() < p; }
	double normal() { if (hit()) return odd(-1, 1); double u = raw01(), v = raw01(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
	// log-uniform magnitude with random sign
	double logmag(double lo10, double hi10) { if (hit()) return odd(-10, 10); double m = std::pow(10.0, uni(lo10, hi10)); return coin() ? m : -m; }
	double pmag(double lo10, double hi10) { if (hit()) return odd(0, 10); return std::pow(10.0, uni(lo10, hi10)); }
	template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
	template<class T> T pick(std::initializer_list<T> v) { if constexpr (std::is_same<T, double>::value) { if (hit()) return odd(0, 1); } auto it = v.begin(); std::advance(it, next() % v.size()); return *it; }
	template<class V> void shuffle(V& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
};

inline std::string demangle(const char* n) { int st = 0; char* p = abi::__cxa_demangle(n, 0, 0, &st); std::string r = p ? p : n; std::free(p); return r; }

struct Viol { std::string key, msg, desc; std::string family; long idx; };

struct State {
	uint64_t seed = 1;
	int shard = 0, nshards = 1;
	double scale = 1;
	std::string only_family; long only_idx = -1;
	std::set<std::string> skips;
	std::string out;
	std::map<std::string, long> evals, events;
	std::map<std::string, long> nontriv;
	std::unordered_set<uint64_t> distinct;
	std::vector<Viol> viols;
	std::map<std::string, int> violCount;
	std::map<std::string, std::vector<std::string>> samples;
	std::map<std::string, double> maxima;   // worst observed ratio error/tolerance etc.
	char* progress = nullptr;
	long checks = 0;
};
template<class T> inline std::string str(const T& v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
#ifdef MON_CONC
// concurrent mode: every thread records into its own State; results are compared with a serial run by digest
inline thread_local State* tls_state = nullptr;
inline State& st() { static State s; return tls_state ? *tls_state : s; }
#define MON_DIG(x) dig = mon::mix(dig ^ (uint64_t)(x))
#else
inline State& st() { static State s; return s; }
#define MON_DIG(x) (void)0
#endif

struct Case;
struct Family { const char* name; long n; bool fixed; std::function<void(Case&)> fn; };
inline std::vector<Family>& families() { static std::vector<Family> f; return f; }

struct Abandon {};  // thrown to leave a case early after a fatal mismatch

struct Case {
	const char* family; long idx; Rng r; std::string desc; bool nontrivial_ = true; bool failed = false; size_t maxDesc = 6000; uint64_t dig = 1;
	Case(const char* f, long i, uint64_t seed) : family(f), idx(i), r(seed) {}
	void trivial() { nontrivial_ = false; }
	template<class T> void put(std::ostringstream& os, const T& v) { os << v; }
	template<class T> void in(const char* name, const T& v) {
		if (desc.size() > maxDesc) { return; }
		std::ostringstream os; os.precision(17); os << name << "="; os << v; os << "; "; desc += os.str();
	}
	template<class T> void in(const char* name, const std::vector<T>& v) {
		if (desc.size() > maxDesc) return;
		std::ostringstream os; os.precision(17); os << name << "=["; size_t k = 0; for (auto const& x : v) { if (k++) os << ","; if (k > 400) { os << "..."; break; } os << x; } os << "]; "; desc += os.str();
	}
	void note(const std::string& s) { if (desc.size() <= maxDesc) { desc += s; desc += "; "; } }
	void ev(const char* name, long n = 1) { st().events[name] += n; }
	void maxi(const char* name, double v) { auto& m = st().maxima; auto it = m.find(name); if (std::isnan(v)) return; if (it == m.end() || it->second < v) m[name] = v; }
	void fail(const std::string& key, const std::string& msg = "") {
		failed = true;
#ifdef MON_HOSTILE
		if (key.compare(0, 8, "hostile:")) return; // values are not judged here
#endif
		std::string k = std::string(family) + "/" + key;
		int& c = st().violCount[k];
		if (++c <= 3) st().viols.push_back({k, msg, desc, family, idx});
	}
	// noinline overloads keep sanitized harnesses quick to compile
	__attribute__((noinline)) bool check(bool ok, const char* key) { st().checks++; MON_DIG(ok); if (!ok) fail(key, ""); return ok; }
	__attribute__((noinline)) bool check(bool ok, const char* key, const char* msg) { st().checks++; MON_DIG(ok); if (!ok) fail(key, msg); return ok; }
	__attribute__((noinline)) bool check(bool ok, const char* key, const std::string& msg) { st().checks++; MON_DIG(ok); if (!ok) fail(key, msg); return ok; }
	__attribute__((noinline)) bool check(bool ok, const std::string& key, const std::string& msg = "") { st().checks++; MON_DIG(ok); if (!ok) fail(key, msg); return ok; }
	// lazily built message
	template<class K, class F, class = decltype(std::string(std::declval<F&>()()))> bool check(bool ok, const K& key, F&& f) { st().checks++; MON_DIG(ok); if (!ok) fail(key, f()); return ok; }
	// |got-want| <= tol (NaN anywhere fails unless both NaN and allowed)
	__attribute__((noinline)) bool close(long double got, long double want, long double tol, const char* key) { return close(got, want, tol, std::string(key), std::string()); }
	__attribute__((noinline)) bool close(long double got, long double want, long double tol, const std::string& key, const std::string& extra = "") {
		st().checks++; { double gd = (double)got; uint64_t gb; std::memcpy(&gb, &gd, 8); if (gd != gd) gb = 7; MON_DIG(gb); (void)gb; }
		long double d = std::fabs((double)0) + (got > want ? got - want : want - got);
		bool ok = (got == want) || (d <= tol);
		if (ok && tol > 0 && got != want) maxi(("ratio:" + key).c_str(), (double)(d / tol));
		if (!ok) { std::ostringstream os; os.precision(17); os << "got " << (double)got << " want " << (double)want << " |diff| " << (double)d << " tol " << (double)tol << " " << extra; fail(key, os.str()); }
		return ok;
	}
	void require(bool ok, const std::string& key, const std::string& msg = "") { if (!check(ok, key, msg)) throw Abandon{}; }
	// fn must throw an exception of type E (or derived)
	template<class E> __attribute__((noinline)) bool throws_impl(const std::function<void()>& fn, const std::string& key) {
		st().checks++; ev("throws_checked");
		try { fn(); }
		catch (const E&) { MON_DIG(9); return true; }
		catch (const std::exception& e) { MON_DIG(5); fail(key + ":wrong-exception", std::string("expected ") + demangle(typeid(E).name()) + ", got " + demangle(typeid(e).name()) + ": " + e.what()); return false; }
		catch (...) { fail(key + ":wrong-exception", "non-std exception"); return false; }
		fail(key + ":no-throw", std::string("expected ") + demangle(typeid(E).name()) + " but nothing was thrown");
		return false;
	}
	template<class E, class F> bool throws(F&& fn, const std::string& key) { return throws_impl<E>(std::function<void()>(std::ref(fn)), key); }
	__attribute__((noinline)) bool nothrow_impl(const std::function<void()>& fn, const std::string& key) {
		st().checks++;
		try { fn(); return true; }
		catch (const Abandon&) { throw; }
		catch (const std::exception& e) { MON_DIG(3); fail(key + ":threw", demangle(typeid(e).name()) + ": " + e.what()); }
		catch (...) { fail(key + ":threw", "unknown exception"); }
		return false;
	}
	template<class F> bool nothrow(F&& fn, const std::string& key) { return nothrow_impl(std::function<void()>(std::ref(fn)), key); }
};

using Ctx = Case;
struct Reg { Reg(const char* n, long c, bool fixed, std::function<void(Case&)> f) { families().push_back({n, c, fixed, f}); } };
#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
// FAMILY(name, quick_cases): random cases, scaled in thorough mode.
#define FAMILY(name, n) \
	static void name##_body(mon::Case& c); \
	static mon::Reg MON_CAT(reg_, name)(#name, n, false, name##_body); \
	static void name##_body(mon::Case& c)
// ENUM(name, n): fixed enumeration idx = 0..n-1, never scaled.
#define ENUM(name, n) \
	static void name##_body(mon::Case& c); \
	static mon::Reg MON_CAT(reg_, name)(#name, n, true, name##_body); \
	static void name##_body(mon::Case& c)

inline std::string jesc(const std::string& s) {
	std::string o; o.reserve(s.size() + 8);
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o;
}

inline void writeOut(bool complete) {
	State& s = st();
	if (s.out.empty()) return;
	std::string tmp = s.out + ".tmp";
	FILE* f = fopen(tmp.c_str(), "w");
	if (!f) { perror("mon: out"); _exit(90); }
	fprintf(f, "{\"complete\":%s,\"checks\":%ld", complete ? "true" : "false", s.checks);
	auto mp = [&](const char* nm, const std::map<std::string, long>& m) { fprintf(f, ",\"%s\":{", nm); bool first = true; for (auto& kv : m) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; } fprintf(f, "}"); };
	mp("evals", s.evals); mp("nontrivial", s.nontriv); mp("events", s.events);
	fprintf(f, ",\"maxima\":{"); { bool first = true; for (auto& kv : s.maxima) { if (!std::isfinite(kv.second)) continue; fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; } } fprintf(f, "}");
	fprintf(f, ",\"distinct\":["); { bool first = true; for (auto h : s.distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; } } fprintf(f, "]");
	fprintf(f, ",\"samples\":{"); { bool first = true; for (auto& kv : s.samples) { fprintf(f, "%s\"%s\":[", first ? "" : ",", jesc(kv.first).c_str()); bool g = true; for (auto& x : kv.second) { fprintf(f, "%s\"%s\"", g ? "" : ",", jesc(x).c_str()); g = false; } fprintf(f, "]"); first = false; } } fprintf(f, "}");
	fprintf(f, ",\"viols\":["); { bool first = true; for (auto& v : s.viols) { fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\",\"case\":\"%s:%ld\",\"count\":%d}", first ? "" : ",", jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(v.desc).c_str(), jesc(v.family).c_str(), v.idx, s.violCount[v.key]); first = false; } } fprintf(f, "]}\n");
	fclose(f);
	rename(tmp.c_str(), s.out.c_str());
}

#ifdef MON_HOSTILE
void hostileCase(Case& c, const Family& fam);
#endif
inline uint64_t runCase(const Family& fam, long idx) {
	State& s = st();
	if (s.progress) { snprintf(s.progress, 256, "%s:%ld", fam.name, idx); (*(volatile uint64_t*)(s.progress + 512))++; }
	if (!s.skips.empty() && s.skips.count(std::string(fam.name) + ":" + std::to_string(idx))) return 0;
	uint64_t seed = fam.fixed ? mix(hstr(fam.name) ^ mix(idx)) : mix(mix(s.seed * 0x51ed27f5ULL + 7) ^ hstr(fam.name) ^ mix(idx + 0x1234567));
	Case c(fam.name, idx, seed);
	s.evals[fam.name]++;
#ifdef MON_HOSTILE
	hostileCase(c, fam); return 0;
#endif
	try { fam.fn(c); }
	catch (const Abandon&) {}
	catch (const std::exception& e) { c.dig = mix(c.dig ^ hstr(typeid(e).name())); c.fail("unexpected-exception:" + demangle(typeid(e).name()), e.what()); }
	catch (...) { c.dig = mix(c.dig ^ 77); c.fail("unexpected-exception:unknown", "non-std exception"); }
	if (c.nontrivial_) {
		uint64_t h = hstr((std::string(fam.name) + "|" + c.desc).c_str());
		if (s.distinct.size() < 400000 && s.distinct.insert(h).second) s.nontriv[fam.name]++;
	}
	auto& sm = s.samples[fam.name];
	if (sm.size() < 1) sm.push_back(std::string(fam.name) + ":" + std::to_string(idx) + " " + c.desc.substr(0, 600));
	return c.dig;
}

#ifdef MON_CONC
// Every selected case runs once alone, then in all threads at once (each in its own order): the values must be
// bit-for-bit those of the serial run. Oracle failures common to both runs belong to the check that owns the harness.
inline long concurrent(State& s) {
	const int T = 4;
	if (s.skips.count("all:0")) return 0;  // restarted after a report
	std::vector<std::pair<const Family*, long>> list;
	for (auto& fam : families()) {
		if (!s.only_family.empty() && s.only_family != fam.name && s.only_family != "all") continue;
		long n = fam.fixed ? std::min<long>(fam.n, 8) : std::max<long>(4, (long)std::ceil(fam.n * s.scale * (MON_CONC)));
		for (long k = 0; k < n; ++k) if ((k + (long)(hstr(fam.name) % 97)) % s.nshards == s.shard) list.push_back({&fam, k});
	}
	std::vector<uint64_t> want(list.size());
	char* prog = s.progress; 
	if (prog) snprintf(prog, 256, "all:0");
	s.progress = nullptr;
	State base; tls_state = &base; base.seed = s.seed; base.skips = s.skips;
	auto beat = [&] { if (prog) (*(std::atomic<uint64_t>*)(prog + 512))++; };
	for (size_t i = 0; i < list.size(); ++i) { want[i] = runCase(*list[i].first, list[i].second); beat(); }
	tls_state = nullptr;
	std::vector<State> states(T); std::vector<std::vector<size_t>> bad(T);
	std::atomic<int> ready{0}; std::atomic<long> ticket{0}; std::vector<std::vector<std::pair<long, size_t>>> log(T);
	std::vector<std::thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
		tls_state = &states[t]; states[t].seed = s.seed; states[t].skips = s.skips;
		std::vector<size_t> ord(list.size()); std::iota(ord.begin(), ord.end(), 0); Rng r(mix(s.seed * 131 + t));
		if (t) r.shuffle(ord); // thread 0 keeps the order; neighbours of the same family meet often
		if (t == 1) { std::iota(ord.begin(), ord.end(), 0); }
		ready++; while (ready < T) std::this_thread::yield();
		for (size_t i : ord) { log[t].push_back({ticket++, i}); if (runCase(*list[i].first, list[i].second) != want[i]) bad[t].push_back(i); beat(); }
		tls_state = nullptr;
	});
	for (auto& t : th) t.join();
	s.progress = prog;
	s.evals = base.evals; s.nontriv = base.nontriv; s.distinct = base.distinct; s.samples = base.samples; s.events["serial_cases"] += (long)list.size();
	std::vector<std::pair<long, size_t>> all;
	for (int t = 0; t < T; ++t) {
		s.checks += states[t].checks; s.events["concurrent_cases"] += (long)list.size();
		for (auto& x : log[t]) all.push_back({x.first, (size_t)t});
		for (size_t i : bad[t]) { Case c(list[i].first->name, list[i].second, 1); c.fail("concurrent-result-differs", "the same case gives other values when other cases run at the same time"); }
	}
	std::sort(all.begin(), all.end()); long sw = 0; for (size_t i = 1; i < all.size(); ++i) sw += all[i].second != all[i - 1].second;
	s.events["thread_switches"] += sw;
	return (long)list.size();
}
#endif

#ifdef MON_HOSTILE
#include "hostile.inc"
#endif

inline int main_impl(int, char**) {
	State& s = st();
	auto env = [](const char* k) { const char* v = getenv(k); return v ? std::string(v) : std::string(); };
	if (!env("MON_SEED").empty()) s.seed = strtoull(env("MON_SEED").c_str(), 0, 10);
	if (!env("MON_SHARD").empty()) s.shard = atoi(env("MON_SHARD").c_str());
	if (!env("MON_NSHARDS").empty()) s.nshards = atoi(env("MON_NSHARDS").c_str());
	if (!env("MON_SCALE").empty()) s.scale = atof(env("MON_SCALE").c_str());
	s.out = env("MON_OUT");
	if (!env("MON_ONLY").empty()) { std::string o = env("MON_ONLY"); size_t p = o.rfind(':'); s.only_family = o.substr(0, p); if (p != std::string::npos) s.only_idx = atol(o.c_str() + p + 1); }
	{ std::stringstream ss(env("MON_SKIP")); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) s.skips.insert(t); }
	if (!env("MON_PROGRESS").empty()) {
		int fd = open(env("MON_PROGRESS").c_str(), O_RDWR | O_CREAT, 0600);
		if (fd >= 0 && ftruncate(fd, 4096) == 0) { void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) s.progress = (char*)p; }
	}
	long total = 0;
#ifdef MON_CONC
	total = concurrent(s);
	goto done;
#endif
#ifdef MON_HOSTILE
	total = hostileRun(s);
	goto done;
#endif
	for (auto& fam : families()) {
		if (!s.only_family.empty() && s.only_family != fam.name) continue;
		long n = fam.fixed ? fam.n : (long)std::ceil(fam.n * s.scale);
		if (s.only_idx >= 0) { runCase(fam, s.only_idx); total++; continue; }
		for (long k = 0; k < n; ++k) {
			if ((k + (long)(hstr(fam.name) % 97)) % s.nshards != s.shard) continue;
			runCase(fam, k); total++;
		}
	}
#if defined MON_CONC || defined MON_HOSTILE
done:
#endif
	if (s.progress) { snprintf(s.progress, 256, "exit:0"); (*(volatile uint64_t*)(s.progress + 512))++; }
	writeOut(true);
	if (!s.viols.empty() && s.out.empty())
		for (auto& v : s.viols) fprintf(stderr, "VIOL %s [%s:%ld] %s\n    in: %s\n", v.key.c_str(), v.family.c_str(), v.idx, v.msg.c_str(), v.desc.c_str());
	if (s.out.empty()) { fprintf(stderr, "cases=%ld checks=%ld viols=%zu keys=%zu distinct=%zu\n", total, s.checks, s.viols.size(), s.violCount.size(), s.distinct.size()); for (auto& kv : s.violCount) fprintf(stderr, "  %6d  %s\n", kv.second, kv.first.c_str()); if (getenv("MON_V")) { for (auto& kv : s.events) fprintf(stderr, "  ev %s %ld\n", kv.first.c_str(), kv.second); for (auto& kv : s.maxima) fprintf(stderr, "  max %s %g\n", kv.first.c_str(), kv.second); } }
	fflush(stdout);
	return 0;
}
} // namespace mon
#define MON_MAIN() int main(int argc, char** argv) { return mon::main_impl(argc, argv); }
