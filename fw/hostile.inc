// Hostile mode (-DMON_HOSTILE=<scale>): the cases of a harness run with unusual numbers in place of the drawn ones, in
// forked children; only what a caller can never accept counts: a sanitizer report or standard-library assertion whose
// innermost frame outside the standard library lies in the code under test, an exception that is not a
// std::exception, a leak, or a call that does not come back. Reports inside the harness itself (its own oracles
// computing with the unusual numbers) are counted apart and not judged.
extern "C" void __sanitizer_print_stack_trace();
extern "C" int __lsan_do_recoverable_leak_check();
struct HShared { volatile long cur; volatile int inmml; volatile long cases, returned, stdex, odd; volatile long nh; uint64_t h[60000]; };
inline HShared* hsh = nullptr;
inline void hostileCase(Case& c, const Family& fam) {
	c.r.hostile();
	try { fam.fn(c); hsh->returned++; }
	catch (const Abandon&) { hsh->returned++; }
	catch (const std::exception&) { hsh->stdex++; }
	catch (...) { fprintf(stderr, "HOSTILE non-std exception in mml code\n"); hsh->odd++; _exit(76); }
	if (hsh->nh < 60000) { long k = hsh->nh; hsh->h[k] = hstr((std::string(fam.name) + "|" + c.desc).c_str()); hsh->nh = k + 1; }
}
inline void hostileAlarm(int) { fprintf(stderr, "HOSTILE cpu limit\n"); __sanitizer_print_stack_trace(); _exit(79); }
// frames "#k 0x.. in fn path:line"; first one that is neither the standard library nor a runtime
inline std::string hostileFrame(const std::string& txt, size_t from, bool& mml, bool anyMml = false) {
	std::stringstream ss(txt.substr(from)); std::string l; mml = false; long seen = 0;
	while (std::getline(ss, l)) {
		size_t p = l.find_first_not_of(' '); if (p == std::string::npos || l[p] != '#') { if (seen && l.find_first_not_of(" \t\r") == std::string::npos) return ""; continue; }
		seen++;
		size_t in = l.find(" in "); if (in == std::string::npos) continue; size_t sp = l.rfind(' '); std::string path = l.substr(sp + 1), fn = l.substr(in + 4, sp > in + 4 ? sp - in - 4 : 0);
		if (path.find("/mml/") != std::string::npos) { mml = true; size_t sl = path.rfind('/'); size_t co = path.find(':', sl); size_t lp = fn.find('('); fn = fn.substr(0, lp); { std::string t; int d = 0; for (char ch : fn) { if (ch == '<') d++; else if (ch == '>') d -= d > 0; else if (!d) t += ch; } fn = t; } size_t c2 = fn.rfind("::"); if (c2 != std::string::npos) fn = fn.substr(c2 + 2); size_t s2 = fn.rfind(' '); if (s2 != std::string::npos) fn = fn.substr(s2 + 1); return path.substr(sl + 1, co - sl - 1) + ":" + fn.substr(0, 40); }
		if (path.find("/usr/include/") != std::string::npos || path.find("sanitizer") != std::string::npos || path[0] == '(' || path.find("/gcc/") != std::string::npos || path.find("BuildId") != std::string::npos || path.find("/x86_64-linux-gnu/") != std::string::npos) continue;
		if (path.find("hostile.inc") != std::string::npos) continue;
		if (anyMml) continue;
		return path.substr(path.rfind('/') + 1);
	}
	return "";
}
inline long hostileRun(State& s) {
	std::vector<std::pair<const Family*, long>> list;
	std::set<std::string> skipf; { const char* e = getenv("MON_HSKIP"); std::stringstream ss(e ? e : ""); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) skipf.insert(t); }
#ifdef MON_HSKIPS
	{ std::stringstream ss(MON_HSKIPS); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) skipf.insert(t); }
#endif
	for (auto& fam : families()) {
		if (skipf.count(fam.name)) continue;
		if (!s.only_family.empty() && s.only_family != fam.name && s.only_family != "all") continue;
		if (s.only_idx >= 0 && s.only_family == fam.name) { list.push_back({&fam, s.only_idx}); continue; }
		long n = fam.fixed ? std::min<long>(fam.n, 8) : std::min<long>(std::max<long>(6, (long)std::ceil(fam.n * (MON_HOSTILE) * s.scale)), 100 + (long)(200 * s.scale));
		for (long k = 0; k < n; ++k) if ((k + (long)(hstr(fam.name) % 97)) % s.nshards == s.shard) list.push_back({&fam, k});
	}
	hsh = (HShared*)mmap(0, sizeof(HShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	char logf[] = "/tmp/mon-hostile-XXXXXX"; int lf = mkstemp(logf); unlink(logf);
	double cpu = 8; if (const char* e = getenv("MON_CPU")) cpu = atof(e);
	std::vector<std::pair<std::string, long>> slow; long i = 0, batch = 40;
	while (i < (long)list.size()) {
		if (ftruncate(lf, 0)) {} lseek(lf, 0, SEEK_SET);
		long end = std::min<long>(i + batch, list.size()); fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) {
			dup2(lf, 2); setpgid(0, 0); signal(SIGPROF, hostileAlarm);
			rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
			for (long k = i; k < end; ++k) {
				hsh->cur = k; hsh->cases++;
				itimerval tv{}; tv.it_value.tv_sec = (long)cpu; tv.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6); setitimer(ITIMER_PROF, &tv, 0);
				runCase(*list[k].first, list[k].second);
			}
			itimerval tv{}; setitimer(ITIMER_PROF, &tv, 0);
			if (__lsan_do_recoverable_leak_check()) _exit(78);
			_exit(0);
		}
		int stt = 0; double waited = 0; bool killed = false; long lastc = -1; double lastt = 0; double slice = 200;
		for (;;) { pid_t w = waitpid(pid, &stt, WNOHANG); if (w == pid) break; usleep((useconds_t)slice); waited += slice / 1e6; slice = std::min(2e4, slice * 1.3); if (hsh->cur != lastc) { lastc = hsh->cur; lastt = waited; } else if (waited - lastt > 12 * cpu) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &stt, 0); killed = true; break; } if (s.progress) (*(volatile uint64_t*)(s.progress + 512))++; }
		kill(-pid, SIGKILL);
		if (!killed && WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { i = end; continue; }
		std::string txt; { lseek(lf, 0, SEEK_SET); char b[65536]; ssize_t n; while ((n = read(lf, b, sizeof b)) > 0 && txt.size() < 400000) txt.append(b, n); }
		long at = hsh->cur; Case c(list[at].first->name, list[at].second, 1); int rc = WIFEXITED(stt) ? WEXITSTATUS(stt) : -WTERMSIG(stt); bool mml = false;
		auto report = [&](const std::string& kind, const std::string& fr, bool judged) {
			s.events[judged ? "reports" : "harness_reports"]++;
			if (getenv("MON_HV")) fprintf(stderr, "%s %s @%s %s:%ld\n", judged ? "HREPORT" : "hharness", kind.c_str(), fr.c_str(), list[at].first->name, list[at].second);
			if (judged) { std::string key = "hostile:" + kind + ":" + fr; std::string k = key; int& cn = s.violCount[k]; if (++cn <= 2) s.viols.push_back({k, txt.substr(0, 5000), "", list[at].first->name, list[at].second}); } };
		if (killed || rc == 79 || rc == -SIGPROF) { std::string fr = hostileFrame(txt, 0, mml, true); s.events["cpu_limit"]++;
			if (getenv("MON_HV")) fprintf(stderr, "HSLOW @%s %s:%ld\n%s\n", fr.c_str(), list[at].first->name, list[at].second, getenv("MON_HVV") ? txt.substr(0, 2500).c_str() : "");
			bool inm; std::string inner = hostileFrame(txt, 0, inm); (void)inner;
			slow.push_back({fr, at}); i = at + 1; continue; }
		if (rc == 78) { // every direct leak
			size_t p = 0; bool any = false; while ((p = txt.find("Direct leak", p)) != std::string::npos) { std::string fr = hostileFrame(txt, p, mml); report("leak", fr, mml); any = true; p += 8; } if (!any) report("leak", "?", false); i = end; continue; }
		std::string kind; size_t p; 
		if ((p = txt.find("runtime error: ")) != std::string::npos) { size_t ls = txt.rfind('\n', p); ls = ls == std::string::npos ? 0 : ls + 1; std::string head = txt.substr(ls, p - ls), m = txt.substr(p + 15, txt.find('\n', p) - p - 15); kind = "ub-"; bool q = false, dash = false; for (char ch : m) { if (ch == '\'') { q = !q; continue; } if (q || !isalpha((unsigned char)ch)) { dash = true; continue; } if (dash && kind.back() != '-') kind += '-'; dash = false; kind += (char)tolower(ch); if (kind.size() > 45) break; }
			std::string fr = hostileFrame(txt, p, mml); report(kind, fr, mml); }
		else if ((p = txt.find("ERROR: AddressSanitizer: ")) != std::string::npos) { size_t q = txt.find_first_of(" \n", p + 25); kind = "asan-" + txt.substr(p + 25, q - p - 25); std::string fr = hostileFrame(txt, p, mml); bool mem = txt.find("hard rss limit") != std::string::npos || kind.find("out-of-memory") != std::string::npos; size_t as; if ((as = txt.find("Assertion '")) != std::string::npos) kind = "std-assertion"; if (txt.find("terminate called") != std::string::npos) kind = "terminate"; if (mem) s.events["memory_limit"]++; report(mem ? "memory" : kind, fr, mml && !mem); }
		else if ((p = txt.find("HOSTILE non-std")) != std::string::npos) report("non-std-exception", list[at].first->name, true);
		else { if (txt.find("hard rss limit") != std::string::npos) { s.events["memory_limit"]++; } else { s.events["other_exit"]++; if (getenv("MON_HV")) fprintf(stderr, "HOTHER rc=%d %s:%ld %s\n", rc, list[at].first->name, list[at].second, txt.substr(0, 600).c_str()); } }
		i = at + 1;
	}
	s.events["hostile_cases"] += hsh->cases; s.events["returned"] += hsh->returned; s.events["threw_std_exception"] += hsh->stdex; s.evals["hostile"] += hsh->cases;
	for (long k = 0; k < hsh->nh; ++k) if (s.distinct.insert(hsh->h[k]).second) s.nontriv["hostile"]++;
	close(lf);
	return (long)list.size();
}
