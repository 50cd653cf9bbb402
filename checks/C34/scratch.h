// Scratch files of the persistence harnesses: one private directory per thread, removed when the thread ends.
#pragma once
#include <sys/stat.h>
#include <dirent.h>
namespace scratch {
struct Dir {
	std::string d;
	Dir() { const char* t = getenv("TMPDIR"); std::string s = std::string(t && *t ? t : "/tmp") + "/mon-c34-XXXXXX"; std::vector<char> b(s.begin(), s.end()); b.push_back(0); if (char* r = mkdtemp(b.data())) d = r; }
	~Dir() { if (d.empty()) return; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(h); } rmdir(d.c_str()); }
};
inline const std::string& dir() { static thread_local Dir d; return d.d; }
inline std::string file(const char* n) { return dir() + "/" + n; }
inline std::string read(const std::string& f) { std::ifstream in(f, std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
inline void write(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary); o << b; }
#ifdef COMMA_LOCALE // the whole run under a global locale with decimal commas and digit groups
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static const bool comma_locale = (std::locale::global(std::locale(std::locale::classic(), new Comma)), true);
#endif
inline std::string fifo() { std::string p = file("fifo"); unlink(p.c_str()); return mkfifo(p.c_str(), 0600) == 0 ? p : std::string(); }
inline std::string show(const std::string& b) { std::string o; char t[8]; for (size_t i = 0; i < b.size() && i < 120; i++) { unsigned char ch = b[i]; if (ch >= 32 && ch < 127) o += ch; else { snprintf(t, sizeof t, "\\x%02x", ch); o += t; } } return o; }
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
inline void quiet() { std::cerr.rdbuf(new NullBuf); signal(SIGPIPE, SIG_IGN); }
}
