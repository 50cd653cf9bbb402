// C36: everything the table printers and the vector/matrix Print functions emit is parsed back and compared with the cells that went in.
#include "mon.h"
#include "scratch.h"
#include "base/Vector/Vector.h"
#include "base/Vector/VectorN.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"
#include "tools/ConsolePrinter.h"
using namespace MML;
using S = std::string; using Row = std::vector<S>; using Grid = std::vector<Row>;
static S fmtd(const char* f, int p, double v) { char b[600]; snprintf(b, sizeof b, f, p, v); return b; }
static bool unspec(double v) { return std::isnan(v); }
// independent rendering of one number under a column format
static S shown(double v, FormatType t, int p) {
	switch (t) {
	case FormatType::Fixed: return fmtd("%.*f", p, v);
	case FormatType::Scientific: return fmtd("%.*e", p, v);
	case FormatType::Integer: return fmtd("%.*f", 0, v);
	case FormatType::Hexadecimal: return fmtd("%.*g", 6, v);
	default: return fmtd("%.*g", p, v);
	}
}
static S shown(int v, FormatType t, int) { char b[32]; if (t == FormatType::Hexadecimal) snprintf(b, 32, "%x", (unsigned)v); else snprintf(b, 32, "%d", v); return b; }
static S shown(const S& v, FormatType, int) { return v; }
static S plain(double v) { return fmtd("%.*g", 6, v); } static S plain(int v) { return std::to_string(v); } static S plain(const S& v) { return v; }
template<class T> static S show(const T& v) { return plain(v); }
static S word(mon::Rng& r, int kind) {   // kind 0: tame, 1: every separator and markup character
	static const S tame = "abcXYZ019 ._-+", hostile = "ab,\"'|&<>\\%$#_{}~^\t\n\r;: 9";
	int n = r.i(0, kind ? 8 : 12); S o; const S& a = kind ? hostile : tame; for (int i = 0; i < n; i++) o += a[r.i(0, (int)a.size() - 1)]; return o;
}
static S trimword(mon::Rng& r) { S w = word(r, 0); size_t a = w.find_first_not_of(' '); if (a == S::npos) return "q"; return w.substr(a, w.find_last_not_of(' ') - a + 1); }
template<class T> static T cell(mon::Rng& r, int kind);
template<> double cell<double>(mon::Rng& r, int) { switch (r.i(0, 7)) { case 0: return 0; case 1: return r.i(-1000, 1000); case 2: return r.logmag(-300, 300); case 3: return r.coin(.5) ? INFINITY : -INFINITY; case 4: return r.uni(-1, 1); default: return r.logmag(-8, 8); } }
template<> int cell<int>(mon::Rng& r, int) { return r.coin(.1) ? (r.coin(.5) ? INT_MAX : INT_MIN) : r.i(-100000, 100000); }
template<> S cell<S>(mon::Rng& r, int kind) { return kind ? word(r, 1) : trimword(r); }
static std::vector<S> lines(const S& s) { std::vector<S> o; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == S::npos) { o.push_back(s.substr(p)); break; } o.push_back(s.substr(p, q - p)); p = q + 1; } return o; }
static std::vector<S> split(const S& s, const S& d) { std::vector<S> o; size_t p = 0; for (;;) { size_t q = s.find(d, p); if (q == S::npos) { o.push_back(s.substr(p)); return o; } o.push_back(s.substr(p, q - p)); p = q + d.size(); } }
static S trim(const S& w) { size_t a = w.find_first_not_of(' '); return a == S::npos ? S() : w.substr(a, w.find_last_not_of(' ') - a + 1); }
static size_t glyphs(const S& s) { size_t n = 0; for (unsigned char c : s) n += (c & 0xC0) != 0x80; return n; }
struct Col { S name; int width = 12, prec = 6; bool autow = false; FormatType t = FormatType::General; Alignment a = Alignment::Right;
	ColumnFormat cf() const { ColumnFormat f(name); f.precision(prec).format(t).align(a); if (autow) f.autoWidth(); else f.width(width); return f; } };
static Col rcol(mon::Rng& r, bool strname) { Col c; c.name = strname ? word(r, 1) : trimword(r); if (r.coin(.8)) { c.autow = r.coin(.4); c.width = r.i(0, 24); c.prec = r.i(0, 17); c.t = (FormatType)r.i(0, 4); c.a = (Alignment)r.i(0, 2); } return c; }
static const char* vbar[] = {"", "|", "|", "│", "║", "┃"}; static const char* hbar[] = {"", "-", "-", "─", "═", "━"};
// one rendered line against the expected cell texts
static void line_ok(mon::Case& c, const S& l, const Row& want, const std::vector<Col>& cols, const std::vector<int>& w, int border, const char* key) {
	if (border == 0) {      // no borders: cells are padded to their width and joined by two blanks
		size_t p = 0; bool ok = true;
		for (size_t k = 0; k < want.size() && ok; k++) { size_t n = std::max<size_t>(w[k], want[k].size()); if (k) { ok = l.compare(p, 2, "  ") == 0; p += 2; } ok = ok && p + n <= l.size() && trim(l.substr(p, n)) == want[k]; p += n; }
		c.check(ok && p == l.size(), key, [&] { return "got [" + l + "]"; }); return;
	}
	S v = vbar[border]; Row parts = split(l, v);
	if (!c.check(parts.size() == want.size() + 2 && parts.front().empty() && parts.back().empty(), "columns", [&] { return "got [" + l + "]"; })) return;
	for (size_t k = 0; k < want.size(); k++) {
		const S& f = parts[k + 1]; size_t n = std::max<size_t>(w[k], want[k].size());
		c.check(trim(f) == want[k], key, [&] { return "col " + std::to_string(k) + " got [" + f + "] want [" + want[k] + "]"; });
		c.check(f.size() == n + 2, "width", [&] { return "col " + std::to_string(k) + " got [" + f + "] width " + std::to_string(n); });
		if (want[k].empty() || f.size() != n + 2) continue;
		size_t left = f.find_first_not_of(' ') - 1, pad = n - want[k].size();
		size_t wl = cols[k].a == Alignment::Left ? 0 : cols[k].a == Alignment::Right ? pad : left;
		c.check(left == wl && (cols[k].a != Alignment::Center || (left >= pad / 2 && left <= (pad + 1) / 2)), "alignment", [&] { return "col " + std::to_string(k) + " got [" + f + "]"; });
	}
}
static void rule_ok(mon::Case& c, const S& l, const std::vector<int>& w, int border) {
	size_t n = 1; for (int x : w) n += x + 3; size_t h = 0, p = 0; S g = hbar[border]; while ((p = l.find(g, p)) != S::npos) h++, p += g.size();
	size_t hw = 0; for (int x : w) hw += x + 2;
	c.check(glyphs(l) == n && h == hw, "rule-line", [&] { return "got [" + l + "]"; });
}
template<class Tag, class T> static void console(mon::Case& c) {
	auto& r = c.r; int nc = (int)r.sz(0, 5, 25), nr = (int)r.sz(0, 8, 120); std::vector<Col> cols; for (int k = 0; k <= nc; k++) cols.push_back(rcol(r, false));
	TableStyle st; int border = r.i(0, 5); bool head = r.coin(.8), sep = r.coin(.3); st.border((BorderStyle)border).header(head).rowSeparators(sep).compact(r.coin(.3));
	std::vector<ColumnFormat> cf; for (int k = 1; k <= nc; k++) cf.push_back(cols[k].cf());
	TablePrinter<Tag, T> t(cols[0].cf(), cf); t.style(st);
	c.in("rows", (double)nr); c.in("cols", (double)nc); c.in("border", (double)border);
	std::vector<Tag> tags; std::vector<std::vector<T>> data;
	for (int i = 0; i < nr; i++) { tags.push_back(cell<Tag>(r, 0)); std::vector<T> v; for (int k = 0; k < nc; k++) v.push_back(cell<T>(r, 0)); data.push_back(v); t.addRow(tags.back(), v); }
	if (r.coin(.2)) c.throws<MMLException>([&] { t.addRow(cell<Tag>(r, 0), std::vector<T>(nc + 1)); }, "wrong-row-length");
	c.check((int)t.rowCount() == nr && (int)t.columnCount() == nc, "counts");
	Grid want; Row hd; for (auto& k : cols) hd.push_back(k.name);
	for (int i = 0; i < nr; i++) { Row w{shown(tags[i], cols[0].t, cols[0].prec)}; for (int k = 0; k < nc; k++) w.push_back(shown(data[i][k], cols[k + 1].t, cols[k + 1].prec)); want.push_back(w); }
	std::vector<int> w; for (int k = 0; k <= nc; k++) { int x = cols[k].width; if (cols[k].autow) { x = (int)hd[k].size(); for (auto& q : want) x = std::max<int>(x, q[k].size()); } w.push_back(x); }
	for (int rep = 0; rep < 2; rep++) {
		auto L = lines(t.toString()); size_t p = 0; bool b = border != 0;
		size_t rules = b ? (head ? 2 : 0) + 1 + (sep && nr > 1 ? nr - 1 : 0) : 0;
		if (!b && nc == 0) { }
		if (!c.check(L.size() == rules + (head ? 1 : 0) + nr, "line-count", [&] { return std::to_string(L.size()) + " lines"; })) return;
		if (head) { if (b) rule_ok(c, L[p++], w, border); line_ok(c, L[p++], hd, cols, w, border, "header"); if (b) rule_ok(c, L[p++], w, border); }
		for (int i = 0; i < nr; i++) { line_ok(c, L[p++], want[i], cols, w, border, "cell"); c.ev("cell", nc + 1); if (b && sep && i + 1 < nr) rule_ok(c, L[p++], w, border); }
		if (b) rule_ok(c, L[p++], w, border);
	}
	if (sep) c.ev("row-separators"); if (!head) c.ev("no-header"); for (auto& k : cols) if (k.autow) c.ev("auto-width");
	c.ev(border ? "bordered" : "borderless");
	if (nr && r.coin(.3)) { t.clear(); c.check(t.rowCount() == 0, "clear"); }
}
FAMILY(console_double, 1500) { console<double, double>(c); }
FAMILY(console_string_int, 1000) { console<S, int>(c); }
FAMILY(console_int_string, 1000) { console<int, S>(c); }
FAMILY(console_string_double, 1000) { console<S, double>(c); }

// ---------------------------------------------------------------- exports, parsed by independent readers
static Grid rd_csv(const S& s) {
	Grid g; Row row; S f; bool q = false; size_t i = 0;
	while (i < s.size()) { char ch = s[i];
		if (q) { if (ch == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; i++; } else q = false; } else f += ch; }
		else if (ch == '"' && f.empty()) q = true; else if (ch == ',') { row.push_back(f); f.clear(); } else if (ch == '\n') { row.push_back(f); f.clear(); g.push_back(row); row.clear(); } else f += ch;
		i++; }
	if (!f.empty() || !row.empty()) { row.push_back(f); g.push_back(row); }
	return g;
}
static S rep(S s, const S& a, const S& b) { size_t p = 0; while ((p = s.find(a, p)) != S::npos) { s.replace(p, a.size(), b); p += b.size(); } return s; }
static S unhtml(const S& s) { S o; for (size_t i = 0; i < s.size();) { if (s[i] == '&') { bool d = false; for (auto& e : std::initializer_list<std::pair<const char*, char>>{{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&#39;", '\''}, {"&apos;", '\''}}) if (s.compare(i, strlen(e.first), e.first) == 0) { o += e.second; i += strlen(e.first); d = true; break; } if (!d) return "<bad entity>"; } else if (s[i] == '<' || s[i] == '>') return "<raw markup>"; else o += s[i++]; } return o; }
static Grid rd_html(const S& s, bool& ok) {
	Grid g; ok = true; size_t p = 0, n = 0;
	for (;;) { size_t a = s.find("<tr>", p); if (a == S::npos) break; size_t b = s.find("</tr>", a); if (b == S::npos) { ok = false; break; } Row row; size_t q = a;
		for (;;) { size_t x = std::min(s.find("<td>", q), s.find("<th>", q)); if (x == S::npos || x > b) break; bool th = s[x + 2] == 'h'; size_t y = s.find(th ? "</th>" : "</td>", x); if (y == S::npos || y > b) { ok = false; break; } if (th != (n == 0)) ok = false; row.push_back(unhtml(s.substr(x + 4, y - x - 4))); q = y; }
		g.push_back(row); n++; p = b; }
	if (s.find("<table") != 0 || s.find("</table>") == S::npos || s.find("<thead>") == S::npos || s.find("</tbody>") == S::npos) ok = false;
	return g;
}
static S unlatex(const S& s) { S o; for (size_t i = 0; i < s.size();) { if (s[i] == '\\') { bool d = false; for (auto& e : std::initializer_list<std::pair<const char*, char>>{{"\\textasciitilde{}", '~'}, {"\\textasciicircum{}", '^'}, {"\\textbackslash{}", '\\'}, {"\\&", '&'}, {"\\%", '%'}, {"\\$", '$'}, {"\\#", '#'}, {"\\_", '_'}, {"\\{", '{'}, {"\\}", '}'}}) if (s.compare(i, strlen(e.first), e.first) == 0) { o += e.second; i += strlen(e.first); d = true; break; } if (!d) return "<bad command>"; } else if (strchr("&%$#_{}~^", s[i])) return "<raw special>"; else o += s[i++]; } return o; }
static Grid rd_latex(const S& s, int ncol, bool& ok) {
	Grid g; S pre = "\\begin{tabular}{|"; for (int i = 0; i < ncol; i++) pre += "c|"; pre += "}"; ok = s.compare(0, pre.size(), pre) == 0 && s.find("\\end{tabular}") != S::npos;
	S body = s.substr(std::min(s.size(), pre.size())); size_t e = body.find("\\end{tabular}"); if (e != S::npos) body = body.substr(0, e); body = rep(body, "\\hline\n", "");
	// rows end in " \\" + newline; columns are separated by an unescaped ampersand
	for (S l : split(body, " \\\\\n")) { if (trim(l).empty() || l == "\n") continue; while (!l.empty() && l[0] == '\n') l.erase(0, 1); Row row; S f; for (size_t i = 0; i < l.size(); i++) { if (l[i] == '\\' && i + 1 < l.size()) { f += l[i]; f += l[++i]; } else if (l[i] == '&') { row.push_back(f); f.clear(); } else f += l[i]; } row.push_back(f); for (size_t k = 0; k < row.size(); k++) { S& x = row[k]; if (k && !x.empty() && x[0] == ' ') x.erase(0, 1); if (k + 1 < row.size() && !x.empty() && x.back() == ' ') x.pop_back(); x = unlatex(x); } g.push_back(row); }
	return g;
}
static Grid rd_md(const S& s, bool& ok) {
	Grid g; ok = true; size_t n = 0;
	for (auto& l : lines(s)) { Row row; S f; if (l.empty() || l[0] != '|') { ok = false; continue; } for (size_t i = 1; i < l.size(); i++) { if (l[i] == '\\' && i + 1 < l.size() && ispunct((unsigned char)l[i + 1])) f += l[++i]; else if (l[i] == '|') { row.push_back(f); f.clear(); } else f += l[i]; } if (!f.empty()) ok = false;
		if (n++ == 1) { for (auto& x : row) if (x.size() < 3 - 1 || x.find_first_not_of("-: ") != S::npos) ok = false; if (!g.empty() && row.size() != g[0].size()) ok = false; continue; }
		for (auto& x : row) { if (!x.empty() && x[0] == ' ') x.erase(0, 1); if (!x.empty() && x.back() == ' ') x.pop_back(); } g.push_back(row); }
	return g;
}
static S untsv(const S& s) { S o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 1 < s.size()) { char n = s[++i]; o += n == 't' ? '\t' : n == 'n' ? '\n' : n == 'r' ? '\r' : n; } else o += s[i]; return o; }
static Grid rd_tsv(const S& s) { Grid g; for (auto& l : lines(s)) { Row row; for (auto& f : split(l, "\t")) row.push_back(untsv(f)); g.push_back(row); } return g; }
template<class Tag, class T> static void exports(mon::Case& c) {
	auto& r = c.r; int nc = (int)r.sz(0, 4, 25), nr = (int)r.sz(0, 6, 120); std::vector<S> names; S tagn = word(r, 1); for (int k = 0; k < nc; k++) names.push_back(word(r, 1));
	TablePrinter<Tag, T> t(tagn, names); Grid want; Row hd{tagn}; hd.insert(hd.end(), names.begin(), names.end()); want.push_back(hd);
	for (int i = 0; i < nr; i++) { Tag g = cell<Tag>(r, 1); std::vector<T> v; Row w{show(g)}; for (int k = 0; k < nc; k++) { v.push_back(cell<T>(r, 1)); w.push_back(show(v.back())); } t.addRow(g, v); want.push_back(w); }
	for (auto& q : want) for (auto& f : q) { c.note("[" + f + "]"); }
	auto cmp = [&](const Grid& g, const char* key, std::function<S(S)> norm = nullptr, const S& raw = "") {
		bool ok = g.size() == want.size(); for (size_t i = 0; ok && i < g.size(); i++) { ok = g[i].size() == want[i].size(); for (size_t k = 0; ok && k < g[i].size(); k++) ok = g[i][k] == (norm ? norm(want[i][k]) : want[i][k]); }
		c.check(ok, key, [&] { return "output " + scratch::show(raw); }); c.ev("cell", (nr + 1) * (nc + 1)); };
	auto out = [&](ExportFormat f) { std::ostringstream o; if (r.coin(.5)) { o << std::hex << std::showbase << std::showpos << std::scientific << std::setprecision(r.i(0, 12)) << std::uppercase; c.ev("foreign-stream-state"); }
		auto fl = o.flags(); auto pr = o.precision(); char fi = o.fill(); t.exportTo(o, f); c.check(o.flags() == fl && o.precision() == pr && o.fill() == fi, "stream-state"); return o.str(); };
	bool ok; S s;
	s = out(ExportFormat::CSV); if (nc || tagn.size()) { bool degenerate = false; if (nc == 0) for (auto& q : want) degenerate |= q[0].empty(); if (!degenerate) cmp(rd_csv(s), "csv", nullptr, s); }
	s = out(ExportFormat::TSV); { bool degenerate = false; if (nc == 0) for (auto& q : want) degenerate |= q[0].empty(); if (!degenerate) cmp(rd_tsv(s), "tsv", nullptr, s); }
	s = out(ExportFormat::HTML); { Grid g = rd_html(s, ok); c.check(ok, "html-structure"); cmp(g, "html", nullptr, s); }
	// line breaks inside a LaTeX cell are blanks to LaTeX, and a Markdown cell cannot hold one: compared modulo those
	s = out(ExportFormat::LaTeX); { Grid g = rd_latex(s, nc + 1, ok); c.check(ok, "latex-structure"); bool odd = false; for (auto& q : want) for (auto& f : q) odd |= f.find_first_of("\n\r") != S::npos; if (nc == 0) for (auto& q : want) odd |= trim(q[0]).empty(); if (!odd) cmp(g, "latex", nullptr, s); }
	s = out(ExportFormat::Markdown); { Grid g = rd_md(s, ok); c.check(ok, "markdown-structure", [&] { return scratch::show(s); }); cmp(g, "markdown", [](S x) { return rep(rep(x, "\r", ""), "\n", "<br>"); }, s); }
	c.ev("exported", 5);
	if (r.coin(.15)) { ExportFormat f = (ExportFormat)r.i(0, 5); S p = scratch::file("table.out"); std::ostringstream o; t.exportTo(o, f); t.exportToFile(p, f); c.check(scratch::read(p) == o.str(), "file-content"); t.printToFile(p); c.check(scratch::read(p) == t.toString(), "print-file-content"); c.ev("to-file");
		c.throws<MMLException>([&] { t.exportToFile(scratch::dir() + "/no/such/dir/x", f); }, "unopenable");
		if (!o.str().empty()) { c.throws<MMLException>([&] { t.exportToFile("/dev/full", f); }, "full-device"); c.throws<MMLException>([&] { t.printToFile("/dev/full"); }, "full-device"); c.ev("full-device"); } }
	S w = word(r, 1); c.check(Csv::unescape(Csv::escape(w)) == w || (w.size() >= 2 && w.front() == '"' && !Csv::needsQuoting(w)), "csv-unescape", [&] { return scratch::show(w); });
}
FAMILY(export_string_string, 800) { exports<S, S>(c); }
FAMILY(export_string_double, 600) { exports<S, double>(c); }
FAMILY(export_int_string, 500) { exports<int, S>(c); }

// ---------------------------------------------------------------- vectors shown side by side
FAMILY(vector_table, 800) {
	auto& r = c.r; int nv = r.i(1, 5); std::vector<Col> cols; std::vector<Vector<Real>> vs; size_t mx = 0;
	for (int k = 0; k < nv; k++) { cols.push_back(rcol(r, false)); Vector<Real> v((int)r.sz(0, 7, 60)); for (int i = 0; i < v.size(); i++) v[i] = cell<double>(r, 0); mx = std::max<size_t>(mx, v.size()); vs.push_back(v); }
	TableStyle st; int border = r.i(0, 5); bool head = r.coin(.8); st.border((BorderStyle)border).header(head); VectorTablePrinter t; t.style(st);
	for (int k = 0; k < nv; k++) { if (r.coin(.2)) { Col d; d.name = cols[k].name; cols[k] = d; t.addVector(d.name, vs[k]); } else t.addVector(cols[k].cf(), vs[k]); }
	Row hd; for (auto& k : cols) hd.push_back(k.name); Grid want(mx, Row(nv)); for (int k = 0; k < nv; k++) for (int i = 0; i < vs[k].size(); i++) want[i][k] = shown(vs[k][i], cols[k].t, cols[k].prec);
	std::vector<int> w; for (int k = 0; k < nv; k++) { int x = cols[k].width; if (cols[k].autow) { c.ev("vector-auto-width"); x = (int)hd[k].size(); for (auto& q : want) x = std::max<int>(x, q[k].size()); } w.push_back(x); }
	S s; if (!c.nothrow([&] { s = t.toString(); }, "prints")) return;
	auto L = lines(s); size_t p = 0; bool b = border != 0;
	if (!c.check(L.size() == (b ? (head ? 2 : 0) + 1 : 0) + (head ? 1 : 0) + mx, "line-count")) return;
	if (head) { if (b) rule_ok(c, L[p++], w, border); line_ok(c, L[p++], hd, cols, w, border, "header"); if (b) rule_ok(c, L[p++], w, border); }
	for (size_t i = 0; i < mx; i++) { line_ok(c, L[p++], want[i], cols, w, border, "cell"); c.ev("cell", nv); }
	if (b) rule_ok(c, L[p++], w, border);
}

// ---------------------------------------------------------------- Print of vectors and matrices
static bool num_ok(const S& f, double v, int prec, bool fixed, bool sci) {
	S x = trim(f); if (std::isinf(v)) return x == (v > 0 ? "inf" : "-inf"); char* e; double g = strtod(x.c_str(), &e); if (x.empty() || *e) return false;
	double tol = fixed ? 0.5000001 * std::pow(10., -prec) + 4e-16 * std::fabs(v) : (v == 0 ? 0 : 0.5000001 * std::pow(10., std::floor(std::log10(std::fabs(v)) + 1e-12) - (sci ? prec : std::max(prec, 1) - 1)) + 4e-16 * std::fabs(v));
	return std::fabs(g - v) <= tol;
}
struct Fx { std::ostringstream o; std::ios_base::fmtflags f; std::streamsize p; char fill;
	Fx(mon::Rng& r) { if (r.coin(.6)) o.precision(r.i(0, 15)); if (r.coin(.2)) o << std::left; f = o.flags(); p = o.precision(); fill = o.fill(); }
	void same(mon::Case& c) { c.check(o.flags() == f && o.precision() == p && o.fill() == fill && o.width() == 0, "stream-state", [&] { return "precision " + std::to_string(o.precision()) + " was " + std::to_string(p); }); c.ev("stream-state"); } };
template<class V> static void vec_ok(mon::Case& c, const S& s, const V& v, int n, int w, int p, double thr) {
	if (!c.check(s.size() >= 2 && s.front() == '[' && s.back() == ']', "brackets", [&] { return s; })) return;
	S in = s.substr(1, s.size() - 2); Row f = split(in, ", "); if (n == 0) { c.check(in.empty(), "empty-vector"); return; }
	if (!c.check((int)f.size() == n, "elements", [&] { return s; })) return;
	for (int i = 0; i < n; i++) { double x = std::fabs(v[i]) > thr ? v[i] : 0; c.check((int)f[i].size() >= w && num_ok(f[i], x, p, false, false), "element", [&] { return "#" + std::to_string(i) + " [" + f[i] + "] for " + mon::str((double)v[i]); }); c.ev("cell"); }
}
FAMILY(vector_print, 1200) {
	auto& r = c.r; int n = (int)r.sz(0, 8, 150), w = r.i(0, 20), p = r.i(1, 15); Vector<Real> v(n); for (int i = 0; i < n; i++) v[i] = cell<double>(r, 0); std::vector<double> in(n); for (int i = 0; i < n; i++) in[i] = v[i]; c.in("v", in); c.in("w", (double)w); c.in("p", (double)p);
	double thr = r.coin(.4) ? std::fabs(r.logmag(-3, 1)) : 0;
	{ Fx x(r); if (thr > 0) v.Print(x.o, w, p, thr); else v.Print(x.o, w, p); vec_ok(c, x.o.str(), v, n, w, p, thr); x.same(c); }
	{ Fx x(r); v.PrintLine(x.o, "msg: ", w, p); S s = x.o.str(); c.check(s.compare(0, 5, "msg: ") == 0 && s.back() == '\n', "message"); if (s.size() > 6) vec_ok(c, s.substr(5, s.size() - 6), v, n, w, p, 0); x.same(c); }
	{ Fx x(r); v.PrintCol(x.o, w, p); auto L = lines(x.o.str()); if (c.check((int)L.size() == n, "column-lines")) for (int i = 0; i < n; i++) c.check((int)L[i].size() >= w && num_ok(L[i], v[i], p, false, false), "column-element"); x.same(c); }
	{ Fx x(r); x.o << v; vec_ok(c, x.o.str(), v, n, 0, Defaults::VectorPrintPrecision, 0); x.same(c); }
	vec_ok(c, v.to_string(w, p), v, n, w, p, 0);
	VectorN<Real, 4> u; for (int i = 0; i < 4; i++) u[i] = cell<double>(r, 0);
	{ Fx x(r); if (thr > 0) u.Print(x.o, w, p, thr); else u.Print(x.o, w, p); vec_ok(c, x.o.str(), u, 4, w, p, thr); x.same(c); }
	{ Fx x(r); x.o << u; vec_ok(c, x.o.str(), u, 4, 0, Defaults::VectorNPrintPrecision, 0); x.same(c); }
	vec_ok(c, u.to_string(w, p), u, 4, w, p, 0);
}
template<class M> static void mat_ok(mon::Case& c, const S& s0, const M& m, int R, int C, const MatrixPrintFormat& f) {
	auto L = lines(s0); size_t p = 0; S hd = "Rows: " + std::to_string(R) + " Cols: " + std::to_string(C);
	if (f.showHeader) { if (!c.check(!L.empty() && L[0].compare(0, hd.size(), hd) == 0, "header", [&] { return s0; })) return; p = 1; }
	auto row = [&](S l, int i, const char* a, const char* b) {
		if (*a) { if (!c.check(l.compare(0, strlen(a), a) == 0, "brackets", [&] { return l; })) return; l = l.substr(strlen(a)); }
		if (*b) { size_t n = strlen(b); if (!c.check(l.size() >= n && l.compare(l.size() - n, n, b) == 0, "brackets", [&] { return l; })) return; l = l.substr(0, l.size() - n); }
		Row q; if (trim(f.delimiter).empty()) { std::istringstream is(l); S w; while (is >> w) q.push_back(w); } else q = split(l, f.delimiter);
		if (!c.check((int)q.size() == C, "columns", [&] { return l; })) return;
		for (int j = 0; j < C; j++) { double v = m(i, j); if (f.zeroThreshold > 0 && std::fabs(v) <= f.zeroThreshold) v = 0; c.check((trim(f.delimiter).empty() || (int)q[j].size() >= f.width) && num_ok(q[j], v, f.precision, f.fixed && !f.scientific, f.scientific), "element", [&] { return "(" + std::to_string(i) + "," + std::to_string(j) + ") [" + q[j] + "] for " + mon::str(v); }); c.ev("cell"); } };
	if (f.compactMode && R <= 3 && C <= 3) {
		if (!c.check(L.size() == p + 1, "compact-one-line", [&] { return s0; })) return; S l = L[p]; c.ev("compact");
		if (f.showBrackets) { if (!c.check(l.size() >= 2 && l.front() == '[' && l.back() == ']', "brackets")) return; l = l.substr(1, l.size() - 2); }
		auto rows = split(l, "; "); if (c.check((int)rows.size() == R, "compact-rows")) for (int i = 0; i < R; i++) row(rows[i], i, "", "");
	} else { if (!c.check(L.size() == p + R, "rows", [&] { return s0; })) return; for (int i = 0; i < R; i++) row(L[p + i], i, f.showBrackets ? "[ " : "", f.showBrackets ? " ]" : ""); }
}
static MatrixPrintFormat rfmt(mon::Rng& r) {
	switch (r.i(0, 6)) { case 0: return MatrixPrintFormat::Default(); case 1: return MatrixPrintFormat::Compact(); case 2: return MatrixPrintFormat::Scientific(); case 3: return MatrixPrintFormat::HighPrecision(); case 4: return MatrixPrintFormat::NoDelimiter(); default: break; }
	MatrixPrintFormat f; f.width = r.i(0, 20); f.precision = r.i(1, 12); f.scientific = r.coin(.3); f.fixed = r.coin(.5); f.showHeader = r.coin(.7); f.showBrackets = r.coin(.7); f.compactMode = r.coin(.4); f.delimiter = r.pick({S(", "), S(" "), S(" | "), S(","), S("\t")}); f.zeroThreshold = r.coin(.4) ? std::fabs(r.logmag(-3, 1)) : 0; return f;
}
template<int R, int C> static void matnm(mon::Case& c, const MatrixPrintFormat& f) {
	MatrixNM<Real, R, C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = c.r.coin(.1) ? 0 : c.r.logmag(-6, 6);
	{ Fx x(c.r); m.Print(x.o, f); mat_ok(c, x.o.str(), m, R, C, f); x.same(c); }
	MatrixPrintFormat d; { Fx x(c.r); x.o << m; d.width = 10; d.precision = 3; mat_ok(c, x.o.str(), m, R, C, d); x.same(c); }
	d.width = f.width; d.precision = f.precision; mat_ok(c, m.to_string(f.width, f.precision), m, R, C, d);
	d.zeroThreshold = std::fabs(c.r.logmag(-3, 1)); std::ostringstream o; m.Print(o, f.width, f.precision, (Real)d.zeroThreshold); mat_ok(c, o.str(), m, R, C, d);
}
FAMILY(matrix_print, 1200) {
	auto& r = c.r; int R = (int)r.sz(1, 5, 40), C = (int)r.sz(1, 5, 40); Matrix<Real> m(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = r.coin(.1) ? 0 : r.logmag(-6, 6);
	auto f = rfmt(r); c.in("R", (double)R); c.in("C", (double)C); c.in("w", (double)f.width); c.in("p", (double)f.precision); c.in("thr", f.zeroThreshold);
	{ Fx x(r); m.Print(x.o, f); mat_ok(c, x.o.str(), m, R, C, f); x.same(c); }
	{ Fx x(r); x.o << m; MatrixPrintFormat g; g.fixed = false; g.width = 10; g.precision = 3; mat_ok(c, x.o.str(), m, R, C, g); x.same(c); }
	{ MatrixPrintFormat g; g.fixed = false; g.width = f.width; g.precision = f.precision; mat_ok(c, m.to_string(f.width, f.precision), m, R, C, g); }
	{ Fx x(r); double thr = std::fabs(r.logmag(-3, 1)); m.Print(x.o, f.width, f.precision, (Real)thr); MatrixPrintFormat g; g.fixed = false; g.width = f.width; g.precision = f.precision; g.zeroThreshold = thr; mat_ok(c, x.o.str(), m, R, C, g); x.same(c); }
	if (f.zeroThreshold > 0) c.ev("zero-threshold");
	switch (r.i(0, 3)) { case 0: matnm<2, 3>(c, f); break; case 1: matnm<3, 3>(c, f); break; case 2: matnm<4, 2>(c, f); break; default: matnm<1, 5>(c, f); }
	{ Matrix<Real> e; Fx x(r); e.Print(x.o, f); c.check(x.o.str().empty() == !f.showHeader, "empty-matrix"); x.same(c); }
	{ Matrix<int> k(2, 2); for (int i = 0; i < 4; i++) k(i / 2, i % 2) = r.i(-999, 999); std::ostringstream o; k.Print(o, MatrixPrintFormat::Default()); c.check(o.str().find(std::to_string(k(1, 1))) != S::npos, "integer-matrix"); }
}
FAMILY(stream_guard, 200) {
	auto& r = c.r; std::ostringstream o; o.precision(r.i(0, 20)); o.width(r.i(0, 9)); if (r.coin(.5)) o << std::hex; auto f = o.flags(); auto p = o.precision(); auto w = o.width();
	try { StreamStateGuard g(o); o << std::scientific << std::setprecision(3) << std::setw(7) << 1.5; if (r.coin(.5)) throw 1; } catch (int) { c.ev("guard-unwound"); }
	c.check(o.flags() == f && o.precision() == p && o.width() == w, "guard"); c.ev("stream-state");
}
int main(int argc, char** argv) { scratch::quiet(); return mon::main_impl(argc, argv); }
