// C35: CSV/TSV/JSON tables parsed faithfully; malformed JSON rejected; dataset operations keep the cells.
#include "mon.h"
#include "../C34/scratch.h"
#include "mml/tools/DataLoader.h"
using namespace MML;
using namespace MML::Data;
using mon::Case;

// ---- reference table --------------------------------------------------------------------------
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1); }
static bool missTok(const std::string& t) { std::string l; for (unsigned char ch : t) l += (char)(ch < 128 ? tolower(ch) : ch); for (const char* m : {"", "na", "n/a", "nan", "null", "none", ".", "?", "-"}) if (l == m) return true; return false; }
struct Tab { std::vector<std::string> names; std::vector<ColumnType> kind; std::vector<std::vector<std::string>> cell; /* [col][row] */ int rows = 0; };

// does the loaded cell show what the text says?
static bool cellOK(const DataColumn& col, size_t r, const std::string& raw, std::string& why, bool& dropped) {
	std::string t = trim(raw); dropped = false;
	if (missTok(t)) { why = "missing value not flagged"; return col.IsMissing(r); }
	bool isReal = false, isInt = false; double d = 0; long long k = 0;
	{ bool plain = true; for (char ch : t) if (!isdigit((unsigned char)ch) && !strchr("+-.eE", ch)) plain = false; char* e; if (plain) { d = strtod(t.c_str(), &e); isReal = *e == 0 && std::isfinite(d); } 
	  bool dig = true; for (size_t i = 0; i < t.size(); i++) if (!isdigit((unsigned char)t[i]) && !(i == 0 && (t[i] == '+' || t[i] == '-') && t.size() > 1)) dig = false; if (dig) { errno = 0; k = strtoll(t.c_str(), nullptr, 10); isInt = errno == 0 && k >= INT_MIN && k <= INT_MAX; } }
	std::string l; for (unsigned char ch : t) l += (char)(ch < 128 ? tolower(ch) : ch);
	bool bt = l == "true" || l == "yes" || l == "t" || l == "y" || l == "1", bf = l == "false" || l == "no" || l == "f" || l == "n" || l == "0";
	bool conv = true; switch (col.type) { case ColumnType::REAL: conv = isReal; break; case ColumnType::INT: conv = isInt; break; case ColumnType::BOOL: conv = bt || bf; break; default: break; }
	if (!conv) { dropped = true; why = "unconvertible text not flagged missing"; return col.IsMissing(r); }
	if (col.IsMissing(r)) { why = "value reported missing"; return false; }
	why = "value differs";
	switch (col.type) {
	case ColumnType::REAL: return r < (size_t)col.realData.size() && col.realData[r] == d && col.GetReal(r) == d;
	case ColumnType::INT: return r < (size_t)col.intData.size() && col.intData[r] == k && col.GetReal(r) == (double)k;
	case ColumnType::BOOL: return r < col.boolData.size() && col.boolData[r] == bt && col.GetReal(r) == (bt ? 1.0 : 0.0);
	case ColumnType::STRING: return r < col.stringData.size() && col.stringData[r] == t && col.GetAsString(r) == t;
	case ColumnType::DATE: return r < col.dateData.size() && col.dateData[r] == t && col.GetAsString(r) == t;
	case ColumnType::TIME: return r < col.timeData.size() && col.timeData[r] == t && col.GetAsString(r) == t;
	case ColumnType::DATETIME: { size_t s = t.find_first_of("T "); std::string a = s == std::string::npos ? t : t.substr(0, s), b = s == std::string::npos ? "" : t.substr(s + 1); return r < col.dateData.size() && r < col.timeData.size() && col.dateData[r] == a && col.timeData[r] == b; }
	default: return false; }
}
static bool overflow(const std::string& raw) { std::string t = trim(raw); if (t.empty() || t.find_first_not_of("0123456789+-.eE") != std::string::npos) return false; char* e; double d = strtod(t.c_str(), &e); return *e == 0 && std::isinf(d); }
static void compare(Case& c, const Dataset& ds, const Tab& T, bool typed) {
	if (!c.check((int)ds.NumRows() == T.rows, "rows", [&] { return mon::str((double)ds.NumRows()) + " instead of " + mon::str((double)T.rows); })) return;
	if (!c.check(ds.NumColumns() == T.names.size(), "columns", [&] { return mon::str((double)ds.NumColumns()); })) return;
	for (size_t j = 0; j < T.names.size(); j++) {
		const DataColumn& col = ds[j];
		if (!c.check(col.name == T.names[j], "column-name", [&] { return "'" + col.name + "' instead of '" + T.names[j] + "'"; })) return;
		int nonmiss = 0, drop = 0, miss = 0, over = 0;
		for (int r = 0; r < T.rows; r++) {
			std::string why; bool d; const std::string& raw = T.cell[j][r];
			bool ok = cellOK(col, r, raw, why, d);
			if (!c.check(ok, "cell", [&] { return why + ": '" + raw + "' in a " + ColumnTypeToString(col.type) + " column shown as '" + col.GetAsString(r) + "'" + (col.IsMissing(r) ? " (missing)" : ""); })) return;
			if (missTok(trim(raw))) { miss++; c.ev("missing-cell"); } else { nonmiss++; drop += d; if (d && overflow(raw)) { over++; } } c.ev("cell");
		}
		c.check(drop - over <= 0.1 * nonmiss + 1e-9, "too-many-values-dropped", [&] { return mon::str((double)drop) + " of " + mon::str((double)nonmiss) + " values of column " + col.name + " do not fit its type " + ColumnTypeToString(col.type); });
		if (drop) c.ev("minority-value");
		c.check((int)col.CountMissing() == miss + drop, "missing-count");
		c.check((int)col.Size() == T.rows, "column-size");
		if (typed && nonmiss) c.check(col.type == T.kind[j], "inferred-type", [&] { return ColumnTypeToString(col.type) + " instead of " + ColumnTypeToString(T.kind[j]) + " for '" + T.cell[j][0] + "'"; });
		if (nonmiss) c.ev(T.kind[j] == ColumnType::INT ? "col-int" : T.kind[j] == ColumnType::REAL ? "col-real" : T.kind[j] == ColumnType::BOOL ? "col-bool" : T.kind[j] == ColumnType::STRING ? "col-string" : "col-time");
	}
}
static std::string num(double d, int p) { char b[64]; snprintf(b, sizeof b, "%.*g", p, d); return b; }
static std::string value(Case& c, ColumnType k, bool json) {
	mon::Rng& r = c.r; char b[64];
	switch (k) {
	case ColumnType::INT: return r.coin(0.05) ? r.pick({std::string("2147483647"), std::string("-2147483648"), std::string("0")}) : (!json && r.coin(0.1) ? "+" : "") + std::to_string(r.coin() ? r.i(0, 99) : r.i(json ? -99999 : 0, 999999));
	case ColumnType::REAL: { if (r.coin(0.04)) return r.pick({std::string("4e-320"), std::string("1.7976931348623157e308"), std::string("2147483648"), std::string("-9007199254740993"), std::string("0.1")}); std::string s = num(r.logmag(-20, 20), r.coin() ? 17 : 5); if (s.find_first_of(".e") == std::string::npos) s += ".5"; return s; }
	case ColumnType::BOOL: return json ? r.pick({std::string("true"), std::string("false")}) : r.pick({std::string("true"), std::string("False"), std::string("yes"), std::string("NO"), std::string("t"), std::string("F"), std::string("Y"), std::string("n")});
	case ColumnType::DATE: snprintf(b, sizeof b, "%04d%c%02d%c%02d", r.i(1900, 2100), '-', r.i(1, 12), '-', r.i(1, 28)); return b;
	case ColumnType::TIME: snprintf(b, sizeof b, "%02d:%02d:%02d", r.i(0, 23), r.i(0, 59), r.i(0, 59)); return b;
	case ColumnType::DATETIME: snprintf(b, sizeof b, "%04d-%02d-%02d%c%02d:%02d:%02d", r.i(1900, 2100), r.i(1, 12), r.i(1, 28), r.pick({'T', ' '}), r.i(0, 23), r.i(0, 59), r.i(0, 59)); return b;
	default: { std::string s; int n = r.i(1, 9); static const char* bits[] = {"a", "Zed", " ", ",", "\"", "\"\"", "\t", ";", "é", "0", "x-1", "'", "日本", "T", ":", "#"}; for (int i = 0; i < n; i++) s += bits[r.i(0, 15)]; s = "s" + s + r.pick({std::string(""), std::string("."), std::string("!")}); return s; } }
}
static Tab table(Case& c, bool json) {
	Tab T; int n = (int)c.r.sz(1, 6, 40); T.rows = c.r.coin(0.1) ? c.r.i(0, 2) : c.r.coin(0.1) ? c.r.i(60, 200) : c.r.i(1, 25);
	for (int j = 0; j < n; j++) {
		ColumnType k = c.r.pick({ColumnType::REAL, ColumnType::REAL, ColumnType::INT, ColumnType::INT, ColumnType::BOOL, ColumnType::STRING, ColumnType::STRING, ColumnType::DATE, ColumnType::TIME, ColumnType::DATETIME});
		double pm = c.r.pick({0.0, 0.0, 0.2, 0.6}); T.names.push_back(std::string("c") + std::to_string(j) + (c.r.coin(0.2) ? " (m/s)" : "")); T.kind.push_back(k);
		std::vector<std::string> v; for (int i = 0; i < T.rows; i++) v.push_back(c.r.coin(pm) ? (json ? "" : c.r.pick({std::string(""), std::string("NA"), std::string("n/a"), std::string("NaN"), std::string("?"), std::string("-"), std::string("null"), std::string("."), std::string("None")})) : value(c, k, json));
		T.cell.push_back(v);
	}
	// a large integer or a fraction among integers makes the column real
	for (int j = 0; j < n; j++) if (T.kind[j] == ColumnType::INT && T.rows > 0 && c.r.coin(0.4)) { int q = c.r.i(0, T.rows - 1); T.cell[j][q] = c.r.pick({std::string("1.5"), std::string("2147483648"), std::string("-2147483649"), std::string("123456789012"), std::string("0.25"), std::string("2e0")}); T.kind[j] = ColumnType::REAL; c.ev("mixed-int-real"); }
	return T;
}
static std::string quoteCSV(const std::string& s) { std::string o = "\""; for (char ch : s) { if (ch == '"') o += '"'; o += ch; } return o + "\""; }
static std::string renderCSV(Case& c, const Tab& T, char delim, bool header) {
	std::string eol = c.r.pick({std::string("\n"), std::string("\r\n")}), o = c.r.coin(0.15) ? "\xEF\xBB\xBF" : "";
	auto field = [&](const std::string& s) { bool need = s.find_first_of(std::string("\"\t,;") + delim) != std::string::npos; return need || c.r.coin(0.1) ? quoteCSV(s) : (c.r.coin(0.1) && delim != ' ' ? " " + s + " " : s); };
	if (header) { for (size_t j = 0; j < T.names.size(); j++) o += (j ? std::string(1, delim) : "") + field(T.names[j]); o += eol; }
	for (int r = 0; r < T.rows; r++) { for (size_t j = 0; j < T.names.size(); j++) o += (j ? std::string(1, delim) : "") + field(T.cell[j][r]); if (r + 1 < T.rows || c.r.coin(0.8)) o += eol; if (c.r.coin(0.03)) o += eol; }
	return o;
}
FAMILY(csv, 400) {
	Tab T = table(c, false); char d = c.idx % 3 == 0 ? '\t' : c.r.pick({',', ',', ';', '|'}); bool header = T.rows == 0 || c.r.coin(0.8);
	// a record that is nothing but blanks in a one-column table cannot be told from an empty line
	if (T.names.size() == 1) for (auto& s : T.cell[0]) if (trim(s).empty()) s = "NA";
	std::string txt = renderCSV(c, T, d, header); c.note(scratch::show(txt));
	if (!header) for (size_t j = 0; j < T.names.size(); j++) T.names[j] = "Column" + std::to_string(j);
	if (c.idx % 2) { auto f = scratch::file(d == '\t' ? "t.tsv" : "t.csv"); scratch::write(f, txt); Dataset ds = d == '\t' ? (c.r.coin() ? LoadTSV(f, header) : LoadData(f, header)) : d == ',' && c.r.coin() ? LoadData(f, header) : LoadCSV(f, header, d); compare(c, ds, T, true); c.ev("csv-file"); }
	else { Dataset ds = d == '\t' ? LoadFromString(txt, DataFormat::TSV, header) : LoadFromCSVString(txt, d, header); compare(c, ds, T, true); c.ev("csv-string"); }
}
// a minority (<= 10 %) of values that do not fit the column: flagged missing, never mangled
FAMILY(csv_minority, 150) {
	Tab T; T.rows = c.r.i(10, 60); ColumnType k = c.r.pick({ColumnType::REAL, ColumnType::INT, ColumnType::BOOL, ColumnType::DATE}); T.names = {"id", "v"}; T.kind = {ColumnType::INT, k}; T.cell.resize(2);
	for (int i = 0; i < T.rows; i++) { T.cell[0].push_back(std::to_string(i)); T.cell[1].push_back(value(c, k, true)); }
	int bad = c.r.i(1, T.rows / 10); for (int i = 0; i < bad; i++) T.cell[1][c.r.i(0, T.rows - 1)] = c.r.pick({std::string("12 apples"), std::string("3.5kg"), std::string("1,5"), std::string("1e999"), std::string("--5"), std::string("1.2.3"), std::string("0x1F"), std::string("truely"), std::string("abc"), std::string("7 8")});
	std::string txt = renderCSV(c, T, ';', true); c.note(scratch::show(txt));
	compare(c, LoadFromCSVString(txt, ';', true), T, false); c.ev("minority-table");
}
// values of two kinds in one column: no kind reaches the documented 90 %, so the text is kept
FAMILY(csv_mixed, 200) {
	std::vector<ColumnType> ks{ColumnType::INT, ColumnType::REAL, ColumnType::BOOL, ColumnType::DATE, ColumnType::TIME, ColumnType::DATETIME, ColumnType::STRING};
	ColumnType a = c.r.pick({ColumnType::INT, ColumnType::REAL, ColumnType::BOOL, ColumnType::DATE, ColumnType::TIME, ColumnType::DATETIME}), b = a; bool num = a == ColumnType::INT || a == ColumnType::REAL; while (b == a || (num && (b == ColumnType::INT || b == ColumnType::REAL))) b = ks[c.r.i(0, 6)];
	Tab T; T.rows = c.r.i(10, 60); int nb = c.r.i((int)std::ceil(.11 * T.rows + 1e-9), (int)(.85 * T.rows)); T.names = {"id", "v"}; T.kind = {ColumnType::INT, ColumnType::STRING}; T.cell.resize(2); std::vector<int> w(T.rows); for (int i = 0; i < nb; i++) w[i] = 1; c.r.shuffle(w);
	for (int i = 0; i < T.rows; i++) { T.cell[0].push_back(std::to_string(i)); T.cell[1].push_back(value(c, w[i] ? b : a, true)); }
	std::string txt = renderCSV(c, T, ';', true); c.note(scratch::show(txt)); compare(c, LoadFromCSVString(txt, ';', true), T, true); c.ev("mixed-table");
}
// very long cells are data like any other
FAMILY(long_cells, 12) {
	int n = c.r.pick({3000, 30000, 400000}), at = c.r.i(0, 2); auto run = [&](char ch, int k) { return std::string(k, ch); }; int h = c.r.i(0, 3); std::string d = h == 0 ? run('7', n) : h == 1 ? "0." + run('3', n) : h == 2 ? run('1', 200) + "." + run('9', n) : "-" + run('0', n) + "1.5", tm = "12:34:56." + run('4', n), bad = c.r.pick({run('5', n) + "x", run('1', n) + ".." , run('2', n) + "e+"}), txt = run(c.r.pick({'x', '-', ':', '.'}), n) + "z";
	Tab T; T.rows = 3; T.names = {"i", "real", "time", "text", "nearly"}; T.kind = {ColumnType::INT, ColumnType::REAL, ColumnType::TIME, ColumnType::STRING, ColumnType::STRING}; T.cell.resize(5); for (int i = 0; i < 3; i++) { T.cell[0].push_back(std::to_string(i)); T.cell[1].push_back(i == at ? d : "1.5"); T.cell[2].push_back(i == at ? tm : "01:02:03"); T.cell[3].push_back(i == at ? txt : "s"); T.cell[4].push_back(i == at ? bad : "s"); }
	compare(c, LoadFromCSVString(renderCSV(c, T, ',', true), ',', true), T, h != 0); c.ev("long-cell");
	if (h) { std::string q = h == 3 ? run('9', 200) + "." + run('0', n) : d; Dataset ds = LoadFromJSONString("[{\"a\":" + q + ",\"b\":\"" + txt + "\"}]"); c.check(ds.NumRows() == 1 && ds["a"].GetReal(0) == strtod(q.c_str(), nullptr) && ds["b"].GetAsString(0) == txt, "long_json_value"); c.throws<DataError>([&] { LoadFromJSONString("[{\"a\":" + q + "..}]"); }, "long_bad_json_number"); }
}
FAMILY(csv_shape, 120) {
	int n = c.r.i(2, 5), rows = c.r.i(2, 12); std::string txt; std::vector<std::vector<std::string>> v; int bad = c.r.i(0, rows - 1), w = c.r.coin() ? c.r.i(1, n - 1) : n + c.r.i(1, 3);
	for (int j = 0; j < n; j++) txt += (j ? ",h" : "h") + std::to_string(j); txt += "\n";
	for (int r = 0; r < rows; r++) { std::vector<std::string> q; int m = r == bad ? w : n; for (int j = 0; j < m; j++) { q.push_back("k" + std::to_string(c.r.i(0, 999))); txt += (j ? "," : "") + q.back(); } txt += "\n"; v.push_back(q); }
	c.note(scratch::show(txt)); auto f = scratch::file("s.csv"); scratch::write(f, txt);
	CSVLoadOptions o; o.strictSchema = true; c.throws<DataError>([&] { LoadCSV(f, o); }, "row-width-mismatch-accepted-in-strict-mode");
	std::vector<std::string> warn; o.strictSchema = false; o.warnings = &warn; Dataset d = LoadCSV(f, o); c.check(warn.size() == 1, "width-mismatch-not-warned");
	Tab T; T.rows = rows; for (int j = 0; j < n; j++) { T.names.push_back("h" + std::to_string(j)); T.kind.push_back(ColumnType::STRING); std::vector<std::string> q; for (int r = 0; r < rows; r++) q.push_back(j < (int)v[r].size() ? v[r][j] : ""); T.cell.push_back(q); }
	compare(c, d, T, true); o.warnings = nullptr; o.inferTypes = false; compare(c, LoadCSV(f, o), T, true); c.ev("ragged");
	for (auto bf : {std::string(""), std::string("\n\n  \n")}) { scratch::write(f, bf); c.throws<DataError>([&] { LoadCSV(f); }, "empty-file-accepted"); c.throws<DataError>([&] { LoadFromCSVString(bf); }, "empty-text-accepted"); auto r = LoadCSVSafe(f); c.check(!r.success && !r.errorMessage.empty(), "empty-file-reported-success"); }
	c.throws<DataError>([&] { LoadData(scratch::dir() + "/none.csv"); }, "missing-file-accepted"); c.throws<DataError>([&] { LoadData(scratch::dir() + "/none.json"); }, "missing-file-accepted");
	c.check(!LoadTSVSafe(scratch::dir() + "/none").success && !LoadJSONSafe(scratch::dir() + "/none").success, "missing-file-reported-success");
}

// ---- JSON -----------------------------------------------------------------------------------------
static std::string jstr(Case& c, const std::string& s) { std::string o = "\""; char b[16];
	for (size_t i = 0; i < s.size(); i++) { unsigned char ch = s[i]; if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += c.r.coin() ? "\\t" : "\\u0009"; else if (ch == '\r') o += "\\r"; else if (ch == '\b') o += "\\b"; else if (ch == '\f') o += "\\f"; else if (ch == '/' && c.r.coin()) o += "\\/"; else if (ch < 128 && c.r.coin(0.03)) { snprintf(b, sizeof b, c.r.coin() ? "\\u%04x" : "\\u%04X", ch); o += b; } 
		else if ((ch & 0xE0) == 0xC0 && c.r.coin()) { unsigned u = (ch & 31) << 6 | (s[i + 1] & 63); i++; snprintf(b, sizeof b, "\\u%04x", u); o += b; }
		else if ((ch & 0xF0) == 0xE0 && c.r.coin()) { unsigned u = (ch & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63); i += 2; snprintf(b, sizeof b, "\\u%04X", u); o += b; }
		else if ((ch & 0xF8) == 0xF0 && c.r.coin()) { unsigned u = (ch & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63); i += 3; u -= 0x10000; snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + (u >> 10), 0xDC00 + (u & 1023)); o += b; }
		else o += ch; } return o + "\""; }
static std::string ws(Case& c) { return c.r.coin(0.8) ? "" : c.r.pick({std::string(" "), std::string("\n"), std::string("\t"), std::string("\r\n  ")}); }
// rows in which keys may be absent, new, repeated or reordered; the reference keeps the row of every value
static std::string renderJSON(Case& c, const Tab& T, Tab& want, bool irregular) {
	std::string o = c.r.coin(0.1) ? "\xEF\xBB\xBF" : ""; o += ws(c) + "["; std::vector<std::string> order; std::map<std::string, std::vector<std::string>> col; std::map<std::string, ColumnType> kind;
	for (int r = 0; r < T.rows; r++) {
		std::vector<int> js; for (size_t j = 0; j < T.names.size(); j++) if (!irregular || c.r.coin(0.7)) js.push_back(j);
		if (irregular && c.r.coin(0.5)) c.r.shuffle(js); if (irregular && !js.empty() && c.r.coin(0.15)) { js.push_back(js[0]); c.ev("repeated-key"); }
		o += (r ? "," : "") + ws(c) + "{"; std::set<int> seen;
		for (size_t q = 0; q < js.size(); q++) { int j = js[q]; const std::string& v = T.cell[j][r]; std::string use = v, lit;
			if (q + 1 < js.size() && std::count(js.begin() + q + 1, js.end(), j)) use = value(c, T.kind[j], true); // overwritten by the later one
			bool raw = T.kind[j] == ColumnType::INT || T.kind[j] == ColumnType::REAL || T.kind[j] == ColumnType::BOOL;
			lit = use.empty() ? "null" : raw && (use[0] != '+') ? use : jstr(c, use);
			o += (q ? "," : "") + ws(c) + jstr(c, T.names[j]) + ws(c) + ":" + ws(c) + lit + ws(c);
			if (!col.count(T.names[j])) { order.push_back(T.names[j]); kind[T.names[j]] = T.kind[j]; col[T.names[j]].assign(T.rows, ""); }
			if (!seen.count(j)) seen.insert(j); col[T.names[j]][r] = use; }
		if (js.empty()) c.ev("empty-object");
		o += "}" + ws(c);
	}
	o += "]" + ws(c); want.rows = order.empty() ? 0 : T.rows; for (auto& n : order) { bool ints = kind[n] == ColumnType::REAL; for (auto& v : col[n]) if (!v.empty()) { bool dg = v.find_first_not_of("-0123456789") == std::string::npos; ints = ints && dg && atoll(v.c_str()) <= INT_MAX && atoll(v.c_str()) >= INT_MIN; } if (ints) kind[n] = ColumnType::INT; want.names.push_back(n); want.kind.push_back(kind[n]); want.cell.push_back(col[n]); } return o;
}
FAMILY(json, 300) {
	Tab T = table(c, true), W; bool irr = c.idx % 2; std::string txt = renderJSON(c, T, W, irr); c.note(scratch::show(txt));
	try { if (c.r.coin()) { auto f = scratch::file("t.json"); scratch::write(f, txt); auto r = LoadJSONSafe(f); if (!c.check(r.success, "well-formed-json-rejected", [&] { return r.errorMessage; })) return; compare(c, r.data, W, true); c.ev("json-file"); }
		else { compare(c, LoadFromString(txt, DataFormat::JSON), W, true); c.ev("json-string"); } }
	catch (const DataError& e) { c.fail("well-formed-json-rejected", e.what()); }
	if (irr) c.ev("irregular-rows");
}
// independent strict reader of an array of flat objects
struct Strict { const std::string& s; size_t p = 0; bool nested = false; explicit Strict(const std::string& t) : s(t) {}
	void w() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
	bool ch(char x) { w(); if (p < s.size() && s[p] == x) { p++; return true; } return false; }
	static void u8(std::string& o, unsigned u) { if (u < 128) o += (char)u; else if (u < 2048) { o += (char)(192 | u >> 6); o += (char)(128 | (u & 63)); } else if (u < 65536) { o += (char)(224 | u >> 12); o += (char)(128 | (u >> 6 & 63)); o += (char)(128 | (u & 63)); } else { o += (char)(240 | u >> 18); o += (char)(128 | (u >> 12 & 63)); o += (char)(128 | (u >> 6 & 63)); o += (char)(128 | (u & 63)); } }
	bool hex(unsigned& u) { u = 0; for (int i = 0; i < 4; i++, p++) { if (p >= s.size() || !isxdigit((unsigned char)s[p])) return false; char x = tolower(s[p]); u = u * 16 + (x <= '9' ? x - '0' : x - 'a' + 10); } return true; }
	bool str(std::string& o) { w(); if (p >= s.size() || s[p] != '"') return false; p++; while (p < s.size()) { unsigned char x = s[p++]; if (x == '"') return true; if (x != '\\') { o += x; continue; } if (p >= s.size()) return false; x = s[p++];
		switch (x) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case '"': case '\\': case '/': o += x; break;
		case 'u': { unsigned u, v; if (!hex(u)) return false; if (u >= 0xD800 && u < 0xDC00) { if (s.compare(p, 2, "\\u")) return false; p += 2; if (!hex(v) || v < 0xDC00 || v > 0xDFFF) return false; u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); } else if (u >= 0xDC00 && u < 0xE000) return false; u8(o, u); break; } default: return false; } } return false; }
	bool num(std::string& o) { size_t q = p; auto dg = [&] { size_t k = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; return p > k; }; if (s[p] == '-') p++; if (p < s.size() && s[p] == '0') p++; else if (!dg()) return false; if (p < s.size() && s[p] == '.') { p++; if (!dg()) return false; } if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (!dg()) return false; } o = s.substr(q, p - q); return true; }
	bool lit(const char* t) { if (s.compare(p, strlen(t), t)) return false; p += strlen(t); return true; }
	bool table(Tab& T) { std::vector<std::string> order; std::map<std::string, std::vector<std::string>> col; int row = 0; if (!ch('[')) return false;
		if (!ch(']')) { for (;; row++) { if (!ch('{')) return false; if (!ch('}')) { for (;;) { std::string k, v; if (!str(k) || !ch(':')) return false; w(); if (p >= s.size()) return false; char x = s[p];
			if (x == '"') { if (!str(v)) return false; } else if (x == '-' || isdigit((unsigned char)x)) { if (!num(v)) return false; } else if (x == 't') { if (!lit("true")) return false; v = "true"; } else if (x == 'f') { if (!lit("false")) return false; v = "false"; } else if (x == 'n') { if (!lit("null")) return false; v = ""; } else { nested = true; return false; }
			if (!col.count(k)) order.push_back(k); auto& cl = col[k]; cl.resize(row + 1); cl[row] = v; if (ch('}')) break; if (!ch(',')) return false; } }
			if (ch(']')) { row++; break; } if (!ch(',')) return false; } }
		w(); if (p != s.size()) return false; T.rows = order.empty() ? 0 : row; for (auto& n : order) { col[n].resize(row); T.names.push_back(n); T.kind.push_back(ColumnType::STRING); T.cell.push_back(col[n]); } return true; } };
FAMILY(json_mutated, 200) {
	Tab T; T.rows = c.r.i(1, 4); int n = c.r.i(1, 3); for (int j = 0; j < n; j++) { ColumnType k = c.r.pick({ColumnType::REAL, ColumnType::INT, ColumnType::BOOL, ColumnType::STRING}); T.names.push_back("k" + std::to_string(j)); T.kind.push_back(k); std::vector<std::string> v; for (int i = 0; i < T.rows; i++) v.push_back(c.r.coin(0.1) ? "" : value(c, k, true)); T.cell.push_back(v); }
	Tab W; std::string good = renderJSON(c, T, W, false); if (good.size() > 2 && (unsigned char)good[0] == 0xEF) good = good.substr(3);
	for (int q = 0; q < 15; q++) {
		std::string s = good; int m = c.r.i(1, 2);
		for (int z = 0; z < m && !s.empty(); z++) switch (c.r.i(0, 4)) { case 0: s.erase(c.r.i(0, (int)s.size() - 1), c.r.i(1, 2)); break; case 1: s.insert(c.r.i(0, (int)s.size()), 1, c.r.pick({'{', '}', '[', ']', ',', ':', '"', '\\', '-', '.', 'e', '0', '5', 'n', 't', ' ', '\n', 'x', '\xc3'})); break; case 2: s[c.r.i(0, (int)s.size() - 1)] = c.r.pick({'{', '}', '[', ']', ',', ':', '"', '\\', '-', '.', 'e', '+', '7', 'u', '\0', '\xff'}); break; case 3: s = s.substr(0, c.r.i(0, (int)s.size())); break; default: { int a = c.r.i(0, (int)s.size() - 1), l = c.r.i(1, 12); s.insert(c.r.i(0, (int)s.size()), s.substr(a, l)); } }
		Strict S(s); Tab R; bool ok = S.table(R); bool loaded = false; Dataset ds; std::string err;
		try { ds = LoadFromJSONString(s); loaded = true; } catch (const DataError& e) { err = e.what(); } catch (const std::exception& e) { c.fail("wrong-exception", std::string(e.what()) + " for " + scratch::show(s)); }
		c.ev(ok ? "mutant-valid" : "mutant-invalid");
		if (!ok) c.check(!loaded, "malformed-json-accepted", [&] { return scratch::show(s); });
		else if (c.check(loaded, "well-formed-json-rejected", [&] { return err + " for " + scratch::show(s); })) compare(c, ds, R, false);
	}
}
// ---- dataset operations --------------------------------------------------------------------------
FAMILY(dataset_ops, 120) {
	Tab T = table(c, false); if (T.names.size() == 1) for (auto& s : T.cell[0]) if (trim(s).empty()) s = "NA"; if (T.rows == 0) { c.trivial(); return; }
	for (auto& v : T.cell) for (auto& s : v) for (auto& ch : s) if (ch == '\t') ch = '_';
	Dataset d = LoadFromCSVString(renderCSV(c, T, ',', true), ',', true); compare(c, d, T, true);
	int j = c.r.i(0, (int)T.names.size() - 1); std::set<int> keep; for (int r = 0; r < T.rows; r++) if (c.r.coin()) keep.insert(r);
	int calls = 0; Dataset f = d.FilterRows(T.names[j], [&](const std::string& s) { bool k = keep.count(calls); c.check(s == d[j].GetAsString(calls), "predicate-argument"); calls++; return k; });
	c.check(calls == T.rows, "predicate-calls"); Tab F; F.rows = keep.size(); F.names = T.names; F.kind = T.kind; for (auto& v : T.cell) { std::vector<std::string> q; for (int r : keep) q.push_back(v[r]); F.cell.push_back(q); }
	for (size_t q = 0; q < T.names.size(); q++) c.check(f[q].type == d[q].type, "filter-type");
	if (c.check((int)f.NumRows() == F.rows && f.NumColumns() == F.names.size(), "filter-shape")) for (size_t q = 0; q < F.names.size(); q++) for (int r = 0; r < F.rows; r++) { std::string why; bool dr; c.check(cellOK(f[q], r, F.cell[q][r], why, dr), "filtered-cell", [&] { return why + " " + F.cell[q][r]; }); }
	std::vector<std::string> sel; std::vector<int> js; for (int q = 0; q < c.r.i(1, 4); q++) { js.push_back(c.r.i(0, (int)T.names.size() - 1)); sel.push_back(T.names[js.back()]); }
	Dataset s = d.SelectColumns(sel); c.check(s.NumRows() == d.NumRows() && s.NumColumns() == sel.size(), "select-shape"); for (size_t q = 0; q < sel.size() && q < s.NumColumns(); q++) for (int r = 0; r < T.rows; r++) { std::string why; bool dr; c.check(s[q].name == sel[q] && cellOK(s[q], r, T.cell[js[q]][r], why, dr), "selected-cell"); }
	auto lines = [](const std::string& t) { std::vector<std::string> l; std::istringstream in(t); std::string x; while (std::getline(in, x)) l.push_back(x); return l; };
	auto rowText = [&](int r) { std::string o; for (size_t q = 0; q < T.names.size(); q++) o += (q ? "\t" : "") + d[q].GetAsString(r); return o; };
	int n = c.r.i(0, T.rows + 3); auto hd = lines(d.Head(n)), tl = lines(d.Tail(n)), sm = lines(d.Sample(n, c.r.i(0, 9999))); int m = std::min(n, T.rows);
	if (c.check((int)hd.size() == m + 1 && (int)tl.size() == m + 1 && (int)sm.size() == m + 1, "row-display-count")) { for (int r = 0; r < m; r++) c.check(hd[r + 1] == rowText(r) && tl[r + 1] == rowText(T.rows - m + r), "displayed-row"); std::multiset<std::string> all; for (int r = 0; r < T.rows; r++) all.insert(rowText(r)); for (int r = 0; r < m; r++) { auto it = all.find(sm[r + 1]); if (c.check(it != all.end(), "sample-not-a-subset")) all.erase(it); } }
	for (size_t q = 0; q < T.names.size(); q++) { const auto& nm = T.names[q]; if (d[q].type == ColumnType::REAL || d[q].type == ColumnType::INT) { auto v = d.GetRealColumn(nm); c.check((int)v.size() == T.rows, "real-column-size"); if (d[q].type == ColumnType::REAL) for (int r = 0; r < T.rows; r++) c.check(d[q].IsMissing(r) ? std::isnan(v[r]) : v[r] == d[q].GetReal(r), "real-column-value"); if (d[q].type == ColumnType::INT) { auto w = d.GetIntColumn(nm); for (int r = 0; r < T.rows; r++) c.check(d[q].IsMissing(r) || w[r] == d[q].GetReal(r), "int-column-value"); } }
		else { c.throws<DataError>([&] { d.GetRealColumn(nm); }, "text-column-given-as-real"); c.throws<DataError>([&] { d.GetIntColumn(nm); }, "text-column-given-as-int"); }
		auto sc = d.GetStringColumn(nm); c.check((int)sc.size() == T.rows, "string-column-size"); for (int r = 0; r < T.rows && r < (int)sc.size(); r++) c.check(sc[r] == d[q].GetAsString(r), "string-column-value"); }
	c.throws<DataError>([&] { d["no such column"]; }, "unknown-column-accepted"); c.throws<DataError>([&] { d[T.names.size()]; }, "column-index-accepted"); c.throws<DataError>([&] { d.SelectColumns({"nope"}); }, "unknown-column-selected");
	c.check(std::isnan(d[0].GetReal(T.rows)) && d[0].GetAsString(T.rows).empty() && !d[0].IsMissing(T.rows), "row-beyond-end"); c.check(!d.PrintSummary().empty(), "summary"); c.ev("dataset-ops");
}
int main(int argc, char** argv) { scratch::quiet(); return mon::main_impl(argc, argv); }
