// C32: parameter specification strings: every text of a bounded grammar and its corruptions against an independent reader
#include "sq.hpp"
#include "geneva/GParameterPropertyParser.hpp"
#include <cmath>
using namespace Gem::Geneva;
struct Var { char type; int mode; std::string name; std::size_t idx; long double lo, hi; std::size_t steps; };
// ---- reference reader
struct Bad {}; struct Skip {}; // Skip: exponents of two and more digits
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n'; }
static std::string trim(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
static bool digs(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
static std::size_t uint_(const std::string& t) { auto s = trim(t); while (s.size() > 1 && s[0] == '0') s.erase(0, 1); if (!digs(s) || s.size() > 12 || strtoull(s.c_str(), nullptr, 10) > 4294967295ull) throw Bad(); return strtoull(s.c_str(), nullptr, 10); }
static long double real(const std::string& t) { auto s = trim(t); size_t i = 0; auto dg = [&] { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; return i - b; }; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t a = dg(), b = 0; if (i < s.size() && s[i] == '.') { i++; b = dg(); } if (!a && !b) throw Bad(); if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t x = dg(); if (!x) throw Bad(); if (x > 1) throw Skip(); } if (i != s.size()) throw Bad(); return strtold(s.c_str(), nullptr); }
static long double integer(const std::string& t) { auto s = trim(t); std::string d = (!s.empty() && (s[0] == '-' || s[0] == '+')) ? s.substr(1) : s; while (d.size() > 1 && d[0] == '0') d.erase(0, 1); if (!digs(d) || d.size() > 12) throw Bad(); long long v = strtoll(s.c_str(), nullptr, 10); if (v > 2147483647ll || v < -2147483648ll) throw Bad(); return v; }
static long double boolean(const std::string& t) { auto s = trim(t); if (s == "true") return 1; if (s == "false") return 0; throw Bad(); }
static bool ident(const std::string& s) { if (s.empty() || !(isalpha((unsigned char)s[0]) || s[0] == '_')) return false; for (char c : s) if (!(isalnum((unsigned char)c) || c == '_')) return false; return true; }
static void ref(const std::string& t, Var& v) { auto s = trim(t); v.name = ""; if (!s.empty() && isdigit((unsigned char)s[0])) { v.mode = 0; v.idx = uint_(s); return; } size_t k = s.find('['); if (k == std::string::npos) { if (!ident(s)) throw Bad(); v.mode = 2; v.name = s; v.idx = 0; return; } if (s.back() != ']') throw Bad(); auto n = trim(s.substr(0, k)); if (!ident(n)) throw Bad(); v.mode = 1; v.name = n; v.idx = uint_(s.substr(k + 1, s.size() - k - 2)); }
struct Spec { std::vector<Var> v; bool simple = false; std::size_t n = 0; };
static Spec read(const std::string& s) {
	Spec r; size_t i = 0; auto ws = [&] { while (i < s.size() && sp(s[i])) i++; };
	for (;;) {
		ws(); if (i >= s.size() || !strchr("dfibs", s[i])) throw Bad(); char t = s[i++]; ws(); if (i >= s.size() || s[i] != '(') throw Bad(); size_t e = s.find(')', i); if (e == std::string::npos) throw Bad(); std::string c = s.substr(i + 1, e - i - 1); i = e + 1;
		if (t == 's') { if (r.simple) throw Bad(); r.simple = true; r.n = uint_(c); }
		else { std::vector<std::string> f; std::string x; for (char k : c) if (k == ',') { f.push_back(x); x.clear(); } else x += k; f.push_back(x); Var v{}; v.type = t; ref(f[0], v); v.steps = 100;
			if (t == 'b' && f.size() == 1) { v.lo = 0; v.hi = 1; } else { if ((f.size() != 3 || t == 'b') && f.size() != 4) throw Bad(); /* booleans: all or nothing */ auto num = [&](const std::string& y) { return t == 'i' ? integer(y) : t == 'b' ? boolean(y) : real(y); }; v.lo = num(f[1]); v.hi = num(f[2]); if (f.size() == 4) v.steps = uint_(f[3]); }
			r.v.push_back(v); }
		ws(); if (i == s.size()) return r; if (s[i++] != ',') throw Bad(); } }
// ---- comparison with the library
static GParameterPropertyParser& parser() { static GParameterPropertyParser *p = new GParameterPropertyParser("d(0,0,1)"); return *p; }
template <class T> static void same(const GParameterPropertyParser& p, const Spec& r, char t, const std::string& s) {
	auto it = p.getIterators<T>(); std::vector<Var> e; if (!r.simple) for (auto& v : r.v) if (v.type == t) e.push_back(v); size_t n = std::get<1>(it) - std::get<0>(it); SQ_CHECK(n == e.size(), "\"" << s << "\": " << n << " variables of type " << t << " instead of " << e.size());
	auto g = std::get<0>(it); for (auto& v : e) { auto& q = *g++; SQ_CHECK((int)std::get<0>(q.var) == v.mode && std::get<2>(q.var) == v.idx && (v.mode == 0 || std::get<1>(q.var) == v.name), "\"" << s << "\": refers to mode " << std::get<0>(q.var) << " \"" << std::get<1>(q.var) << "\" [" << std::get<2>(q.var) << "]"); auto near = [](T a, long double b) { return std::fabs((long double)a - b) <= (std::is_same<T, float>::value ? 1e-6L : std::is_same<T, double>::value ? 1e-14L : 0.L) * std::fabs(b); }; SQ_CHECK(near(q.lowerBoundary, v.lo) && near(q.upperBoundary, v.hi), "\"" << s << "\": boundaries " << +q.lowerBoundary << " " << +q.upperBoundary); SQ_CHECK(q.nSteps == v.steps, "\"" << s << "\": steps " << q.nSteps); } }
static void judge(const std::string& s) {
	Spec r; bool ok = true; try { r = read(s); } catch (const Bad&) { ok = false; } catch (const Skip&) { return; } auto& p = parser(); bool t = false; sq::step(); std::string m; try { p.setNewParameterDescription(s); } catch (const std::exception& e) { t = true; m = e.what(); }
	SQ_CHECK(t == !ok, "\"" << s << "\" " << (t ? "refused: " + m : "accepted")); SQ_CHECK(p.isParsed() == ok && p.getRawParameterDescription() == s, "state after \"" << s << "\"");
	if (ok) { same<double>(p, r, 'd', s); same<float>(p, r, 'f', s); same<std::int32_t>(p, r, 'i', s); same<bool>(p, r, 'b', s); SQ_CHECK(p.getNSimpleScanItems() == (r.simple ? r.n : 0), "\"" << s << "\": simple scan of " << p.getNSimpleScanItems()); } else { SQ_THROWS(p.getIterators<double>(), "results handed out although the text was refused"); SQ_THROWS(p.getIterators<bool>(), "results handed out although the text was refused"); SQ_THROWS(p.parse(), "second parse() of a refused text succeeds"); }
	sq::outcome(ok ? r.simple ? "simple" : "variables" : "refused"); }
static const std::vector<std::vector<std::string>> VARS = { // tokens of single descriptions
	{"d", "(", "0", ",", "-10", ",", "10", ",", "100", ")"}, {"d", "(", "a_1", ",", "0.5", ",", "1e3", ")"}, {"f", "(", "b", "[", "3", "]", ",", "-1.25", ",", ".5", ",", "7", ")"}, {"i", "(", "2", ",", "-5", ",", "2147483647", ")"}, {"i", "(", "_x", ",", "0", ",", "3", ",", "4", ")"}, {"b", "(", "1", ")"}, {"b", "(", "flag", "[", "0", "]", ",", "false", ",", "true", ",", "2", ")"}, {"s", "(", "50", ")"}, {"b", "(", "z", ",", "true", ",", "true", ")"}, {"f", "(", "12", ",", "5.", ",", "+6", ",", "1", ")"}};
static std::string join(const std::vector<std::string>& t, int style) { std::string s; for (size_t i = 0; i < t.size(); i++) { s += t[i]; if (style == 1 && i + 1 < t.size()) s += " "; if (style == 2) s += i % 2 ? "\t" : "\n "; } return (style == 2 ? "  " : "") + s; }
static std::vector<std::string> base(int maxvars) { std::vector<std::string> t; int n = 1 + sq::choose(maxvars, "vars"); for (int i = 0; i < n; i++) { if (i) t.push_back(","); auto& v = VARS[sq::choose(VARS.size(), "var")]; t.insert(t.end(), v.begin(), v.end()); } return t; }
SQ_SCENARIO(well_formed) { int n = sq::thorough() ? 4 : 3; auto t = base(n); judge(join(t, sq::choose(3, "spacing"))); }
static const std::vector<std::string> INS = {"(", ")", ",", "[", "]", "0", "-", "x", ".", "d", "b", "true", " ", "1", "e", "s", ";", "s(3)"};
static void edit(std::vector<std::string>& t, int kinds = 4) { int k = sq::choose(kinds, "edit"), n = t.size(); switch (k) { case 0: t.erase(t.begin() + sq::choose(n, "pos")); break; case 1: { int i = sq::choose(n - 1, "pos"); std::swap(t[i], t[i + 1]); break; } case 2: { int i = sq::choose(n + 1, "pos"); t.insert(t.begin() + i, INS[sq::choose(INS.size(), "tok")]); break; } default: { int i = sq::choose(n, "pos"); t[i] = INS[sq::choose(INS.size(), "tok")]; } } }
SQ_SCENARIO(one_edit) { auto t = base(2); edit(t); judge(join(t, sq::choose(2, "spacing"))); }
SQ_SCENARIO(two_edits) { auto t = base(sq::thorough() ? 2 : 1); edit(t); if (t.size() < 2) return; edit(t, sq::thorough() ? 4 : 2); judge(join(t, 0)); }
SQ_SCENARIO(truncated) { auto t = base(3); auto s = join(t, sq::choose(2, "spacing")); judge(s.substr(0, sq::choose(s.size() + 1, "length"))); }
static void inner(char type, const std::vector<std::string>& al) { int n = sq::choose(sq::thorough() ? 8 : 7, "len"); std::string s; for (int i = 0; i < n; i++) s += al[sq::choose(al.size(), "tok")]; judge(std::string(1, type) + "(" + s + ")"); }
SQ_SCENARIO(inside_double) { inner('d', {"1", "a", ",", "[", "]", ".5", "-", " "}); }
SQ_SCENARIO(inside_int) { inner('i', {"1", "a", ",", "[2]", "5", "-", ".", " "}); }
SQ_SCENARIO(inside_bool) { inner('b', {"1", "a", ",", "[2]", "true", "false", " "}); }
SQ_SCENARIO(inside_float) { inner('f', {"7", "x", ",", "e", "+", ".", "3"}); }
SQ_SCENARIO(inside_simple) { inner('s', {"1", "0", ",", "-", " ", "4294967295", "x"}); }
SQ_SCENARIO(any_text) { static const std::vector<std::string> AL = {"d", "(", ")", ",", "1", "a", "b(1)", "s(2)", " "}; int n = sq::choose(sq::thorough() ? 8 : 7, "len"); std::string s; for (int i = 0; i < n; i++) s += AL[sq::choose(AL.size(), "tok")]; judge(s); }
SQ_SCENARIO(constructed) { auto t = base(2); auto s = join(t, 0); Spec r; try { r = read(s); } catch (const Bad&) { return; } sq::step(); GParameterPropertyParser p(s); SQ_CHECK(p.isParsed() && p.getRawParameterDescription() == s, "state"); p.parse(); same<double>(p, r, 'd', s); same<float>(p, r, 'f', s); same<std::int32_t>(p, r, 'i', s); same<bool>(p, r, 'b', s); SQ_CHECK(p.getNSimpleScanItems() == (r.simple ? r.n : 0), "simple scan"); SQ_THROWS(p.getIterators<std::string>(), "unsupported type accepted"); }
