// C08: formula parser against an independent recursive-descent evaluator, over all token sequences up to a length, and all expression trees of a shape
#include "sq.hpp"
#include "common/GFormulaParserT.hpp"
#include <cmath>
#include <map>
using namespace Gem::Common;
enum Err { OK, SYNTAX, DIV0, ACOS, ASIN, LOG, LOG10, SQRT };
static const char *EN[] = {"value", "malformed", "division_by_0", "acos range", "asin range", "log range", "log10 range", "sqrt range"};
struct Ref { // grammar of the documentation: + - * / unary signs, parentheses, functions; tokens are already separated
	std::vector<std::string> t; size_t p = 0; Err err = OK; std::map<std::string, double> names; bool syn = false; long double abssum = 0;
	void bad() { syn = true; } void e(Err x) { if (err == OK) err = x; }
	bool is(const char *s) { return p < t.size() && t[p] == s; }
	double expr() { double a = term(); while (!syn && (is("+") || is("-"))) { bool m = t[p++] == "-"; double b = term(); a = m ? a - b : a + b; } return a; }
	double term() { double a = fac(); while (!syn && (is("*") || is("/"))) { bool d = t[p++] == "/"; double b = fac(); if (d) { if (b == 0) { e(DIV0); b = 1; } a = a / b; } else a = a * b; } return a; }
	double fac() {
		if (syn || p >= t.size()) { bad(); return 0; }
		if (is("-")) { p++; return -fac(); } if (is("+")) { p++; return fac(); }
		if (is("(")) { p++; double v = expr(); if (!is(")")) { bad(); return 0; } p++; return v; }
		std::string s = t[p++];
		static const char *U[] = {"acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"};
		static const char *B[] = {"min", "max", "pow", "hypot"};
		for (auto u : U) if (s == u) { if (!is("(")) { bad(); return 0; } p++; double v = expr(); if (!is(")")) { bad(); return 0; } p++; return un(s, v); }
		for (auto b : B) if (s == b) { if (!is("(")) { bad(); return 0; } p++; double v = expr(); if (!is(",")) { bad(); return 0; } p++; double w = expr(); if (!is(")")) { bad(); return 0; } p++; return bin(s, v, w); }
		if (names.count(s)) return names[s];
		char *end; double v = strtod(s.c_str(), &end); if (end == s.c_str() || *end) { bad(); return 0; } return v;
	}
	double un(const std::string& f, double x) {
		if (f == "acos") { if (x < -1 || x > 1) { e(ACOS); return 0; } return std::acos(x); } if (f == "asin") { if (x < -1 || x > 1) { e(ASIN); return 0; } return std::asin(x); }
		if (f == "log") { if (x <= 0) { e(LOG); return 0; } return std::log(x); } if (f == "log10") { if (x <= 0) { e(LOG10); return 0; } return std::log10(x); } if (f == "sqrt") { if (x < 0) { e(SQRT); return 0; } return std::sqrt(x); }
		if (f == "atan") return std::atan(x); if (f == "ceil") return std::ceil(x); if (f == "cos") return std::cos(x); if (f == "cosh") return std::cosh(x); if (f == "exp") return std::exp(x); if (f == "fabs") return std::fabs(x); if (f == "floor") return std::floor(x);
		if (f == "sin") return std::sin(x); if (f == "sinh") return std::sinh(x); if (f == "tan") return std::tan(x); return std::tanh(x);
	}
	double bin(const std::string& f, double a, double b) { if (f == "min") return a < b ? a : b; if (f == "max") return a > b ? a : b; if (f == "pow") return std::pow(a, b); return std::hypot(a, b); }
	double run() { double v = expr(); if (syn || p != t.size()) { err = SYNTAX; return 0; } return v; }
};
template <class T> Err eval(GFormulaParserT<T>& f, const typename GFormulaParserT<T>::parameter_map& vm, T& v) {
	try { v = f.evaluate(vm); return OK; }
	catch (const division_by_0&) { return DIV0; } catch (const acos_invalid_range<T>&) { return ACOS; } catch (const asin_invalid_range<T>&) { return ASIN; }
	catch (const log_negative_value<T>&) { return LOG; } catch (const log10_negative_value<T>&) { return LOG10; } catch (const sqrt_negative_value<T>&) { return SQRT; }
	catch (const gemfony_exception&) { return SYNTAX; }
}
template <class T> bool close(T a, double b, double tol) { if (std::isnan(b)) return std::isnan(a); if (std::isinf(b) || std::fabs(b) > std::numeric_limits<T>::max()) return std::isinf(a) && (a > 0) == (b > 0); return std::fabs((double)a - b) <= tol * std::max(1.0, std::fabs(b)); }
// out: when `err` involves several faults the parser may report any of those it meets; first in evaluation order is expected
template <class T> void compare(const std::string& text, Ref r, const typename GFormulaParserT<T>::parameter_map& vm, const typename GFormulaParserT<T>::constants_map& cm, double tol) {
	sq::step(); double want = r.run();
	GFormulaParserT<T> f(text, cm); T got = 0, again = 0; Err e = eval<T>(f, vm, got), e2 = eval<T>(f, vm, again);
	SQ_CHECK(e == r.err, "'" << text << "': " << EN[e] << (e == OK ? " " + std::to_string(got) : "") << ", expected " << EN[r.err] << (r.err == OK ? " " + std::to_string(want) : ""));
	if (e == OK) SQ_CHECK(close<T>(got, want, tol), "'" << text << "' gives " << got << ", expected " << want);
	SQ_CHECK(e2 == e && (e != OK || got == again || (std::isnan(got) && std::isnan(again))), "'" << text << "' evaluated twice gives " << got << " and " << again);
	if (e == OK) { T x = 0; try { x = f(vm); } catch (...) { sq::fail("operator() throws"); } SQ_CHECK(x == got || std::isnan(got), "operator() differs from evaluate()"); }
	sq::state(sq::H() << text); sq::outcome(EN[e]);
}
static const GFormulaParserT<double>::parameter_map VM{{"x", {0.5}}, {"y", {-3., 4.}}, {"xx", {7.}}};
static const GFormulaParserT<double>::constants_map CM{{"c", 1.5}, {"cc", -2.}};
static Ref base() { Ref r; r.names = {{"{{x}}", 0.5}, {"{{y[0]}}", -3}, {"{{y[1]}}", 4}, {"{{xx}}", 7}, {"c", 1.5}, {"cc", -2}, {"e", M_E}, {"pi", M_PI}}; return r; }
static bool numlike(const std::string& s) { return isdigit(s[0]) || s[0] == '.' || s[0] == '{' || isalpha(s[0]); }
static void tokens(const std::vector<std::string>& T, int maxlen) {
	int len = 1 + sq::choose(maxlen, "length"); Ref r = base(); std::string sp, tight; 
	for (int i = 0; i < len; i++) { auto& s = T[sq::choose(T.size(), "token")]; if (i) { sp += ' '; if (numlike(r.t.back()) && numlike(s)) tight += ' '; } sp += s; tight += s; if (s == "{{y[0]}}") r.t.push_back("-"), r.t.push_back("3"); else r.t.push_back(s); } // place holders are replaced textually
	compare<double>(sp, r, VM, CM, 1e-13); compare<double>(tight, r, VM, CM, 1e-13);
}
SQ_SCENARIO(tokens_ops) { static const std::vector<std::string> T{"1", "+", "-", "*", "/", "(", ")", "2.5", "0"}; tokens(T, sq::thorough() ? 7 : 5); }
SQ_SCENARIO(tokens_names) { static const std::vector<std::string> T{"3", "-", "/", "{{x}}", "{{y[1]}}", "{{y[0]}}", "{{xx}}", "c", "cc", "e", "pi", "{{z}}", "q", "{{y}}"}; tokens(T, sq::thorough() ? 5 : 4); }
SQ_SCENARIO(tokens_functions) { static const std::vector<std::string> T{"2", "-", "(", ")", ",", "sin", "log10", "min", "exp", "e", "pow"}; tokens(T, sq::thorough() ? 6 : 5); }
// long chains: associativity and precedence of every operator sequence
SQ_SCENARIO(chains) {
	int n = 5 + 2 * sq::thorough(); static const char *V[] = {"7", "2", "0.5", "3", "11", "5", "13", "1.25", "9"}; Ref r = base(); std::string s;
	for (int i = 0; i <= n; i++) { if (i) { static const char *O[] = {"+", "-", "*", "/"}; const char *o = O[sq::choose(4, "operator")]; s += o; r.t.push_back(o); } s += V[i]; r.t.push_back(V[i]); }
	int a = sq::choose(n + 1, "("), b = a + sq::choose(n + 1 - a, ")"); // parentheses around operands a..b
	r.t.insert(r.t.begin() + 2 * b + 1, ")"); r.t.insert(r.t.begin() + 2 * a, "("); s.clear(); for (auto& x : r.t) s += x;
	if (sq::choose(2, "sign")) { r.t.insert(r.t.begin(), "-"); s = "-" + s; }
	compare<double>(s, r, VM, CM, 1e-13);
}
static const char *F1[] = {"acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"};
static const char *F2[] = {"min", "max", "pow", "hypot"};
static const char *ARG[] = {"0", "1", "-1", "0.5", "-0.5", "1.0000001", "-1.0000001", "2", "-2.7", "1e-300", "1e300", "1e-5", "123.456", "-1e-9"};
static void lit(Ref& r, std::string& s, const std::string& a) { s += a; if (a[0] == '-') { r.t.push_back("-"); r.t.push_back(a.substr(1)); } else r.t.push_back(a); }
SQ_SCENARIO(functions) {
	Ref r = base(); std::string s; int k = sq::choose(4, "shape");
	auto put = [&](const char *x) { s += x; r.t.push_back(x); }; auto arg = [&] { lit(r, s, ARG[sq::choose(14, "argument")]); };
	if (k == 0) { put(F1[sq::choose(16, "f")]); put("("); arg(); put(")"); }
	else if (k == 1) { put(F2[sq::choose(4, "f")]); put("("); arg(); put(","); arg(); put(")"); }
	else if (k == 2) { put(F1[sq::choose(16, "f")]); put("("); put(F1[sq::choose(16, "g")]); put("("); arg(); put(")"); put(")"); }
	else { put(F2[sq::choose(4, "f")]); put("("); put(F2[sq::choose(4, "g")]); put("("); arg(); put(","); put("3"); put(")"); put(","); put(F1[sq::choose(16, "h")]); put("("); arg(); put(")"); put(")"); }
	compare<double>(s, r, VM, CM, 1e-12);
}
SQ_SCENARIO(number_formats) {
	static const char *N[] = {"1", "1.", ".5", "0.25", "1e3", "1E3", "1e+3", "1e-3", "12345678901", "1.7976931348623157e308", "2.2250738585072014e-308", "0.1", "3.14159265358979", "007", "1.5e2"};
	static const char *S[] = {"", "-", "+", "2*", "2-", "-1/", "(((", "1 +\t"}; Ref r = base(); int k = sq::choose(8, "prefix"); std::string n = N[sq::choose(15, "number")], s = S[k];
	static const std::vector<std::string> PT[] = {{}, {"-"}, {"+"}, {"2", "*"}, {"2", "-"}, {"-", "1", "/"}, {"(", "(", "("}, {"1", "+"}}; r.t = PT[k]; r.t.push_back(n); s += n; if (k == 6) { s += ")))"; for (int i = 0; i < 3; i++) r.t.push_back(")"); }
	compare<double>(s, r, VM, CM, 1e-13);
}
SQ_SCENARIO(placeholder_values) {
	static const double D[] = {0, 1, -1, 0.1, -3.75, 1e-10, 1.2345678901234567, 1e300, -1e-300, 123456789.123, 1. / 3}; double a = D[sq::choose(11, "a")], b = D[sq::choose(11, "b")], c = D[sq::choose(11, "c")];
	GFormulaParserT<double>::parameter_map vm{{"a", {a}}, {"ab", {b}}, {"v", {c, b, a}}};
	static const char *F[] = {"{{a}}-{{ab}}*{{v[2]}}", "-{{v[0]}}+{{v[1]}}", "({{a}}+{{v[0]}})/2", "{{ab}}-{{ab}}-{{a}}*{{v[1]}}", "fabs({{v[0]}}) - {{a}}"}; int k = sq::choose(5, "formula");
	double want = k == 0 ? a - b * a : k == 1 ? -c + b : k == 2 ? (a + c) / 2 : k == 3 ? b - b - a * b : std::fabs(c) - a;
	GFormulaParserT<double> f(F[k]); double got = 0; sq::step(); Err e = eval<double>(f, vm, got); SQ_CHECK(e == OK, F[k] << " refused for " << a << "," << b << "," << c);
	double mag = std::max({std::fabs(a), std::fabs(b), std::fabs(c), 0.}); SQ_CHECK(std::fabs(got - want) <= 1e-13 * std::max(std::fabs(want), mag) || got == want, F[k] << " with a=" << a << " ab=" << b << " c=" << c << " gives " << got << ", expected " << want);
	if (k == 0 && a == 1 && b == 1) { GFormulaParserT<double>::parameter_map e0{{"a", {}}}; SQ_THROWS(f.evaluate(e0), "empty parameter vector accepted"); }
	// other values with the same parser object
	vm["a"] = {2.}; vm["ab"] = {3.}; vm["v"] = {5., 3., 2.}; double g2 = 0; SQ_CHECK(eval<double>(f, vm, g2) == OK && std::fabs(g2 - (k == 0 ? -4 : k == 1 ? -2 : k == 2 ? 3.5 : k == 3 ? -6 : 3)) < 1e-12, F[k] << ": second evaluation with other values gives " << g2);
	sq::state(sq::H() << a << b << c << k); sq::outcome(F[k]);
}
SQ_SCENARIO(float_type) {
	static const std::vector<std::string> T{"1", "-", "*", "/", "(", ")", "0.5", "sqrt"}; int len = 1 + sq::choose(5, "length"); Ref r = base(); std::string s; for (int i = 0; i < len; i++) { auto& x = T[sq::choose(8, "token")]; s += (i ? " " : "") + x; r.t.push_back(x); }
	compare<float>(s, r, {}, {}, 1e-5);
}
SQ_SCENARIO(junk) { // characters that belong to no token; empty text
	static const char *J[] = {"", " ", "$", "1 $", "1+", "sin", "sin(", "sin()", "min(1)", "min(1,2,3)", "pow 2", "(1", "1)", "()", "{{x", "{{x}", "{{}}", "{x}", "y[0]", "{{y[2]}}", "{{y[-1]}}", "2 3", "2..3", "1,2", "foo(1)", "SIN(1)", "sin 1", "1**2", "1//2", "*1", "/1", "exp", "e(1)", "pi pi", "2pi", "a", "1e", "1e+", "log100(1)", "sinsin(1)", "max(1 2)"};
	std::string s = J[sq::choose(sizeof J / sizeof *J, "text")]; GFormulaParserT<double> f(s, CM); double v = 0; sq::step(); Err e = eval<double>(f, VM, v); SQ_CHECK(e == SYNTAX, "'" << s << "' is accepted: " << EN[e] << " " << v); sq::state(sq::H() << s); sq::outcome(s);
}
