// C36: mathematical and conversion helpers against independent definitions, on all small inputs
#include "sq.hpp"
#include "common/GCommonMathHelperFunctions.hpp"
#include "common/GCommonMathHelperFunctionsT.hpp"
#include "common/GCommonHelperFunctions.hpp"
#include "common/GCommonHelperFunctionsT.hpp"
#include "common/GCommonInterfaceT.hpp"
#include <cmath>
#include <cfloat>
#include <deque>
#include <list>
#include <set>
#include <limits>
using namespace Gem::Common;
template <class T> static bool near(T a, long double b, long double tol, long double scale = 0) { if (std::isnan(a)) return std::isnan(b); return std::fabs((long double)a - b) <= tol * std::max({std::fabs(b), scale, 1e-300L}); }
template <class T> constexpr long double EPS = 16 * std::numeric_limits<T>::epsilon();
static const double AL[] = {0, 1, -1, 2.5, -1e6, 7, 1e-3, 1e6};
template <class T> static std::vector<T> vec(int maxlen, const char *w = "len") { std::vector<T> v; int n = sq::choose(maxlen + 1, w); for (int i = 0; i < n; i++) v.push_back(T(AL[sq::choose(sq::thorough() ? 8 : 5, "x")])); return v; }
template <class V> static std::string show(const V& v) { std::ostringstream o; o << "{"; for (auto& x : v) o << " " << x; o << " }"; return o.str(); }
// ---- means and deviations
template <class T> static void meandev() {
	auto v = vec<T>(sq::thorough() ? 5 : 4); sq::step(); long double s = 0, sc = 0; for (T x : v) { s += x; sc = std::max(sc, std::fabs((long double)x)); }
	if (v.empty()) { SQ_THROWS(GMean(v), "mean of nothing accepted"); SQ_THROWS(GStandardDeviation(v), "deviation of nothing accepted"); return; }
	long double m = s / v.size(), q = 0; for (T x : v) q += (x - m) * (x - m);
	long double sd = v.size() > 1 ? std::sqrt(q / (v.size() - 1)) : 0; auto t = GStandardDeviation(v);
	SQ_CHECK(near(GMean(v), m, EPS<T>, sc), "mean of " << show(v) << ": " << GMean(v) << " instead of " << m);
	SQ_CHECK(near(std::get<0>(t), m, EPS<T>, sc), "mean (with deviation) of " << show(v) << ": " << std::get<0>(t)); SQ_CHECK(near(std::get<1>(t), sd, EPS<T>, sc), "standard deviation of " << show(v) << ": " << std::get<1>(t) << " instead of " << sd);
	sq::outcome(v.size() == 1 ? "single" : sd == 0 ? "equal" : "spread"); }
SQ_SCENARIO(mean_deviation_double) { meandev<double>(); }
SQ_SCENARIO(mean_deviation_float) { meandev<float>(); }
SQ_SCENARIO(vec_deviation) {
	int rows = sq::choose(4, "rows"); std::vector<std::vector<double>> d; for (int r = 0; r < rows; r++) { int n = sq::choose(3, "cols"); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(AL[sq::choose(3, "x") + 1]); d.push_back(v); }
	bool ok = rows > 0; for (auto& v : d) ok &= !v.empty() && v.size() == d[0].size(); std::vector<std::tuple<double, double>> res{std::make_tuple(9., 9.)}; sq::step();
	if (!ok) { SQ_THROWS(GVecStandardDeviation(d, res), "ragged or empty input accepted"); return; }
	GVecStandardDeviation(d, res); SQ_CHECK(res.size() == d[0].size(), "number of results");
	for (size_t c = 0; c < res.size(); c++) { long double s = 0, q = 0; for (auto& v : d) s += v[c]; s /= rows; for (auto& v : d) q += (v[c] - s) * (v[c] - s); long double sd = rows > 1 ? std::sqrt(q / (rows - 1)) : 0; SQ_CHECK(near(std::get<0>(res[c]), s, 1e-13L, 10) && near(std::get<1>(res[c]), sd, 1e-13L, 10), "column " << c << ": " << std::get<0>(res[c]) << "+-" << std::get<1>(res[c])); } }
// ---- minima and maxima
template <class T> static void mm1() { auto v = vec<T>(sq::thorough() ? 5 : 4); sq::step(); if (v.size() < 2) { SQ_THROWS(getMinMax(v), "too short input accepted"); return; } auto r = getMinMax(v); SQ_CHECK(std::get<0>(r) == *std::min_element(v.begin(), v.end()) && std::get<1>(r) == *std::max_element(v.begin(), v.end()), "min/max of " << show(v) << ": " << std::get<0>(r) << " " << std::get<1>(r)); }
SQ_SCENARIO(min_max_1d) { switch (sq::choose(3, "type")) { case 0: mm1<double>(); break; case 1: mm1<float>(); break; default: mm1<int>(); } }
SQ_SCENARIO(min_max_nd) {
	int dim = 2 + sq::choose(3, "dim"), n = sq::choose(4, "n"); std::vector<std::vector<double>> c(dim); for (int i = 0; i < n; i++) for (int k = 0; k < dim; k++) c[k].push_back(AL[sq::choose(3, "x")]);
	sq::step(); std::vector<double> lo, hi; if (n >= 2) for (auto& v : c) { lo.push_back(*std::min_element(v.begin(), v.end())); hi.push_back(*std::max_element(v.begin(), v.end())); }
	std::vector<double> r; auto bad = [&] { return n < 2; };
	if (dim == 2) { std::vector<std::tuple<double, double>> v; for (int i = 0; i < n; i++) v.emplace_back(c[0][i], c[1][i]); if (bad()) { SQ_THROWS(getMinMax(v), "short"); return; } auto t = getMinMax(v); r = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)}; }
	if (dim == 3) { std::vector<std::tuple<double, double, double>> v; for (int i = 0; i < n; i++) v.emplace_back(c[0][i], c[1][i], c[2][i]); if (bad()) { SQ_THROWS(getMinMax(v), "short"); return; } auto t = getMinMax(v); r = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t), std::get<5>(t)}; }
	if (dim == 4) { std::vector<std::tuple<double, double, double, double>> v; for (int i = 0; i < n; i++) v.emplace_back(c[0][i], c[1][i], c[2][i], c[3][i]); if (bad()) { SQ_THROWS(getMinMax(v), "short"); return; } auto t = getMinMax(v); r = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t), std::get<5>(t), std::get<6>(t), std::get<7>(t)}; }
	for (int k = 0; k < dim; k++) SQ_CHECK(r[2 * k] == lo[k] && r[2 * k + 1] == hi[k], "dimension " << k << " of " << dim << ": " << r[2 * k] << "," << r[2 * k + 1]); }
// ---- ranges
template <class T> static std::vector<T> border() { if constexpr (std::is_floating_point<T>::value) { auto f = [](T x) { return std::nextafter(x, std::numeric_limits<T>::max()); }; auto p = [](T x) { return std::nextafter(x, std::numeric_limits<T>::lowest()); }; return {0, 1, f(1), p(1), -1, f(-1), p(-1), 2, T(1e-30), f(0), p(0), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min()}; } else return {0, 1, 2, 3, T(-1), T(-2), 100, std::numeric_limits<T>::max(), std::numeric_limits<T>::min()}; }
template <class T> static void ranges() {
	auto B = border<T>(); int n = B.size(); T v = B[sq::choose(n, "val")], lo = B[sq::choose(n, "lower")], hi = B[sq::choose(n, "upper")]; sq::step(); auto W = [&] { std::ostringstream o; o << std::setprecision(17) << +v << " in [" << +lo << "," << +hi << "]"; return o.str(); };
	if (lo > hi) SQ_THROWS(checkRangeCompliance(v, lo, hi), "contradicting range accepted " << W()); else SQ_CHECK(checkRangeCompliance(v, lo, hi) == (lo <= v && v <= hi), "checkRangeCompliance " << W());
	if constexpr (std::is_floating_point<T>::value) { T x = v; if (lo > hi) SQ_THROWS(enforceRangeConstraint(x, lo, hi), "contradicting range accepted " << W()); else { T r = enforceRangeConstraint(x, lo, hi); T e = v < lo ? lo : v > hi ? hi : v; SQ_CHECK(r == e && x == e, "enforceRangeConstraint " << W() << ": " << x); } }
	for (int f = 0; f < 4; f++) { bool lop = f & 1, hop = f & 2; if (std::is_floating_point<T>::value && ((lop && lo == std::numeric_limits<T>::max()) || (hop && hi == std::numeric_limits<T>::lowest()))) continue;
		bool in = (lop ? v > lo : v >= lo) && (hop ? v < hi : v <= hi), thrown = false; T r = v; try { r = checkValueRange(v, lo, hi, lop, hop); } catch (const gemfony_exception&) { thrown = true; } SQ_CHECK(thrown == !in && r == v, "checkValueRange " << W() << " open: " << lop << hop << (thrown ? " refused" : " accepted")); } 
	sq::outcome(lo > hi ? "contradiction" : v < lo ? "below" : v > hi ? "above" : "inside"); }
SQ_SCENARIO(ranges_double) { ranges<double>(); }
SQ_SCENARIO(ranges_float) { ranges<float>(); }
SQ_SCENARIO(ranges_int) { ranges<int>(); }
SQ_SCENARIO(ranges_int64) { ranges<std::int64_t>(); }
SQ_SCENARIO(ranges_uint) { ranges<unsigned>(); }
template <class T> static void cases_() { for (int m = 0; m < 2; m++) { bool mx = m; auto o = mx ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER; T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); SQ_CHECK(getWorstCase<T>(mx) == (mx ? lo : hi) && getBestCase<T>(mx) == (mx ? hi : lo) && getWorstCase<T>(o) == (mx ? lo : hi) && getBestCase<T>(o) == (mx ? hi : lo), "best/worst case"); sq::step(); } }
SQ_SCENARIO(best_worst) { cases_<double>(); cases_<float>();
	static_assert(PowSmallPosInt<2, 0>::result == 1 && PowSmallPosInt<3, 1>::result == 3 && PowSmallPosInt<5, 2>::result == 25, ""); SQ_CHECK((PowSmallPosInt<2, 10>::result == 1024 && PowSmallPosInt<7, 5>::result == 16807 && PowSmallPosInt<1, 9>::result == 1 && PowSmallPosInt<0, 3>::result == 0 && PowSmallPosInt<10, 19>::result == 10000000000000000000ull), "integer powers"); }
template <class T> static void close_() { auto B = border<T>(); T v = T(AL[sq::choose(8, "v")]), t = T(AL[sq::choose(8, "t")]), m = std::fabs(T(AL[sq::choose(8, "m")])); sq::step(); SQ_CHECK(isClose(v, t, m) == (std::fabs(v - t) <= m), "isClose " << v << " " << t << " " << m); SQ_CHECK(isClose(v, t) == (std::fabs(v - t) <= T(0.00001)), "isClose default"); }
SQ_SCENARIO(is_close) { if (sq::choose(2, "type")) close_<double>(); else close_<float>(); }
// ---- vectors
template <class T> static void vecs() {
	auto a = vec<T>(3, "lenA"), b = vec<T>(3, "lenB"); T c = T(AL[sq::choose(5, "c")]); sq::step(); auto x = a; auto bb = b;
	if (a.size() != b.size()) { SQ_THROWS(addVec(x, b), "unequal lengths accepted"); SQ_CHECK(x == a, "changed"); SQ_THROWS(subtractVec(x, b), "unequal lengths accepted"); SQ_CHECK(x == a, "changed"); }
	else { addVec(x, b); for (size_t i = 0; i < a.size(); i++) SQ_CHECK(x[i] == a[i] + b[i], "addVec"); x = a; subtractVec(x, b); for (size_t i = 0; i < a.size(); i++) SQ_CHECK(x[i] == a[i] - b[i], "subtractVec"); SQ_CHECK(b == bb && x.size() == a.size(), "operand changed"); x = a; addVec(x, x); for (size_t i = 0; i < a.size(); i++) SQ_CHECK(x[i] == a[i] + a[i], "self addition"); }
	x = a; multVecConst(x, c); for (size_t i = 0; i < a.size(); i++) SQ_CHECK(x[i] == a[i] * c, "multVecConst"); x = a; assignVecConst(x, c); SQ_CHECK(x == std::vector<T>(a.size(), c), "assignVecConst"); }
SQ_SCENARIO(vectors) { switch (sq::choose(3, "type")) { case 0: vecs<double>(); break; case 1: vecs<float>(); break; default: vecs<long>(); } }
template <class T> static void tuples() {
	using P = std::tuple<T, T>; std::vector<P> d; int n = sq::choose(sq::thorough() ? 5 : 4, "n"); static const double X[] = {0, 1, -2, 3.5}; for (int i = 0; i < n; i++) { T x = T(X[sq::choose(4, "x")]), y = T(X[sq::choose(4, "y")]); d.emplace_back(x, y); } sq::step();
	long double sx = 0, sy = 0, qx = 0, qy = 0, p = 0; for (auto& t : d) { long double x = std::get<0>(t), y = std::get<1>(t); sx += x; sy += y; qx += x * x; qy += y * y; p += x * y; }
	auto s = sumTupleVec(d), q = squareSumTupleVec(d); SQ_CHECK(near(std::get<0>(s), sx, EPS<T>, 10) && near(std::get<1>(s), sy, EPS<T>, 10), "sums"); SQ_CHECK(near(std::get<0>(q), qx, EPS<T>, 10) && near(std::get<1>(q), qy, EPS<T>, 10), "square sums"); SQ_CHECK(near(productSumTupleVec(d), p, EPS<T>, 10), "product sum");
	for (T a : {T(0), T(1), T(-1.5)}) for (T b : {T(0), T(2), T(-0.5)}) { long double e = 0; for (auto& t : d) { long double r = std::get<1>(t) - (long double)a - (long double)b * std::get<0>(t); e += r * r; } SQ_CHECK(near(squareDeviation(d, a, b), e, EPS<T>, 10), "square deviation " << squareDeviation(d, a, b) << " instead of " << e); }
	auto r = getRegressionParameters(d); if (n == 0) { SQ_CHECK(std::get<0>(r) == 0 && std::get<1>(r) == 0 && std::get<2>(r) == 0 && std::get<3>(r) == 0, "regression without data"); return; }
	long double D = n * qx - sx * sx; if (D < 1e-9L) return; // vertical line: no definition
	long double a = (sy * qx - sx * p) / D, b = (n * p - sx * sy) / D, e = 0; for (auto& t : d) { long double z = std::get<1>(t) - a - b * std::get<0>(t); e += z * z; }
	long double tol = sizeof(T) == 4 ? 2e-3L : 1e-7L; SQ_CHECK(near(std::get<0>(r), a, tol, 1) && near(std::get<2>(r), b, tol, 1), "regression " << std::get<0>(r) << "+" << std::get<2>(r) << "x instead of " << a << "+" << b << "x");
	if (n > 2) { long double sa = std::sqrt(e / (n - 2) * qx / D), sb = std::sqrt(e / (n - 2) * n / D); SQ_CHECK(near(std::get<1>(r), sa, tol, 1) && near(std::get<3>(r), sb, tol, 1), "regression errors " << std::get<1>(r) << " " << std::get<3>(r) << " instead of " << sa << " " << sb); } }
SQ_SCENARIO(regression_double) { tuples<double>(); }
SQ_SCENARIO(regression_float, s.thorough_only = true) { tuples<float>(); }
SQ_SCENARIO(ratio_errors) {
	using Q = std::tuple<double, double, double, double>; static const double X[] = {0, 1, -2, 0.5}; auto pick = [&](int t) { double st = t; return Q(st, 0.1, X[sq::choose(4, "v")], X[1 + 2 * sq::choose(2, "e")]); };
	int n = sq::choose(3, "n"), m = sq::choose(3, "m"); std::vector<Q> s, p; for (int i = 0; i < n; i++) s.push_back(pick(i)); for (int i = 0; i < m; i++) p.push_back(pick(i + (i && sq::choose(2, "other time") ? 5 : 0))); sq::step();
	bool ok = n == m; for (int i = 0; ok && i < n; i++) ok &= std::get<2>(p[i]) != 0 && std::get<0>(p[i]) == std::get<0>(s[i]);
	if (!ok) { SQ_THROWS(getRatioErrors(s, p), "inadmissible input accepted"); return; } auto r = getRatioErrors(s, p); SQ_CHECK((int)r.size() == n, "size");
	for (int i = 0; i < n; i++) { double sv = std::get<2>(s[i]), se = std::get<3>(s[i]), pv = std::get<2>(p[i]), pe = std::get<3>(p[i]); double e = std::sqrt(se / pv * se / pv + sv * pe / pv / pv * sv * pe / pv / pv); SQ_CHECK(std::get<0>(r[i]) == i && std::get<1>(r[i]) == 0 && near(std::get<2>(r[i]), sv / pv, 1e-14L) && near(std::get<3>(r[i]), e, 1e-14L, 1), "ratio " << std::get<2>(r[i]) << "+-" << std::get<3>(r[i])); } }
// ---- scalar functions
template <class T> static void scalars() {
	static const double X[] = {0, 0.5, -0.5, 1, -1, 2, -2, 3.7, -3.7, 10, -10, 100.25, 1e-8, -1e-8}; T x = T(X[sq::choose(14, "x")]), y = T(X[sq::choose(14, "y")]); sq::step(); long double lx = x, ly = y, e = EPS<T>; std::string w; auto C = [&](const char *n, T got, long double exp) { if (std::isinf(exp) ? !(std::isinf(got) && (got > 0) == (exp > 0)) : std::fabs(exp) > std::numeric_limits<T>::max() ? !std::isinf(got) : !near(got, exp, e, 0) && !(std::fabs(exp) < std::numeric_limits<T>::epsilon() && std::fabs(got - exp) < std::numeric_limits<T>::epsilon())) { std::ostringstream o; o << std::setprecision(17) << n << "(" << x << "," << y << ") = " << got << " instead of " << (double)exp; sq::fail(o.str()); } };
	if (std::fabs(x) <= 1) { C("gacos", gacos(x), acosl(lx)); C("gasin", gasin(x), asinl(lx)); } C("gatan", gatan(x), atanl(lx)); C("gtan", gtan(x), tanl(lx)); C("gtanh", gtanh(x), tanhl(lx)); C("gsinh", gsinh(x), sinhl(lx)); C("gcosh", gcosh(x), coshl(lx)); C("gceil", gceil(x), ceill(lx)); C("gfloor", gfloor(x), floorl(lx)); C("gfabs", gfabs(x), fabsl(lx)); C("gmax", gmax(x, y), x > y ? lx : ly); C("gmin", gmin(x, y), x < y ? lx : ly);
	if (x >= 0) C("gsqrt", gsqrt(x), sqrtl(lx)); C("gsin", gsin(x), sinl(lx)); C("gcos", gcos(x), cosl(lx)); if (x > 0) { C("glog", glog(x), logl(lx)); C("glog10", glog10(x), log10l(lx)); } C("gexp", gexp(x), expl(lx)); C("gsign", gsign(x), x < 0 ? -1 : 1); if (x > 0 || (y == std::floor(y) && !(x == 0 && y < 0))) C("gpow", gpow(x, y), powl(lx, ly)); C("ghypot", ghypot(x, y), hypotl(lx, ly));
	for (T al : {T(0), T(0.25), T(1), T(-0.01), T(1.01)}) if (al < 0 || al > 1) SQ_THROWS(gmix(x, y, al), "gmix with alpha " << al); else { T g = gmix(x, y, al); SQ_CHECK(near(g, lx * (1 - (long double)al) + ly * (long double)al, EPS<T>, std::max(fabsl(lx), fabsl(ly))), "gmix " << g); if (al == 0) SQ_CHECK(g == x, "gmix(0)"); if (al == 1) SQ_CHECK(g == y, "gmix(1)"); }
	for (T ba : {T(1), T(5)}) for (T st : {T(0.5), T(2)}) { T g = gsigmoid(x, ba, st); SQ_CHECK(near(g, (long double)ba * lx / ((long double)st + fabsl(lx)), EPS<T>), "gsigmoid " << g); SQ_CHECK(std::fabs(g) <= ba, "gsigmoid beyond its barrier"); } 
	SQ_CHECK(giabs(int(x)) == std::abs(int(x)) && giabs(long(x)) == std::labs(long(x)), "giabs"); }
SQ_SCENARIO(scalars_double) { scalars<double>(); }
SQ_SCENARIO(scalars_float) { scalars<float>(); }
// ---- texts
static std::string text(const std::vector<std::string>& al, int maxlen) { std::string s; int n = sq::choose(maxlen + 1, "len"); for (int i = 0; i < n; i++) s += al[sq::choose(al.size(), "token")]; return s; }
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\n\r\v\f"); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\n\r\v\f") - a + 1); }
static std::vector<std::string> cut(const std::string& s, char c) { std::vector<std::string> r; std::string x; for (char k : s) if (k == c) { r.push_back(x); x.clear(); } else x += k; r.push_back(x); return r; }
static std::vector<std::string> cut2(const std::string& s, char c) { std::vector<std::string> r; for (auto& f : cut(s, c)) { auto t = trim(f); if (!t.empty()) r.push_back(t); } return r; }
// independent readers; false: malformed
static bool isuint(const std::string& f, unsigned long long& v) { if (f.empty()) return false; v = 0; for (char c : f) { if (c < '0' || c > '9') return false; if (v > 100000000000ull) return false; v = v * 10 + (c - '0'); } return v <= 4294967295ull; }
static bool isdouble(const std::string& f, long double& v) { size_t i = 0; auto dig = [&] { size_t s = i; while (i < f.size() && isdigit((unsigned char)f[i])) i++; return i - s; }; if (i < f.size() && (f[i] == '+' || f[i] == '-')) i++; size_t a = dig(), b = 0; if (i < f.size() && f[i] == '.') { i++; b = dig(); } if (!a && !b) return false; if (i < f.size() && (f[i] == 'e' || f[i] == 'E')) { i++; if (i < f.size() && (f[i] == '+' || f[i] == '-')) i++; if (!dig()) return false; } if (i != f.size()) return false; v = strtold(f.c_str(), nullptr); return true; }
SQ_SCENARIO(uint_list) {
	char sep = sq::choose(2, "sep") ? ':' : ','; auto s = text({"0", "1", "12", "4294967295", "4294967296", " ", "-", sep == ',' ? "," : ":", "x"}, sq::thorough() ? 6 : 5); std::vector<unsigned> e; bool ok = true; for (auto& f : cut(s, sep)) { unsigned long long v = 0; ok &= isuint(trim(f), v); e.push_back(unsigned(v)); } sq::step();
	std::vector<unsigned> r; bool thrown = false; try { r = stringToUIntVec(s, sep); } catch (const gemfony_exception&) { thrown = true; } SQ_CHECK(thrown == !ok, "\"" << s << "\" " << (thrown ? "refused" : "accepted")); if (ok) SQ_CHECK(r == e, "\"" << s << "\" read as " << show(r)); sq::outcome(ok ? "list" : "refused");
	if (sep == ':') { std::chrono::duration<double> d{}; bool t = false; try { d = duration_from_string(s); } catch (const gemfony_exception&) { t = true; } bool dok = ok && e.size() <= 3; SQ_CHECK(t == !dok, "duration \"" << s << "\" " << (t ? "refused" : "accepted")); if (dok) { double sec = 0; for (auto x : e) sec = sec * 60 + x; SQ_CHECK(d.count() == sec, "duration \"" << s << "\": " << d.count()); } } }
SQ_SCENARIO(double_list) {
	auto s = text({"0", "17", ".", "-", ",", " ", "e", "5", "+"}, sq::thorough() ? 6 : 5); std::vector<long double> e; bool ok = true; for (auto& f : cut(s, ',')) { long double v = 0; ok &= isdouble(trim(f), v); e.push_back(v); } for (auto& f : cut(s, ',')) { size_t k = f.find('e'); if (k != std::string::npos && std::count_if(f.begin() + k, f.end(), [](char c) { return isdigit((unsigned char)c); }) > 2) return; } sq::step(); // exponents of three digits and more are left out
	std::vector<double> r; bool thrown = false; try { r = stringToDoubleVec(s); } catch (const gemfony_exception&) { thrown = true; } SQ_CHECK(thrown == !ok, "\"" << s << "\" " << (thrown ? "refused" : "accepted")); if (ok) { SQ_CHECK(r.size() == e.size(), "number of values of \"" << s << "\""); for (size_t i = 0; i < r.size(); i++) SQ_CHECK(near(r[i], e[i], 1e-14L), "\"" << s << "\" read as " << show(r)); } sq::outcome(ok ? "list" : "refused"); }
SQ_SCENARIO(uint_pairs) {
	auto s = text({"1", "20", "(", ")", ",", " ", "(3,4)", "(5, 6),"}, sq::thorough() ? 7 : 5); // recursive descent
	size_t i = 0; auto ws = [&] { while (i < s.size() && s[i] == ' ') i++; }; auto ch = [&](char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }; auto num = [&](unsigned& v) { ws(); size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; unsigned long long x = 0; bool k = isuint(s.substr(b, i - b), x); v = unsigned(x); return k; };
	std::vector<std::tuple<unsigned, unsigned>> e, r; bool ok = true; do { unsigned a = 0, b = 0; ok = ch('(') && num(a) && ch(',') && num(b) && ch(')'); if (ok) e.emplace_back(a, b); } while (ok && ch(',')); ws(); ok = ok && i == s.size(); sq::step();
	bool thrown = false; try { r = stringToUIntTupleVec(s); } catch (const gemfony_exception&) { thrown = true; } SQ_CHECK(thrown == !ok, "\"" << s << "\" " << (thrown ? "refused" : "accepted")); if (ok) SQ_CHECK(r == e, "\"" << s << "\" read wrongly"); sq::outcome(ok ? "list" : "refused"); }
SQ_SCENARIO(split) {
	auto s = text({"a", "bc", " ", ",", ";", "\t", "1"}, sq::thorough() ? 7 : 6); sq::step(); SQ_CHECK(splitString(s, ",") == cut2(s, ','), "\"" << s << "\" split at , into " << show(splitString(s, ","))); SQ_CHECK(splitString(s, ";") == cut2(s, ';'), "\"" << s << "\" split at ;"); SQ_CHECK(splitStringT<std::string>(s, ";") == cut2(s, ';') , "splitStringT<string> \"" << s << "\""); 
	SQ_THROWS(splitString(s, ""), "no separator accepted"); SQ_THROWS(splitString(s, ",;"), "two separators accepted"); SQ_THROWS((splitStringT<std::string, std::string>(s, ",", ",")), "identical separators accepted"); }
SQ_SCENARIO(split_typed) {
	auto s = text({"1", "-2", " ", ",", "/", "x", "1.5"}, sq::thorough() ? 7 : 5); sq::step(); auto ivalid = [](const std::string& f, long& v) { size_t i = f[0] == '-' || f[0] == '+'; if (i >= f.size()) return false; for (size_t k = i; k < f.size(); k++) if (!isdigit((unsigned char)f[k])) return false; v = atol(f.c_str()); return true; };
	{ std::vector<int> e, r; bool ok = true, t = false; for (auto& f : cut2(s, ',')) { long v = 0; ok &= ivalid(f, v); e.push_back(v); } try { r = splitStringT<int>(s, ","); } catch (const std::exception&) { t = true; } SQ_CHECK(t == !ok && (t || r == e), "\"" << s << "\" as integers: " << (t ? "refused" : show(r))); }
	{ std::vector<std::tuple<int, double>> e, r; bool ok = true, t = false; for (auto& f : cut2(s, ',')) { auto p = cut2(f, '/'); long a = 0; long double b = 0; if (p.size() != 2) { ok = false; break; } ok &= ivalid(p[0], a) && isdouble(p[1], b); e.emplace_back(a, b); } try { r = splitStringT<int, double>(s, ",", "/"); } catch (const std::exception&) { t = true; } SQ_CHECK(t == !ok && (t || r == e), "\"" << s << "\" as pairs: " << (t ? "refused" : "accepted")); sq::outcome(ok ? "pairs" : "refused"); } }
SQ_SCENARIO(to_text) { auto v = vec<double>(3); std::string a, b; for (size_t i = 0; i < v.size(); i++) { std::ostringstream o; o << v[i]; a += o.str() + " "; b += (i ? ", " : "") + o.str(); } sq::step(); SQ_CHECK(vecToString(v) == a, "vecToString " << vecToString(v)); SQ_CHECK(vector_as_string(v) == b, "vector_as_string " << vector_as_string(v));
	for (double x : v) SQ_CHECK(std::strtod(Gem::Common::to_string(x).c_str(), nullptr) == x && std::strtof(Gem::Common::to_string(float(x)).c_str(), nullptr) == float(x), "to_string does not denote the value"); enum E1 { A1 = 3 }; enum class E2 : std::uint32_t { B = 4000000000u }; SQ_CHECK(Gem::Common::to_string(A1) == "3" && Gem::Common::to_string(E2::B) == "4000000000" && Gem::Common::to_string(-5) == "-5" && Gem::Common::to_string(std::uint64_t(-1)) == "18446744073709551615" && Gem::Common::to_string(std::string("x")) == "x", "to_string"); 
	for (double x : {0.1, 1. / 3, 1e300, 5e-324}) SQ_CHECK(std::strtod(Gem::Common::to_string(x).c_str(), nullptr) == x, "to_string loses digits of " << x); }
SQ_SCENARIO(times) { static const long long T[] = {0, 1, -1, 999, 1000, 1574197200000ll, -86400000, 4102444800000ll}; long long t = T[sq::choose(8, "t")]; sq::step(); SQ_CHECK(time_point_to_milliseconds(milliseconds_to_time_point(t)) == t, "time round trip " << t); SQ_CHECK(milliseconds_to_time_point(t).time_since_epoch() == std::chrono::milliseconds(t), "time point " << t);
	SQ_CHECK(serializationModeToString(serializationMode::TEXT) == "text mode" && serializationModeToString(serializationMode::XML) == "XML mode" && serializationModeToString(serializationMode::BINARY) == "binary mode", "mode names"); }
SQ_SCENARIO(environment) { static const char *V[] = {nullptr, "5", " 5 ", "-7", "x", "", "99999999999", "2.5", "\t12\n"}; int k = sq::choose(9, "value"); sq::step(); if (V[k]) setenv("C36_VAR", V[k], 1); else unsetenv("C36_VAR"); bool t = false; boost::optional<int> r; try { r = environmentVariableAs<int>("C36_VAR"); } catch (const std::exception&) { t = true; } bool bad = k == 4 || k == 5 || k == 6 || k == 7; SQ_CHECK(t == bad, "value " << k << (t ? " refused" : " accepted")); if (!bad) { SQ_CHECK(bool(r) == (k != 0), "presence"); if (k) SQ_CHECK(*r == (k == 3 ? -7 : k == 8 ? 12 : 5), "value " << *r); } if (V[k]) { auto s = environmentVariableAs<std::string>("C36_VAR"); SQ_CHECK(s && *s == trim(V[k]), "text"); } }
SQ_SCENARIO(map_item) { std::map<std::string, int> m; int mask = sq::choose(8, "keys"); static const char *K[] = {"a", "", "b"}; for (int i = 0; i < 3; i++) if (mask >> i & 1) m[K[i]] = i + 1; const auto& cm = m; sq::step(); for (int i = 0; i < 3; i++) if (mask >> i & 1) { SQ_CHECK(getMapItem(m, K[i]) == i + 1 && getMapItem(cm, K[i]) == i + 1, "wrong item"); getMapItem(m, K[i]) = i + 1; } else { SQ_THROWS(getMapItem(m, K[i]), "missing key accepted"); SQ_THROWS(getMapItem(cm, K[i]), "missing key accepted"); SQ_CHECK(m.count(K[i]) == 0, "key was created"); } }
// ---- erasing
template <class C> static void erase1() { C c; std::vector<int> r; int n = sq::choose(6, "n"); for (int i = 0; i < n; i++) { int x = sq::choose(2, "x") * 10 + i; c.push_back(x); r.push_back(x); } sq::step(); auto p = [](int x) { return x >= 10; }; size_t k = erase_if(c, p); std::vector<int> e; for (int x : r) if (!p(x)) e.push_back(x); SQ_CHECK(std::vector<int>(c.begin(), c.end()) == e && k == r.size() - e.size(), "erase_if of " << show(r)); }
SQ_SCENARIO(erase) { switch (sq::choose(3, "container")) { case 0: erase1<std::vector<int>>(); break; case 1: erase1<std::deque<int>>(); break; default: erase1<std::list<int>>(); } }
SQ_SCENARIO(erase_flags) { int n = sq::choose(6, "n"); std::vector<int> c; for (int i = 0; i < n; i++) c.push_back(i); int m = n + sq::choose(3, "flags") - 1; if (m < 0) m = 0; std::vector<bool> f; for (int i = 0; i < m; i++) f.push_back(sq::choose(2, "f")); size_t s = sq::choose(n + 2, "start"), e = sq::choose(n + 2, "end"); bool fl = sq::choose(2, "flag"); sq::step(); auto c0 = c;
	if (s >= e || (int)e > n || m != n) { SQ_THROWS(erase_according_to_flags(c, f, fl, s, e), "inadmissible request accepted"); SQ_CHECK(c == c0, "changed"); return; }
	erase_according_to_flags(c, f, fl, s, e); std::vector<int> x; for (int i = 0; i < n; i++) if (i < (int)s || i >= (int)e || f[i] != fl) x.push_back(i); SQ_CHECK(c == x, "flags: kept " << show(c)); }
// ---- copying arrays and pointers
struct Val { int v; };
SQ_SCENARIO(copy_arrays) {
	int *to = nullptr; size_t nTo = 0; std::vector<int> cur; for (int d = 0; d < 3; d++) { int nf = sq::choose(4, "n"); std::vector<int> f; for (int i = 0; i < nf; i++) f.push_back(d * 10 + i); const int *p = nf ? f.data() : nullptr; sq::step(); copyArrays<int>(p, to, size_t(nf), nTo); cur = f; SQ_CHECK(nTo == cur.size() && (nTo == 0) == (to == nullptr), "size after copy"); for (size_t i = 0; i < nTo; i++) SQ_CHECK(to[i] == cur[i] && to != p, "content"); }
	int x = 1; int *np = nullptr; size_t z = 0, one = 1; SQ_THROWS(copyArrays<int>(nullptr, np, size_t(1), z), "empty source with size"); SQ_THROWS(copyArrays<int>(&x, np, size_t(0), z), "source without size"); SQ_THROWS(copyArrays<int>(&x, np, size_t(1), one), "empty target with size"); int *q = &x; z = 0; SQ_THROWS(copyArrays<int>(&x, q, size_t(1), z), "target without size"); delete[] to; }
SQ_SCENARIO(copy_pointer_arrays) {
	using P = std::shared_ptr<Val>; P *to = nullptr; size_t nTo = 0; for (int d = 0; d < 3; d++) { int nf = sq::choose(4, "n"); std::vector<P> f; for (int i = 0; i < nf; i++) f.push_back(sq::choose(2, "null") ? P() : P(new Val{d * 10 + i})); P *p = nf ? f.data() : nullptr; sq::step(); copySmartPointerArrays<Val>(p, to, size_t(nf), nTo); SQ_CHECK(nTo == f.size() && (nTo == 0) == (to == nullptr), "size after copy: " << nTo << (to ? "" : " (no array)")); for (size_t i = 0; i < nTo; i++) SQ_CHECK(bool(to[i]) == bool(f[i]) && (!to[i] || (to[i] != f[i] && to[i]->v == f[i]->v)), "content"); } delete[] to; }
SQ_SCENARIO(copy_pointers) {
	using P = std::shared_ptr<Val>; auto mk = [](int base) { std::vector<P> v; int n = sq::choose(4, "n"); for (int i = 0; i < n; i++) v.push_back(sq::choose(2, "null") ? P() : P(new Val{base + i})); return v; }; auto f = mk(10), t = mk(50); sq::step(); auto same = [](const P& a, const P& b) { return bool(a) == bool(b) && (!a || (a != b && a->v == b->v)); }; if (!f.empty() && !t.empty()) { P x = t[0]; copySmartPointer(f[0], x); SQ_CHECK(same(x, f[0]), "copySmartPointer"); }
	copySmartPointerVector(f, t); SQ_CHECK(f.size() == t.size(), "size"); for (size_t i = 0; i < f.size(); i++) SQ_CHECK(same(f[i], t[i]) && (!f[i] || f[i]->v == 10 + int(i)), "element " << i); }
struct Base : public GCommonInterfaceT<Base> { int v = 0; explicit Base(int x = 0) : v(x) {} virtual ~Base() = default; std::string name_() const override { return "Base"; } void load_(const Base *o) override { v = o->v; } Base *clone_() const override { return new Base(*this); } void compare_(const Base& o, const expectation& e, const double&) const override { GToken token("Base", e); compare_t(IDENTITY(v, o.v), token); token.evaluate(); } bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {} template <class A> void serialize(A& ar, const unsigned int) { ar & BOOST_SERIALIZATION_NVP(v); } };
struct D1 : public Base { int w = 0; explicit D1(int x = 0) : Base(x), w(x + 1000) {} std::string name_() const override { return "D1"; } void load_(const Base *o) override { auto p = g_convert_and_compare<Base, D1>(o, this); Base::load_(o); w = p->w; } Base *clone_() const override { return new D1(*this); } template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<Base>(*this)); } };
struct D2 : public Base { explicit D2(int x = 0) : Base(x) {} std::string name_() const override { return "D2"; } void load_(const Base *o) override { g_convert_and_compare<Base, D2>(o, this); Base::load_(o); } Base *clone_() const override { return new D2(*this); } template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<Base>(*this)); } };
BOOST_CLASS_EXPORT(D1) BOOST_CLASS_EXPORT(D2)
template <template <typename, typename> class C> static void cloneable() {
	using P = std::shared_ptr<Base>; using V = C<P, std::allocator<P>>; auto mk = [](int base) { V v; int n = sq::choose(4, "n"); for (int i = 0; i < n; i++) switch (sq::choose(4, "kind")) { case 0: v.push_back(P(new Base(base + i))); break; case 1: v.push_back(P(new D1(base + i))); break; case 2: v.push_back(P(new D2(base + i))); break; default: v.push_back(P()); } return v; }; auto f = mk(10), t = mk(50); auto f0 = f; sq::step();
	auto chk = [&](const P& a, const P& b, const char *w) { SQ_CHECK(bool(a) == bool(b), w << ": empty/non-empty"); if (!a) return; SQ_CHECK(a != b && a->v == b->v && typeid(*a) == typeid(*b), w << ": type " << typeid(*b).name() << " instead of " << typeid(*a).name() << ", value " << b->v); if (auto d = dynamic_cast<D1*>(a.get())) SQ_CHECK(dynamic_cast<D1*>(b.get())->w == d->w, "derived member lost"); };
	if (!f.empty() && !t.empty()) { P x = t[0] ? t[0]->template clone<Base>() : P(); SQ_NOTHROW(copyCloneableSmartPointer(f[0], x), "copyCloneableSmartPointer"); chk(f[0], x, "copyCloneableSmartPointer"); }
	SQ_NOTHROW(copyCloneableSmartPointerContainer(f, t), "copyCloneableSmartPointerContainer"); SQ_CHECK(f.size() == t.size() && f == f0, "sizes"); for (size_t i = 0; i < f.size(); i++) { chk(f[i], t[i], "container"); if (f[i]) SQ_CHECK(f[i]->v == 10 + int(i), "source changed"); } }
SQ_SCENARIO(copy_cloneable) { cloneable<std::vector>(); }
SQ_SCENARIO(copy_cloneable_deque) { cloneable<std::deque>(); }
SQ_SCENARIO(copy_objects) { std::vector<Base> f, t; int n = sq::choose(4, "n"), m = sq::choose(4, "m"); for (int i = 0; i < n; i++) f.emplace_back(10 + i); for (int i = 0; i < m; i++) t.emplace_back(50 + i); sq::step(); copyCloneableObjectsContainer(f, t); SQ_CHECK(f.size() == t.size(), "size"); for (int i = 0; i < n; i++) SQ_CHECK(t[i].v == 10 + i && f[i].v == 10 + i, "content"); }
SQ_SCENARIO(conversions) {
	std::shared_ptr<Base> a[] = {std::make_shared<Base>(1), std::make_shared<D1>(2), std::make_shared<D2>(3), nullptr}; int k = sq::choose(4, "object"), j = sq::choose(4, "other"); auto p = a[k]; sq::step(); auto o = std::dynamic_pointer_cast<D1>(a[j]);
	auto same = [&](auto&& f, bool ok, bool null, const char *w) { bool t = false; const void *r = nullptr; try { r = f(); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, w << (t ? " refused" : " accepted")); if (ok) SQ_CHECK(null ? !r : r == p.get(), w << ": other object"); };
	same([&] { return (const void *)g_ptr_conversion<Base, D1>(p).get(); }, k == 1 || k == 3, k == 3, "g_ptr_conversion"); same([&] { return (const void *)g_ptr_conversion<Base, D1>(static_cast<const Base *>(p.get())); }, k == 1 || k == 3, k == 3, "g_ptr_conversion (plain)"); same([&] { return (const void *)convertSmartPointer<Base, D1>(p).get(); }, k == 1, false, "convertSmartPointer"); same([&] { return (const void *)convertSimplePointer<Base, D1>(static_cast<const Base *>(p.get())); }, k == 1, false, "convertSimplePointer");
	bool clash = k == 1 && j == 1; same([&] { return (const void *)g_convert_and_compare<Base, D1>(p, o).get(); }, (k == 1 || k == 3) && !clash, k == 3, "g_convert_and_compare"); if (p) same([&] { return (const void *)g_convert_and_compare<Base, D1>(*p, o.get()); }, k == 1 && !clash, false, "g_convert_and_compare (reference)"); same([&] { return (const void *)g_convert_and_compare<Base, D1>(static_cast<const Base *>(p.get()), o.get()); }, (k == 1 || k == 3) && !clash, k == 3, "g_convert_and_compare (plain)"); }
