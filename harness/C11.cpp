// C11: random distributions over every raw number script of a small alphabet.
#include "sq.hpp"
#include "hap/GRandomT.hpp"
#include "hap/GRandomDistributionsT.hpp"
#include <random>
#include <cmath>
using namespace Gem::Hap;
using Raw = std::uint32_t;
static const Raw ALPH[] = {0u, 1u, 0x3fffffffu, 0x7fffffffu, 0x80000000u, 0xdeadbeefu, 0xfffffffeu, 0xffffffffu};
// the library's generator base class with a scripted source: script first, then a full-period LCG
struct Script : public GRandomBase { std::vector<Raw> s; size_t pos = 0; std::uint64_t x = 88172645463325252ull; size_t drawn = 0;
	Script() = default; explicit Script(std::vector<Raw> v) : s(v) {}
	result_type int_random() override { drawn++; if (drawn > 100000) sq::fail("a distribution drew 100000 raw numbers without a result"); if (pos < s.size()) return s[pos++]; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return Raw(x >> 16); } };
// the same stream without the library (reference)
struct Plain { using result_type = std::mt19937::result_type; Script s; explicit Plain(std::vector<Raw> v) : s(v) {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } result_type operator()() { return s.int_random(); } };
static std::vector<Raw> script(int n) { std::vector<Raw> v; for (int i = 0; i < n; i++) v.push_back(ALPH[sq::choose(8, "raw")]); return v; }
static std::string show(const std::vector<Raw>& v) { std::ostringstream o; for (auto x : v) o << " " << x; return o.str(); }
template <class T> static void binormal() {
	static const T P[][4] = {{0, 1, 1, 0}, {1, T(0.25), 2, 3}, {-2, 0, 0, 4}, {-2, 0, 0, -4}, {5, 0, T(1.5), 1}, {5, T(1.5), 0, 1}, {T(1e30), T(1e-3), T(1e3), T(1e30)}, {0, T(0.5), 2, T(-7)}};
	const T *p = P[sq::choose(8, "params")]; int form = sq::choose(3, "form"); auto s = script(sq::thorough() ? 6 : 4);
	Script g(s); Plain r(s); std::bernoulli_distribution rb; std::normal_distribution<T> rn;
	bi_normal_distribution<T> d0, d(p[0], p[1], p[2], p[3]), d2{typename bi_normal_distribution<T>::param_type(p[0], p[1], p[2], p[3])};
	T left = p[0] - std::abs(p[3] / 2), right = p[0] + std::abs(p[3] / 2);
	for (int i = 0; i < 6; i++) {
		T v = form == 0 ? d(g) : form == 1 ? d2(g) : d0(g, typename bi_normal_distribution<T>::param_type(p[0], p[1], p[2], p[3])); sq::step();
		bool l = rb(r); T n = rn(r); T e = l ? p[1] * n + left : p[2] * n + right;
		SQ_CHECK(std::isfinite(v), "not finite: " << v);
		SQ_CHECK(std::abs(v - e) <= T(1e-5) * (std::abs(e) + std::abs(p[0])) + T(1e-30), "value " << v << " instead of " << e << " for parameters " << p[0] << " " << p[1] << " " << p[2] << " " << p[3] << " raw" << show(s));
		if (p[1] == 0 && p[2] == 0) { SQ_CHECK(v == left || v == right, "value " << v << " with zero widths is on neither peak"); sq::outcome(v == left ? "left" : "right"); }
	}
	SQ_CHECK(d.mean() == p[0] && d.sigma1() == p[1] && d.sigma2() == p[2] && d.distance() == p[3], "getters changed"); }
SQ_SCENARIO(bi_normal_double) { binormal<double>(); }
SQ_SCENARIO(bi_normal_float) { binormal<float>(); }
// comparison, copies, param, reset: all operation sequences over two objects
SQ_SCENARIO(bi_normal_objects) {
	using D = bi_normal_distribution<double>; using PT = D::param_type;
	struct R { double c[4], s[4]; } ra, rb; auto ld = [](double *x, const double *y) { for (int i = 0; i < 4; i++) x[i] = y[i]; };
	static const double V[][4] = {{DEF_BINORM_MEAN, DEF_BINORM_SIGMA1, DEF_BINORM_SIGMA2, DEF_BINORM_DISTANCE}, {1, 2, 3, 4}, {9, 2, 3, 4}, {1, 9, 3, 4}, {1, 2, 9, 4}, {1, 2, 3, 9}};
	auto par = [&](int k) { return PT(V[k][0], V[k][1], V[k][2], V[k][3]); };
	D *a, *b; int ka = sq::choose(6, "a"), kb = sq::choose(6, "b"); a = ka ? new D(V[ka][0], V[ka][1], V[ka][2], V[ka][3]) : new D(); b = kb ? new D(par(kb)) : new D(); ld(ra.c, V[ka]); ld(ra.s, V[ka]); ld(rb.c, V[kb]); ld(rb.s, V[kb]); std::string h;
	for (int d = 0; d < (sq::thorough() ? 4 : 3); d++) {
		switch (sq::choose(7, "op")) {
		case 0: { D *n = new D(*b); delete a; a = n; ra = rb; h += " a(b)"; break; }
		case 1: { D *n = new D(*a); delete b; b = n; rb = ra; h += " b(a)"; break; }
		case 2: a->reset(); ld(ra.c, ra.s); h += " a.reset"; break;
		case 3: { int k = 1 + sq::choose(5, "k"); a->param(par(k)); ld(ra.c, V[k]); h += " a.param(" + std::to_string(k) + ")"; break; }
		case 4: { int k = 1 + sq::choose(5, "k"); b->param(par(k)); ld(rb.c, V[k]); h += " b.param(" + std::to_string(k) + ")"; break; }
		case 5: b->reset(); ld(rb.c, rb.s); h += " b.reset"; break;
		case 6: { PT p(a->param()); PT q = par(1); q = p; SQ_CHECK(p == q && !(p != q), "parameter sets"); b->param(q); ld(rb.c, ra.c); h += " b.param(a.param)"; } }
		sq::step(); bool eq = true; for (int i = 0; i < 4; i++) eq &= ra.c[i] == rb.c[i];
		SQ_CHECK(a->mean() == ra.c[0] && a->sigma1() == ra.c[1] && a->sigma2() == ra.c[2] && a->distance() == ra.c[3], "a wrong after" << h); SQ_CHECK(b->mean() == rb.c[0] && b->sigma1() == rb.c[1] && b->sigma2() == rb.c[2] && b->distance() == rb.c[3], "b wrong after" << h);
		SQ_CHECK((*a == *b) == eq && (*a != *b) == !eq && (*b == *a) == eq, "comparison wrong after" << h);
		Script g({5, 6, 7}), g2({5, 6, 7}); D ca(*a); PT pp(a->param()); D cb{pp}; SQ_CHECK(ca(g) == cb(g2), "copy behaves differently after" << h); sq::H hh; for (int i = 0; i < 4; i++) hh << ra.c[i] << rb.c[i] << ra.s[i] << rb.s[i]; sq::state(hh); }
	delete a; delete b; }
template <class T> static void uni(T lo, T hi, const std::vector<Raw>& s) { Script g(s); Plain r(s); std::uniform_real_distribution<T> d(lo, hi), rd(lo, hi); for (int i = 0; i < 3; i++) { T v = d(g); sq::step(); SQ_CHECK(v >= lo && (v < hi || (v == hi && std::nextafter(hi, lo) - lo <= 0)), "uniform real " << v << " outside [" << lo << "," << hi << ") raw" << show(s)); SQ_CHECK(v == rd(r), "the generator delivers other numbers than its source"); } }
SQ_SCENARIO(uniform_real) { auto s = script(sq::thorough() ? 6 : 4); switch (sq::choose(5, "range")) { case 0: uni<double>(0, 1, s); break; case 1: uni<double>(-10, 10, s); break; case 2: uni<double>(1e-3, 1e-2, s); break; case 3: uni<float>(0, 1, s); break; default: uni<float>(-3, 8, s); } }
template <class I> static void uint_(I lo, I hi, const std::vector<Raw>& s) { Script g(s); Plain r(s); std::uniform_int_distribution<I> d(lo, hi), rd(lo, hi); for (int i = 0; i < 3; i++) { I v = d(g); sq::step(); SQ_CHECK(v >= lo && v <= hi, "uniform integer " << +v << " outside"); SQ_CHECK(v == rd(r), "other integer than the source gives"); } }
SQ_SCENARIO(uniform_int) { auto s = script(sq::thorough() ? 6 : 4); switch (sq::choose(6, "range")) { case 0: uint_<int>(0, 1, s); break; case 1: uint_<int>(-2147483647 - 1, 2147483647, s); break; case 2: uint_<int>(3, 3, s); break; case 3: uint_<std::size_t>(0, 6, s); break; case 4: uint_<std::int64_t>(-5000000000ll, 5000000000ll, s); break; default: uint_<std::uint16_t>(10, 20, s); } }
SQ_SCENARIO(reachability) { // every value of small ranges, both booleans
	int n = 1 + sq::choose(16, "n"); std::vector<int> seen(n); for (Raw k = 0; k < 256; k++) { Script g({k << 24}); std::uniform_int_distribution<int> d(0, n - 1); seen[d(g)]++; } for (int i = 0; i < n; i++) SQ_CHECK(seen[i] > 0, "value " << i << " of " << n << " unreachable");
	int t = 0; for (Raw k = 0; k < 256; k++) { Script g({k << 24, k << 24}); std::bernoulli_distribution b(n / 16.); t += b(g); } SQ_CHECK(std::abs(t - 16 * n) <= 1, "bernoulli(" << n / 16. << ") true for " << t << " of 256 equidistant raw numbers"); }
SQ_SCENARIO(bernoulli) { auto s = script(sq::thorough() ? 6 : 4); static const double P[] = {0, 1, 0.5, 1e-12, 0.9999999}; double p = P[sq::choose(5, "p")]; Script g(s); std::bernoulli_distribution d(p); for (int i = 0; i < 3; i++) { bool v = d(g); SQ_CHECK(p != 0 || !v, "true with probability 0"); SQ_CHECK(p != 1 || v, "false with probability 1"); sq::step(); } }
SQ_SCENARIO(generator_interface) { // limits as seen by the standard library; the two flavours hand out the numbers of their source
	SQ_CHECK((GRandomBase::min)() == 0 && (GRandomBase::max)() == 0xffffffffu, "limits"); SQ_CHECK((GRandom::min)() == 0 && (GRandom::max)() == 0xffffffffu, "limits"); SQ_CHECK((GRandomT<RANDFLAVOURS::RANDOMLOCAL>::max)() == 0xffffffffu, "limits");
	Script g({1, 2, 0xffffffffu}); SQ_CHECK(g() == 1 && g() == 2 && g() == 0xffffffffu, "operator() alters numbers"); }
