// C34: expectation checks on all pairs of small operands
#include "sq.hpp"
#include "common/GExpectationChecksT.hpp"
#include "common/GCommonInterfaceT.hpp"
#include "common/GCommonHelperFunctionsT.hpp"
#include "geneva/GDoubleObject.hpp"
#include <cmath>
#include <limits>
#include <deque>
#include <list>
#include <set>
using namespace Gem::Common;
static const double INF = std::numeric_limits<double>::infinity(), QNAN = std::nan("");
enum class Res { OK, VIOLATED, OTHER };
template <class F> static Res run(F f, std::string *msg = nullptr) { try { f(); return Res::OK; } catch (const g_expectation_violation& e) { if (msg) *msg = e.what(); return Res::VIOLATED; } catch (const std::exception& e) { if (msg) *msg = e.what(); return Res::OTHER; } }
static const expectation E[] = {expectation::EQUALITY, expectation::INEQUALITY, expectation::FP_SIMILARITY};
static const char *EN[] = {"equality", "inequality", "similarity"};
// compares a with b in all ways; eq/sim: what the definition says
template <class T> static void judge(const T& a, const T& b, bool eq, bool sim, double limit, const std::string& what) {
	bool want[3] = {eq, !eq, sim};
	for (int i = 0; i < 3; i++) {
		std::string m; sq::step(); auto r = run([&] { Gem::Common::compare(a, b, "first_operand", "second_operand", E[i], limit); }, &m); SQ_CHECK(r == (want[i] ? Res::OK : Res::VIOLATED), EN[i] << (want[i] ? " denied" : " confirmed") << (r == Res::OTHER ? " (other exception: " + m + ")" : "") << " for " << what);
		auto r2 = run([&] { Gem::Common::compare(b, a, "x", "y", E[i], limit); }); SQ_CHECK(r2 == r, EN[i] << " is not symmetric for " << what);
		if (r == Res::VIOLATED && i != 1) SQ_CHECK(m.find("first_operand") != std::string::npos && m.find("second_operand") != std::string::npos, "the message does not name the operands: " << m);
		if (limit == CE_DEF_SIMILARITY_DIFFERENCE) { GToken t("caller", E[i]); int n = 1 + sq::choose(2, "tests"); for (int k = 0; k < n; k++) compare_t(getIdentity(a, b, "first_operand", "second_operand"), t);
			SQ_CHECK(t.expectationMet() == want[i] && bool(t) == want[i] && t.getTestCounter() == size_t(n) && t.getSuccessCounter() == (want[i] ? size_t(n) : 0), "token for " << EN[i] << " of " << what); std::string tm; auto tr = run([&] { t.evaluate(); }, &tm); SQ_CHECK(tr == (want[i] ? Res::OK : Res::VIOLATED), "evaluate() of the token"); if (tr == Res::VIOLATED) SQ_CHECK(tm.find("caller") != std::string::npos && (i == 1 || tm.find("first_operand") != std::string::npos), "message of the token: " << tm); }
	}
	sq::outcome(eq ? "equal" : sim ? "similar" : "different"); }
template <class T> static void pairs(const std::vector<T>& v, const char *name) { int i = sq::choose(v.size(), "a"), j = sq::choose(v.size(), "b"); judge(v[i], v[j], v[i] == v[j], v[i] == v[j], sq::choose(2, "limit") ? 0.5 : CE_DEF_SIMILARITY_DIFFERENCE, std::string(name) + " #" + std::to_string(i) + " and #" + std::to_string(j)); }
enum class Col { RED, GREEN }; static std::ostream& operator<<(std::ostream& o, Col c) { return o << int(c); } enum Plain { P0, P1 };
SQ_SCENARIO(basic_types) {
	using L = std::numeric_limits<std::int64_t>;
	switch (sq::choose(9, "type")) { case 0: pairs<bool>({false, true}, "bool"); break; case 1: pairs<int>({0, 1, -1, 2147483647, -2147483647 - 1}, "int"); break; case 2: pairs<unsigned>({0, 1, 4294967295u}, "unsigned"); break; case 3: pairs<std::int64_t>({0, L::max(), L::min(), L::max() - 1}, "int64"); break; case 4: pairs<std::size_t>({0, 1, ~size_t(0), ~size_t(0) - 1}, "size_t"); break; case 5: pairs<std::string>({"", "a", "A", "a ", "ab"}, "string"); break; case 6: pairs<Col>({Col::RED, Col::GREEN}, "enum class"); break; case 7: pairs<Plain>({P0, P1}, "enum"); break; default: pairs<char>({'a', 'b', 'c'}, "char"); } }
SQ_SCENARIO(times) { using C = std::chrono::high_resolution_clock; if (sq::choose(2, "kind")) { C::time_point z; pairs<C::time_point>({z, z + std::chrono::nanoseconds(1), z - std::chrono::hours(5), C::time_point::max()}, "time point"); } else { using D = std::chrono::duration<double>; pairs<D>({D(0), D(1), D(-1), D(1e-9)}, "duration"); } }
SQ_SCENARIO(tribools) { using boost::logic::tribool; tribool v[] = {false, true, boost::logic::indeterminate}; int i = sq::choose(3, "a"), j = sq::choose(3, "b"); judge(v[i], v[j], i == j, i == j, CE_DEF_SIMILARITY_DIFFERENCE, "tribool " + std::to_string(i) + std::to_string(j)); }
template <class T> static std::vector<T> fps() { T e = T(CE_DEF_SIMILARITY_DIFFERENCE); return {0, T(-0.), 1, T(1) + e / 2, T(1) + e, T(1) + e * T(1.5), std::nextafter(T(1), T(2)), -1, T(1.4), T(1e20), T(INF), T(-INF), T(QNAN), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(), e, std::nextafter(e, T(0)), std::nextafter(e, T(1))}; }
template <class T> static bool similar(T a, T b, double limit) { return a == b || std::fabs(a - b) < T(limit); }
static const double LIM[] = {CE_DEF_SIMILARITY_DIFFERENCE, 0.5, 1e-3, 0.};
template <class T> static void fp() { auto v = fps<T>(); T a = v[sq::choose(v.size(), "a")], b = v[sq::choose(v.size(), "b")]; double l = LIM[sq::choose(4, "limit")]; std::ostringstream o; o << std::setprecision(17) << a << " and " << b << " within " << l; judge(a, b, a == b, similar(a, b, l), l, o.str()); }
SQ_SCENARIO(floating_double) { fp<double>(); }
SQ_SCENARIO(floating_float) { fp<float>(); }
template <class C, class T> static C mk(const std::vector<T>& al, const char *n) { C c; int k = sq::choose(4, n); for (int i = 0; i < k; i++) c.insert(c.end(), al[sq::choose(al.size(), "x")]); return c; }
template <class C, class T> static void cont(const std::vector<T>& al, const char *n) { auto a = mk<C, T>(al, "lenA"), b = mk<C, T>(al, "lenB"); bool eq = a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); judge(a, b, eq, eq, CE_DEF_SIMILARITY_DIFFERENCE, n); }
SQ_SCENARIO(containers) { switch (sq::choose(6, "type")) { case 0: cont<std::vector<int>, int>({1, 2}, "vector<int>"); break; case 1: cont<std::vector<std::string>, std::string>({"", "a"}, "vector<string>"); break; case 2: cont<std::vector<bool>, bool>({false, true}, "vector<bool>"); break; case 3: cont<std::deque<int>, int>({1, 2}, "deque<int>"); break; case 4: cont<std::list<int>, int>({1, 2}, "list<int>"); break; default: cont<std::set<int>, int>({1, 2, 3}, "set<int>"); } }
template <class C, class T> static void fcont(const char *n) { std::vector<T> al = {1, T(1) + T(CE_DEF_SIMILARITY_DIFFERENCE) / 2, T(1.4), T(INF)}; if (std::is_same<C, std::vector<T>>::value) al.push_back(T(QNAN)); auto a = mk<C, T>(al, "lenA"), b = mk<C, T>(al, "lenB"); double l = LIM[sq::choose(2, "limit")]; bool eq = a.size() == b.size(), sim = eq; if (eq) { auto y = b.begin(); for (auto x : a) { eq &= x == *y; sim &= similar<T>(x, *y, l); ++y; } } std::ostringstream o; o << n << ":"; for (auto x : a) o << " " << x; o << " and"; for (auto x : b) o << " " << x; judge(a, b, eq, sim, l, o.str()); }
SQ_SCENARIO(fp_containers) { switch (sq::choose(4, "type")) { case 0: fcont<std::vector<double>, double>("vector<double>"); break; case 1: fcont<std::vector<float>, float>("vector<float>"); break; case 2: fcont<std::deque<double>, double>("deque<double>"); break; default: fcont<std::set<double>, double>("set<double>"); } }
// ---- objects: a base and a derived class with members of several kinds
struct Base : public GCommonInterfaceT<Base> { int base_member = 0; double base_fp = 0; virtual ~Base() = default; std::string name_() const override { return "Base"; } void load_(const Base *) override {} Base *clone_() const override { return new Base(*this); }
	void compare_(const Base& o, const expectation& e, const double&) const override { GToken token("Base", e); compare_t(IDENTITY(base_member, o.base_member), token); compare_t(IDENTITY(base_fp, o.base_fp), token); token.evaluate(); }
	bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {} template <class A> void serialize(A&, const unsigned int) {} };
struct Der : public Base { std::string text_member; std::vector<double> vec_member; std::shared_ptr<Base> ptr_member; std::vector<std::shared_ptr<Base>> cont_member; std::string name_() const override { return "Der"; } Base *clone_() const override { return new Der(*this); }
	void compare_(const Base& o, const expectation& e, const double&) const override { auto p = g_convert_and_compare<Base, Der>(o, this); GToken token("Der", e); compare_base_t<Base>(*this, *p, token); compare_t(IDENTITY(text_member, p->text_member), token); compare_t(IDENTITY(vec_member, p->vec_member), token); compare_t(IDENTITY(ptr_member, p->ptr_member), token); compare_t(IDENTITY(cont_member, p->cont_member), token); token.evaluate(); } };
static std::shared_ptr<Base> leaf(int k, double d = 0) { auto p = std::make_shared<Base>(); p->base_member = k; p->base_fp = d; return p; }
static const double SMALL = CE_DEF_SIMILARITY_DIFFERENCE / 2;
// applies one of several differences to x; returns the name of the member, whether the objects stay similar
struct Diff { std::string member; bool sim; };
static Diff differ(Der& x, int k) { switch (k) { case 0: return {"", true}; case 1: x.base_member++; return {"base_member", false}; case 2: x.base_fp += SMALL; return {"base_fp", true}; case 3: x.base_fp += 1; return {"base_fp", false}; case 4: x.text_member += "x"; return {"text_member", false}; case 5: x.vec_member[1] += SMALL; return {"vec_member", true}; case 6: x.vec_member.push_back(0); return {"vec_member", false}; case 7: x.vec_member[0] += 1; return {"vec_member", false}; case 8: x.ptr_member.reset(); return {"ptr_member", false}; case 9: x.ptr_member->base_member++; return {"ptr_member", false}; case 10: x.ptr_member->base_fp += SMALL; return {"ptr_member", true}; case 11: x.cont_member.pop_back(); return {"cont_member", false}; case 12: x.cont_member[1]->base_member++; return {"cont_member", false}; case 13: x.cont_member[1].reset(); return {"cont_member", false}; case 14: x.cont_member[0]->base_fp += SMALL; return {"cont_member", true}; default: x.base_fp = INF; return {"base_fp", false}; } }
static std::shared_ptr<Der> der() { auto p = std::make_shared<Der>(); p->base_member = 5; p->base_fp = 2.5; p->text_member = "t"; p->vec_member = {1, 2}; p->ptr_member = leaf(7); p->cont_member = {leaf(8), leaf(9), nullptr}; return p; }
SQ_SCENARIO(objects) {
	int k = sq::choose(16, "difference"), k2 = sq::choose(16, "second"); auto a = der(), b = der(); bool ok = !(k2 == 9 || k2 == 10) || k != 8; ok &= !(k == 11 && k2 == 11); if (k == 13 && k2 == 12) ok = false; if (!ok) return; auto d = differ(*b, k); auto d2 = differ(*b, k2);
	bool eq = k == 0 && k2 == 0, sim = d.sim && d2.sim; if (k == k2 && (k == 2 || k == 5 || k == 10 || k == 14)) sim = false; // twice half the tolerance
	bool want[3] = {eq, !eq, sim}; auto w = "difference in " + d.member + " and " + d2.member;
	if (k == k2 && (k == 2 || k == 5 || k == 10 || k == 14)) want[2] = !(std::fabs((k == 2 ? 2.5 : k == 5 ? 2. : 0.) - ((k == 2 ? 2.5 : k == 5 ? 2. : 0.) + SMALL + SMALL)) >= CE_DEF_SIMILARITY_DIFFERENCE);
	for (int i = 0; i < 3; i++) { sq::step(); std::string m; auto r = run([&] { a->compare(*b, E[i], CE_DEF_SIMILARITY_DIFFERENCE); }, &m); SQ_CHECK(r == (want[i] ? Res::OK : Res::VIOLATED), EN[i] << (want[i] ? " denied" : " confirmed") << ": " << w << ": " << m); SQ_CHECK(run([&] { b->compare(*a, E[i], CE_DEF_SIMILARITY_DIFFERENCE); }) == r, EN[i] << " not symmetric: " << w);
		if (!want[i] && i != 1) { bool named = (!d.member.empty() && !(i == 2 && d.sim) && m.find(d.member) != std::string::npos) || (!d2.member.empty() && !(i == 2 && d2.sim) && m.find(d2.member) != std::string::npos) || (d.sim && d2.sim && m.find(d.member) != std::string::npos); SQ_CHECK(named, "the message does not name the differing member (" << w << "): " << m); }
		std::shared_ptr<Base> pa = a, pb = b; SQ_CHECK(run([&] { Gem::Common::compare(pa, pb, "p", "q", E[i]); }) == r, EN[i] << " through smart pointers: " << w); SQ_CHECK(run([&] { Gem::Common::compare(static_cast<const Base&>(*a), static_cast<const Base&>(*b), "p", "q", E[i]); }) == r, EN[i] << " through references: " << w); }
	SQ_CHECK((static_cast<Base&>(*a) == static_cast<Base&>(*b)) == eq && (static_cast<Base&>(*a) != static_cast<Base&>(*b)) == !eq, "operators: " << w); sq::outcome(eq ? "equal" : sim ? "similar" : "different"); }
template <class C> static void ptrs() { // containers of smart pointers: every pair of up to three elements out of: empty, three values (the last two similar), an object of another type
	auto mk = [](const char *n, std::vector<int>& r) { C c; int k = sq::choose(4, n); for (int i = 0; i < k; i++) { int x = sq::choose(5, "elem"); r.push_back(x); c.push_back(x == 0 ? nullptr : x == 1 ? std::shared_ptr<Base>(leaf(1)) : x == 2 ? std::shared_ptr<Base>(leaf(2)) : x == 3 ? std::shared_ptr<Base>(leaf(2, SMALL)) : std::shared_ptr<Base>(der())); } return c; }; std::vector<int> ra, rb; auto a = mk("lenA", ra), b = mk("lenB", rb); bool eq = ra == rb, sim = ra.size() == rb.size(); for (size_t i = 0; sim && i < ra.size(); i++) sim &= (ra[i] == 3 ? 2 : ra[i]) == (rb[i] == 3 ? 2 : rb[i]);
	std::ostringstream o; o << "pointer containers"; for (int x : ra) o << " " << x; o << " and"; for (int x : rb) o << " " << x; judge(a, b, eq, sim, CE_DEF_SIMILARITY_DIFFERENCE, o.str()); if (ra.size() == 1 && rb.size() == 1) judge(a.front(), b.front(), eq, sim, CE_DEF_SIMILARITY_DIFFERENCE, "smart pointers"); }
SQ_SCENARIO(pointer_vectors) { ptrs<std::vector<std::shared_ptr<Base>>>(); }
SQ_SCENARIO(pointer_deques) { ptrs<std::deque<std::shared_ptr<Base>>>(); }
// the token counts over several members: all patterns of up to five comparisons
SQ_SCENARIO(token) { int n = sq::choose(6, "n"), good = 0; int i = sq::choose(3, "expectation"); GToken t("me", E[i]); std::vector<bool> same; for (int k = 0; k < n; k++) { bool s = sq::choose(2, "same"); same.push_back(s); int x = 1, y = s ? 1 : 2; compare_t(getIdentity(x, y, "x" + std::to_string(k), "y"), t); good += i == 1 ? !s : s; sq::step(); } bool met = i == 1 ? good > 0 : good == n; SQ_CHECK(t.getTestCounter() == size_t(n) && t.getSuccessCounter() == size_t(good), "counters"); SQ_CHECK(t.expectationMet() == met, "token of " << n << " tests"); std::string m; SQ_CHECK((run([&] { t.evaluate(); }, &m) == Res::OK) == met, "evaluate"); if (!met && i != 1) for (int k = 0; k < n; k++) SQ_CHECK((m.find("x" + std::to_string(k)) != std::string::npos) == !same[k], "the message " << (same[k] ? "names an equal" : "does not name a differing") << " member"); SQ_CHECK(t.getCallerName() == "me" && t.getExpectation() == E[i], "getters"); SQ_THROWS(t.registerErrorMessage(std::string()), "empty message accepted"); }
// a tolerance given to an object's compare() applies to its members
SQ_SCENARIO(object_tolerance) { static const double D[] = {0.1, 1e-12, 3}; double d = D[sq::choose(3, "difference")], l = sq::choose(2, "limit") ? 0.5 : 1e-10; Gem::Geneva::GDoubleObject a(0.), b(d); sq::step(); bool want = d < l; bool r = run([&] { a.compare(b, expectation::FP_SIMILARITY, l); }) == Res::OK; SQ_CHECK(r == want, "tolerance given to compare() of an object is ignored: difference " << d << " limit " << l << (r ? " similar" : " not similar")); }
