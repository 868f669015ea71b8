// C18: flattening parameter trees: extraction, assignment, counting, boundaries and arithmetic against a reference model of the tree.
#include "sq.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GInt32ObjectCollection.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "geneva/GBooleanCollection.hpp"
using namespace Gem::Geneva; using AM = activityMode;
struct Ind : public GParameterSet { Ind() = default; Ind(const Ind&) = default; double fitnessCalculation() override { return 0; } GObject *clone_() const override { return new Ind(*this); } };
// A leaf of the model: values, type ('d','i','b'), range for constrained ones
struct Leaf { char t; bool con; bool act; std::string name; std::vector<double> v; double lo, hi; };
static std::vector<Leaf> M; static int g_n;
static double L0 = -100, U0 = 100;
template <class T> static void common(const std::shared_ptr<T>& p, char t, bool con, std::vector<double> v, double lo, double hi) { bool act = sq::choose(2, "active"); if (act) p->setAdaptionsActive(); else p->setAdaptionsInactive(); std::string n = "v" + std::to_string((g_n * 7) % 10) + std::to_string(g_n); g_n++; p->setParameterName(n); M.push_back(Leaf{t, con, act, n, v, lo, hi}); }
static double val() { return g_n * 2 + 1; }
template <class T> static std::shared_ptr<T> leaf();
#define LEAF(T, MK, t, con, VEC, lo, hi) template <> std::shared_ptr<T> leaf<T>() { double x = val(); auto p = MK; common(p, t, con, std::vector<double> VEC, lo, hi); return p; }
LEAF(GDoubleObject, std::make_shared<GDoubleObject>(x, -5. - x, 50. + x), 'd', false, {x}, -5. - x, 50. + x)
LEAF(GConstrainedDoubleObject, std::make_shared<GConstrainedDoubleObject>(x, L0 - x, U0 + x), 'd', true, {x}, L0 - x, boost::math::float_prior(U0 + x))
LEAF(GInt32Object, std::make_shared<GInt32Object>((int)x, -7 - (int)x, 70), 'i', false, {x}, -7 - x, 70)
LEAF(GConstrainedInt32Object, std::make_shared<GConstrainedInt32Object>((int)x, (int)(L0 - x), (int)(U0 + x)), 'i', true, {x}, L0 - x, U0 + x)
LEAF(GBooleanObject, std::make_shared<GBooleanObject>(g_n % 2 == 0), 'b', false, {double(g_n % 2 == 0)}, 0, 1)
LEAF(GConstrainedDoubleCollection, std::make_shared<GConstrainedDoubleCollection>(2, x, L0, U0), 'd', true, ({x, x}), L0, boost::math::float_prior(U0))
static std::shared_ptr<GDoubleCollection> dc() { double x = val(); auto p = std::make_shared<GDoubleCollection>(3, x, -5., 60.); for (int i = 0; i < 3; i++) p->at(i) = x + i * 0.25; common(p, 'd', false, {x, x + 0.25, x + 0.5}, -5, 60); return p; }
static std::shared_ptr<GInt32Collection> ic() { int x = (int)val(); auto p = std::make_shared<GInt32Collection>(2, x, -5, 60); p->at(1) = x + 1; common(p, 'i', false, {(double)x, x + 1.}, -5, 60); return p; }
static std::shared_ptr<GBooleanCollection> bc() { auto p = std::make_shared<GBooleanCollection>(3, false); p->at(1) = true; common(p, 'b', false, {0, 1, 0}, 0, 1); return p; }
static const int NLEAF = 9;
static std::shared_ptr<GParameterBase> mkLeaf(int k) { switch (k) { case 0: return leaf<GDoubleObject>(); case 1: return leaf<GConstrainedDoubleObject>(); case 2: return leaf<GInt32Object>(); case 3: return leaf<GConstrainedInt32Object>(); case 4: return leaf<GBooleanObject>(); case 5: return leaf<GConstrainedDoubleCollection>(); case 6: return dc(); case 7: return ic(); default: return bc(); } }
template <class C, class E> static std::shared_ptr<GParameterBase> coll() { auto c = std::make_shared<C>(); int n = sq::choose(3, "collection size"); for (int i = 0; i < n; i++) c->push_back(leaf<E>()); return c; }
static std::shared_ptr<GParameterBase> mkNode(int depth) {
	int k = sq::choose(NLEAF + (depth ? 6 : 0), "kind"); if (k < NLEAF) return mkLeaf(k);
	switch (k - NLEAF) { case 0: return coll<GDoubleObjectCollection, GDoubleObject>(); case 1: return coll<GConstrainedDoubleObjectCollection, GConstrainedDoubleObject>(); case 2: return coll<GInt32ObjectCollection, GInt32Object>(); case 3: return coll<GConstrainedInt32ObjectCollection, GConstrainedInt32Object>(); case 4: return coll<GBooleanObjectCollection, GBooleanObject>();
	default: { auto c = std::make_shared<GParameterObjectCollection>(); int n = sq::choose(depth > 1 ? 3 : 2, "nested size"); for (int i = 0; i < n; i++) c->push_back(mkNode(depth - 1)); return c; } } }
static bool am_ok(const Leaf& l, AM am) { return am == AM::ALLPARAMETERS || (am == AM::ACTIVEONLY) == l.act; }
template <class T> struct TC; template <> struct TC<double> { static const char c = 'd'; }; template <> struct TC<std::int32_t> { static const char c = 'i'; }; template <> struct TC<bool> { static const char c = 'b'; }; template <> struct TC<float> { static const char c = 'f'; };
static const char *AN(AM a) { return a == AM::ALLPARAMETERS ? "all" : a == AM::ACTIVEONLY ? "active" : "inactive"; }
template <class T> static std::vector<T> flat(const std::vector<Leaf>& m, AM am) { std::vector<T> r; for (auto& l : m) if (l.t == TC<T>::c && am_ok(l, am)) for (double x : l.v) r.push_back((T)x); return r; }
static std::string shape() { std::string s; for (auto& l : M) { s += l.t; s += l.con ? "c" : ""; s += std::to_string(l.v.size()); s += l.act ? "+ " : "- "; } return s; }
template <class V> static std::string show(const V& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }
template <class T> static void see(const GParameterSet& g, const std::vector<Leaf>& m, const char *when) {
	for (AM am : {AM::ALLPARAMETERS, AM::ACTIVEONLY, AM::INACTIVEONLY}) { auto want = flat<T>(m, am); std::vector<T> got; g.streamline<T>(got, am); std::string c = std::string(" of type ") + TC<T>::c + ", " + AN(am) + ", " + when + ", tree " + shape();
		SQ_CHECK(got == want, "streamline gave " << show(got) << " instead of " << show(want) << c); SQ_CHECK(g.countParameters<T>(am) == want.size(), "countParameters is " << g.countParameters<T>(am) << " instead of " << want.size() << c);
		std::map<std::string, std::vector<T>> gm, wm; g.streamline<T>(gm, am); for (auto& l : m) if (l.t == TC<T>::c && am_ok(l, am)) for (double x : l.v) wm[l.name].push_back((T)x); SQ_CHECK(gm == wm, "streamline by name differs" << c);
		std::vector<T> lb(2, (T)1), ub(3, (T)1), wl, wu; g.boundaries<T>(lb, ub, am); /* what was in the vectors before is replaced */ for (auto& l : m) if (l.t == TC<T>::c && am_ok(l, am)) for (std::size_t i = 0; i < l.v.size(); i++) { wl.push_back((T)l.lo); wu.push_back((T)l.hi); } SQ_CHECK(lb == wl && ub == wu, "boundaries " << show(lb) << show(ub) << " instead of " << show(wl) << show(wu) << c); } }
static void see_all(const GParameterSet& g, const std::vector<Leaf>& m, const char *when) { see<double>(g, m, when); see<std::int32_t>(g, m, when); see<bool>(g, m, when); SQ_CHECK(g.countParameters<float>() == 0, "float parameters counted"); sq::step(); }
template <class T, class F> static void change(std::vector<Leaf>& m, AM am, F f) { for (auto& l : m) if (l.t == TC<T>::c && am_ok(l, am)) for (auto& x : l.v) x = f(x); }
template <class T> static T shifted(double x, int k) { return (T)(x + 1 + k); } template <> bool shifted<bool>(double x, int k) { return !x; }
template <class T> static void rw(const Ind& orig) {
	for (AM am : {AM::ALLPARAMETERS, AM::ACTIVEONLY, AM::INACTIVEONLY}) { Ind g(orig); auto m = M; std::vector<T> v = flat<T>(m, am); std::string c = std::string(TC<T>::c == 'd' ? "double" : TC<T>::c == 'i' ? "int" : "bool") + " " + AN(am);
		g.set_processing_status(Gem::Courtier::processingStatus::DO_IGNORE); SQ_NOTHROW(g.assignValueVector<T>(v, am), "assigning the extracted vector, " << c << ", tree " << shape()); see_all(g, m, ("assigning the extracted vector, " + c).c_str()); SQ_CHECK(g.is_due_for_processing(), "assignment does not ask for a new evaluation");
		std::vector<T> w; int k = 0; for (auto& l : m) if (l.t == TC<T>::c && am_ok(l, am)) for (auto& x : l.v) { w.push_back(shifted<T>(x, k++)); x = (double)w.back(); } SQ_NOTHROW(g.assignValueVector<T>(w, am), "assigning a vector, " << c << ", tree " << shape()); see_all(g, m, ("assigning a new vector, " + c).c_str());
		auto shorter = w, longer = w; longer.push_back(T(1)); if (!w.empty()) { shorter.pop_back(); SQ_THROWS(g.assignValueVector<T>(shorter, am), "a vector that is too short was accepted, " << c << ", tree " << shape()); } SQ_THROWS(g.assignValueVector<T>(longer, am), "a vector that is too long was accepted, " << c << ", tree " << shape()); see_all(g, m, ("a refused assignment, " + c).c_str());
		Ind h(orig); auto m2 = M; std::map<std::string, std::vector<T>> mp; k = 3; for (auto& l : m2) if (l.t == TC<T>::c && am_ok(l, am)) { for (auto& x : l.v) { T y = shifted<T>(x, k++); mp[l.name].push_back(y); x = (double)y; } } SQ_NOTHROW(h.assignValueVectors<T>(mp, am), "assigning by name, " << c << ", tree " << shape()); see_all(h, m2, ("assigning by name, " + c).c_str()); SQ_CHECK(h.is_due_for_processing(), "assignment by name does not ask for a new evaluation");
		if (am == AM::ALLPARAMETERS) { for (std::size_t i = 0; i < v.size(); i++) SQ_CHECK(boost::any_cast<T>(g.getVarItem<T>(std::make_tuple(std::size_t(0), std::string(), i))) == w[i], "getVarItem by position " << c); for (auto& l : m) if (l.t == TC<T>::c) for (std::size_t i = 0; i < l.v.size(); i++) SQ_CHECK(boost::any_cast<T>(g.getVarItem<T>(std::make_tuple(std::size_t(1), l.name, i))) == (T)l.v[i], "getVarItem by name " << c); std::set<std::string> names; for (auto& l : m) if (l.t == TC<T>::c) names.insert(l.name); auto got = g.getVariableNames<T>(); SQ_CHECK(std::set<std::string>(got.begin(), got.end()) == names && got.size() == names.size(), "variable names " << c); } } }
template <class T> static void arith(const Ind& orig) {
	for (AM am : {AM::ALLPARAMETERS, AM::ACTIVEONLY, AM::INACTIVEONLY}) { std::string c = std::string(TC<T>::c == 'd' ? "double" : "int") + " " + AN(am); auto due = [&](Ind& g) { SQ_CHECK(g.is_due_for_processing(), "arithmetic does not ask for a new evaluation, " << c); };
		{ Ind g(orig); auto m = M; g.set_processing_status(Gem::Courtier::processingStatus::DO_IGNORE); g.multiplyBy<T>(T(3), am); change<T>(m, am, [](double x) { return x * 3; }); see_all(g, m, ("multiplyBy(3), " + c).c_str()); due(g); }
		{ Ind g(orig); auto m = M; g.set_processing_status(Gem::Courtier::processingStatus::DO_IGNORE); g.fixedValueInit<T>(T(-2), am); change<T>(m, am, [](double x) { return -2; }); see_all(g, m, ("fixedValueInit(-2), " + c).c_str()); due(g);
			g.add<T>(std::shared_ptr<GParameterSet>(orig.GObject::clone<GParameterSet>()), am); auto it = M.begin(); for (auto& l : m) { if (l.t == TC<T>::c && am_ok(l, am)) for (std::size_t i = 0; i < l.v.size(); i++) l.v[i] += it->v[i]; ++it; } see_all(g, m, ("add, " + c).c_str());
			auto o = std::shared_ptr<GParameterSet>(orig.GObject::clone<GParameterSet>()); for (int r = 0; r < 2; r++) g.subtract<T>(o, am); it = M.begin(); for (auto& l : m) { if (l.t == TC<T>::c && am_ok(l, am)) for (std::size_t i = 0; i < l.v.size(); i++) l.v[i] -= 2 * it->v[i]; ++it; } see_all(g, m, ("subtract, " + c).c_str()); see_all(*o, M, "being the operand of add/subtract"); } } }
static void everything(int n, int depth) { M.clear(); g_n = 0; Ind g; for (int i = 0; i < n; i++) g.push_back(mkNode(depth)); sq::outcome(shape().substr(0, 6)); see_all(g, M, "construction"); Ind cp(g); see_all(cp, M, "copying"); rw<double>(g); rw<std::int32_t>(g); rw<bool>(g); arith<double>(g); arith<std::int32_t>(g); see_all(g, M, "all operations on copies"); }
SQ_SCENARIO(one_node, s.split = 60) { everything(sq::choose(2, "n"), 2); }
SQ_SCENARIO(two_nodes, s.split = 60) { everything(2, 1); }
SQ_SCENARIO(three_leaves, s.split = 60) { everything(3, 0); }
SQ_SCENARIO(three_nodes, s.split = 400; s.timeout_s = 3000; s.thorough_only = true) { everything(3, 1); }
