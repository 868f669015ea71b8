// C19: copies (clone, load, three serialization modes) of every kind of object equal the original, show the same values and are independent of it.
#include "lab.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GInt32ObjectCollection.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GPluggableOptimizationMonitors.hpp"
#include "common/GPlotDesigner.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
using namespace lab; using Gem::Common::serializationMode;
static const serializationMode MODE[] = {serializationMode::TEXT, serializationMode::BINARY, serializationMode::XML}; static const char *WAY[] = {"clone", "load", "text", "binary", "XML"};
template <class X> static std::string equal(const X& a, const X& b) { try { a.compare(b, Gem::Common::expectation::EQUALITY, 0.); return ""; } catch (const g_expectation_violation& e) { return e.what(); } }
template <class X> struct Op { std::string name; std::function<void(X&)> f; bool hidden = false; };
template <class X> struct Spec { std::string name; std::function<std::shared_ptr<X>()> make; std::vector<Op<X>> ops; std::function<std::string(X&)> obs; std::function<void(X&)> act = nullptr; std::function<std::string(X&)> cmp = nullptr; };
template <class X> static bool apply(const Op<X>& o, X& x) { try { o.f(x); return true; } catch (const std::exception&) { return false; } }
template <class X> static void load_into(X& y, std::shared_ptr<X> x) { if constexpr (std::is_base_of<GObject, X>::value) y.GObject::load(x); else if constexpr (std::is_base_of<Gem::Common::GBasePlotter, X>::value) y.Gem::Common::template GCommonInterfaceT<Gem::Common::GBasePlotter>::load(std::shared_ptr<Gem::Common::GBasePlotter>(x)); else y.load(x); }
// all sequences of two operations x ways of copying x states of the receiving object
template <class X> static void check(const Spec<X>& s) {
	int n = s.ops.size(), i = sq::choose(n + 1, "first"), j = sq::choose(n + 1, "second"), way = sq::choose(5, "way"), t = way ? sq::choose(n + 1, "target") : n; if (!sq::thorough() && i < n && j < n && t < n && t != (i + 1) % n) { sq::outcome("left to the thorough tier"); return; }
	mockrnd::seed(1); auto x = s.make(); bool hidden = false; for (int k : {i, j}) if (k < n) { hidden |= s.ops[k].hidden; apply(s.ops[k], *x); } if (t < n) hidden |= s.ops[t].hidden;
	std::string o = s.obs(*x); auto w = [&](const std::string& m) { return s.name + " after " + (i < n ? s.ops[i].name : "nothing") + ", " + (j < n ? s.ops[j].name : "nothing") + "; " + WAY[way] + (way ? " into an object after " + (t < n ? s.ops[t].name : "nothing") : "") + ": " + m; };
	auto copy = [&]() -> std::shared_ptr<X> { if (way == 0) { auto y = std::dynamic_pointer_cast<X>(x->template clone<X>()); SQ_CHECK(y && y.get() != x.get(), w("no clone")); return y; } auto y = s.make(); if (t < n) apply(s.ops[t], *y); if (way == 1) load_into(*y, x); else y->fromString(x->toString(MODE[way - 2]), MODE[way - 2]); return y; };
	std::shared_ptr<X> y, z; try { y = copy(); z = copy(); } catch (const std::exception& e) { SQ_CHECK(false, w(std::string("exception: ") + e.what())); }
	SQ_CHECK(s.obs(*x) == o, w("copying changed the original from " + o + " to " + s.obs(*x))); std::string oy = s.obs(*y); SQ_CHECK(oy == o, w("the copy shows\n" + oy + "\ninstead of\n" + o)); std::string d = equal<X>(*x, *y); SQ_CHECK(d.empty(), w("the copy differs: " + d)); d = equal<X>(*y, *x); SQ_CHECK(d.empty(), w("the original differs from the copy: " + d));
	auto f = s.make(); if (s.cmp ? s.cmp(*f) != s.cmp(*x) : s.obs(*f) != o) SQ_CHECK(!equal<X>(*x, *f).empty() && !equal<X>(*f, *x).empty(), w("a new object is considered equal although it shows\n" + s.obs(*f) + "\ninstead of\n" + o));
	// each of them is changed without effect on the others
	for (int k = 0; k < n; k++) { auto c = std::dynamic_pointer_cast<X>(z->template clone<X>()); apply(s.ops[k], *y); SQ_CHECK(s.obs(*x) == o && s.obs(*z) == o, w(s.ops[k].name + " of the copy changed the original or another copy")); apply(s.ops[k], *c); SQ_CHECK(s.obs(*z) == o, w(s.ops[k].name + " of a copy of the copy changed the copy")); }
	d = equal<X>(*x, *z); SQ_CHECK(d.empty(), w("changes of copies changed the original: " + d));
	for (int k = 0; k < n; k++) { apply(s.ops[k], *x); SQ_CHECK(s.obs(*z) == o, w(s.ops[k].name + " of the original changed the copy")); } 
	if (s.act && !hidden) { auto x2 = s.make(); for (int k : {i, j}) if (k < n) apply(s.ops[k], *x2); if (s.obs(*x2) == o) { mockrnd::seed(5); s.act(*x2); mockrnd::seed(5); s.act(*z); SQ_CHECK(s.obs(*x2) == s.obs(*z), w("the copy behaves differently:\n" + s.obs(*z) + "\ninstead of\n" + s.obs(*x2))); } }
	sq::H h; h << std::hash<std::string>()(s.name + o) << way << t; sq::state(h); sq::outcome(o.substr(0, 60));
}
#define G(e) r << #e << "=" << x.e << " "
#define G2(e) { auto q = x.e; r << #e << "=" << std::get<0>(q) << "," << std::get<1>(q) << " "; }
#define OBS(X, ...) [](X& x) { std::ostringstream r; r.precision(17); __VA_ARGS__; return r.str(); }
#define OP(X, n, ...) {n, [](X& x) { __VA_ARGS__; }, false}
#define HOP(X, n, ...) {n, [](X& x) { __VA_ARGS__; }, true}
static Gem::Hap::GRandomBase& rnd() { static Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY> g; return g; }
// ---- adaptors
template <class A> static void adaptor_ops(std::vector<Op<A>>& v) { v.insert(v.end(), {OP(A, "setAdaptionProbability", x.setAdaptionProbability(0.25)), OP(A, "setResetAdaptionProbability", x.setResetAdaptionProbability(0.4)), OP(A, "setAdaptAdProb", x.setAdaptAdProb(0.7)), OP(A, "setAdProbRange", x.setAdProbRange(0.1, 0.9)), OP(A, "setAdaptionThreshold", x.setAdaptionThreshold(7)), OP(A, "setAdaptAdaptionProbability", x.setAdaptAdaptionProbability(0.3)), OP(A, "setAdaptionMode", x.setAdaptionMode(adaptionMode::NEVER))}); }
template <class A> static void adaptor_obs(A& x, std::ostream& r) { G(getAdaptionProbability()); G(getResetAdaptionProbability()); G(getAdaptAdProb()); G2(getAdProbRange()); G(getAdaptionThreshold()); G(getAdaptionCounter()); G(getAdaptAdaptionProbability()); r << "mode=" << (int)(x.getAdaptionMode()) << " "; }
template <class A, class T> static void act_adaptor(A& x) { for (int i = 0; i < 3; i++) { T v = T(1); x.adapt(v, T(1), rnd()); static volatile double sink; sink = double(v); (void)sink; } }
template <class A, class T> static Spec<A> gauss(const char *n) { Spec<A> s; s.name = n; s.make = [] { return std::make_shared<A>(0.2, 0.1, 0.01, 0.98); }; adaptor_ops<A>(s.ops); s.ops.insert(s.ops.end(), {OP(A, "setSigma", x.setSigma(0.7)), OP(A, "setSigmaRange", x.setSigmaRange(0.05, 0.95)), OP(A, "setSigmaAdaptionRate", x.setSigmaAdaptionRate(0.33)), OP(A, "setResetSigma", x.setResetSigma(0.6)), HOP(A, "adapt", T v = T(1); x.adapt(v, T(1), rnd())), OP(A, "updateOnStall", x.setSigma(0.9); x.updateOnStall(0, T(1)))});
	s.obs = OBS(A, adaptor_obs(x, r); G(getSigma()); G2(getSigmaRange()); G(getSigmaAdaptionRate()); G(getResetSigma())); s.act = [](A& x) { act_adaptor<A, T>(x); }; return s; }
SQ_SCENARIO(gauss_adaptors, s.split = 64) { if (sq::choose(2, "type")) check(gauss<GInt32GaussAdaptor, std::int32_t>("GInt32GaussAdaptor")); else check(gauss<GDoubleGaussAdaptor, double>("GDoubleGaussAdaptor")); }
SQ_SCENARIO(bigauss_adaptor, s.split = 64) { typedef GDoubleBiGaussAdaptor A; Spec<A> s; s.name = "GDoubleBiGaussAdaptor"; s.make = [] { return std::make_shared<A>(); }; adaptor_ops<A>(s.ops); s.ops.insert(s.ops.end(), {OP(A, "setUseSymmetricSigmas", x.setUseSymmetricSigmas(!x.getUseSymmetricSigmas())), OP(A, "setAllSigma1", x.setAllSigma1(0.3, 0.2, 0.1, 0.6)), OP(A, "setSigma1", x.setSigma1(0.42)), OP(A, "setSigma1AdaptionRate", x.setSigma1AdaptionRate(0.11)), OP(A, "setAllSigma2", x.setAllSigma2(0.4, 0.25, 0.05, 0.7)), OP(A, "setSigma2", x.setSigma2(0.5)), OP(A, "setSigma2AdaptionRate", x.setSigma2AdaptionRate(0.12)), OP(A, "setAllDelta", x.setAllDelta(0.6, 0.3, 0.2, 0.8)), OP(A, "setDelta", x.setDelta(0.45)), OP(A, "setDeltaAdaptionRate", x.setDeltaAdaptionRate(0.13)), HOP(A, "adapt", double v = 1; x.adapt(v, 1., rnd()))});
	s.obs = OBS(A, adaptor_obs(x, r); G(getUseSymmetricSigmas()); G(getSigma1()); G2(getSigma1Range()); G(getSigma1AdaptionRate()); G(getSigma2()); G2(getSigma2Range()); G(getSigma2AdaptionRate()); G(getDelta()); G2(getDeltaRange()); G(getDeltaAdaptionRate())); s.act = [](A& x) { act_adaptor<A, double>(x); }; check(s); }
template <class A, class T> static Spec<A> flip(const char *n) { Spec<A> s; s.name = n; s.make = [] { return std::make_shared<A>(); }; adaptor_ops<A>(s.ops); s.ops.push_back(HOP(A, "adapt", T v = T(1); x.adapt(v, T(1), rnd()))); s.obs = OBS(A, adaptor_obs(x, r)); s.act = [](A& x) { act_adaptor<A, T>(x); }; return s; }
SQ_SCENARIO(flip_adaptors, s.split = 64) { if (sq::choose(2, "type")) check(flip<GInt32FlipAdaptor, std::int32_t>("GInt32FlipAdaptor")); else check(flip<GBooleanAdaptor, bool>("GBooleanAdaptor")); }
// ---- parameter objects
template <class P> static void par_ops(std::vector<Op<P>>& v) { v.insert(v.end(), {OP(P, "setAdaptionsInactive", x.setAdaptionsInactive()), OP(P, "blockRandomInitialization", x.blockRandomInitialization()), OP(P, "setParameterName", x.setParameterName("a_name"))}); }
template <class P> static void par_obs(P& x, std::ostream& r) { G(adaptionsActive()); G(randomInitializationBlocked()); G(getParameterName()); }
template <class P, class A> static void ad_ops(std::vector<Op<P>>& v) { v.insert(v.end(), {OP(P, "addAdaptor", auto a = std::make_shared<A>(); a->setAdaptionProbability(0.9); a->setAdaptAdaptionProbability(0.35); x.addAdaptor(a)), OP(P, "resetAdaptor", x.resetAdaptor()), OP(P, "change adaptor", if (x.hasAdaptor()) x.getAdaptor()->setAdaptionProbability(0.5)), HOP(P, "adapt", if (x.hasAdaptor()) x.template adapt(rnd())), HOP(P, "randomInit", x.randomInit(activityMode::ALLPARAMETERS, rnd()))}); }
template <class P> static void ad_obs(P& x, std::ostream& r) { G(hasAdaptor()); if (x.hasAdaptor()) adaptor_obs(*x.getAdaptor(), r); }
template <class P, class A> static Spec<P> single(const char *n, std::function<std::shared_ptr<P>()> mk, std::vector<Op<P>> more, std::function<void(P&, std::ostream&)> o) { Spec<P> s; s.name = n; s.make = mk; par_ops<P>(s.ops); ad_ops<P, A>(s.ops); s.ops.insert(s.ops.end(), more.begin(), more.end()); s.obs = [o](P& x) { std::ostringstream r; r.precision(17); par_obs(x, r); ad_obs(x, r); o(x, r); return r.str(); }; s.act = [](P& x) { if (x.hasAdaptor()) for (int i = 0; i < 3; i++) x.adapt(rnd()); x.randomInit(activityMode::ALLPARAMETERS, rnd()); }; return s; }
template <class P> static auto mkp(double v, double l, double u) { return [=] { auto p = std::make_shared<P>(v, l, u); return p; }; }
SQ_SCENARIO(single_parameters, s.split = 512) { switch (sq::choose(5, "class")) {
	case 0: { typedef GDoubleObject P; check(single<P, GDoubleGaussAdaptor>("GDoubleObject", [] { return std::make_shared<P>(0.5, -1., 1.); }, {OP(P, "setValue", x.setValue(0.75))}, [](P& x, std::ostream& r) { G(value()); G(getLowerInitBoundary()); G(getUpperInitBoundary()); })); break; }
	case 1: { typedef GInt32Object P; check(single<P, GInt32GaussAdaptor>("GInt32Object", [] { return std::make_shared<P>(5, -10, 10); }, {OP(P, "setValue", x.setValue(7))}, [](P& x, std::ostream& r) { G(value()); G(getLowerInitBoundary()); G(getUpperInitBoundary()); })); break; }
	case 2: { typedef GBooleanObject P; check(single<P, GBooleanAdaptor>("GBooleanObject", [] { return std::make_shared<P>(false); }, {OP(P, "setValue", x.setValue(true))}, [](P& x, std::ostream& r) { G(value()); })); break; }
	case 3: { typedef GConstrainedDoubleObject P; check(single<P, GDoubleGaussAdaptor>("GConstrainedDoubleObject", [] { return std::make_shared<P>(0.5, -1., 1.); }, {OP(P, "setValue", x.setValue(0.75)), OP(P, "setValue with boundaries", x.setValue(1.5, 1., 2.)), OP(P, "setBoundaries", x.setBoundaries(-3., 3.))}, [](P& x, std::ostream& r) { G(value()); G(getLowerBoundary()); G(getUpperBoundary()); })); break; }
	default: { typedef GConstrainedInt32Object P; check(single<P, GInt32GaussAdaptor>("GConstrainedInt32Object", [] { return std::make_shared<P>(5, -10, 10); }, {OP(P, "setValue", x.setValue(7)), OP(P, "setValue with boundaries", x.setValue(15, 10, 20)), OP(P, "setBoundaries", x.setBoundaries(-30, 30))}, [](P& x, std::ostream& r) { G(value()); G(getLowerBoundary()); G(getUpperBoundary()); })); } } }
#define VALUES r << "values="; for (std::size_t i = 0; i < x.size(); i++) r << x.value(i) << ","
SQ_SCENARIO(collections, s.split = 512) { switch (sq::choose(4, "class")) {
	case 0: { typedef GDoubleCollection P; check(single<P, GDoubleGaussAdaptor>("GDoubleCollection", [] { return std::make_shared<P>(2, 0.5, -1., 1.); }, {OP(P, "setValue", x.setValue(1, 0.75)), OP(P, "push_back", x.push_back(0.25)), OP(P, "clear", x.clear()), OP(P, "setInitBoundaries", x.setInitBoundaries(-4., 5.))}, [](P& x, std::ostream& r) { VALUES; G(getLowerInitBoundary()); G(getUpperInitBoundary()); })); break; }
	case 1: { typedef GInt32Collection P; check(single<P, GInt32GaussAdaptor>("GInt32Collection", [] { return std::make_shared<P>(2, 5, -10, 10); }, {OP(P, "setValue", x.setValue(1, 7)), OP(P, "push_back", x.push_back(3)), OP(P, "clear", x.clear()), OP(P, "setInitBoundaries", x.setInitBoundaries(-40, 50))}, [](P& x, std::ostream& r) { VALUES; G(getLowerInitBoundary()); G(getUpperInitBoundary()); })); break; }
	case 2: { typedef GBooleanCollection P; check(single<P, GBooleanAdaptor>("GBooleanCollection", [] { auto p = std::make_shared<P>(); p->push_back(true); p->push_back(false); return p; }, {OP(P, "setValue", x.setValue(1, true)), OP(P, "push_back", x.push_back(true)), OP(P, "clear", x.clear())}, [](P& x, std::ostream& r) { VALUES; })); break; }
	default: { typedef GConstrainedDoubleCollection P; check(single<P, GDoubleGaussAdaptor>("GConstrainedDoubleCollection", [] { return std::make_shared<P>(2, 0.5, -1., 1.); }, {OP(P, "setValue", x.setValue(1, 0.75)), OP(P, "push_back", x.push_back(0.25)), OP(P, "clear", x.clear()), OP(P, "setBoundaries", x.setBoundaries(-4., 5.))}, [](P& x, std::ostream& r) { VALUES; G(getLowerBoundary()); G(getUpperBoundary()); })); } } }
// ---- collections of objects
template <class P, class O> static Spec<P> objs(const char *n, std::function<std::shared_ptr<O>(int)> mk, std::function<void(O&)> change, std::function<void(O&, std::ostream&)> o) { Spec<P> s; s.name = n; s.make = [mk] { auto p = std::make_shared<P>(); p->push_back(mk(0)); p->push_back(mk(1)); return p; }; par_ops<P>(s.ops);
	s.ops.insert(s.ops.end(), {{"push_back", [mk](P& x) { x.push_back(mk(2)); }}, OP(P, "clear", x.clear()), {"change of an object", [change](P& x) { if (!x.empty()) change(*x.at(0)); }}, OP(P, "setParameterName of an object", if (x.size() > 1) x.at(1)->setParameterName("inner")), HOP(P, "adapt", x.adapt(rnd())), HOP(P, "randomInit", x.randomInit(activityMode::ALLPARAMETERS, rnd())), OP(P, "adaptor of an object", if (!x.empty()) x.at(0)->getAdaptor()->setAdaptionProbability(0.77))});
	s.obs = [o](P& x) { std::ostringstream r; r.precision(17); par_obs(x, r); r << x.size() << ": "; for (auto& p : x) { par_obs(*p, r); ad_obs(*p, r); o(*p, r); } return r.str(); }; s.act = [](P& x) { for (int i = 0; i < 3; i++) x.adapt(rnd()); }; return s; }
template <class O, class A, class... Args> static auto mko(Args... a) { return [=](int) { auto o = std::make_shared<O>(a...); o->addAdaptor(std::make_shared<A>()); return o; }; }
template <class O> static void ov(O& x, std::ostream& r) { G(value()); }
SQ_SCENARIO(object_collections, s.split = 512) { switch (sq::choose(5, "class")) {
	case 0: check(objs<GDoubleObjectCollection, GDoubleObject>("GDoubleObjectCollection", mko<GDoubleObject, GDoubleGaussAdaptor>(0.5, -1., 1.), [](GDoubleObject& x) { x.setValue(0.125); }, ov<GDoubleObject>)); break;
	case 1: check(objs<GInt32ObjectCollection, GInt32Object>("GInt32ObjectCollection", mko<GInt32Object, GInt32FlipAdaptor>(5, -10, 10), [](GInt32Object& x) { x.setValue(3); }, ov<GInt32Object>)); break;
	case 2: check(objs<GBooleanObjectCollection, GBooleanObject>("GBooleanObjectCollection", mko<GBooleanObject, GBooleanAdaptor>(false), [](GBooleanObject& x) { x.setValue(true); }, ov<GBooleanObject>)); break;
	case 3: check(objs<GConstrainedDoubleObjectCollection, GConstrainedDoubleObject>("GConstrainedDoubleObjectCollection", mko<GConstrainedDoubleObject, GDoubleGaussAdaptor>(0.5, -1., 1.), [](GConstrainedDoubleObject& x) { x.setValue(0.125); }, ov<GConstrainedDoubleObject>)); break;
	default: check(objs<GConstrainedInt32ObjectCollection, GConstrainedInt32Object>("GConstrainedInt32ObjectCollection", mko<GConstrainedInt32Object, GInt32FlipAdaptor>(5, -10, 10), [](GConstrainedInt32Object& x) { x.setValue(3); }, ov<GConstrainedInt32Object>)); } }
static std::string tree(const GObject& p) { return p.toString(serializationMode::TEXT); }
SQ_SCENARIO(parameter_object_collection, s.split = 128) { typedef GParameterObjectCollection P; Spec<P> s; s.name = "GParameterObjectCollection"; s.make = [] { auto p = std::make_shared<P>(); p->push_back(std::make_shared<GDoubleObject>(0.5)); auto q = std::make_shared<P>(); q->push_back(std::make_shared<GBooleanObject>(true)); p->push_back(q); return p; }; par_ops<P>(s.ops);
	s.ops.insert(s.ops.end(), {OP(P, "push_back", x.push_back(std::make_shared<GInt32Object>(3))), OP(P, "clear", x.clear()), OP(P, "change of an object", if (!x.empty()) if (auto d = std::dynamic_pointer_cast<GDoubleObject>(x.at(0))) d->setValue(0.25)), OP(P, "change of a nested object", if (x.size() > 1 && dynamic_cast<P *>(x.at(1).get())) { auto q = std::dynamic_pointer_cast<P>(x.at(1)); std::dynamic_pointer_cast<GBooleanObject>(q->at(0))->setValue(false); }), OP(P, "other type", if (!x.empty()) { x.pop_back(); x.push_back(std::make_shared<GInt32Object>(9)); }), OP(P, "longer nested", if (x.size() > 1 && dynamic_cast<P *>(x.at(1).get())) std::dynamic_pointer_cast<P>(x.at(1))->push_back(std::make_shared<GInt32Object>(4)))});
	s.obs = OBS(P, par_obs(x, r); r << x.size() << ": "; for (auto& p : x) { par_obs(*p, r); if (auto q = dynamic_cast<GDoubleObject *>(p.get())) r << q->value(); else if (auto q = dynamic_cast<GInt32Object *>(p.get())) r << q->value(); else if (auto q = dynamic_cast<P *>(p.get())) { r << "nested " << q->size() << ": "; for (auto& c : *q) { if (auto b = dynamic_cast<GBooleanObject *>(c.get())) r << b->value(); else r << "int"; } } }); check(s); }

// ---- individuals, personality traits, constraints
static void proc(GParameterSet& x) { x.mark_as_due_for_processing(); x.process(); }
static std::shared_ptr<Ind> ind19() { auto p = std::make_shared<Ind>((std::size_t)2); auto d = std::make_shared<GConstrainedDoubleObject>(0.5, -1., 1.); d->addAdaptor(std::make_shared<GDoubleGaussAdaptor>(0.2, 0.1, 0.01, 0.98)); p->push_back(d); auto b = std::make_shared<GBooleanObject>(true); d->setParameterName("d"); b->setParameterName("b"); p->push_back(b); return p; }
static std::shared_ptr<GParameterSetFormulaConstraint> formula(const char *f, bool neg = false) { auto c = std::make_shared<GParameterSetFormulaConstraint>(f); c->setAllowNegative(neg); return c; }
static std::shared_ptr<GCheckCombinerT<GParameterSet>> combiner() { return std::make_shared<GCheckCombinerT<GParameterSet>>(); }
static void par_list(GParameterSet& x, std::ostream& r) { r << x.size() << ": "; for (auto& p : x) { r << p->getParameterName() << "="; if (auto q = dynamic_cast<GConstrainedDoubleObject *>(p.get())) { r << q->value(); adaptor_obs(*q->getAdaptor(), r); } else if (auto q = dynamic_cast<GBooleanObject *>(p.get())) r << q->value(); else r << "other"; r << " "; } }
static std::string traits(GParameterSet& x) { return x.getPersonality() == "PERSONALITY_NONE" ? "" : x.getPersonality() + " " + x.getPersonalityTraits()->toString(serializationMode::TEXT); }
static void ind_cmp(Ind& x, std::ostream& r) { par_list(x, r); r << "mode=" << (int)x.getMaxMode() << " policy=" << (int)x.getEvaluationPolicy() << " "; G(getSteepness()); G(getBarrier()); G(getMaxUnsuccessfulAdaptions()); G(getMaxRetriesUntilValid()); G(getNAdaptions()); G(getAssignedIteration()); G(getNStalls()); G2(getBestKnownPrimaryFitness()); r << traits(x); }
static void ind_obs(Ind& x, std::ostream& r) { ind_cmp(x, r); G2(getRandomCrash()); G(is_processed()); G(getNStoredResults()); G(has_errors()); if (x.is_processed()) { for (int i = 0; i < 2; i++) G2(getFitnessTuple(i)); G(getValidityLevel()); G(isValid()); } G(getIterationCounter()); G(getResubmissionCounter()); G(getCollectionPosition()); }
SQ_SCENARIO(individuals, s.split = 1024) { fitness = [](const V& x, GParameterSet *) { double v = x.empty() ? 0.125 : x[0]; return V{v, v * 2 + 1}; }; typedef Ind X; Spec<X> s; s.name = "individual"; s.make = ind19; s.ops = {OP(X, "setMaxMode", x.setMaxMode(maxMode::MAXIMIZE)), OP(X, "setSteepness", x.setSteepness(3.5)), OP(X, "setBarrier", x.setBarrier(77)), OP(X, "setMaxUnsuccessfulAdaptions", x.setMaxUnsuccessfulAdaptions(12)), OP(X, "setMaxRetriesUntilValid", x.setMaxRetriesUntilValid(13)), OP(X, "setEvaluationPolicy", x.setEvaluationPolicy(evaluationPolicy::USEWORSTCASEFORINVALID)), OP(X, "setAssignedIteration", x.setAssignedIteration(5)), OP(X, "setNStalls", x.setNStalls(6)), OP(X, "setBestKnownPrimaryFitness", x.setBestKnownPrimaryFitness(std::make_tuple(2.5, 3.5))), OP(X, "setRandomCrash", x.setRandomCrash(true, 0.)), OP(X, "process", proc(x)), OP(X, "setPersonality EA", auto t = std::make_shared<GEvolutionaryAlgorithm_PersonalityTraits>(); t->setParentId(3); x.setPersonality(t)), OP(X, "setPersonality swarm", auto t = std::make_shared<GSwarmAlgorithm_PersonalityTraits>(); t->setNeighborhood(3); x.setPersonality(t)), OP(X, "constraint", x.registerConstraint(formula("0.25 + 0.125"))), OP(X, "negative constraint", x.registerConstraint(formula("0 - 3"))), OP(X, "push_back", auto d = std::make_shared<GConstrainedDoubleObject>(0.25, -1., 1.); d->setParameterName("more"); x.push_back(d)), OP(X, "clear", x.clear()), OP(X, "setValue", if (x.size()) if (auto d = std::dynamic_pointer_cast<GConstrainedDoubleObject>(x.at(0))) d->setValue(-0.25)), HOP(X, "adapt", x.adapt())};
	s.obs = OBS(X, ind_obs(x, r)); s.cmp = OBS(X, ind_cmp(x, r)); s.act = [](X& x) { for (int i = 0; i < 2; i++) { x.adapt(); proc(x); } }; check(s); }
template <class A> static Spec<A> trait(const char *n, std::vector<Op<A>> ops, std::function<std::string(A&)> obs) { Spec<A> s; s.name = n; s.make = [] { return std::make_shared<A>(); }; s.ops = ops; s.obs = obs; return s; }
template <class A> static Spec<A> parchild(const char *n) { return trait<A>(n, {OP(A, "setIsParent", x.setIsParent()), OP(A, "setIsChild", x.setIsChild()), OP(A, "setPopulationPosition", x.setPopulationPosition(4)), OP(A, "setParentId", x.setParentId(2)), OP(A, "setParentId 0", x.setParentId(0)), OP(A, "unsetParentId", x.unsetParentId())}, OBS(A, G(isParent()); G(getParentCounter()); G(getPopulationPosition()); G(parentIdSet()); if (x.parentIdSet()) G(getParentId()); G(getMnemonic()))); }
SQ_SCENARIO(traits, s.split = 256) { fitness = [](const V& x, GParameterSet *) { double v = x.empty() ? 0.125 : x[0]; return V{v, v * 2 + 1}; }; switch (sq::choose(5, "class")) {
	case 0: { typedef GEvolutionaryAlgorithm_PersonalityTraits A; auto s = parchild<A>("EA traits"); auto o = s.obs; s.ops.push_back(OP(A, "setIsNotOnParetoFront", x.setIsNotOnParetoFront())); s.ops.push_back(OP(A, "resetParetoTag", x.resetParetoTag())); s.obs = [o](A& x) { return o(x) + (x.isOnParetoFront() ? " on front" : " not on front"); }; check(s); break; }
	case 1: check(parchild<GSimulatedAnnealing_PersonalityTraits>("SA traits")); break;
	case 2: { typedef GSwarmAlgorithm_PersonalityTraits A; auto best = [](double v, bool p) { return [v, p](A& x) { auto b = ind19(); std::dynamic_pointer_cast<GConstrainedDoubleObject>(b->at(0))->setValue(v); if (p) proc(*b); x.registerPersonalBest(b); }; };
		check(trait<A>("swarm traits", {OP(A, "setNeighborhood", x.setNeighborhood(4)), OP(A, "setNoPositionUpdate", x.setNoPositionUpdate()), OP(A, "checkNoPositionUpdateAndReset", x.checkNoPositionUpdateAndReset()), {"registerPersonalBest", best(0.25, true)}, {"registerPersonalBest 2", best(-0.75, true)}, {"registerPersonalBest unprocessed", best(0.25, false)}, OP(A, "resetPersonalBest", x.resetPersonalBest())},
			OBS(A, G(getNeighborhood()); G(noPositionUpdate()); G(hasPersonalBest()); G2(getPersonalBestQuality()); if (x.hasPersonalBest()) ind_obs(dynamic_cast<Ind&>(*x.getPersonalBest()), r)))); break; }
	case 3: { typedef GGradientDescent_PersonalityTraits A; check(trait<A>("GD traits", {OP(A, "setPopulationPosition", x.setPopulationPosition(4)), OP(A, "setPopulationPosition 0", x.setPopulationPosition(0))}, OBS(A, G(getPopulationPosition())))); break; }
	default: { typedef GParameterScan_PersonalityTraits A; check(trait<A>("scan traits", {OP(A, "setPopulationPosition", x.setPopulationPosition(4)), OP(A, "setPopulationPosition 0", x.setPopulationPosition(0))}, OBS(A, G(getPopulationPosition())))); } } }
template <class A> static Spec<A> con(const char *n, std::function<std::shared_ptr<A>()> mk, std::vector<std::pair<const char *, std::function<std::shared_ptr<A>()>>> others) { Spec<A> s; s.name = n; s.make = mk; s.ops = {OP(A, "setAllowNegative", x.setAllowNegative(true)), OP(A, "setAllowNegative(false)", x.setAllowNegative(false))}; for (auto o : others) s.ops.push_back({o.first, [o](A& x) { load_into<A>(x, o.second()); }, false});
	s.obs = [](A& x) { auto p = ind19(); std::ostringstream r; G(getAllowNegative()); r << x.check(p.get()); return r.str(); }; return s; }
SQ_SCENARIO(constraints, s.split = 256) { if (sq::choose(2, "class") == 0) { typedef GParameterSetFormulaConstraint A; check(con<A>("formula constraint", [] { return formula("2 + 3"); }, {{"other formula", [] { return formula("0 - 4"); }}, {"third formula", [] { return formula("0.5", true); }}})); }
	else { typedef GCheckCombinerT<GParameterSet> A; auto s = con<A>("combiner", [] { return combiner(); }, {}); auto o = s.obs; s.ops.insert(s.ops.end(), {OP(A, "addCheck", x.addCheck(formula("2 + 3"))), OP(A, "addCheck negative", x.addCheck(formula("0 - 4", true))), OP(A, "nested", auto c = combiner(); c->addCheck(formula("7")); x.addCheck(c)), OP(A, "add policy", x.setCombinerPolicy(validityCheckCombinerPolicy::ADDINVALID)), OP(A, "multiply policy", x.setCombinerPolicy(validityCheckCombinerPolicy::MULTIPLYINVALID))}); s.obs = [o](A& x) { return "policy=" + std::to_string((int)x.getCombinerPolicy()) + " " + o(x); }; check(s); } }
// ---- monitors
template <class A> static void file_ops(std::vector<Op<A>>& v) { v.push_back(OP(A, "setFileName", x.setFileName("other.txt"))); }
template <class A> static void canvas_ops(std::vector<Op<A>>& v) { v.insert(v.end(), {OP(A, "setMonitorBestOnly", x.setMonitorBestOnly(!x.getMonitorBestOnly())), OP(A, "setCanvasDimensions", x.setCanvasDimensions(640, 480)), OP(A, "setAddPrintCommand", x.setAddPrintCommand(!x.getAddPrintCommand()))}); }
template <class A> static void canvas_obs(A& x, std::ostream& r) { G(getFileName()); G(getMonitorBestOnly()); G2(getCanvasDimensions()); G(getAddPrintCommand()); }
static void about(GBasePluggableOM& m) { static std::shared_ptr<GEvolutionaryAlgorithm> a; if (!a) { fitness = [](const V& x, GParameterSet *) { double v = x.empty() ? 0.125 : x[0]; return V{v, v * 2 + 1}; }; a = std::make_shared<GEvolutionaryAlgorithm>(); a->setNThreads(1); a->setPopulationSizes(3, 1); a->setMaxIteration(1); a->setReportIteration(0); a->push_back(ind19()); a->optimize(); } m.informationFunction(infoMode::INFOINIT, a.get()); m.informationFunction(infoMode::INFOPROCESSING, a.get()); }
template <class A> static Spec<A> mon(const char *n, std::vector<Op<A>> ops, std::function<std::string(A&)> obs) { Spec<A> s; s.name = n; s.make = [] { return std::make_shared<A>(); }; s.ops = ops; s.obs = obs; s.ops.push_back(HOP(A, "information about an iteration", about(x)));s.ops.push_back(OP(A, "setUseRawEvaluation", x.setUseRawEvaluation(!x.getUseRawEvaluation()))); s.obs = [obs](A& x) { return obs(x) + (x.getUseRawEvaluation() ? " raw" : " transformed"); }; return s; }
SQ_SCENARIO(monitors, s.split = 512) { switch (sq::choose(9, "class")) {
	case 0: { typedef GStandardMonitor A; check(mon<A>("GStandardMonitor", {}, [](A&) { return std::string(); })); break; }
	case 1: { typedef GFitnessMonitor A; check(mon<A>("GFitnessMonitor", {OP(A, "setResultFileName", x.setResultFileName("fit.C")), OP(A, "setDims", x.setDims(100, 200)), OP(A, "setNMonitorIndividuals", x.setNMonitorIndividuals(4))}, OBS(A, G(getResultFileName()); G2(getDims()); G(getXDim()); G(getYDim()); G(getNMonitorIndividuals())))); break; }
	case 2: { typedef GCollectiveMonitor A; check(mon<A>("GCollectiveMonitor", {OP(A, "registerPluggableOM", auto m = std::make_shared<GFitnessMonitor>(); m->setDims(3, 4); x.registerPluggableOM(m)), OP(A, "register another", x.registerPluggableOM(std::make_shared<GAllSolutionFileLogger>("a.txt"))), OP(A, "resetPluggbleOM", x.resetPluggbleOM())}, OBS(A, G(hasOptimizationMonitors()); r << x.toString(serializationMode::TEXT).size()))); break; }
	case 3: { typedef GProgressPlotterT<double> A; auto s = mon<A>("GProgressPlotter", {OP(A, "setMonitorValidOnly", x.setMonitorValidOnly()), OP(A, "setObserveBoundaries", x.setObserveBoundaries(!x.getObserveBoundaries())), OP(A, "setCanvasLabel", x.setCanvasLabel("a label")), OP(A, "setProfileSpec", x.setProfileSpec("d(a[0], -10, 10, 20)"))}, nullptr); s.obs = OBS(A, canvas_obs(x, r); G(getMonitorValidOnly()); G(getObserveBoundaries()); G(getCanvasLabel()); G(parameterProfileCreationRequested()); G(getUseRawEvaluation())); file_ops(s.ops); canvas_ops(s.ops); check(s); break; }
	case 4: { typedef GAllSolutionFileLogger A; auto s = mon<A>("GAllSolutionFileLogger", {OP(A, "setBoundaries", x.setBoundaries({1., 2.})), OP(A, "setBoundariesInactive", x.setBoundariesInactive()), OP(A, "setPrintWithNameAndType", x.setPrintWithNameAndType(!x.getPrintWithNameAndType())), OP(A, "setPrintWithCommas", x.setPrintWithCommas(!x.getPrintWithCommas())), OP(A, "setUseTrueFitness", x.setUseTrueFitness(!x.getUseTrueFitness())), OP(A, "setShowValidity", x.setShowValidity(!x.getShowValidity())), OP(A, "setPrintInitial", x.setPrintInitial(!x.getPrintInitial())), OP(A, "setShowIterationBoundaries", x.setShowIterationBoundaries(!x.getShowIterationBoundaries()))}, OBS(A, G(getFileName()); for (double b : x.getBoundaries()) r << b << ","; G(boundariesActive()); G(getPrintWithNameAndType()); G(getPrintWithCommas()); G(getUseTrueFitness()); G(getShowValidity()); G(getPrintInitial()); G(getShowIterationBoundaries()))); file_ops(s.ops); check(s); break; }
	case 5: { typedef GIterationResultsFileLogger A; auto s = mon<A>("GIterationResultsFileLogger", {OP(A, "setPrintWithCommas", x.setPrintWithCommas(!x.getPrintWithCommas())), OP(A, "setUseTrueFitness", x.setUseTrueFitness(!x.getUseTrueFitness()))}, OBS(A, G(getFileName()); G(getPrintWithCommas()); G(getUseTrueFitness()))); file_ops(s.ops); check(s); break; }
	case 6: { typedef GNAdpationsLogger A; auto s = mon<A>("GNAdpationsLogger", {}, OBS(A, canvas_obs(x, r))); file_ops(s.ops); canvas_ops(s.ops); check(s); break; }
	case 7: { typedef GAdaptorPropertyLogger<double> A; auto s = mon<A>("GAdaptorPropertyLogger", {OP(A, "setAdaptorName", x.setAdaptorName("GDoubleBiGaussAdaptor")), OP(A, "setPropertyName", x.setPropertyName("sigma1"))}, OBS(A, canvas_obs(x, r); G(getAdaptorName()); G(getPropertyName()))); file_ops(s.ops); canvas_ops(s.ops); check(s); break; }
	default: { typedef GProcessingTimesLogger A; check(mon<A>("GProcessingTimesLogger", {OP(A, "setFileName_pth", x.setFileName_pth("p.C")), OP(A, "setFileName_pth2", x.setFileName_pth2("q.C")), OP(A, "setFileName_txt", x.setFileName_txt("r.txt")), OP(A, "setCanvasDimensions_pth", x.setCanvasDimensions_pth(11, 12)), OP(A, "setCanvasDimensions_pth2", x.setCanvasDimensions_pth2(13, 14)), OP(A, "setNBinsX", x.setNBinsX(15)), OP(A, "setNBinsY", x.setNBinsY(16))}, OBS(A, G(getFileName_pth()); G(getFileName_pth2()); G(getFileName_txt()); G2(getCanvasDimensions_pth()); G2(getCanvasDimensions_pth2()); G(getNBinsX()); G(getNBinsY())))); } } }
// ---- executors
template <class A> static Spec<A> exe(const char *n) { Spec<A> s; s.name = n; s.make = [] { if constexpr (std::is_same<A, Gem::Courtier::GMTExecutorT<GParameterSet>>::value) return std::make_shared<A>(std::uint16_t(2)); else return std::make_shared<A>(); }; s.ops = {OP(A, "setMaxResubmissions", x.setMaxResubmissions(9)), OP(A, "setMaxResubmissions 0", x.setMaxResubmissions(0))}; s.obs = OBS(A, G(getMaxResubmissions())); return s; }
SQ_SCENARIO(executors, s.split = 64) { using namespace Gem::Courtier; switch (sq::choose(3, "class")) { case 0: check(exe<GSerialExecutorT<GParameterSet>>("serial executor")); break;
	case 1: { typedef GMTExecutorT<GParameterSet> A; auto s = exe<A>("multithreaded executor"); s.ops.insert(s.ops.end(), {OP(A, "setNThreads", x.setNThreads(3)), OP(A, "setNThreads 1", x.setNThreads(1))}); s.obs = OBS(A, G(getMaxResubmissions()); G(getNThreads())); check(s); break; }
	default: { typedef GBrokerExecutorT<GParameterSet> A; auto s = exe<A>("broker executor"); s.ops.insert(s.ops.end(), {OP(A, "setWaitFactor", x.setWaitFactor(2.5)), OP(A, "setMinPartialReturnPercentage", x.setMinPartialReturnPercentage(40))}); s.obs = OBS(A, G(getMaxResubmissions()); G(getWaitFactor()); G(getMinPartialReturnPercentage())); check(s); } } }
// ---- plots
using namespace Gem::Common;
template <class P> static std::string plot_obs(P& x) { std::ostringstream r; r.precision(17); G(xAxisLabel()); G(yAxisLabel()); G(zAxisLabel()); G(plotLabel()); G(dsMarker()); G(id()); try { r << x.headerData("") << x.bodyData("") << x.footerData(""); } catch (const std::exception&) { r << "exception"; } return r.str(); }
template <class P> static Spec<P> plotter(const char *n, std::function<std::shared_ptr<P>()> mk, std::vector<Op<P>> ops) { Spec<P> s; s.name = n; s.make = mk; s.ops = ops; s.ops.insert(s.ops.end(), {OP(P, "setDrawingArguments", x.setDrawingArguments("arg")), OP(P, "setXAxisLabel", x.setXAxisLabel("ax")), OP(P, "setYAxisLabel", x.setYAxisLabel("ay")), OP(P, "setZAxisLabel", x.setZAxisLabel("az")), OP(P, "setPlotLabel", x.setPlotLabel("pl")), OP(P, "setDataStructureMarker", x.setDataStructureMarker("mark")), OP(P, "setId", x.setId(4)), OP(P, "registerSecondaryPlotter", auto q = std::make_shared<GGraph2D>(); q->add(1., 2.); x.registerSecondaryPlotter(q)), OP(P, "another secondary plotter", auto q = std::make_shared<GFunctionPlotter1D>("x*x", std::make_tuple(0., 1.)); x.registerSecondaryPlotter(q))});
	s.obs = plot_obs<P>; return s; }
SQ_SCENARIO(plotters, s.split = 512) { typedef std::tuple<double, double> D2; switch (sq::choose(9, "class")) {
	case 0: { typedef GHistogram1D P; check(plotter<P>("GHistogram1D", [] { return std::make_shared<P>(4, 0., 1.); }, {OP(P, "add", x.add(0.5)), OP(P, "add2", x.add(-0.25))})); break; }
	case 1: { typedef GHistogram1I P; check(plotter<P>("GHistogram1I", [] { return std::make_shared<P>(4, 0., 1.); }, {OP(P, "add", x.add(5)), OP(P, "add2", x.add(-2))})); break; }
	case 2: { typedef GHistogram2D P; check(plotter<P>("GHistogram2D", [] { return std::make_shared<P>(4, 5, 0., 1., 2., 3.); }, {OP(P, "add", x.add(0.5, 2.5)), OP(P, "set2DOpt", x.set2DOpt(tddropt::COLZ))})); break; }
	case 3: { typedef GGraph2D P; check(plotter<P>("GGraph2D", [] { return std::make_shared<P>(); }, {OP(P, "add", x.add(0.5, 2.5)), OP(P, "add2", x.add(7, -1)), OP(P, "setDrawArrows", x.setDrawArrows()), OP(P, "setPlotMode", x.setPlotMode(graphPlotMode::SCATTER)), OP(P, "setPlotMode curve", x.setPlotMode(graphPlotMode::CURVE))})); break; }
	case 4: { typedef GGraph2ED P; check(plotter<P>("GGraph2ED", [] { return std::make_shared<P>(); }, {OP(P, "add", x.add(std::make_tuple(0.5, 0.1, 2.5, 0.2))), OP(P, "add2", x.add(std::make_tuple(7., 1., -1., 2.))), OP(P, "setPlotMode", x.setPlotMode(graphPlotMode::SCATTER)), OP(P, "setPlotMode curve", x.setPlotMode(graphPlotMode::CURVE))})); break; }
	case 5: { typedef GGraph3D P; check(plotter<P>("GGraph3D", [] { return std::make_shared<P>(); }, {OP(P, "add", x.add(std::make_tuple(1., 2., 3.))), OP(P, "add2", x.add(std::make_tuple(7., -1., 0.5))), OP(P, "setDrawLines", x.setDrawLines())})); break; }
	case 6: { typedef GGraph4D P; check(plotter<P>("GGraph4D", [] { return std::make_shared<P>(); }, {OP(P, "add", x.add(std::make_tuple(1., 2., 3., 4.))), OP(P, "add2", x.add(std::make_tuple(7., -1., 0.5, 6.))), OP(P, "setMinMarkerSize", x.setMinMarkerSize(0.125)), OP(P, "setMaxMarkerSize", x.setMaxMarkerSize(3.5)), OP(P, "setSmallWLargeMarker", x.setSmallWLargeMarker(!x.getSmallWLargeMarker())), OP(P, "setNBest", x.setNBest(1))})); break; }
	case 7: { typedef GFunctionPlotter1D P; check(plotter<P>("GFunctionPlotter1D", [] { return std::make_shared<P>("sin(x)", D2(0., 2.)); }, {OP(P, "setNSamplesX", x.setNSamplesX(77))})); break; }
	default: { typedef GFunctionPlotter2D P; check(plotter<P>("GFunctionPlotter2D", [] { return std::make_shared<P>("sin(x)*y", D2(0., 2.), D2(-1., 2.)); }, {OP(P, "setNSamplesX", x.setNSamplesX(77)), OP(P, "setNSamplesY", x.setNSamplesY(78))})); } } }
SQ_SCENARIO(plot_designer, s.split = 256) { typedef GPlotDesigner P; Spec<P> s; s.name = "GPlotDesigner"; s.make = [] { return std::make_shared<P>("label", 1, 2); }; auto reg = [](int k) { return [k](P& x) { std::shared_ptr<GBasePlotter> p; if (k == 0) { auto g = std::make_shared<GGraph2D>(); g->add(1., 2.); p = g; } else if (k == 1) { auto g = std::make_shared<GHistogram1D>(3, 0., 1.); g->add(0.5); p = g; } else { auto g = std::make_shared<GFunctionPlotter2D>("x*y", std::make_tuple(0., 1.), std::make_tuple(0., 1.)); auto q = std::make_shared<GGraph2D>(); q->add(3., 4.); g->registerSecondaryPlotter(q); p = g; } x.registerPlotter(p); }; };
	s.ops = {{"registerPlotter", reg(0)}, {"register another", reg(1)}, {"register with secondary", reg(2)}, OP(P, "setCanvasDimensions", x.setCanvasDimensions(100, 200)), OP(P, "setCanvasLabel", x.setCanvasLabel("other")), OP(P, "setAddPrintCommand", x.setAddPrintCommand(true)), OP(P, "resetPlotters", x.resetPlotters()), OP(P, "setNIndentionSpaces", x.setNIndentionSpaces(7))}; s.obs = OBS(P, G2(getCanvasDimensions()); G(getCanvasLabel()); G(getAddPrintCommand()); G(getNIndentionSpaces()); std::string t = x.plot("file.C"); auto p = t.find("created"); r << t.size() << t.substr(std::min(t.size(), t.find("gROOT")))); check(s); }
// ---- algorithms before their first run (later states: C31)
template <class A> static void base_ops(std::vector<Op<A>>& v) { typedef std::chrono::duration<double> S; v.insert(v.end(), {OP(A, "setMaxIteration", x.setMaxIteration(17)), OP(A, "setMinIteration", x.setMinIteration(3)), OP(A, "setMaxStallIteration", x.setMaxStallIteration(4)), OP(A, "setMaxTime", x.setMaxTime(S(5.5))), OP(A, "setMinTime", x.setMinTime(S(1.5))), OP(A, "setQualityThreshold", x.setQualityThreshold(0.5, true)), OP(A, "setReportIteration", x.setReportIteration(6)), OP(A, "setStallCounterThreshold", x.setStallCounterThreshold(8)), OP(A, "setTerminationFile", x.setTerminationFile("stop.txt", true)), OP(A, "setCheckpointInterval", x.setCheckpointInterval(9)), OP(A, "setCheckpointBaseName", x.setCheckpointBaseName("cpdir", "cpbase")), OP(A, "setCheckpointSerializationMode", x.setCheckpointSerializationMode(serializationMode::XML)), OP(A, "setRemoveCheckpointFiles", x.setRemoveCheckpointFiles(false)), OP(A, "setEmitTerminationReason", x.setEmitTerminationReason(!x.getEmitTerminationReason())), OP(A, "registerPluggableOM", x.registerPluggableOM(std::make_shared<Mon>())), OP(A, "push_back", x.push_back(ind19())), OP(A, "clear", x.clear())}); }
template <class A> static void base_obs(A& x, std::ostream& r) { G(getMaxIteration()); G(getMinIteration()); G(getMaxStallIteration()); G(getMaxTime().count()); G(getMinTime().count()); bool q = false; r << "threshold=" << x.getQualityThreshold(q) << q << " "; G(hasQualityThreshold()); G(getReportIteration()); G(getStallCounterThreshold()); bool t = false; r << "file=" << x.getTerminationFile(t) << t << " "; G(getCheckpointInterval()); G(getCheckpointBaseName()); G(getCheckpointDirectory()); r << (int)x.getCheckpointSerializationMode() << " "; G(getEmitTerminationReason()); G(hasPluggableOptimizationMonitors()); G(getIteration()); G(getStartIteration()); G(getStallCounter()); r << x.size() << ": "; for (auto& p : x) ind_obs(dynamic_cast<Ind&>(*p), r); }
template <class A> static Spec<A> algo(const char *n, std::vector<Op<A>> ops, std::function<void(A&, std::ostream&)> o) { Spec<A> s; s.name = n; s.make = [] { auto a = std::make_shared<A>(); if constexpr (std::is_same<A, GEvolutionaryAlgorithm>::value || std::is_same<A, GSimulatedAnnealing>::value) a->setNThreads(1); return a; }; s.ops = ops; base_ops<A>(s.ops); s.obs = [o](A& x) { std::ostringstream r; r.precision(17); base_obs(x, r); o(x, r); return r.str(); }; return s; }
template <class A> static std::vector<Op<A>> par_child_ops() { return {OP(A, "setPopulationSizes", x.setPopulationSizes(7, 2)), OP(A, "setPopulationGrowth", x.setPopulationGrowth(2, 20)), OP(A, "setRecombinationMethod", x.setRecombinationMethod(duplicationScheme::VALUEDUPLICATIONSCHEME)), OP(A, "setAmalgamationLikelihood", x.setAmalgamationLikelihood(0.25)), OP(A, "setNThreads", x.setNThreads(3))}; }
template <class A> static void par_child_obs(A& x, std::ostream& r) { G(getNParents()); G(getDefaultNChildren()); G(getDefaultPopulationSize()); G(getGrowthRate()); G(getMaxPopulationSize()); r << (int)x.getRecombinationMethod() << " "; G(getAmalgamationLikelihood()); G(getNThreads()); }
SQ_SCENARIO(algorithms, s.split = 512) { fitness = [](const V& x, GParameterSet *) { double v = x.empty() ? 0.125 : x[0]; return V{v, v * 2 + 1}; }; switch (sq::choose(5, "class")) {
	case 0: { typedef GEvolutionaryAlgorithm A; auto ops = par_child_ops<A>(); ops.push_back(OP(A, "setSortingScheme", x.setSortingScheme(sortingMode::MUCOMMANU_PARETO))); check(algo<A>("EA", ops, [](A& x, std::ostream& r) { par_child_obs(x, r); r << (int)x.getSortingScheme(); })); break; }
	case 1: { typedef GSimulatedAnnealing A; auto ops = par_child_ops<A>(); ops.push_back(OP(A, "setT0", x.setT0(123))); ops.push_back(OP(A, "setTDegradationStrength", x.setTDegradationStrength(0.5))); check(algo<A>("SA", ops, [](A& x, std::ostream& r) { par_child_obs(x, r); G(getT0()); G(getT()); G(getTDegradationStrength()); })); break; }
	case 2: { typedef GSwarmAlgorithm A; check(algo<A>("swarm", {OP(A, "setSwarmSizes", x.setSwarmSizes(3, 4)), OP(A, "setCGlobal", x.setCGlobal(1.25)), OP(A, "setCNeighborhood", x.setCNeighborhood(1.5)), OP(A, "setCPersonal", x.setCPersonal(1.75)), OP(A, "setCVelocity", x.setCVelocity(0.6)), OP(A, "setRepulsionThreshold", x.setRepulsionThreshold(5)), OP(A, "setUpdateRule", x.setUpdateRule(updateRule::SWARM_UPDATERULE_LINEAR)), OP(A, "setVelocityRangePercentage", x.setVelocityRangePercentage(0.3)), OP(A, "setNeighborhoodsEqualFillUp", x.setNeighborhoodsEqualFillUp()), OP(A, "setNeighborhoodsRandomFillUp", x.setNeighborhoodsRandomFillUp())}, [](A& x, std::ostream& r) { G(getNNeighborhoods()); G(getDefaultNNeighborhoodMembers()); G(getCGlobal()); G(getCNeighborhood()); G(getCPersonal()); G(getCVelocity()); G(getRepulsionThreshold()); r << (int)x.getUpdateRule() << " "; G(getVelocityRangePercentage()); G(neighborhoodsFilledUpRandomly()); })); break; }
	case 3: { typedef GGradientDescent A; check(algo<A>("GD", {OP(A, "setNStartingPoints", x.setNStartingPoints(3)), OP(A, "setFiniteStep", x.setFiniteStep(0.01)), OP(A, "setStepSize", x.setStepSize(0.2))}, [](A& x, std::ostream& r) { G(getNStartingPoints()); G(getFiniteStep()); G(getStepSize()); })); break; }
	default: { typedef GParameterScan A; auto s = algo<A>("scan", {OP(A, "setNSimpleScans", x.setNSimpleScans(5)), OP(A, "setNMonitorInds", x.setNMonitorInds(3)), OP(A, "setScanRandomly", x.setScanRandomly(!x.getScanRandomly())), OP(A, "setParameterSpecs", x.setParameterSpecs("d(0, -1, 0.5, 3)")), OP(A, "other setParameterSpecs", x.setParameterSpecs("d(0, 0, 1, 2), b(1)"))}, [](A& x, std::ostream& r) { G(getNSimpleScans()); G(getNMonitorInds()); G(getScanRandomly()); G(getNScansPerformed()); });
		auto log = std::make_shared<std::string>(); auto o = s.obs; s.obs = [o, log](A& x) { return o(x) + *log; }; s.act = [log](A& x) { evals.clear(); x.clear(); x.push_back(ind19()); x.setMaxIteration(4); x.setReportIteration(0); x.setCheckpointInterval(0); x.setTerminationFile("", false); x.resetPluggableOM(); try { x.optimize(); } catch (const std::exception&) { } std::ostringstream r; for (auto& e : evals) for (double v : e.x) r << v << " "; if (log->empty()) *log = r.str(); SQ_CHECK(*log == r.str(), "a copied scan evaluates " + r.str() + " instead of " + *log); }; check(s); } } }
