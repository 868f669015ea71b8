// C22: individuals with constraints: validity is the logical combination of the constraints, the fitness of valid candidates is what the
// user's function returned, invalid candidates never beat valid ones, and none of this is lost in copies, loading and serialization.
#include "sq.hpp"
#include "mockrandom.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva/GIndividualMultiConstraint.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
#include "geneva-individuals/GFunctionIndividual.hpp"
#include <boost/serialization/export.hpp>
#include <cmath>
#include <functional>
using namespace Gem::Geneva; typedef std::vector<double> V; typedef GPreEvaluationValidityCheckT<GParameterSet> Check; typedef GCheckCombinerT<GParameterSet> Comb;
static const double HI = std::numeric_limits<double>::max(), INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN(), EPS = std::numeric_limits<double>::epsilon();
static int calls = 0; static bool flagged = false;
// the individual: parameter 0 and 1 select the constraint value(s), parameter 2 is the raw fitness
struct Fit : GParameterSet { Fit(std::size_t n = 1) : GParameterSet(n) {} Fit(const Fit&) = default; using GParameterSet::parameterSetFulfillsConstraints; GObject *clone_() const override { return new Fit(*this); } void load_(const GObject *cp) override { GParameterSet::load_(cp); }
	double fitnessCalculation() override { calls++; V d; this->streamline(d); if (this->getNStoredResults() > 1) this->setResult(1, d.at(2) * 0.5 - 1); if (flagged) this->force_set_error("scripted"); return d.at(2); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); } };
BOOST_CLASS_EXPORT(Fit)
// a constraint whose result is that of a table
static V table;
struct Tab : GParameterSetConstraint { int which = 0, offset = 0; Tab() = default; Tab(const Tab&) = default; Tab(int w, int o) : which(w), offset(o) {} GObject *clone_() const override { return new Tab(*this); }
	double check_(const GParameterSet *p) const override { V d; p->streamline(d); std::size_t i = (std::size_t)d.at(which) + offset; return table.at(i % table.size()); }
	void load_(const GObject *cp) override { GParameterSetConstraint::load_(cp); auto q = dynamic_cast<const Tab *>(cp); which = q->which; offset = q->offset; }
	void compare_(const GObject& cp, const Gem::Common::expectation& e, const double&) const override { auto q = dynamic_cast<const Tab *>(&cp); Gem::Common::GToken t("Tab", e); using namespace Gem::Common; compare_t(IDENTITY(which, q->which), t); compare_t(IDENTITY(offset, q->offset), t); t.evaluate(); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSetConstraint>(*this)) & boost::serialization::make_nvp("which", which) & boost::serialization::make_nvp("offset", offset); } };
BOOST_CLASS_EXPORT(Tab)
static std::shared_ptr<Fit> indiv(const V& v, std::size_t n = 1) { auto g = std::make_shared<Fit>(n); for (double d : v) g->push_back(std::make_shared<GDoubleObject>(d)); return g; }
static void assign(Fit& g, const V& v) { g.assignValueVector<double>(v); }
static const char *TN[] = {"", ", cloned", ", loaded", ", serialized (binary)", ", serialized (xml)", ", serialized (text)", ", assigned", ", cloned twice"};
static const int NT = 8;
template <class T> static std::shared_ptr<T> transport(std::shared_ptr<T> a, int k, const std::function<std::shared_ptr<T>()>& other) { using Gem::Common::serializationMode;
	if (k == 1) return a->GObject::template clone<T>(); if (k == 7) { auto b = a->GObject::template clone<T>(); a.reset(); return b->GObject::template clone<T>(); } if (k == 2) { auto b = other(); b->GObject::load(a); return b; }
	if (k >= 3 && k <= 5) { auto m = k == 3 ? serializationMode::BINARY : k == 4 ? serializationMode::XML : serializationMode::TEXT; auto s = a->GObject::toString(m); auto b = other(); b->GObject::fromString(s, m); return b; } return a; }
static bool better(double x, double y, bool max) { return max ? x > y : x < y; }
static bool valid(double c, bool neg) { return (c >= 0 && c <= 1) || (neg && c < 0); }
static std::string num(double d) { std::ostringstream o; o << std::setprecision(17) << d; return o.str(); }
// every constraint value x every fitness under every policy; all pairs compared
SQ_SCENARIO(policies, s.split = 60) { int pol = sq::choose(3, "policy"), max = sq::choose(2, "maximise"), neg = sq::choose(2, "negative values allowed"), sig = pol == 2 ? sq::choose(4, "barrier") : 0, tr = sq::choose(7, "transport"), when = tr ? sq::choose(3, "transported when") : 0; std::size_t n = tr == 0 || sq::thorough() ? 1 + sq::choose(2, "criteria") : 2;
	table = {0, 0.5, 1, 1 + EPS, 1.001, 1.5, 3, 1e8, 1e200, HI, INF, -HI, -INF, -1e-3, -0.5, -1, -2, -1e10, NAN_}; V fit = {-1e12, -3, -1e-3, 0, 0.25, 7, 2e12}; evaluationPolicy P[] = {evaluationPolicy::USESIMPLEEVALUATION, evaluationPolicy::USEWORSTCASEFORINVALID, evaluationPolicy::USESIGMOID}; double bar[] = {1e9, 1., 0.01, 1e-3}, st[] = {0.2, 1., 5., 100.};
	struct R { double c, f; bool ok; double t, lvl; std::shared_ptr<GParameterSet> g; }; std::vector<R> all; std::string w = std::string(pol == 0 ? ", simple evaluation" : pol == 1 ? ", worst case for invalid" : ", sigmoid with barrier " + num(bar[sig])) + (max ? ", maximisation" : ", minimisation") + (neg ? ", negative values allowed" : "") + TN[tr == 6 ? 7 : tr] + (when == 1 ? " after the evaluation" : when == 2 ? " twice" : "");
	for (std::size_t c = 0; c < table.size(); c++) for (double f : fit) { std::string h = ", constraint " + num(table[c]) + ", fitness " + num(f) + w; auto g = indiv({(double)c, 0, f}, n); g->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); g->setEvaluationPolicy(P[pol]); g->setBarrier(bar[sig]); g->setSteepness(st[sig]); auto t = std::make_shared<Tab>(0, 0); t->setAllowNegative(neg); g->registerConstraint(t); t->which = 1; t->setAllowNegative(!neg); // the individual owns a copy
		std::function<std::shared_ptr<Fit>()> other = [&] { auto o = indiv({0, 0, 1}, n); return o; }; auto move = [&](std::shared_ptr<Fit> x) { return transport<Fit>(x, tr == 6 ? 7 : tr, other); };
		if (when != 1) g = move(g); calls = 0; double lv = -1; bool ok = valid(table[c], neg); SQ_CHECK(g->parameterSetFulfillsConstraints(lv) == ok, "constraints are said to be " << (ok ? "violated" : "fulfilled") << h); g->mark_as_due_for_processing(); auto res = g->process(); SQ_CHECK(calls == (ok || pol == 0), "the fitness function ran " << calls << " times" << h); if (when) g = move(g); sq::step();
		SQ_CHECK(g->is_processed() && !g->has_errors(), "not processed" << h); SQ_CHECK(g->isValid() == ok && g->isInValid() == !ok && g->constraintsFulfilled() == ok, "candidate is said to be " << (ok ? "invalid" : "valid") << h); double lvl = g->getValidityLevel(); SQ_CHECK(ok ? lvl >= 0 && lvl <= 1 : !(lvl <= 1), "validity level " << lvl << h);
		for (std::size_t k = 0; k < n; k++) { double raw = g->raw_fitness(k), tf = g->transformed_fitness(k), uf = k ? f * 0.5 - 1 : f; if (ok || pol == 0) { SQ_CHECK(raw == uf, "raw fitness " << k << " is " << num(raw) << " instead of " << num(uf) << h); if (pol != 2) SQ_CHECK(tf == uf, "transformed fitness is " << num(tf) << h); else { long double x = (long double)bar[sig] * uf / (st[sig] + fabsl(uf)); SQ_CHECK(fabsl(tf - x) <= 1e-14L * fabsl(x) && std::fabs(tf) <= bar[sig], "transformed fitness is " << num(tf) << " instead of " << num(x) << h); } } else { double worst = max ? -HI : HI; SQ_CHECK(raw == worst, "raw fitness of an invalid candidate is " << num(raw) << h); if (pol == 1) SQ_CHECK(tf == worst, "transformed fitness of an invalid candidate is " << num(tf) << h); SQ_CHECK(tf == tf, "transformed fitness of an invalid candidate is not a number" << h); } SQ_CHECK(std::get<0>(g->getFitnessTuple(k)) == raw && std::get<1>(g->getFitnessTuple(k)) == tf, "fitness tuple differs" << h); }
		if (pol) SQ_CHECK(res.rawFitness() == g->raw_fitness(0) && res.transformedFitness() == g->transformed_fitness(0), "process() returned another result than is stored" << h); all.push_back({table[c], f, ok, g->transformed_fitness(0), lvl, g}); }
	for (auto& a : all) for (auto& b : all) { std::string h = "constraint " + num(a.c) + ", fitness " + num(a.f) + " vs. constraint " + num(b.c) + ", fitness " + num(b.f) + w; bool bt = better(a.t, b.t, max); SQ_CHECK(isBetter(a.g, b.g) == bt && isBetter(a.t, b.t, max ? maxMode::MAXIMIZE : maxMode::MINIMIZE) == bt, "isBetter differs: " << h); if (pol == 0) continue;
		if (!a.ok && b.ok) SQ_CHECK(!bt && a.t != b.t, "invalid candidate with transformed fitness " << num(a.t) << " does as well as the valid one with " << num(b.t) << ": " << h); if (a.ok && b.ok) SQ_CHECK(bt ? better(a.f, b.f, max) : !better(a.f, b.f, max) || a.t == b.t, "transformed fitness reverses the order: " << h); if (!a.ok && !b.ok && pol == 2) SQ_CHECK(!(bt && a.lvl > b.lvl && a.lvl < 1e290), "the more invalid candidate is better: " << h); } }
// one individual changes between valid and invalid: status and fitness always belong to its current values; copies carry on on their own
SQ_SCENARIO(histories, s.split = 60) { int pol = sq::choose(3, "policy"), max = sq::choose(2, "maximise"); table = {0.5, 1.5, -2, HI}; evaluationPolicy P[] = {evaluationPolicy::USESIMPLEEVALUATION, evaluationPolicy::USEWORSTCASEFORINVALID, evaluationPolicy::USESIGMOID}; double worst = max ? -HI : HI; bool neg = false; std::shared_ptr<Fit> g = indiv({0, 0, 3}, 2); g->setEvaluationPolicy(P[pol]); g->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); { auto t = std::make_shared<Tab>(0, 0); g->registerConstraint(t); } g->setBarrier(10); g->setSteepness(2); V v = {0, 0, 3}; int off = 0; std::string h;
	int D = sq::thorough() ? 5 : 4; for (int s = 0; s < D; s++) { int op = sq::choose(10, "operation"); flagged = false; std::shared_ptr<Fit> keep; sq::step();
		switch (op) { case 0: v[0] = 1; h += " violate"; break; case 1: v[0] = 0; h += " comply"; break; case 2: v[0] = 2; v[2] = -4; h += " negative value"; break; case 3: { neg = !neg; auto t = std::make_shared<Tab>(0, off); t->setAllowNegative(neg); g->registerConstraint(t); h += " toggle allowNegative"; break; } case 4: { off = !off; auto t = std::make_shared<Tab>(0, off); t->setAllowNegative(neg); g->registerConstraint(t); h += " other constraint"; break; }
		case 5: keep = g; g = g->clone<Fit>(); h += " clone"; break; case 6: { auto o = indiv({1, 1, 1}, 2); auto t = std::make_shared<Tab>(1, 1); o->registerConstraint(t); o->GObject::load(g); keep = g; g = o; h += " load"; break; } case 7: { auto t = g->GObject::toString(Gem::Common::serializationMode::TEXT); auto o = indiv({1, 1, 1}, 2); o->GObject::fromString(t, Gem::Common::serializationMode::TEXT); keep = g; g = o; h += " serialize"; break; }
		case 8: { h += " cannibalize"; auto o = indiv({1, 1, 1}, 2); o->setEvaluationPolicy(P[pol]); o->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); o->setBarrier(10); o->setSteepness(2); auto t = std::make_shared<Tab>(0, off); t->setAllowNegative(neg); o->registerConstraint(t); if (!g->is_processed()) { g->mark_as_due_for_processing(); g->process(); } double r0 = g->raw_fitness(0), r1 = g->raw_fitness(1), t0 = g->transformed_fitness(0); bool ok = g->isValid(); o->cannibalize(*g); SQ_CHECK(o->is_processed(), "not processed after cannibalize, " << (ok ? "valid" : "invalid") << ":" << h); SQ_CHECK(o->raw_fitness(0) == r0 && o->raw_fitness(1) == r1 && o->transformed_fitness(0) == t0 && o->isValid() == ok, "fitness " << num(o->raw_fitness(0)) << " instead of " << num(r0) << " after" << h); g = o; break; }
		case 9: flagged = true; h += " flagged"; break; }
		V keptValues; if (keep) keep->streamline(keptValues); assign(*g, v); g->mark_as_due_for_processing(); calls = 0; bool thrown = false; try { g->process(); } catch (const std::exception&) { thrown = true; } double c = table[(std::size_t)v[0] + off]; bool ok = valid(c, neg), run = ok || pol == 0; SQ_CHECK(calls == run, "fitness function ran " << calls << " times:" << h); SQ_CHECK(thrown == (flagged && run), "exception of process():" << h); if (thrown) { g->get_and_clear_exceptions(Gem::Courtier::processingStatus::DO_PROCESS); SQ_CHECK(g->is_due_for_processing(), "not due after an error:" << h); flagged = false; g->process(); } flagged = false;
		SQ_CHECK(g->isValid() == ok, "candidate with constraint " << c << " is said to be " << (ok ? "invalid" : "valid") << ":" << h); for (int k = 0; k < 2; k++) SQ_CHECK(g->raw_fitness(k) == (run ? k ? v[2] * 0.5 - 1 : v[2] : worst), "raw fitness " << g->raw_fitness(k) << ":" << h); double tf = g->transformed_fitness(0); if (!ok && pol) SQ_CHECK(better(-1e6 * (max ? -1 : 1), tf, max) && std::fabs(tf) > 10 && (max ? tf < -10 : tf > 10), "transformed fitness of an invalid candidate " << tf << ":" << h); if (ok && pol == 2) SQ_CHECK(std::fabs(tf) < 10, "transformed fitness " << tf << ":" << h); if (keep) { V k2; keep->streamline(k2); SQ_CHECK(k2 == keptValues, "the original changed with its copy:" << h); } } }
// trees of combiners
struct Tree { int kind = 0; bool neg = false; int leaf = 0, pol = 0; std::vector<Tree> sub; };
static Tree choose(int depth) { Tree t; t.kind = depth ? sq::choose(2, "kind") : 0; if (t.kind == 0) { t.leaf = sq::choose(6, "leaf"); t.neg = sq::choose(2, "negative values allowed"); return t; } t.pol = sq::choose(2, "combiner policy"); int n = sq::choose(3, "checks"); for (int i = 0; i < n; i++) t.sub.push_back(choose(depth - 1)); return t; }
static std::shared_ptr<Check> build(const Tree& t, bool ctor) { if (t.kind == 0) { auto l = std::make_shared<Tab>(0, t.leaf); l->setAllowNegative(t.neg); return l; } std::vector<std::shared_ptr<Check>> v; for (auto& s : t.sub) v.push_back(build(s, ctor)); std::shared_ptr<Comb> c; if (ctor) c = std::make_shared<Comb>(v); else { c = std::make_shared<Comb>(); for (auto& x : v) c->addCheck(x); } c->setCombinerPolicy(t.pol ? validityCheckCombinerPolicy::ADDINVALID : validityCheckCombinerPolicy::MULTIPLYINVALID); return c; }
static bool ref(const Tree& t, double& lvl) { if (t.kind == 0) { double c = table[t.leaf]; bool ok = valid(c, t.neg); lvl = ok ? 0 : c < 0 ? 1 - c : c; return ok; } bool all = true, top = false; double r = t.pol ? 0 : 1; for (auto& s : t.sub) { double l; if (!ref(s, l)) { all = false; if (l == HI) top = true; else if (t.pol) r += l; else r *= l; } } lvl = all ? 0 : top ? HI : r; return all; }
SQ_SCENARIO(combiners, s.split = 400) { table = {0.5, 1, 1.25, 3, HI, -2}; Tree t = {}; t.kind = 1; t.pol = sq::choose(2, "combiner policy"); int n = sq::choose(3, "checks"); for (int i = 0; i < n; i++) t.sub.push_back(choose(sq::thorough() ? 1 : i == 0 ? 1 : 0)); int ctor = sq::choose(2, "constructor"); sq::step(); double l0; bool ok = ref(t, l0);
	for (int tr = 0; tr < NT; tr++) { std::string h = std::string(TN[tr]); auto c0 = std::dynamic_pointer_cast<Comb>(build(t, ctor)); auto g = indiv({0, 0, 1}); std::shared_ptr<Comb> c = c0; if (tr == 6) { c = std::make_shared<Comb>(); *c = *c0; } else c = transport<Comb>(c0, tr, [&] { auto o = std::make_shared<Comb>(); auto l = std::make_shared<Tab>(0, 3); if (ctor) o->addCheck(l); return o; }); double lv = -1; bool got = c->isValid(g.get(), lv), inv = c->isInvalid(g.get(), lv); SQ_CHECK(got == ok && inv == !ok, "combination of " << t.sub.size() << " checks is said to be " << (ok ? "violated" : "fulfilled") << h); SQ_CHECK(lv == l0 && c->check(g.get()) == l0, "validity level is " << num(lv) << " instead of " << num(l0) << h); SQ_CHECK(c->getCombinerPolicy() == c0->getCombinerPolicy(), "policy lost" << h); if (c != c0) { try { c->GObject::compare(*c0, Gem::Common::expectation::EQUALITY, 1e-9); } catch (const std::exception& e) { sq::fail("copy of a combiner differs" + h + e.what()); } auto l = std::make_shared<Tab>(0, 3); c->addCheck(l); double x; SQ_CHECK(c0->isValid(g.get(), x) == ok && x == l0, "a check added to the copy changed the original" << h); SQ_CHECK(!c->isValid(g.get(), x), "added check has no effect" << h); bool thrown = false; try { c->GObject::compare(*c0, Gem::Common::expectation::EQUALITY, 1e-9); } catch (const std::exception&) { thrown = true; } SQ_CHECK(thrown, "combiners with different checks compare equal" << h); }
		g->registerConstraint(c0); auto g2 = tr == 6 ? g : transport<Fit>(g, tr, [&] { return indiv({0, 0, 2}); }); SQ_CHECK(g2->parameterSetFulfillsConstraints(lv) == ok && lv == l0, "individual with the combination is said to be " << (ok ? "invalid" : "valid") << ", level " << lv << " instead of " << l0 << h); } }
// the constraints of the library against their documentation
SQ_SCENARIO(library, s.split = 60) { int kind = sq::choose(4, "kind"), tr = sq::choose(NT, "transport"); V grid = {-3, -1, -0.5, 0, 0.25, 0.5, 1, 2}; int a = sq::choose(8, "first value"), b = sq::choose(8, "second value"); V consts = {-2, -0.5, 0.5, 1, 1.25, 3, 0}; double C = consts[sq::choose(kind == 2 ? 6 : 7, "constant")]; double gap = 0; if (kind == 1) gap = V{0, 0.25, 1}[sq::choose(3, "gap")]; if (kind == 2) C = std::fabs(C); double x = grid[a], y = grid[b]; sq::step(); auto g = indiv({x, y}); std::string h = ", values " + num(x) + " " + num(y) + ", constant " + num(C) + (kind == 1 ? ", gap " + num(gap) : "") + TN[tr];
	std::shared_ptr<Check> c, o; bool ok; bool form = false; double want = 0;
	switch (kind) { case 0: { auto p = std::make_shared<GDoubleSumConstraint>(C); if (tr == 6) { auto q = std::make_shared<GDoubleSumConstraint>(99.); *q = *p; p = q; } c = p; o = std::make_shared<GDoubleSumConstraint>(77.); ok = x + y <= C; break; } case 1: { auto p = std::make_shared<GDoubleSumGapConstraint>(C, gap); if (tr == 6) { auto q = std::make_shared<GDoubleSumGapConstraint>(99., 1.); *q = *p; p = q; } c = p; o = std::make_shared<GDoubleSumGapConstraint>(77., 7.); ok = x + y >= C - gap && x + y <= C + gap; break; } case 2: { auto p = std::make_shared<GSphereConstraint>(C); if (tr == 6) { auto q = std::make_shared<GSphereConstraint>(99.); *q = *p; p = q; } c = p; o = std::make_shared<GSphereConstraint>(77.); ok = std::sqrt(x * x + y * y) <= C; break; }
	default: { std::string f = C == 0 ? "1.5/({{x}}+{{y}})" : C < 0 ? "sqrt({{x}})+{{y}}" : "2*{{x}}+{{y}}-" + num(C); form = true; auto p = std::make_shared<GParameterSetFormulaConstraint>(f); if (tr == 6) { auto q = std::make_shared<GParameterSetFormulaConstraint>("1"); *q = *p; p = q; } c = p; o = std::make_shared<GParameterSetFormulaConstraint>("1"); want = C == 0 ? (x + y == 0 ? HI : 1.5 / (x + y)) : C < 0 ? (x < 0 ? HI : std::sqrt(x) + y) : 2 * x + y - C; ok = want >= 0 && want <= 1; h += ", formula " + f; g->at(0)->setParameterName("x"); g->at(1)->setParameterName("y"); } }
	if (form && C > 0 && std::fabs(want - 1) < 1e-9) ok = true; if (tr != 6) c = transport<Check>(c, tr, [&] { return o; }); double lv; SQ_CHECK(c->isValid(g.get(), lv) == ok, "constraint is said to be " << (ok ? "violated" : "fulfilled") << " (level " << num(lv) << ")" << h); SQ_CHECK(ok ? lv <= 1 : lv > 1, "level " << num(lv) << h);
	g->registerConstraint(c); auto g2 = tr == 6 ? g : transport<Fit>(g, tr, [&] { return indiv({1, 1}); }); SQ_CHECK(g2->parameterSetFulfillsConstraints(lv) == ok, "individual is said to be " << (ok ? "invalid" : "valid") << h);
	if (kind == 1) { GDoubleSumGapConstraint p(C, gap), q(C, gap + 1); bool t = false; try { p.GObject::compare(q, Gem::Common::expectation::EQUALITY, 1e-9); } catch (const std::exception&) { t = true; } SQ_CHECK(t, "constraints with different gaps compare equal"); } }
