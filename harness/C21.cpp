// C21: every history of modifications, evaluations (that may fail) and copies of two individuals, with a recording fitness function:
// a fitness that can be read belongs to the current parameter values, the function runs once per evaluation and never otherwise.
#include "sq.hpp"
#include "mockrandom.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GBooleanCollection.hpp"
#include <boost/serialization/export.hpp>
#include <cmath>
using namespace Gem::Geneva; typedef std::vector<double> V; typedef std::int32_t I;
static int calls = 0, fault = 0; // fault: 0 none, 1 std exception, 2 gemfony exception, 3 flagged by the user, 4 something else
static V values(const GParameterSet& g) { V d, r; std::vector<I> i; std::vector<bool> b; g.streamline(d, activityMode::ALLPARAMETERS); g.streamline(i, activityMode::ALLPARAMETERS); g.streamline(b, activityMode::ALLPARAMETERS); r = d; r.insert(r.end(), i.begin(), i.end()); r.insert(r.end(), b.begin(), b.end()); return r; }
static double f0(const V& x) { double s = 1; for (std::size_t i = 0; i < x.size(); i++) s += x[i] * (i + 1.5) + x[i] * x[i]; return s; } static double f1(const V& x) { double s = 2; for (std::size_t i = 0; i < x.size(); i++) s -= std::sin(x[i] * (2 + i)); return s; }
struct Fit : GParameterSet { Fit(std::size_t n = 2) : GParameterSet(n) {} Fit(const Fit&) = default; GObject *clone_() const override { return new Fit(*this); } void load_(const GObject *cp) override { GParameterSet::load_(cp); }
	double fitnessCalculation() override { calls++; V x = values(*this); if (this->getNStoredResults() > 1) { this->setResult(1, fault ? 4711. : f1(x)); } if (fault == 1) throw std::runtime_error("scripted"); if (fault == 2) throw gemfony_exception(g_error_streamer(DO_LOG, time_and_place) << "scripted"); if (fault == 4) throw 42; if (fault == 3) { this->force_set_error("scripted"); return 4712.; } return f0(x); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); } };
BOOST_CLASS_EXPORT(Fit)
static std::shared_ptr<Fit> make(double v, std::size_t n, bool single = false) { auto g = std::make_shared<Fit>(n); auto d = std::make_shared<GConstrainedDoubleObject>(v, -10., 10.); auto ga = std::make_shared<GDoubleGaussAdaptor>(0.3, 0.1, 0.01, 1.); ga->setAdaptionMode(adaptionMode::ALWAYS); d->addAdaptor(ga); g->push_back(d); auto i = std::make_shared<GConstrainedInt32Object>((I)v * 2, -20, 20); g->push_back(i); if (single) return g;
	auto c = std::make_shared<GDoubleCollection>(2, v + 1, -5., 5.); g->push_back(c); auto b = std::make_shared<GBooleanCollection>(2, v > 0); g->push_back(b); return g; }
static void check(const std::shared_ptr<Fit>& g, const std::string& h) { V x = values(*g); std::size_t n = g->getNStoredResults();
	if (g->is_processed()) { SQ_CHECK(!g->has_errors() && !g->is_due_for_processing(), "contradicting states" << h); for (std::size_t k = 0; k < n; k++) { double w = k ? f1(x) : f0(x); SQ_CHECK(g->raw_fitness(k) == w, "fitness " << k << " is " << g->raw_fitness(k) << ", of the current parameters it is " << w << h); SQ_CHECK(g->transformed_fitness(k) == w, "transformed fitness " << k << " is " << g->transformed_fitness(k) << ", of the current parameters it is " << w << h); SQ_CHECK(std::get<0>(g->getFitnessTuple(k)) == w, "fitness tuple differs" << h); } SQ_CHECK(g->raw_fitness_vec().size() == n && g->raw_fitness_vec()[0] == f0(x), "vector of fitness values differs" << h); SQ_CHECK(g->isValid(), "valid individual is not valid" << h); bool t = false; try { g->raw_fitness(n); } catch (const std::exception&) { t = true; } SQ_CHECK(t, "criterion " << n << " of " << n << " can be read" << h); }
	else { for (std::size_t k = 0; k < n; k++) { bool t = false; double v = 0; try { v = g->raw_fitness(k); } catch (const std::exception&) { t = true; } SQ_CHECK(t, "unprocessed individual has fitness " << v << h); t = false; try { v = g->transformed_fitness(k); } catch (const std::exception&) { t = true; } SQ_CHECK(t, "unprocessed individual has transformed fitness " << v << h); } bool t = false; try { g->raw_fitness_vec(); } catch (const std::exception&) { t = true; } SQ_CHECK(t, "unprocessed individual has a vector of fitness values" << h); } }
static const char *ON[] = {"evaluate", "evaluate(throws)", "evaluate(flagged)", "adapt", "randomInit", "assign", "fixedValueInit", "multiplyBy", "add/subtract", "clone", "load", "crossover", "swap", "serialize", "mark", "clear errors", "multiplyByRandom", "assign by name"};
static void run(int depth, int nops, bool single) { mockrnd::seed(5); std::size_t n = 1 + sq::choose(2, "criteria"); std::shared_ptr<Fit> g[2] = {make(1, n, single), make(-2, n, single)}; std::string h = ", " + std::to_string(n) + " criteria:"; calls = 0; for (auto& x : g) { SQ_CHECK(!x->is_processed(), "new individual is processed"); x->mark_as_due_for_processing(); } check(g[0], h);
	for (int s = 0; s < depth; s++) { int k = sq::choose(2, "individual"), op = sq::choose(nops, "operation"); auto& a = g[k]; auto& b = g[1 - k]; h += std::string(" ") + ON[op] + (k ? " b" : " a"); sq::step(); V before = values(*a), other = values(*b); bool wasp = a->is_processed(), due = a->is_due_for_processing(); int c = calls, want = 0; std::string id = a->getCurrentEvaluationID();
		switch (op) {
		case 0: case 1: case 2: { fault = op == 0 ? 0 : op == 2 ? 3 : 1 + (int)(h.size() % 2) + (h.size() % 3 == 0 ? 0 : 0); if (op == 1 && h.size() % 5 == 0) fault = 4; bool t = false; double r = 0; try { r = a->process().rawFitness(); } catch (const std::exception&) { t = true; } fault = 0; want = due ? 1 : 0; SQ_CHECK(t == (!due || op != 0), (t ? "evaluation threw" : "evaluation did not throw") << h); if (!t) SQ_CHECK(r == f0(before) && a->is_processed(), "evaluation returned " << r << " instead of " << f0(before) << h); if (due && op != 0) { SQ_CHECK(a->has_errors() && !a->is_processed() && !a->getStoredErrorDescriptions().empty() == true, "failed evaluation is not marked as such" << h); } SQ_CHECK(values(*a) == before, "evaluation changed the parameters" << h); if (due) SQ_CHECK(a->getCurrentEvaluationID() != id && a->getCurrentEvaluationID() != b->getCurrentEvaluationID(), "evaluation has no identity of its own" << h); break; }
		case 3: { std::size_t m = a->adapt(); SQ_CHECK(m > 0, "no adaptions" << h); break; }
		case 4: a->randomInit(activityMode::ALLPARAMETERS); break;
		case 5: { V d; a->streamline(d, activityMode::ALLPARAMETERS); for (auto& x : d) x = x > 0 ? x - 0.5 : x + 0.75; a->assignValueVector<double>(d, activityMode::ALLPARAMETERS); break; }
		case 6: if (s % 2) a->fixedValueInit<I>(3, activityMode::ALLPARAMETERS); else a->fixedValueInit<bool>(before.back() == 0, activityMode::ALLPARAMETERS); break;
		case 7: a->multiplyBy<double>(-0.5, activityMode::ALLPARAMETERS); break;
		case 8: if (s % 2) a->add<double>(b, activityMode::ALLPARAMETERS); else a->subtract<I>(b, activityMode::ALLPARAMETERS); break;
		case 9: a = a->clone<Fit>(); break;
		case 10: a->GObject::load(b); SQ_CHECK(values(*a) == other, "load did not copy the values" << h); break;
		case 11: { auto ch = std::dynamic_pointer_cast<Fit>(a->crossOverWith(b)); SQ_CHECK(!!ch, "child of another type"); SQ_CHECK(values(*a) == before && values(*b) == other && a->is_processed() == wasp, "crossover changed a parent" << h); V x = values(*ch); SQ_CHECK(x.size() == before.size(), "child has another size"); for (std::size_t i = 0; i < x.size(); i++) SQ_CHECK(x[i] == before[i] || x[i] == other[i], "value " << i << " of the child (" << x[i] << ") is of neither parent" << h); SQ_CHECK(ch->is_due_for_processing(), "child is not due for processing" << h); a = ch; break; }
		case 12: a->swap(*b); SQ_CHECK(values(*a) == other && values(*b) == before, "swap did not exchange the values" << h); break;
		case 13: { auto m = s % 3 == 0 ? Gem::Common::serializationMode::BINARY : s % 3 == 1 ? Gem::Common::serializationMode::XML : Gem::Common::serializationMode::TEXT; auto t = a->GObject::toString(m); auto q = make(0, n, single); q->GObject::fromString(t, m); bool same = true; V x = values(*q); for (std::size_t i = 0; i < x.size(); i++) same = same && x[i] == before[i]; SQ_CHECK(same, "values lost in serialization" << h); a = q; SQ_CHECK(a->is_processed() == wasp, "status lost in serialization" << h); break; }
		case 14: a->mark_as_due_for_processing(); break;
		case 15: if (a->has_errors()) { a->get_and_clear_exceptions(Gem::Courtier::processingStatus::DO_PROCESS); SQ_CHECK(!a->has_errors() && a->is_due_for_processing() && a->getStoredErrorDescriptions().empty(), "errors not cleared" << h); } break;
		case 16: a->multiplyByRandom<double>(0.2, 0.4, activityMode::ALLPARAMETERS); break;
		case 17: { std::map<std::string, V> m; a->streamline<double>(m, activityMode::ALLPARAMETERS); for (auto& p : m) for (auto& x : p.second) x = x > 1 ? x - 0.25 : x + 0.5; a->assignValueVectors<double>(m, activityMode::ALLPARAMETERS); break; } }
		SQ_CHECK(calls - c == want, "the fitness function ran " << calls - c << " times instead of " << want << h); if ((op >= 3 && op <= 8) || op == 11 || op == 12 || op == 16 || op == 17) { if (values(*a) != before) SQ_CHECK(a->is_due_for_processing(), "changed individual is not due for processing" << h); } if (op != 12) SQ_CHECK(values(*b) == other, "the other individual's values changed" << h); check(a, h); check(b, h); } }
SQ_SCENARIO(histories, s.split = 1500) { run(sq::thorough() ? 4 : 3, 18, false); }
SQ_SCENARIO(core, s.split = 1500) { run(sq::thorough() ? 4 : 3, 18, true); } // two parameters of two types: crossover without a choice
// adaption retries until the constraints are met: whatever was tried, a changed individual is due for evaluation
struct Lim : GPreEvaluationValidityCheckT<GParameterSet> { double lim = 0; double check_(const GParameterSet *p) const override { V x; p->streamline(x, activityMode::ALLPARAMETERS); return x[0] > lim ? 2. : 0.5; } GObject *clone_() const override { return new Lim(*this); } void load_(const GObject *cp) override { GPreEvaluationValidityCheckT<GParameterSet>::load_(cp); lim = static_cast<const Lim *>(cp)->lim; } };
SQ_SCENARIO(retries, s.split = 300) { int mu = sq::choose(3, "unsuccessful"), mr = sq::choose(4, "retries"), two = sq::choose(2, "second parameter"); double lim = sq::choose(2, "limit") ? 1.2 : 0.2; Fit g(1); auto ad = [] { auto ga = std::make_shared<GDoubleGaussAdaptor>(0.3, 0.1, 0.01, 1.); ga->setAdProbRange(0, 1); ga->setAdaptAdProb(0); ga->setAdaptionProbability(0.5); return ga; }; auto d = std::make_shared<GConstrainedDoubleObject>(0.1, -10., 10.); d->addAdaptor(ad()); g.push_back(d); if (two) { auto e = std::make_shared<GConstrainedDoubleObject>(0.1, -10., 10.); e->addAdaptor(ad()); g.push_back(e); } auto l = std::make_shared<Lim>(); l->lim = lim; g.registerConstraint(l); g.setMaxUnsuccessfulAdaptions(mu + 1); g.setMaxRetriesUntilValid(mr); g.mark_as_due_for_processing(); g.process(); V b = values(g); mockrnd::seed(3);
	int n = sq::thorough() ? 12 : 9; std::size_t half = 0; std::vector<std::uint32_t> q; mockrnd::source([&]() { if (half == q.size()) { half = 0; if (n-- <= 0) { n = 0; return mockrnd::pseudo(); } q = mockrnd::canon({sq::choose(2, "random number") ? 0.83 : 0.21}); } return q[half++]; });
	std::size_t k = g.adapt(); mockrnd::seed(1); sq::step(); V x = values(g); SQ_CHECK(g.getNAdaptions() == k, "getNAdaptions is " << g.getNAdaptions() << " instead of " << k); if (x != b) SQ_CHECK(g.is_due_for_processing(), "individual changed from " << b[0] << " to " << x[0] << " in adapt() (" << k << " adaptions reported, at most " << mu + 1 << " unsuccessful attempts, " << mr << " retries) but keeps fitness " << g.raw_fitness(0)); else SQ_CHECK(g.is_due_for_processing() == (k > 0), "status after " << k << " adaptions"); }
// a chain of evaluation results of several criteria: all of them come from the same evaluation
SQ_SCENARIO(criteria, s.split = 8) { struct Part : GParameterSet { int set = 0; Part() : GParameterSet(std::size_t(3)) {} Part(const Part&) = default; GObject *clone_() const override { return new Part(*this); } double fitnessCalculation() override { if (set & 1) setResult(1, 10. + set); if (set & 2) setResult(2, 20. + set); return set; } }; Part p; p.push_back(std::make_shared<GConstrainedDoubleObject>(1., 0., 2.)); for (int r = 0; r < 3; r++) { p.set = sq::choose(4, "set"); p.mark_as_due_for_processing(); p.process(); sq::step(); double w1 = p.set & 1 ? 10 + p.set : 0, w2 = p.set & 2 ? 20 + p.set : 0; SQ_CHECK(p.raw_fitness(0) == p.set && p.raw_fitness(1) == w1 && p.raw_fitness(2) == w2, "criteria are " << p.raw_fitness(0) << ", " << p.raw_fitness(1) << ", " << p.raw_fitness(2) << " instead of " << p.set << ", " << w1 << ", " << w2); } }
// bulk changes restricted to (in)active parameters: whatever changed, the fitness is outdated
SQ_SCENARIO(modes, s.split = 64) { mockrnd::seed(7); activityMode AM[] = {activityMode::ACTIVEONLY, activityMode::INACTIVEONLY, activityMode::ALLPARAMETERS}; auto am = AM[sq::choose(3, "mode")]; int op = sq::choose(10, "operation"), which = sq::choose(4, "inactive parameters"); auto g = make(1, 1), o = make(-2, 1); int i = 0; for (auto x : {g, o}) { i = 0; for (auto& p : *x) { if (which == 3 ? i % 2 == 0 : which == i) p->setAdaptionsInactive(); i++; } } g->mark_as_due_for_processing(); g->process(); V b = values(*g); std::string h = ", operation " + std::to_string(op); V d; sq::step();
	switch (op) { case 0: g->multiplyBy<double>(-0.5, am); break; case 1: g->multiplyByRandom<double>(0.2, 0.4, am); break; case 2: g->multiplyByRandom<double>(am); break; case 3: g->fixedValueInit<double>(0.75, am); break; case 4: g->fixedValueInit<I>(3, am); break; case 5: g->add<double>(o, am); break; case 6: g->subtract<I>(o, am); break; case 7: g->randomInit(am); break; case 8: { g->streamline(d, am); for (auto& x : d) x = x > 0 ? x - 0.5 : x + 0.75; g->assignValueVector<double>(d, am); break; } default: g->fixedValueInit<bool>(b.back() == 0, am); }
	if (values(*g) != b) { SQ_CHECK(g->is_due_for_processing() && !g->is_processed(), "individual changed from " << b[0] << ".. to " << values(*g)[0] << ".. but keeps its fitness" << h); sq::outcome("changed"); } else sq::outcome("unchanged"); check(g, h); sq::state(sq::H() << op << (int)am << which); }
