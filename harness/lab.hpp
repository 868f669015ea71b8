// A laboratory for the optimization algorithms: individuals whose fitness is asked from the scenario, a monitor which records the state of
// the algorithm after every iteration, and a serial executor. Used with the scripted random numbers (mockrandom.hpp).
#pragma once
#include "sq.hpp"
#include "mockrandom.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
#include "geneva/G_OptimizationAlgorithm_Base.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include <boost/serialization/export.hpp>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <set>
namespace lab {
using namespace Gem::Geneva;
typedef std::vector<double> V;
static const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();
struct Eval { int it; V x, f; const GParameterSet *p; std::string tr; };
static std::function<V(const V&, GParameterSet *)> fitness;            // the scenario's answer: one value per criterion
static std::vector<Eval> evals;                                        // every evaluation so far
static int now = 0;                                                    // iterations reported so far
static std::function<void(const V&, const V&, GParameterSet *)> on_eval;
struct Ind : GParameterSet {
	Ind(std::size_t n = 1) : GParameterSet(n) {}
	Ind(const Ind&) = default;
	GObject *clone_() const override { return new Ind(*this); }
	double fitnessCalculation() override {
		V x; this->streamline(x); V f = fitness(x, this);
		evals.push_back(Eval{now, x, f, this, ""}); if (on_eval) on_eval(x, f, this);
		for (std::size_t i = 1; i < this->getNStoredResults(); i++) this->setResult(i, f.at(i));
		return f.at(0);
	}
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); }
};
static double sigB = 0, sigS = 1; // if set, individuals transform their fitness with a sigmoid
inline double tr(double f) { return sigB ? sigB * f / (sigS + std::fabs(f)) : f; }
inline V par(const GParameterSet& p) { V x; p.streamline(x); return x; }
inline V raw(const GParameterSet& p) { V f; for (std::size_t i = 0; i < p.getNStoredResults(); i++) f.push_back(std::get<0>(p.getFitnessTuple(i))); return f; }
struct IndS { V x, raw, trans; bool processed; std::shared_ptr<GPersonalityTraits> tr; std::uint32_t iter; std::tuple<double, double> best; std::uint32_t stalls; const GParameterSet *p; };
struct Snap { std::uint32_t iter; std::vector<IndS> pop; std::tuple<double, double> known, current; std::uint32_t stall; bool progress; std::vector<IndS> gbest, ibest; };
inline IndS snap(const GParameterSet& p) {
	IndS s; s.x = par(p); s.processed = p.is_processed(); s.p = &p;
	for (std::size_t i = 0; i < p.getNStoredResults(); i++) { if (s.processed) { s.raw.push_back(std::get<0>(p.getFitnessTuple(i))); s.trans.push_back(std::get<1>(p.getFitnessTuple(i))); } else { s.raw.push_back(NAN_); s.trans.push_back(NAN_); } }
	auto t = p.getPersonality() == "PERSONALITY_NONE" ? std::shared_ptr<GPersonalityTraits>() : const_cast<GParameterSet&>(p).getPersonalityTraits(); if (t) s.tr = t->clone<GPersonalityTraits>();
	s.iter = p.getAssignedIteration(); s.best = p.getBestKnownPrimaryFitness(); s.stalls = p.getNStalls(); return s;
}
static std::vector<Snap> snaps; static int inits = 0, ends = 0; static bool with_bests = false;
static std::vector<std::string> notices;
static std::function<void(const G_OptimizationAlgorithm_Base *)> on_iteration, on_init;
struct Mon : GBasePluggableOM {
	Mon() = default; Mon(const Mon&) = default;
	GObject *clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const *const a) override {
		if (m == infoMode::INFOINIT) { inits++; notices.push_back("init " + a->getAlgorithmName()); if (on_init) on_init(a); return; }
		if (m == infoMode::INFOEND) { ends++; notices.push_back("end " + a->getAlgorithmName()); return; }
		notices.push_back(a->getAlgorithmName() + " " + std::to_string(a->getIteration()));
		Snap s; s.iter = a->getIteration(); for (auto& p : *a) s.pop.push_back(snap(*p));
		s.known = a->getBestKnownPrimaryFitness(); s.current = a->getBestCurrentPrimaryFitness(); s.stall = a->getStallCounter(); s.progress = a->progress();
		if (with_bests) { for (auto& p : a->getBestGlobalIndividuals<GParameterSet>()) s.gbest.push_back(snap(*p)); for (auto& p : a->getBestIterationIndividuals<GParameterSet>()) s.ibest.push_back(snap(*p)); }
		snaps.push_back(s); now++; sq::step(); if (on_iteration) on_iteration(a);
	}
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GBasePluggableOM>(*this)); }
};
inline void reset(std::uint64_t seed = 1) { evals.clear(); snaps.clear(); notices.clear(); now = 0; inits = ends = 0; on_eval = nullptr; on_iteration = on_init = nullptr; with_bests = false; mockrnd::seed(seed); }
// attaches the serial executor and the monitor
inline void wire(G_OptimizationAlgorithm_Base& a) {
	a.registerExecutor(execMode::SERIAL, "./serial.json");
	a.registerPluggableOM(std::make_shared<Mon>()); a.setReportIteration(1); a.setEmitTerminationReason(false);
}
// an individual with n adapting values in [lo,hi] and, if wanted, one value that never changes on its own (its line of descent)
inline std::shared_ptr<Ind> ind(const V& x, double lo = -10, double hi = 10, double sigma = 0.05, int crit = 1, maxMode m = maxMode::MINIMIZE, double lineage = NAN_) {
	auto p = std::make_shared<Ind>((std::size_t)crit);
	for (double v : x) { auto o = std::make_shared<GConstrainedDoubleObject>(v, lo, hi); auto ad = std::make_shared<GDoubleGaussAdaptor>(sigma, 0.1, 0.001, 1.); ad->setAdaptionProbability(1.); o->addAdaptor(ad); p->push_back(o); }
	if (lineage == lineage) { auto o = std::make_shared<GDoubleObject>(lineage); auto ad = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.1, 0.001, 1.); ad->setAdaptionMode(adaptionMode::NEVER); o->addAdaptor(ad); p->push_back(o); }
	if (sigB) { p->setEvaluationPolicy(evaluationPolicy::USESIGMOID); p->setBarrier(sigB); p->setSteepness(sigS); }
	p->setMaxMode(m); return p;
}
inline bool is_eval(const V& x, const V& f, int from = 0, int to = 1 << 30) { for (auto& e : evals) if (e.it >= from && e.it <= to && e.x == x && e.f == f) return true; return false; }
inline std::string str(const V& v) { std::ostringstream o; o << "("; for (std::size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
inline std::string history() { std::ostringstream o; for (auto& e : evals) o << " " << e.it << ":" << str(e.f); return o.str(); }
inline bool better(double a, double b, maxMode m) { return m == maxMode::MAXIMIZE ? a > b : a < b; }
}
BOOST_CLASS_EXPORT(lab::Ind)
BOOST_CLASS_EXPORT(lab::Mon)
