// C33: chained algorithms pass on the best solutions, count iterations through and report to monitors in order.
#include "lab.hpp"
#include "geneva/Go2.hpp"
using namespace lab;
struct Scan : GParameterScan { Scan() { this->setDefaultPopulationSize(2); this->setNSimpleScans(200); } };
static std::shared_ptr<G_OptimizationAlgorithm_Base> alg(int k) {
	if (k < 2) { auto a = std::make_shared<GEvolutionaryAlgorithm>(); a->setNThreads(1); a->setPopulationSizes(3, 1); a->setSortingScheme(k ? sortingMode::MUCOMMANU_SINGLEEVAL : sortingMode::MUPLUSNU_SINGLEEVAL); return a; }
	if (k == 2) { auto a = std::make_shared<GSwarmAlgorithm>(); a->setSwarmSizes(1, 2); return a; }
	if (k == 3) { auto a = std::make_shared<GGradientDescent>(); a->setNStartingPoints(1); return a; }
	if (k == 4) { auto a = std::make_shared<GSimulatedAnnealing>(); a->setNThreads(1); a->setPopulationSizes(3, 1); return a; }
	return std::make_shared<Scan>();
}
static std::shared_ptr<Ind> start(int i, maxMode m) { return ind({0.5 + i}, -10, 10, 0.05, 1, m); }
struct Creator : Gem::Common::GFactoryT<GParameterSet> { maxMode m; int left, given = 0; Creator(maxMode mm, int n) : Gem::Common::GFactoryT<GParameterSet>("./creator.json"), m(mm), left(n) {} std::shared_ptr<GParameterSet> getObject_(Gem::Common::GParserBuilder&, const std::size_t&) override { if (left == 0) return std::shared_ptr<GParameterSet>(); left--; return start(given++ % 9, m); } void postProcess_(std::shared_ptr<GParameterSet>&) override {} int opt = 0; void describeLocalOptions_(Gem::Common::GParserBuilder& b) override { b.registerFileParameter<int>("opt", opt, 1) << "an option"; } };
struct Conf { std::vector<int> algs, iters; maxMode m = maxMode::MINIMIZE; std::uint32_t offset = 0; bool best_only = true; int given = 0; int runs = 1; int monitors = 1; int max_shift = 0; };
static const char *SHORT[] = {"EA+", "EA,", "swarm", "descent", "annealing", "scan"};
static void run(const Conf& c, std::function<double(const V&)> ask) {
	reset(); static std::string prog = "chain", opt = "--consumer", val = "sc"; char *argv[] = {prog.data(), opt.data(), val.data(), nullptr}; Go2 go(3, argv, "./Go2.json"); std::vector<std::string> names; std::vector<std::shared_ptr<G_OptimizationAlgorithm_Base>> as; int n = 0, total = 0;
	for (int k = 0; k < (int)c.algs.size(); k++) { auto a = alg(c.algs[k]); total += c.iters[k]; a->setMaxIteration(c.offset + total); a->setMaxStallIteration(0); a->setReportIteration(1); a->setEmitTerminationReason(false); a->registerExecutor(execMode::SERIAL, "./serial.json"); as.push_back(a); names.push_back(a->getAlgorithmName()); if (k % 2) go & a; else go.addAlgorithm(a); }
	auto w = [&](const std::string& s) { std::ostringstream o; o << "chain of"; for (int k = 0; k < (int)c.algs.size(); k++) o << " " << SHORT[c.algs[k]] << " x" << c.iters[k]; o << (c.m == maxMode::MAXIMIZE ? ", maximizing" : "") << ", offset " << c.offset << (c.best_only ? "" : ", all individuals copied") << ", started with " << c.given << ", fitness"; int it = -1; for (auto& e : evals) { if (e.it != it) o << " |"; it = e.it; o << " " << e.f[0]; } o << ": " << s; return o.str(); };
	SQ_CHECK(go.getNAlgorithms() == c.algs.size(), w("number of algorithms")); go.setOffset(c.offset); go.setCopyBestIndividualsOnly(c.best_only); struct Count : Mon { }; go.registerPluggableOM(std::make_shared<Mon>()); static int second; second = 0;
	struct Other : GBasePluggableOM { GObject *clone_() const override { return new Other(*this); } void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const *const a) override { second++; SQ_CHECK((int)notices.size() == second, "the second monitor was not informed right after the first one"); } }; if (c.monitors == 2) go.registerPluggableOM(std::make_shared<Other>());
	std::set<V> starts; for (int i = 0; i < 9; i++) starts.insert(V{0.5 + i}); if (c.given == 0) go.registerContentCreator(std::make_shared<Creator>(c.m, -1)); else if (c.given == -1) go.registerContentCreator(std::make_shared<Creator>(c.m, 1)); else for (int i = 0; i < c.given; i++) go.push_back(start(i, c.m));
	fitness = [&](const V& x, GParameterSet *) -> V { return {ask(x)}; };
	for (int r = 0; r < c.runs; r++) {
		evals.clear(); snaps.clear(); notices.clear(); now = 0; inits = ends = 0; second = 0; double last = NAN_; if (r) last = raw(*go.front())[0];
		// the first evaluations of each algorithm after the first one start from the best individuals known
		std::map<int, double> first_best; int seen_it = -1; double best = last; V bestx; std::vector<double> at_start; 
		on_eval = [&](const V& x, const V& f, GParameterSet *) { if (now != seen_it) { seen_it = now; } if (!(best == best) || better(f[0], best, c.m)) { best = f[0]; } };
		on_iteration = [&](const G_OptimizationAlgorithm_Base *a) { const Snap& s = snaps.back(); SQ_CHECK(std::get<0>(s.known) == best || !c.best_only, w("in iteration " + std::to_string(s.iter) + " the best fitness known to " + a->getAlgorithmName() + " is " + std::to_string(std::get<0>(s.known)) + " instead of " + std::to_string(best))); };
		go.optimize();
		std::vector<std::string> want; int it = (int)c.offset; for (int k = 0; k < (int)c.algs.size(); k++) { want.push_back("init " + names[k]); for (int i = 0; i < c.iters[k]; i++) want.push_back(names[k] + " " + std::to_string(it++)); want.push_back("end " + names[k]); }
		std::string got; for (auto& x : notices) got += x + "; "; SQ_CHECK(notices == want, w("the monitor saw: " + got)); if (c.monitors == 2) SQ_CHECK(second == (int)notices.size(), w("the second monitor saw " + std::to_string(second) + " notices")); SQ_CHECK((int)go.getIteration() == it, w("iteration counter " + std::to_string(go.getIteration()) + " at the end instead of " + std::to_string(it)));
		// the points each algorithm started from: the values evaluated first contain the best ones of the predecessor (they are unchanged members of the first population)
		int b0 = 0; for (int k = 0; k < (int)c.algs.size(); b0 += c.iters[k], k++) { if (k == 0) { if (r == 0) for (auto& p : snaps[0].pop) (void)p; bool in = false; for (auto& e : evals) if (e.it == 0 && starts.count(e.x)) in = true; if (r == 0 && c.algs[0] != 5) SQ_CHECK(in, w("the first algorithm did not evaluate the start values")); continue; }
			double pb = last; std::set<V> px; for (auto& e : evals) if (e.it < b0 && (!(pb == pb) || better(e.f[0], pb, c.m))) pb = e.f[0]; for (auto& e : evals) if (e.it < b0 && e.f[0] == pb) px.insert(e.x); if (px.empty() || c.algs[k] == 5 || !c.best_only) continue;
			if (c.algs[k] == 3) { bool in = false; for (auto& e : evals) if (e.it == b0 && px.count(e.x)) in = true; for (auto& p : snaps[b0].pop) if (px.count(p.x)) in = true; SQ_CHECK(in, w(names[k] + " (number " + std::to_string(k) + ") did not start from the best individual of its predecessor")); continue; }
			bool in = false; for (auto& p : snaps[b0].pop) if (px.count(p.x)) in = true; for (auto& e : evals) if (e.it == b0 && px.count(e.x)) in = true; SQ_CHECK(in, w(names[k] + " (number " + std::to_string(k) + ") did not start from the best individual of its predecessor")); }
		auto b = go.getBestGlobalIndividual<Ind>(); SQ_CHECK(b && b->is_processed(), w("no best individual")); double f = raw(*b)[0]; if (c.best_only) SQ_CHECK(f == best, w("the result is " + std::to_string(f) + " although " + std::to_string(best) + " was found")); bool in = r > 0; for (auto& e : evals) if (e.x == par(*b) && e.f[0] == f) in = true; SQ_CHECK(in, w("the result " + str(par(*b)) + " with " + std::to_string(f) + " was never evaluated"));
		if (!c.best_only) { auto& s = snaps.back(); double pb = NAN_; for (auto& p : s.pop) if (p.processed && (!(pb == pb) || better(p.raw[0], pb, c.m))) pb = p.raw[0]; SQ_CHECK(f == pb, w("the result is " + std::to_string(f) + " although the last population contains " + std::to_string(pb))); }
		double prev = f; std::size_t cnt = 0; for (auto& p : go) { SQ_CHECK(p->is_processed() || !c.best_only, w("unprocessed individual in the result")); if (!p->is_processed()) continue; double g = raw(*p)[0]; SQ_CHECK(!better(g, prev, c.m), w("the results are not sorted")); prev = g; cnt++; bool ev = r > 0; for (auto& e : evals) if (e.x == par(*p) && e.f[0] == g) ev = true; SQ_CHECK(ev, w("the results contain " + str(par(*p)) + " with " + std::to_string(g) + ", which was not evaluated")); } SQ_CHECK(cnt == go.size() || !c.best_only, w("results"));
		for (auto& a : as) { SQ_CHECK(a->empty(), w("an algorithm of the chain kept individuals")); }
		n = (int)evals.size();
	}
	sq::H h; for (auto& e : evals) h << e.it << e.f; for (int k : c.algs) h << k; for (int k : c.iters) h << k; h << (int)c.m; sq::state(h); sq::outcome(std::to_string(n) + " evaluations");
}
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
// landscapes: the first answers are chosen, later ones follow from the values
struct Ask { int k = 0, n; Ask(int n) : n(n) {} double operator()(const V& x) { return k++ < n ? (double)sq::choose(3, "fitness") : std::fmod(std::fabs(x[0]) * 7, 3.); } };
SQ_SCENARIO(pairs, s.split = 512) { Conf c; c.m = mm(); c.algs = {sq::choose(6, "first"), sq::choose(6, "second")}; c.iters = {1 + sq::choose(2, "iterations"), 1 + sq::choose(2, "iterations")}; run(c, Ask(sq::thorough() ? 6 : 3)); }
SQ_SCENARIO(triples, s.split = 512) { Conf c; c.m = mm(); c.algs = {sq::choose(6, "first"), sq::choose(6, "second"), sq::choose(6, "third")}; c.iters = {1, 1, 1 + sq::choose(2, "iterations")}; c.offset = sq::choose(2, "offset") * 4; run(c, Ask(sq::thorough() ? 3 : 1)); }
SQ_SCENARIO(singles, s.split = 128) { Conf c; c.m = mm(); c.algs = {sq::choose(6, "algorithm")}; c.iters = {1 + sq::choose(3, "iterations")}; c.offset = sq::choose(2, "offset") * 4; c.best_only = !sq::choose(2, "all"); run(c, Ask(sq::thorough() ? 6 : 4)); }
SQ_SCENARIO(whole_populations, s.split = 128) { Conf c; c.m = mm(); c.algs = {sq::choose(6, "first"), sq::choose(6, "second")}; c.iters = {1 + sq::choose(2, "iterations"), 1}; c.best_only = false; run(c, Ask(sq::thorough() ? 4 : 2)); }
// individuals given directly or by content creators (endless or running empty), several monitors, repeated runs
SQ_SCENARIO(starts, s.split = 128) { Conf c; c.m = mm(); c.algs = {sq::choose(6, "first"), sq::choose(6, "second")}; c.iters = {1, 2}; static const int G[] = {0, -1, 1, 2, 3}; c.given = G[sq::choose(5, "given")]; c.monitors = 1 + sq::choose(2, "monitors"); c.runs = c.algs[0] == 5 || c.algs[1] == 5 ? 1 : 1 + sq::choose(2, "runs"); run(c, Ask(1)); }
SQ_SCENARIO(misuse) { reset(); static std::string prog = "chain", opt = "--consumer", val = "sc"; char *argv[] = {prog.data(), opt.data(), val.data(), nullptr}; Go2 go(3, argv, "./Go2.json"); int k = sq::choose(6, "misuse"); auto a = alg(0); a->setMaxIteration(1); a->registerExecutor(execMode::SERIAL, "./serial.json"); fitness = [](const V&, GParameterSet *) -> V { return {1}; };
	if (k == 0) SQ_THROWS(go.addAlgorithm(std::shared_ptr<G_OptimizationAlgorithm_Base>()), "an empty algorithm was accepted"); else if (k == 1) SQ_THROWS(go.addAlgorithm(std::string("nothing")), "an unknown algorithm was accepted"); else if (k == 2) { go & a; SQ_THROWS(go.optimize(), "started without individuals"); } else if (k == 3) { go & a; SQ_THROWS(go.getBestGlobalIndividual<GParameterSet>(), "a best individual without a run"); } else if (k == 4) { go & a; go.registerContentCreator(std::make_shared<Creator>(maxMode::MINIMIZE, 0)); SQ_THROWS(go.optimize(), "started with a creator that gives nothing"); }
	else { a->push_back(start(0, maxMode::MINIMIZE)); go & a; SQ_CHECK(go.size() == 1 && a->empty(), "individuals of a registered algorithm were not taken over"); go.optimize(); SQ_CHECK(evals.size() == 3, evals.size() << " evaluations"); } sq::state(k + 1); }
