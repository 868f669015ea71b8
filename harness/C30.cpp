// C30: the best individuals reported, in every iteration and at the end, are the best ones evaluated.
#include "lab.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
using namespace lab;
static std::function<bool(const V&)> invalid;
struct Cons : GParameterSetConstraint { Cons() = default; Cons(const Cons&) = default; GObject *clone_() const override { return new Cons(*this); } double check_(const GParameterSet *p) const override { V d; p->streamline(d); return invalid && invalid(d) ? 2. : 0.5; }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSetConstraint>(*this)); } };
template <class A> struct H : A { using A::setNRecordBestIndividuals; };
struct Scan : H<GParameterScan> { Scan() { this->setDefaultPopulationSize(2); this->setNSimpleScans(200); } };
static const char *NAME[] = {"evolutionary algorithm (plus)", "evolutionary algorithm (comma)", "evolutionary algorithm (mixed)", "simulated annealing", "swarm of 1x2", "swarm of 2x2", "gradient descent", "parameter scan"};
static std::shared_ptr<G_OptimizationAlgorithm_Base> alg(int k, int mu, int nu, int& n, int rec) {
	n = mu + nu; if (k < 3) { auto a = std::make_shared<H<GEvolutionaryAlgorithm>>(); a->setNThreads(1); a->setPopulationSizes(mu + nu, mu); a->setSortingScheme(k == 0 ? sortingMode::MUPLUSNU_SINGLEEVAL : k == 1 ? sortingMode::MUCOMMANU_SINGLEEVAL : sortingMode::MUNU1PRETAIN_SINGLEEVAL); a->setNRecordBestIndividuals(rec); return a; }
	if (k == 3) { auto a = std::make_shared<H<GSimulatedAnnealing>>(); a->setNThreads(1); a->setPopulationSizes(mu + nu, mu); a->setNRecordBestIndividuals(rec); return a; }
	if (k < 6) { auto a = std::make_shared<H<GSwarmAlgorithm>>(); a->setSwarmSizes(k - 3, 2); n = 2 * (k - 3); a->setNRecordBestIndividuals(rec); return a; }
	n = 1; if (k == 6) { auto a = std::make_shared<H<GGradientDescent>>(); a->setNStartingPoints(1); a->setNRecordBestIndividuals(rec); return a; }
	auto a = std::make_shared<Scan>(); a->setNRecordBestIndividuals(rec); return a;
}
struct Conf { int alg = 0, mu = 1, nu = 2, iters = 2, n = 2; maxMode m = maxMode::MINIMIZE; bool inval = false; int fail = -1, given = 0; std::uint32_t offset = 0; bool copied = false; int runs = 1; bool shared = false; };
struct E { V x; double f; bool ok; };
static void run(const Conf& c, std::function<double()> ask) {
	reset(); with_bests = true; int np = 0, calls = 0; auto a = alg(c.alg, c.mu, c.nu, np, c.n); a->setMaxIteration(c.offset + c.iters); a->setMaxStallIteration(0); std::string rn;
	if (c.copied) { auto b = a->clone<G_OptimizationAlgorithm_Base>(); a = b; }
	wire(*a); std::vector<E> all; std::map<V, bool> inv; auto add = [&] { for (int i = 0; i < np; i++) { auto p = ind({0.5 + 0.01 * i}, -10, 10, 0.05, 1, c.m); if (c.inval) { p->setEvaluationPolicy(evaluationPolicy::USEWORSTCASEFORINVALID); p->registerConstraint(std::make_shared<Cons>()); } a->push_back(p); } };
	add(); invalid = !c.inval ? std::function<bool(const V&)>() : [&](const V& x) -> bool { auto it = inv.find(x); if (it != inv.end()) return it->second; bool b = all.size() > 0 && (int)inv.size() < 6 ? sq::choose(2, "invalid") : false; return inv[x] = b; };
	if (c.given) { all.push_back(E{par(*a->at(0)), -1, true}); fitness = [&](const V&, GParameterSet *) -> V { return {c.m == maxMode::MAXIMIZE ? 3. : -1.}; }; a->at(0)->mark_as_due_for_processing(); a->at(0)->process(); all[0].f = raw(*a->at(0))[0]; evals.clear(); }
	fitness = [&](const V& x, GParameterSet *) -> V { if (c.fail >= 0 && calls++ == c.fail) throw std::runtime_error("scripted failure"); double f = ask(); all.push_back(E{x, f, true}); return {f}; };
	auto w = [&](const std::string& s) { std::ostringstream o; o << NAME[c.alg] << (c.m == maxMode::MAXIMIZE ? ", maximizing" : ", minimizing"); if (c.alg < 4) o << ", " << c.mu << "+" << c.nu; o << ", recording " << c.n << rn << ", evaluations so far"; for (auto& e : all) o << " " << str(e.x) << "=" << e.f; if (!snaps.empty()) { o << ", iteration " << snaps.back().iter; } o << ": " << s; return o.str(); };
	auto show = [](const std::vector<IndS>& v) { std::ostringstream o; for (auto& p : v) o << str(p.x) << "=" << (p.raw.empty() ? NAN_ : p.raw[0]) << (p.processed ? "" : "(unprocessed)") << " "; return o.str(); };
	// a list of individuals against a set of candidates: sorted, processed, true values, each candidate at most once, the best of them, as many as wanted
	auto check = [&](const std::vector<IndS>& v, const std::vector<E>& cand, std::size_t most, const std::string& what) {
		std::vector<double> f; for (auto& e : cand) f.push_back(e.f); std::sort(f.begin(), f.end(), [&](double x, double y) { return better(x, y, c.m); }); std::map<std::pair<V, double>, int> have; for (auto& e : cand) have[{e.x, e.f}]++; std::size_t valid = 0;
		for (std::size_t i = 0; i < v.size(); i++) { SQ_CHECK(v[i].processed, w(what + " contain an unprocessed one: " + show(v))); bool bad = c.inval && inv.count(v[i].x) && inv[v[i].x]; if (bad) continue; SQ_CHECK(valid == i, w(what + " list an invalid individual before a valid one: " + show(v))); valid++;
			bool ev = have[std::make_pair(v[i].x, v[i].raw[0])]-- > 0; SQ_CHECK(ev, w(what + " contain " + str(v[i].x) + " with " + std::to_string(v[i].raw[0]) + ", which was not evaluated (that often): " + show(v))); SQ_CHECK(i < f.size() && v[i].raw[0] == f[i], w(what + " list " + std::to_string(v[i].raw[0]) + " in position " + std::to_string(i) + " instead of " + std::to_string(f[i]) + ": " + show(v))); }
		std::size_t want = most ? std::min(most, f.size()) : f.size(); SQ_CHECK(valid == want, w(what + " are " + std::to_string(valid) + " instead of " + std::to_string(want) + ": " + show(v))); if (most) SQ_CHECK(v.size() <= most, w(what + " are more than " + std::to_string(most))); };
	std::size_t before = all.size();
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) {
		const Snap& s = snaps.back(); if (all.empty()) return; check(s.gbest, all, c.n, "the best individuals of the run");
		// the iteration: the individuals evaluated in it and those which survived (these are members of the population)
		double top = NAN_; for (std::size_t i = before; i < all.size(); i++) if (!(top == top) || better(all[i].f, top, c.m)) top = all[i].f; before = all.size();
		for (std::size_t i = 0; i < s.ibest.size(); i++) { auto& p = s.ibest[i]; SQ_CHECK(p.processed, w("unprocessed individual among the best of the iteration")); if (c.inval && inv.count(p.x) && inv[p.x]) continue; bool in = false; for (auto& e : all) if (e.x == p.x && e.f == p.raw[0]) in = true; SQ_CHECK(in, w("the best individuals of the iteration contain one not evaluated: " + show(s.ibest))); if (i) SQ_CHECK(!better(p.raw[0], s.ibest[i - 1].raw[0], c.m) || (c.inval && inv[s.ibest[i - 1].x]), w("the best individuals of the iteration are not sorted: " + show(s.ibest)));
			bool member = false; for (auto& q : s.pop) if (q.x == p.x && q.processed && q.raw[0] == p.raw[0]) member = true; SQ_CHECK(member, w("a best individual of the iteration is not in the population: " + show(s.ibest))); }
		if (top == top && !s.ibest.empty()) SQ_CHECK(!better(top, s.ibest[0].raw[0], c.m), w("the best individual of the iteration has " + std::to_string(s.ibest[0].raw[0]) + " although " + std::to_string(top) + " was found")); SQ_CHECK(!s.ibest.empty() || !(top == top), w("no best individual of the iteration"));
		double bf = all[0].f; for (auto& e : all) if (better(e.f, bf, c.m)) bf = e.f; SQ_CHECK(std::get<0>(s.known) == bf, w("the best fitness known is " + std::to_string(std::get<0>(s.known))));
		sq::H h; for (auto& e : all) h << e.f; for (auto& p : s.gbest) h << p.raw[0]; h << c.alg << c.n << (int)c.m << c.mu << c.nu; sq::state(h);
	};
	for (int r = 0; r < c.runs; r++) {
		if (r) { rn = ", second run"; a->resetToOptimizationStart(); all.clear(); inv.clear(); before = 0; snaps.clear(); a->registerExecutor(execMode::SERIAL, "./serial.json"); add(); }
		a->optimize(c.offset); if (all.empty()) return; double bf = all[0].f; for (auto& e : all) if (better(e.f, bf, c.m)) bf = e.f;
		auto b = a->getBestGlobalIndividual<Ind>(); SQ_CHECK(b && b->is_processed(), w("no best individual at the end")); SQ_CHECK(raw(*b)[0] == bf, w("the best individual at the end has fitness " + std::to_string(raw(*b)[0]) + " instead of " + std::to_string(bf))); bool in = false; for (auto& e : all) if (e.x == par(*b) && e.f == bf) in = true; SQ_CHECK(in, w("the best individual at the end is " + str(par(*b)) + ", which did not give that fitness"));
		std::vector<IndS> v; for (auto& p : a->getBestGlobalIndividuals<GParameterSet>()) v.push_back(snap(*p)); check(v, all, c.n, "the best individuals at the end");
		// what the caller does to the individuals he got does not reach the algorithm
		for (auto& p : a->getBestGlobalIndividuals<GParameterSet>()) { p->assignValueVector(V{7}); p->mark_as_due_for_processing(); } v.clear(); for (auto& p : a->getBestGlobalIndividuals<GParameterSet>()) v.push_back(snap(*p)); check(v, all, c.n, "after changes by the caller, the best individuals");
		// population members still hold what was evaluated for them
		for (auto& p : *a) if (p->is_processed()) { bool bad = c.inval && inv.count(par(*p)) && inv[par(*p)], ev = false; for (auto& e : all) if (e.x == par(*p) && e.f == raw(*p)[0]) ev = true; SQ_CHECK(ev || bad, w("a member of the population holds " + str(par(*p)) + " with " + std::to_string(raw(*p)[0]) + ", which was not evaluated")); }
		auto k = a->clone<G_OptimizationAlgorithm_Base>(); v.clear(); for (auto& p : k->getBestGlobalIndividuals<GParameterSet>()) v.push_back(snap(*p)); check(v, all, c.n, "the best individuals of a copy");
	}
	sq::outcome(std::to_string(all.size()) + " evaluations");
}
static double three() { return (double)sq::choose(3, "fitness"); }
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
static int size() { static const int N[] = {2, 10, 1, 3}; return N[sq::choose(sq::thorough() ? 4 : 2, "recorded")]; }
SQ_SCENARIO(evolution, s.split = 512) { Conf c; c.alg = sq::choose(3, "mode"); c.m = mm(); c.n = size(); c.iters = sq::thorough() ? 3 : 2; run(c, three); }
SQ_SCENARIO(evolution_parents, s.split = 512) { Conf c; c.alg = sq::choose(3, "mode"); c.m = mm(); c.n = size(); c.mu = 2; c.nu = 2 + sq::choose(2, "children"); c.iters = 2; int k = 0; run(c, [&k]() -> double { return k++ < (sq::thorough() ? 8 : 4) ? three() : 1.; }); }
SQ_SCENARIO(annealing, s.split = 512) { Conf c; c.alg = 3; c.m = mm(); c.n = size(); c.mu = 1 + sq::choose(2, "parents"); c.nu = c.mu; c.iters = c.mu == 1 ? 4 : 2; int k = 0; run(c, [&k]() -> double { return k++ < (sq::thorough() ? 8 : 5) ? three() : 1.; }); }
SQ_SCENARIO(swarm, s.split = 512) { Conf c; c.alg = 4 + sq::choose(2, "swarm"); c.m = mm(); c.n = size(); c.iters = c.alg == 4 ? 3 : 2; int k = 0; run(c, [&k]() -> double { return k++ < (sq::thorough() ? 8 : 5) ? three() : 1.; }); }
SQ_SCENARIO(descent_and_scan, s.split = 512) { Conf c; c.alg = 6 + sq::choose(2, "algorithm"); c.m = mm(); c.n = size(); c.iters = 3 + sq::thorough(); run(c, three); }
SQ_SCENARIO(invalid_ones, s.split = 512) { Conf c; c.alg = sq::choose(8, "algorithm"); if (c.alg == 6) return; c.m = mm(); c.n = size(); c.inval = true; c.iters = 2; int k = 0; run(c, [&k]() -> double { return k++ < (sq::thorough() ? 6 : 3) ? three() : 1.; }); }
SQ_SCENARIO(failures, s.split = 512) { static const int A[] = {0, 1, 2, 4}; Conf c; c.alg = A[sq::choose(4, "algorithm")]; c.m = mm(); c.n = size(); c.iters = 3; c.fail = 3 + sq::choose(4, "failing"); int k = 0; run(c, [&k]() -> double { return k++ < (sq::thorough() ? 7 : 4) ? three() : 1.; }); }
// evaluated individuals given at the start, offsets, copies of the algorithm, repeated runs
SQ_SCENARIO(starts, s.split = 512) { Conf c; c.alg = sq::choose(8, "algorithm"); c.m = mm(); c.n = size(); c.given = c.alg < 4 ? sq::choose(2, "given") : 0; c.offset = sq::choose(2, "offset") * 3; c.copied = sq::choose(2, "copied"); c.runs = c.alg == 7 || c.given ? 1 : 1 + sq::choose(2, "runs"); c.iters = 2; int k = 0; run(c, [&k]() -> double { int j = k++; return j < (sq::thorough() ? 4 : 2) ? three() : j % 4; }); }
