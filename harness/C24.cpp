// C24: Pareto selection: non-dominated candidates come before dominated ones.
#include "lab.hpp"
using namespace lab; typedef GEvolutionaryAlgorithm_PersonalityTraits T;
static bool dominates(const V& a, const V& b, maxMode m) { bool any = false; for (std::size_t i = 0; i < a.size(); i++) { if (better(b[i], a[i], m)) return false; if (better(a[i], b[i], m)) any = true; } return any; }
struct Conf { int mu, nu, crit; bool plus; maxMode m; int iters; };
static void run(const Conf& c, std::function<V()> ask) {
	reset(); GEvolutionaryAlgorithm ea; ea.setNThreads(1); ea.setPopulationSizes((std::size_t)(c.mu + c.nu), (std::size_t)c.mu); ea.setSortingScheme(c.plus ? sortingMode::MUPLUSNU_PARETO : sortingMode::MUCOMMANU_PARETO);
	ea.setMaxStallIteration(0); ea.setMaxIteration(c.iters); wire(ea); for (int i = 0; i < c.mu + c.nu; i++) ea.push_back(ind({0.5 * i}, -10, 10, 0.05, c.crit, c.m));
	fitness = [&](const V&, GParameterSet *) { return ask(); };
	std::vector<std::pair<V, V>> par;
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) {
		const Snap& s = snaps.back(); int it = now - 1; auto w = [&](const std::string& x) { std::ostringstream o; o << (c.plus ? "plus " : "comma ") << c.mu << "+" << c.nu << (c.m == maxMode::MAXIMIZE ? " maximizing" : "") << ", iteration " << it << ", evaluations" << history() << ": " << x; return o.str(); };
		std::vector<std::pair<V, V>> pool; for (auto& e : evals) if (e.it == it) pool.push_back({e.f, e.x}); if (it > 0 && c.plus) pool.insert(pool.end(), par.begin(), par.end());
		std::set<std::pair<V, V>> front; for (auto& a : pool) { bool d = false; for (auto& b : pool) if (dominates(b.first, a.first, c.m)) d = true; if (!d) front.insert(a); }
		SQ_CHECK((int)s.pop.size() == c.mu + c.nu, w("population size " + std::to_string(s.pop.size())));
		int nf = 0; std::vector<std::pair<V, V>> got; std::set<std::pair<V, V>> seen;
		for (int i = 0; i < c.mu; i++) { std::pair<V, V> g{s.pop[i].raw, s.pop[i].x}; bool in = std::count(pool.begin(), pool.end(), g); SQ_CHECK(in, w("parent " + std::to_string(i) + " " + str(g.first) + " is not from the pool"));
			SQ_CHECK(seen.insert(g).second, w("two parents are the same individual")); auto t = std::dynamic_pointer_cast<T>(s.pop[i].tr); SQ_CHECK(t && t->isParent(), w("parent not marked"));
			bool f = front.count(g); nf += f; SQ_CHECK(t->isOnParetoFront() == f, w("parent " + str(g.first) + (f ? " is on the Pareto front but marked as dominated" : " is marked as being on the Pareto front but dominated"))); got.push_back(g); }
		SQ_CHECK(nf == std::min<int>(c.mu, (int)front.size()), w(std::to_string(nf) + " of the " + std::to_string(c.mu) + " parents are non-dominated, with " + std::to_string(front.size()) + " non-dominated candidates"));
		// the primary criterion orders the parents
		for (int i = 1; i < c.mu; i++) SQ_CHECK(!better(got[i].first[0], got[i - 1].first[0], c.m), w("parents are not sorted by the first criterion"));
		// parents that are dominated are the best of the rest
		if (nf < c.mu) { V rest, chosen; for (auto& a : pool) if (!front.count(a)) rest.push_back(a.first[0]); for (auto& a : got) if (!front.count(a)) chosen.push_back(a.first[0]);
			auto cmp = [&](double a, double b) { return better(a, b, c.m); }; std::sort(rest.begin(), rest.end(), cmp); std::sort(chosen.begin(), chosen.end(), cmp); rest.resize(chosen.size()); SQ_CHECK(rest == chosen, w("dominated parents " + str(chosen) + " instead of " + str(rest))); }
		par = got; sq::H h; for (auto& e : evals) { h << e.it; for (double d : e.f) h << d; } h << c.plus << c.mu << c.nu << (int)c.m; sq::state(h);
	};
	ea.optimize(); SQ_CHECK(now == c.iters, "ran " << now << " iterations");
	sq::outcome(std::to_string(evals.size()) + " evaluations");
}
static void pools(int mu, int nu, int iters, int alpha, int crit = 2) {
	Conf c{mu, nu, crit, false, maxMode::MINIMIZE, iters}; c.plus = sq::choose(nu >= mu ? 2 : 1, "mode") == 0; c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE;
	run(c, [&]() { V f; int k = 1; for (int i = 0; i < crit; i++) k *= alpha; k = sq::choose(k, "fitness"); for (int i = 0; i < crit; i++) { f.push_back(k % alpha); k /= alpha; } return f; });
}
SQ_SCENARIO(p1c2, s.split = 512) { pools(1, 2, 1, 3); }
SQ_SCENARIO(p1c3, s.split = 512) { pools(1, 3, 1, 3); }
SQ_SCENARIO(p2c2, s.split = 512) { pools(2, 2, 1, 3); }
SQ_SCENARIO(p3c1, s.split = 512) { pools(3, 1, 1, 3); }
SQ_SCENARIO(p2c3, s.split = 512, s.thorough_only = true) { pools(2, 3, 1, 3); }
SQ_SCENARIO(p2c2_2, s.split = 512) { pools(2, 2, 2, 2); }
SQ_SCENARIO(p1c2_2, s.split = 512) { pools(1, 2, 2, 2); }
SQ_SCENARIO(p1c1_3, s.split = 512) { pools(1, 1, 3, 3); }
SQ_SCENARIO(p2c3_2, s.split = 512, s.thorough_only = true) { pools(2, 3, 2, 2); }
SQ_SCENARIO(three, s.split = 512) { pools(2, 2, 1, 2, 3); }
SQ_SCENARIO(three_2, s.split = 512, s.thorough_only = true) { pools(1, 2, 2, 2, 3); }
// fewer non-dominated children than parents in a later iteration: a chain of dominating candidates in all orders
SQ_SCENARIO(few, s.split = 128) {
	Conf c{2 + sq::choose(2, "parents"), 0, 2, false, maxMode::MINIMIZE, 2}; c.nu = c.mu + sq::choose(2, "children"); c.plus = sq::choose(2, "mode") == 0; c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; std::vector<double> left; int it = -1; int off = sq::choose(2, "old better") * 20;
	run(c, [&]() -> V { if (it != now) { it = now; left.clear(); int n = it == 0 ? c.mu + c.nu : c.nu; for (int k = 0; k < n; k++) left.push_back(it == 0 ? k + off : k + 10.5); } int k = it == 0 ? 0 : sq::choose((int)left.size(), "rank"); double r = left[k]; left.erase(left.begin() + k); return {r, std::fmod(r * 3, 7) > 5 ? 2 * r : r}; });
}
