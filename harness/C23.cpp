// C23: evolutionary selection: the parents of the next iteration are the best of the pool defined by the sorting mode, the population keeps
// its shape, marks are truthful, children descend from existing parents.
#include "lab.hpp"
using namespace lab; typedef GEvolutionaryAlgorithm_PersonalityTraits T;
static const char *MODES[] = {"plus", "comma", "1pretain"};
static sortingMode SM[] = {sortingMode::MUPLUSNU_SINGLEEVAL, sortingMode::MUCOMMANU_SINGLEEVAL, sortingMode::MUNU1PRETAIN_SINGLEEVAL};
struct Conf { int mu, nu, mode; maxMode m; int scheme; double amalg; int iters; std::uint32_t offset = 0; int growth = 0, maxpop = 0; int given = -1; };
static std::vector<V> parents_x; static std::vector<double> lines; // of the current parents
static void run(const Conf& c, std::function<double()> ask, int failing = -1) {
	reset(); GEvolutionaryAlgorithm ea; ea.setNThreads(1); ea.setPopulationSizes((std::size_t)(c.mu + c.nu), (std::size_t)c.mu); ea.setSortingScheme(SM[c.mode]);
	ea.setRecombinationMethod(c.scheme == 0 ? duplicationScheme::DEFAULTDUPLICATIONSCHEME : c.scheme == 1 ? duplicationScheme::RANDOMDUPLICATIONSCHEME : duplicationScheme::VALUEDUPLICATIONSCHEME);
	ea.setAmalgamationLikelihood(c.amalg); ea.setPopulationGrowth(c.growth, c.maxpop); ea.setMaxStallIteration(0); ea.setMaxIteration(c.offset + c.iters); wire(ea);
	int given = c.given < 0 ? c.mu + c.nu : c.given; lines.clear(); int asked = 0;
	for (int i = 0; i < given; i++) { ea.push_back(ind({0.5 * i}, -10, 10, 0.05, 1, c.m, 100 + i)); if (i < c.mu) lines.push_back(100 + i); }
	bool grown_given = given < c.mu; // random initialisation changes the lines then
	auto pop = [&](int it) { int n = c.mu + c.nu; for (int k = 1; k <= it; k++) if (c.growth && n + c.growth <= c.maxpop) n += c.growth; return n; };
	fitness = [&](const V& x, GParameterSet *p) -> V {
		// the marks are truthful while a candidate is evaluated
		auto t = p->getPersonalityTraits<T>(); std::size_t pos = t->getPopulationPosition(); int it = now;
		SQ_CHECK(pos < ea.size() && ea.at(pos).get() == p, "individual evaluated in iteration " << it << " claims position " << pos << " but is not there");
		SQ_CHECK(t->isParent() == ((int)pos < c.mu), "individual in position " << pos << " is marked as " << (t->isParent() ? "parent" : "child") << " with " << c.mu << " parents");
		SQ_CHECK(it == 0 || !t->isParent(), "a parent was evaluated again in iteration " << it);
		SQ_CHECK(p->getAssignedIteration() == c.offset + it, "individual evaluated in iteration " << c.offset + it << " is assigned to iteration " << p->getAssignedIteration());
		SQ_CHECK((int)ea.size() == pop(it), "population has " << ea.size() << " members in iteration " << it << " instead of " << pop(it));
		if (!t->isParent() && !grown_given) {
			bool ok = std::count(lines.begin(), lines.end(), x.back()); SQ_CHECK(ok, "child of line " << x.back() << " descends from none of the parents " << str(lines) << " in iteration " << it);
			if (c.amalg == 0) { SQ_CHECK(t->parentIdSet() && (int)t->getParentId() < c.mu, "child without a parent");
				SQ_CHECK(lines.at(t->getParentId()) == x.back(), "child claims to descend from parent " << t->getParentId() << " of line " << lines.at(t->getParentId()) << " but has line " << x.back()); }
		}
		if (failing >= 0 && asked++ == failing) throw std::runtime_error("scripted failure");
		return {ask()};
	};
	std::vector<std::pair<double, V>> par; // fitness and values of the parents
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) {
		const Snap& s = snaps.back(); int it = now - 1; auto w = [&](const std::string& x) { std::ostringstream o; o << MODES[c.mode] << " " << c.mu << "+" << c.nu << (c.m == maxMode::MAXIMIZE ? " maximizing" : "") << ", iteration " << it << ", evaluations (iteration:fitness)" << history() << ": " << x; return o.str(); };
		SQ_CHECK((int)s.pop.size() == pop(it), w("population has " + std::to_string(s.pop.size()) + " members instead of " + std::to_string(pop(it))));
		SQ_CHECK(s.iter == c.offset + it, w("iteration counter " + std::to_string(s.iter)));
		std::vector<std::pair<double, V>> kids; for (auto& e : evals) if (e.it == it) kids.push_back({e.f[0], e.x});
		int expect_evals = it == 0 ? pop(0) : pop(it) - c.mu; if (failing >= 0) expect_evals = (int)kids.size();
		SQ_CHECK((int)kids.size() == expect_evals, w(std::to_string(kids.size()) + " evaluations"));
		auto cmp = [&](const std::pair<double, V>& a, const std::pair<double, V>& b) { return better(a.first, b.first, c.m); };
		std::vector<std::pair<double, V>> pool = kids, want; 
		if (it > 0 && c.mode == 0) pool.insert(pool.end(), par.begin(), par.end());
		if (it > 0 && c.mode == 2 && c.mu == 1) pool.insert(pool.end(), par.begin(), par.end());
		std::sort(pool.begin(), pool.end(), cmp); want = pool; if ((int)want.size() > c.mu) want.resize(c.mu);
		if (it > 0 && c.mode == 2 && c.mu > 1 && !cmp(want[0], par[0])) { want.pop_back(); want.insert(want.begin(), par[0]); }
		SQ_CHECK((int)want.size() == c.mu || failing >= 0, "harness: pool too small");
		std::vector<std::pair<double, V>> got; std::set<V> seen;
		for (int i = 0; i < c.mu; i++) { auto& p = s.pop[i]; SQ_CHECK(p.processed, w("an unprocessed parent"));
			auto t = std::dynamic_pointer_cast<T>(p.tr); SQ_CHECK(t && t->isParent(), w("parent " + std::to_string(i) + " is not marked as parent"));
			got.push_back({p.raw[0], p.x});
			if (i < (int)want.size() && (failing < 0 || i == 0)) SQ_CHECK(p.raw[0] == want[i].first, w("parent " + std::to_string(i) + " has fitness " + std::to_string(p.raw[0]) + " instead of " + std::to_string(want[i].first)));
			bool in = false; for (auto& q : pool) if (q.first == p.raw[0] && q.second == p.x) in = true; if (it > 0 && c.mode == 2) for (auto& q : par) if (q.first == p.raw[0] && q.second == p.x && i == 0) in = true;
			SQ_CHECK(in, w("parent " + std::to_string(i) + " " + str(p.x) + " with fitness " + std::to_string(p.raw[0]) + " is not from the pool"));
			if (failing < 0 && !grown_given) SQ_CHECK(seen.insert(p.x).second, w("two parents are the same individual"));
			}
		for (auto& p : s.pop) SQ_CHECK(p.processed, w("an unprocessed individual after the iteration"));
		SQ_CHECK(std::get<0>(s.current) == got[0].first, w("best fitness of the iteration is reported as " + std::to_string(std::get<0>(s.current))));
		if (it > 0 && c.mode != 1) SQ_CHECK(!better(par[0].first, got[0].first, c.m), w("best parent got worse"));
		if (it > 0 && c.mode == 0) for (int i = 0; i < c.mu; i++) SQ_CHECK(!better(par[i].first, got[i].first, c.m), w("parent rank " + std::to_string(i) + " got worse"));
		par = got; lines.clear(); for (auto& p : got) lines.push_back(p.second.back()); sq::H h; for (auto& e : evals) h << e.it << e.f; h << c.mode << c.mu << c.nu << (int)c.m << c.scheme << c.iters; sq::state(h);
	};
	ea.optimize(c.offset);
	SQ_CHECK(now == c.iters && inits == 1 && ends == 1, "ran " << now << " iterations instead of " << c.iters);
	sq::outcome(std::to_string(evals.size()) + " evaluations");
}
static double pick() { return (double)sq::choose(3, "fitness"); }
// every fitness assignment
static void all(int mu, int nu, int iters) {
	Conf c{mu, nu, 0, maxMode::MINIMIZE, 0, 0, iters}; c.mode = sq::choose(nu >= mu ? 3 : 1, "mode"); c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; c.scheme = sq::choose(2, "scheme") * 2; run(c, pick);
}
SQ_SCENARIO(p1c1, s.split = 512) { all(1, 1, sq::thorough() ? 7 : 5); }
SQ_SCENARIO(p1c2, s.split = 512) { all(1, 2, sq::thorough() ? 4 : 3); }
SQ_SCENARIO(p1c3, s.split = 512) { all(1, 3, sq::thorough() ? 3 : 2); }
SQ_SCENARIO(p2c1, s.split = 512) { all(2, 1, sq::thorough() ? 6 : 4); }
SQ_SCENARIO(p2c2, s.split = 512) { all(2, 2, sq::thorough() ? 3 : 2); }
SQ_SCENARIO(p2c3, s.split = 512) { all(2, 3, 2); }
SQ_SCENARIO(p3c3, s.split = 512, s.thorough_only = true) { all(3, 3, 2); }
SQ_SCENARIO(p1c4, s.split = 512, s.thorough_only = true) { all(1, 4, 2); }
// distinct fitness values in all orders for larger populations: permutations of the evaluations of an iteration
static void perms(int mu, int nu) {
	Conf c{mu, nu, 0, maxMode::MINIMIZE, 0, 0, 2}; c.mode = sq::choose(3, "mode"); c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; std::vector<double> left; int it = -1; double base = 0;
	int first = sq::choose(3, "order of the first iteration");
	run(c, [&]() -> double { if (it != now) { it = now; left.clear(); int n = it == 0 ? mu + nu : nu; for (int k = 0; k < n; k++) left.push_back(it == 0 ? 2 * k : 2 * k + 1 + base); }
		int k = it == 0 ? (first == 0 ? 0 : first == 1 ? (int)left.size() - 1 : (int)left.size() / 2) : sq::choose((int)left.size(), "rank"); double r = left[k]; left.erase(left.begin() + k); return r; });
}
SQ_SCENARIO(ranks_2_5, s.split = 128) { perms(2, 5); }
SQ_SCENARIO(ranks_3_5, s.split = 128) { perms(3, 5); }
SQ_SCENARIO(ranks_3_6, s.split = 128, s.thorough_only = true) { perms(3, 6); }
// growth, recombination, offsets, incomplete start populations
SQ_SCENARIO(shapes, s.split = 256) {
	Conf c; c.mu = 1 + sq::choose(3, "parents"); c.nu = 1 + sq::choose(4, "children"); c.mode = sq::choose(c.nu >= c.mu ? 3 : 1, "mode"); c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; c.scheme = sq::choose(3, "scheme");
	c.amalg = sq::choose(sq::thorough() ? 3 : 2, "amalgamation") * 0.5; c.iters = 5; c.offset = sq::choose(2, "offset") * 7; c.growth = sq::choose(sq::thorough() ? 4 : 3, "growth"); c.maxpop = c.growth ? c.mu + c.nu + sq::choose(sq::thorough() ? 6 : 4, "limit") - (sq::thorough() ? 1 : 0) : 0; c.given = sq::choose(2, "given") ? -1 : 1 + (c.mu + c.nu) / 2; if (c.given > c.mu + c.nu) c.given = -1;
	int pat = sq::choose(sq::thorough() ? 4 : 2, "landscape"), n = 0; if (!sq::thorough()) pat = pat * 2 + (c.mu & 1); run(c, [&]() -> double { n++; return pat == 0 ? n : pat == 1 ? -n : pat == 2 ? (n * 7) % 5 : (double)((n * n) % 11); });
}
// every draw of the recombination: children are descendants of the parent drawn
SQ_SCENARIO(draws, s.split = 128) {
	Conf c; c.mu = 2 + sq::choose(2, "parents"); c.nu = 3; c.mode = sq::choose(3, "mode"); c.m = maxMode::MINIMIZE; c.scheme = 1 + sq::choose(2, "scheme"); c.amalg = 0; c.iters = 3; c.offset = 0; int sd = sq::choose(sq::thorough() ? 400 : 60, "seed"), n = 0;
	run(c, [&]() -> double { if (n == 0) mockrnd::seed(1000 + sd); n++; return (double)((n * (3 + sd % 4)) % 7); });
}
// one evaluation of a child fails: the child is dropped, the shape of the population is kept
SQ_SCENARIO(failing, s.split = 128) {
	Conf c; c.mu = 1 + sq::choose(3, "parents"); c.nu = 1 + sq::choose(4, "children"); if (c.nu < c.mu) return; c.mode = sq::choose(3, "mode"); c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; c.scheme = 0; c.amalg = 0; c.iters = 3; c.offset = 0;
	int f = sq::choose(c.mu + 3 * c.nu, "failing evaluation"), pat = sq::choose(3, "landscape"), n = 0; if (f >= c.mu + c.nu && c.nu == 1 && c.mode != 0) return; 
	run(c, [&]() -> double { n++; return pat == 0 ? n : pat == 1 ? -n : (n * 7) % 5; }, f);
}
