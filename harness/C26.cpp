// C26: simulated annealing: Metropolis' rule with the drawn number, cooling as configured, population shape.
#include "lab.hpp"
using namespace lab; typedef GSimulatedAnnealing_PersonalityTraits T;
struct Conf { int mu, nu; maxMode m; double t0, alpha; int iters; std::uint32_t offset; int growth = 0, maxpop = 0; bool sig = false; };
// u(parent, p): the number to be drawn for the comparison of this parent which passes with probability p
static void run(const Conf& c, std::function<double()> ask, std::function<double(double)> draw) {
	reset(); sigB = c.sig ? 10 : 0; GSimulatedAnnealing sa; sa.setNThreads(1); sa.setT0(c.t0); sa.setTDegradationStrength(c.alpha); sa.setPopulationSizes((std::size_t)(c.mu + c.nu), (std::size_t)c.mu); sa.setPopulationGrowth(c.growth, c.maxpop);
	sa.setMaxStallIteration(0); sa.setMaxIteration(c.offset + c.iters); wire(sa); for (int i = 0; i < c.mu + c.nu; i++) sa.push_back(ind({0.5 * i}, -10, 10, 0.05, 1, c.m));
	auto pop = [&](int it) { int n = c.mu + c.nu; for (int k = 1; k <= it; k++) if (c.growth && n + c.growth <= c.maxpop) n += c.growth; return n; };
	struct P { double f; V x; }; std::vector<P> par, want; std::string rule; double temp = c.t0;
	fitness = [&](const V& x, GParameterSet *p) -> V {
		auto t = p->getPersonalityTraits<T>(); std::size_t pos = t->getPopulationPosition();
		SQ_CHECK(pos < sa.size() && sa.at(pos).get() == p && t->isParent() == ((int)pos < c.mu), "individual in position " << pos << " carries wrong marks"); SQ_CHECK(now == 0 || !t->isParent(), "parent evaluated again");
		SQ_CHECK((int)sa.size() == pop(now), "population of " << sa.size() << " instead of " << pop(now)); return {ask()}; };
	on_eval = [&](const V&, const V&, GParameterSet *) {
		int got = 0; for (auto& e : evals) if (e.it == now) got++; int need = now == 0 ? pop(0) : pop(now) - c.mu; if (got < need) return;
		// the last evaluation of the iteration: now the selection must follow Metropolis' rule
		std::vector<P> kids; int k = 0; std::vector<P> ps = par; for (auto& e : evals) if (e.it == now) { if (now == 0 && k < c.mu) ps.push_back(P{e.f[0], e.x}); else kids.push_back(P{e.f[0], e.x}); k++; }
		std::stable_sort(kids.begin(), kids.end(), [&](const P& a, const P& b) { return better(a.f, b.f, c.m); });
		std::vector<double> us; want = ps; std::ostringstream o;
		for (int i = 0; i < c.mu && i < (int)kids.size(); i++) { double d = c.m == maxMode::MAXIMIZE ? tr(ps[i].f) - tr(kids[i].f) : tr(kids[i].f) - tr(ps[i].f), p = std::exp(-d / temp);
			if (d <= 0) { want[i] = kids[i]; o << " parent " << i << " (" << ps[i].f << ") is replaced by the better or equal child " << kids[i].f; continue; }
			double u = draw(p); if (u < 1e-15) u = 0; us.push_back(u); if (u < p) want[i] = kids[i]; o << " parent " << i << " (" << ps[i].f << ") against child " << kids[i].f << " passes with " << p << ", drawn " << u; }
		rule = o.str(); mockrnd::script(mockrnd::canon53(us), 7);
	};
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) {
		const Snap& s = snaps.back(); int it = now - 1; auto w = [&](const std::string& x) { std::ostringstream o; o << c.mu << "+" << c.nu << (c.m == maxMode::MAXIMIZE ? " maximizing" : "") << ", iteration " << it << ", temperature " << temp << ", evaluations" << history() << ":" << rule << ": " << x; return o.str(); };
		SQ_CHECK((int)s.pop.size() == pop(it), w("population size " + std::to_string(s.pop.size())));
		std::multiset<double> wf, gf; par.clear(); for (auto& p : want) wf.insert(p.f);
		for (int i = 0; i < (int)s.pop.size(); i++) { auto t = std::dynamic_pointer_cast<T>(s.pop[i].tr); SQ_CHECK(t && t->isParent() == (i < c.mu), w("wrong parent/child marking in position " + std::to_string(i))); SQ_CHECK(s.pop[i].processed, w("unprocessed individual")); }
		for (int i = 0; i < c.mu; i++) { gf.insert(s.pop[i].raw[0]); par.push_back(P{s.pop[i].raw[0], s.pop[i].x}); SQ_CHECK(is_eval(s.pop[i].x, s.pop[i].raw), w("parent " + std::to_string(i) + " carries a fitness that is not that of its values")); }
		SQ_CHECK(wf == gf, w("parents are " + [&] { std::ostringstream o; for (double d : gf) o << d << " "; o << "instead of "; for (double d : wf) o << d << " "; return o.str(); }()));
		for (int i = 1; i < c.mu; i++) SQ_CHECK(!better(par[i].f, par[i - 1].f, c.m), w("parents are not sorted"));
		SQ_CHECK(std::get<0>(s.current) == par[0].f, w("wrong best fitness of the iteration"));
		temp *= c.alpha; SQ_CHECK(sa.getT() == temp && sa.getT() >= 0, w("temperature is " + std::to_string(sa.getT()) + " instead of " + std::to_string(temp) + " after the iteration"));
		sq::H h; for (auto& e : evals) h << e.it << e.f; for (auto& p : par) h << p.f; h << c.mu << c.nu << (int)c.m << temp; sq::state(h); mockrnd::seed(50 + it);
	};
	sa.optimize(c.offset); SQ_CHECK(now == c.iters, "ran " << now << " iterations"); sq::outcome(std::to_string(evals.size()) + " evaluations, " + rule.substr(0, 60));
}
static double pick() { return (double)sq::choose(3, "fitness"); }
static double border(double p) { switch (sq::choose(3, "draw")) { case 0: return p * 0.5; case 1: return p * (1 - 1e-9); default: return std::min(p * (1 + 1e-9), 1 - 1e-12); } }
static void all(int mu, int nu, int iters) { Conf c{mu, nu, sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE, 1.5, 0.5, iters, 0}; run(c, pick, border); }
SQ_SCENARIO(p1c1, s.split = 512) { all(1, 1, sq::thorough() ? 5 : 4); }
SQ_SCENARIO(p1c2, s.split = 512) { all(1, 2, sq::thorough() ? 4 : 3); }
SQ_SCENARIO(p2c2, s.split = 512) { all(2, 2, 2); }
SQ_SCENARIO(p2c1, s.split = 512) { all(2, 1, sq::thorough() ? 4 : 3); }
SQ_SCENARIO(p1c3, s.split = 512) { all(1, 3, 2); }
SQ_SCENARIO(p3c3, s.split = 512, s.thorough_only = true) { all(3, 3, 1); }
// configurations: start temperatures, cooling, offsets, growth, sizes
SQ_SCENARIO(configs, s.split = 128) {
	static const double T0[] = {1e-300, 0.01, 1, 1000, 1e300}, AL[] = {1e-200, 0.5, 0.95, 1, 2}; Conf c; c.mu = 1 + sq::choose(3, "parents"); c.nu = 1 + sq::choose(4, "children"); c.m = sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; c.t0 = T0[sq::choose(5, "t0")]; c.alpha = AL[sq::choose(5, "alpha")];
	c.iters = 4; c.offset = sq::choose(2, "offset") * 5; c.growth = sq::choose(3, "growth"); c.maxpop = c.growth ? c.mu + c.nu + 3 : 0; int n = 0, pat = sq::choose(sq::thorough() ? 3 : 1, "landscape");
	run(c, [&]() -> double { n++; return pat == 0 ? (double)((n * 7) % 5) : pat == 1 ? -n : n; }, [&](double p) { return ((n * 3) % 5) / 5. * std::min(1., 2 * p); });
}
// the settings refuse values that make no sense, and a run starts from the configured temperature again after a reset
SQ_SCENARIO(settings) {
	GSimulatedAnnealing a; static const double B[] = {0, -1, -1e300}; int i = sq::choose(3, "value"); SQ_THROWS(a.setT0(B[i]), "start temperature " << B[i] << " accepted"); SQ_THROWS(a.setTDegradationStrength(B[i]), "cooling factor " << B[i] << " accepted");
	a.setT0(3); a.setTDegradationStrength(0.25); SQ_CHECK(a.getT0() == 3 && a.getTDegradationStrength() == 0.25, "settings not stored"); a.resetToOptimizationStart(); SQ_CHECK(a.getT() == 3, "reset does not restore the start temperature"); sq::state(i + 1);
}
// transformed evaluations: the rule applies to the transformed values
SQ_SCENARIO(sigmoid, s.split = 512) { Conf c{1, 2, sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE, 1.5, 0.5, sq::thorough() ? 3 : 2, 0}; c.sig = true; run(c, [] { return 3. * sq::choose(3, "fitness") - 2; }, border); }
