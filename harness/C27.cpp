// C27: gradient descent: one probe per active parameter and starting point, displaced by the finite step; starting points move along the
// measured difference quotients; nothing leaves its range; one evaluation per probe and starting point.
#include "lab.hpp"
using namespace lab; typedef GGradientDescent_PersonalityTraits T;
struct Par { double lo, hi; bool active; };
struct Conf { std::vector<Par> ps; int n; maxMode m; double fs, ss; int iters; int given; bool coll = false; bool unbounded = false; std::uint32_t offset = 0; int failing = -1; double start = 0.1; int rerun = 0; };
static std::shared_ptr<Ind> make(const Conf& c, int k) {
	auto p = std::make_shared<Ind>(1); auto v = [&](std::size_t d) { return c.ps[d].lo + (c.ps[d].hi - c.ps[d].lo) * (c.start + std::fmod(0.23 * k + 0.31 * d, 0.8)); };
	if (c.coll) { auto o = std::make_shared<GConstrainedDoubleCollection>(c.ps.size(), c.ps[0].lo, c.ps[0].hi); for (std::size_t d = 0; d < c.ps.size(); d++) o->at(d) = v(d) ; p->push_back(o); }
	else for (std::size_t d = 0; d < c.ps.size(); d++) {
		std::shared_ptr<GParameterBase> b; if (c.unbounded) b = std::make_shared<GDoubleObject>(v(d), c.ps[d].lo, c.ps[d].hi); else b = std::make_shared<GConstrainedDoubleObject>(v(d), c.ps[d].lo, c.ps[d].hi);
		if (!c.ps[d].active) b->setAdaptionsInactive(); p->push_back(b); }
	p->setMaxMode(c.m); return p;
}
static V act(const Conf& c, const V& x) { V a; for (std::size_t d = 0; d < x.size(); d++) if (c.ps[d].active) a.push_back(x[d]); return a; }
static bool close(const V& a, const V& b, const Conf& c) { if (a.size() != b.size()) return false; for (std::size_t d = 0; d < a.size(); d++) if (std::fabs(a[d] - b[d]) > 1e-9 * (c.ps[d].hi - c.ps[d].lo) + 4e-16 * std::fabs(a[d])) return false; return true; }
static void run(const Conf& c, std::function<double()> ask) {
	reset(); GGradientDescent gd; gd.setNStartingPoints(c.n); gd.setFiniteStep(c.fs); gd.setStepSize(c.ss); gd.setMaxStallIteration(0); gd.setMaxIteration(c.offset + c.iters); wire(gd);
	for (int k = 0; k < c.given; k++) gd.push_back(make(c, k));
	int na = 0; for (auto& p : c.ps) na += p.active; int per = c.n * (na + 1), asked = 0; std::vector<V> want(c.n); std::vector<std::vector<double>> got(c.n); // expected starting points, fitness of starting point and probes
	std::vector<V> real(c.n);
	auto w = [&](const std::string& x) { std::ostringstream o; o << c.n << " starting points, " << na << " active of " << c.ps.size() << " parameters, finite step " << c.fs << ", step size " << c.ss << (c.m == maxMode::MAXIMIZE ? ", maximizing" : "") << ", evaluations"; for (auto& e : evals) o << " " << e.it << ":" << str(e.x) << "->" << str(e.f); o << ": " << x; return o.str(); };
	auto mapped = [&](const V& from, const V& a) { auto o = make(c, 0); o->assignValueVector<double>(from, activityMode::ALLPARAMETERS); o->assignValueVector<double>(a, activityMode::ACTIVEONLY); return par(*o); };
	fitness = [&](const V& x, GParameterSet *p) -> V {
		std::size_t pos = p->getPersonalityTraits<T>()->getPopulationPosition(); SQ_CHECK(pos < gd.size() && gd.at(pos).get() == p, w("individual claims wrong position " + std::to_string(pos))); SQ_CHECK((int)gd.size() == per, w("population of " + std::to_string(gd.size())));
		if (!c.unbounded) for (std::size_t d = 0; d < x.size(); d++) SQ_CHECK(x[d] >= c.ps[d].lo && x[d] <= c.ps[d].hi, w("evaluation at " + str(x) + " outside of the range"));
		if ((int)pos < c.n) { // a starting point
			if (now == 0) { if ((int)pos < c.given) { V s = par(*make(c, (int)pos)); SQ_CHECK(close(x, s, c), w("start at " + str(x) + " instead of " + str(s))); } }
			else SQ_CHECK(close(x, want[pos], c), w("starting point " + std::to_string(pos) + " moved to " + str(x) + " instead of " + str(want[pos])));
			real[pos] = x; got[pos].clear();
		} else { // probe j of starting point i
			int i = ((int)pos - c.n) / na, j = ((int)pos - c.n) % na; V s = par(*gd.at(i)), a = act(c, s); int d = -1; for (int k = -1; k < j;) if (c.ps[++d].active) k++;
			a[j] += c.fs / 1000. * (c.ps[d].hi - c.ps[d].lo); V e = mapped(s, a); SQ_CHECK(close(x, e, c), w("probe " + std::to_string(j) + " of starting point " + str(s) + " at " + str(x) + " instead of " + str(e)));
		}
		if (c.failing >= 0 && asked++ == c.failing) throw std::runtime_error("scripted failure");
		return {ask()}; };
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) {
		const Snap& s = snaps.back(); int it = now - 1; int cnt = 0; std::map<const GParameterSet *, int> times; for (auto& e : evals) if (e.it == it) { cnt++; times[e.p]++; }
		SQ_CHECK(cnt == per && (int)times.size() == per, w(std::to_string(cnt) + " evaluations of " + std::to_string(times.size()) + " individuals instead of " + std::to_string(per)));
		std::vector<double> fit; for (auto& q : s.pop) { SQ_CHECK(q.processed && is_eval(q.x, q.raw, it, it), w("individual at " + str(q.x) + " carries a foreign fitness")); fit.push_back(q.raw[0]); }
		double best = fit[0]; for (int i = 0; i < c.n; i++) if (better(fit[i], best, c.m)) best = fit[i];
		SQ_CHECK(std::get<0>(s.current) == best, w("best fitness of the iteration is " + std::to_string(std::get<0>(s.current)) + " instead of " + std::to_string(best)));
		for (int i = 0; i < c.n; i++) { V a = act(c, s.pop[i].x); for (int j = 0; j < na; j++) { double df = fit[c.n + i * na + j] - fit[i]; a[j] += (c.m == maxMode::MAXIMIZE ? 1 : -1) * c.ss / c.fs * df; } want[i] = mapped(s.pop[i].x, a); }
		sq::H h; for (auto& e : evals) h << e.it << e.f; h << c.n << na << (int)c.m << c.fs << c.ss << c.coll << c.unbounded; sq::state(h);
	};
	std::string ex; try { gd.optimize(c.offset); } catch (std::exception& e) { ex = e.what(); }
	if (c.failing >= 0 && c.failing < per * c.iters) { SQ_CHECK(!ex.empty(), w("a failed evaluation was not noticed")); SQ_CHECK(now == c.failing / per, w("ran on for " + std::to_string(now) + " iterations")); sq::outcome("refused"); return; }
	SQ_CHECK(ex.empty(), w("exception " + ex.substr(0, 200))); SQ_CHECK(now == c.iters, "ran " << now << " iterations"); sq::outcome(std::to_string(evals.size()) + " evaluations");
}
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
static double pick3() { static const double F[] = {0, 1, -0.25}; return F[sq::choose(3, "fitness")]; }
static std::vector<Par> dims(int n) { std::vector<Par> v; for (int i = 0; i < n; i++) v.push_back(Par{-10. - i, 10. + 5 * i, true}); return v; }
SQ_SCENARIO(d1, s.split = 512) { run(Conf{dims(1), 1, mm(), 10, 50, sq::thorough() ? 5 : 4, 1}, pick3); }
SQ_SCENARIO(d2, s.split = 512) { run(Conf{dims(2), 1, mm(), 10, 50, 3, 1}, pick3); }
SQ_SCENARIO(d3, s.split = 512) { run(Conf{dims(3), 1, mm(), 10, 50, 2, 1}, pick3); }
SQ_SCENARIO(d1n2, s.split = 512) { run(Conf{dims(1), 2, mm(), 10, 50, 2, 2}, pick3); }
SQ_SCENARIO(d2n2, s.split = 512, s.thorough_only = true) { run(Conf{dims(2), 2, mm(), 10, 50, 2, 2}, pick3); }
// finite steps, step sizes, inactive parameters, unbounded parameters and collections, fewer and more start individuals than starting points
SQ_SCENARIO(configs, s.split = 256) {
	static const double FS[] = {1e-3, 1, 100, 1000}, SS[] = {1e-3, 10, 1000}; int nd = 1 + sq::choose(3, "parameters"); Conf c{dims(nd), 1 + sq::choose(3, "starting points"), mm(), FS[sq::choose(4, "finite step")], SS[sq::choose(3, "step size")], 3, 0};
	int kind = sq::choose(4, "kind"); if (kind == 1) { c.coll = true; for (auto& p : c.ps) p = c.ps[0]; } if (kind == 2) c.unbounded = true; if (kind == 3) for (int d = 0; d < nd - 1; d++) c.ps[d].active = sq::choose(2, "active");
	c.given = 1 + sq::choose(c.n + 2, "given"); c.start = sq::choose(2, "start") * 0.1999; c.offset = sq::choose(2, "offset") * 3; int n = 0, pat = sq::choose(2, "landscape"); run(c, [&] { n++; return pat ? 0.01 * ((n * 5) % 13) : (double)((n * 3) % 7); });
}
SQ_SCENARIO(failing) { int nd = 1 + sq::choose(2, "parameters"); Conf c{dims(nd), 1 + sq::choose(2, "starting points"), mm(), 10, 50, 2, 2}; c.failing = sq::choose(2 * (nd + 1) * c.n + 1, "failing"); int n = 0; run(c, [&] { n++; return (double)(n % 3); }); }
// real functions: the descent goes down a paraboloid
SQ_SCENARIO(descends) {
	int nd = 1 + sq::choose(3, "parameters"); bool mx = sq::choose(2, "maximize"); double ss = sq::choose(2, "step size") ? 0.5 : 2; reset(); GGradientDescent gd; gd.setNStartingPoints(1); gd.setFiniteStep(0.001); gd.setStepSize(ss); gd.setMaxIteration(20); gd.setMaxStallIteration(0); wire(gd);
	Conf c{dims(nd), 1, mx ? maxMode::MAXIMIZE : maxMode::MINIMIZE, 0.001, ss, 20, 1}; gd.push_back(make(c, 1)); fitness = [&](const V& x, GParameterSet *) -> V { double s = 0; for (double v : x) s += v * v; return {mx ? -s : s}; }; double last = mx ? -1e300 : 1e300;
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) { double f = snaps.back().pop[0].raw[0]; SQ_CHECK(mx ? f > last - 1e-9 : f < last + 1e-9, "paraboloid: iteration " << now << " went from " << last << " to " << f); last = f; }; gd.optimize(); sq::state(nd + 10 * mx);
}
SQ_SCENARIO(settings) {
	GGradientDescent g; static const double B[] = {0, -1, 1000.001, 1e300}, G[] = {1000, 1e-6, 0.5}; int i = sq::choose(4, "bad"), j = sq::choose(3, "good");
	SQ_THROWS(g.setFiniteStep(B[i]), "finite step " << B[i] << " accepted"); SQ_THROWS(g.setStepSize(B[i]), "step size " << B[i] << " accepted"); SQ_THROWS(g.setNStartingPoints(0), "no starting points accepted");
	g.setFiniteStep(G[j]); g.setStepSize(G[j]); SQ_CHECK(g.getFiniteStep() == G[j] && g.getStepSize() == G[j], "settings not stored"); g.setNStartingPoints(j + 1); SQ_CHECK((int)g.getNStartingPoints() == j + 1, "starting points"); sq::state(i * 4 + j + 1);
	reset(); GGradientDescent e; wire(e); SQ_THROWS(e.optimize(), "runs without individuals");
}
