// C25: swarm: personal, neighbourhood and global bests are the best positions visited, velocities are limited, neighbourhoods keep their sizes.
#include "lab.hpp"
using namespace lab; typedef GSwarmAlgorithm_PersonalityTraits T;
struct Conf { int nn, nm; maxMode m; int iters; double cp = 1.5, cn = 1, cg = 0.7, cv = 0.6, vr = 0.15; updateRule rule = updateRule::SWARM_UPDATERULE_LINEAR; std::uint32_t rep = 0; int given = -1; bool rnd = true; double lo = -10, hi = 10; int dims = 1; bool exact = false, parallel = false; std::uint32_t offset = 0; bool sig = false; };
struct Best { V x; double f; bool set = false; };
typedef std::vector<std::shared_ptr<GParameterSet>> Keep;
static const double FAIL = 1e99; static const std::uint32_t U = 0x80000000u;
static double val(const std::tuple<double, double>& t) { double r = std::get<0>(t), x = std::get<1>(t); SQ_CHECK(std::fabs(tr(r) - x) <= 1e-12 * std::fabs(x) || r == x, "fitness " << r << " was transformed to " << x); return r; }
static double f(const GParameterSet& p) { return val(p.getFitnessTuple(0)); }
static void run(const Conf& c, std::function<double()> ask) {
	reset(); sigB = c.sig ? 10 : 0; if (c.exact) mockrnd::source([] { return U; });
	GSwarmAlgorithm sw; sw.setSwarmSizes(c.nn, c.nm); sw.setCPersonal(c.cp); sw.setCNeighborhood(c.cn); sw.setCGlobal(c.cg); sw.setCVelocity(c.cv); sw.setVelocityRangePercentage(c.vr); sw.setUpdateRule(c.rule); sw.setRepulsionThreshold(c.rep);
	if (c.rnd) sw.setNeighborhoodsRandomFillUp(); else sw.setNeighborhoodsEqualFillUp();
	sw.setMaxStallIteration(0); sw.setMaxIteration(c.offset + c.iters); wire(sw); int N = c.nn * c.nm, given = c.given < 0 ? N : c.given;
	std::vector<V> startx; for (int i = 0; i < given; i++) { V x; for (int d = 0; d < c.dims; d++) x.push_back(c.lo + (c.hi - c.lo) * (0.1 + std::fmod(0.37 * i + 0.21 * d, 0.8))); startx.push_back(x); sw.push_back(ind(x, c.lo, c.hi, 0.05, 1, c.m)); }
	Keep keep; std::map<const GParameterSet *, Best> pb; std::vector<Best> nb(c.nn); Best gb; std::map<const GParameterSet *, int> hood; std::map<const GParameterSet *, V> before, vel; bool failed = false; std::uint32_t stall = 0; int first_evals = 0;
	auto up = [&](Best& b, const V& x, double v) { if (!b.set || better(v, b.f, c.m)) { b.x = x; b.f = v; b.set = true; } };
	std::string what; auto w = [&](const std::string& x) { std::ostringstream o; o << c.nn << " neighbourhoods of " << c.nm << (c.m == maxMode::MAXIMIZE ? " maximizing" : "") << ", iteration " << now << ", evaluations"; for (auto& e : evals) o << " " << e.it << ":" << str(e.x) << "->" << str(e.f); o << ": " << x; return o.str(); };
	fitness = [&](const V& x, GParameterSet *p) -> V {
		for (double v : x) SQ_CHECK(v >= c.lo && v <= c.hi, w("position " + str(x) + " outside of its range"));
		int n = (int)p->getPersonalityTraits<T>()->getNeighborhood(); SQ_CHECK(n >= 0 && n < c.nn, w("neighbourhood " + std::to_string(n))); hood[p] = n;
		if (now > 0 && before.count(p)) { // displacement
			const V& b = before[p]; double lim = c.vr * (c.hi - c.lo); for (std::size_t d = 0; d < x.size(); d++) SQ_CHECK(std::fabs(x[d] - b[d]) <= lim * (1 + 1e-9) + 1e-12, w("moved from " + str(b) + " to " + str(x) + " although the velocity limit is " + std::to_string(lim)));
			if (c.exact && !failed) { bool fold = false; for (double b_ : b) fold |= b_ - lim <= c.lo || b_ + lim >= c.hi; V last; bool ok = c.cv == 0; if (!ok && vel.count(p)) { last = vel[p]; ok = true; } if (ok) { double u = U / 4294967296.; V v(x.size(), 0.); double over = 1; Best P = pb[p], Nb = nb[n];
				for (std::size_t d = 0; d < x.size(); d++) { v[d] = (last.empty() ? 0. : c.cv * last[d]) + c.cp * u * (P.x[d] - b[d]) + c.cn * u * (Nb.x[d] - b[d]) + (c.nn > 1 ? c.cg * u * (gb.x[d] - b[d]) : 0); over = std::max(over, std::fabs(v[d]) / lim); }
				V want; for (std::size_t d = 0; d < x.size(); d++) { double s = (c.rep && stall >= c.rep ? -1 : 1) * v[d] / over; auto o = ind(V{b[d]}, c.lo, c.hi); o->assignValueVector<double>(V{b[d] + s}, activityMode::ALLPARAMETERS); want.push_back(par(*o)[0]); }
				for (std::size_t d = 0; d < x.size(); d++) SQ_CHECK(std::fabs(x[d] - want[d]) < 1e-6, w("moved from " + str(b) + " to " + str(x) + " instead of " + str(want) + " (personal best " + str(P.x) + ", of the neighbourhood " + str(Nb.x) + ", of the swarm " + str(gb.x) + ", " + std::to_string(stall) + " stalls" + (last.empty() ? std::string() : ", last velocity " + str(last)) + ")")); } if (c.cv != 0) { vel.erase(p); if (!fold) { V k; for (std::size_t d = 0; d < x.size(); d++) k.push_back((c.rep && stall >= c.rep ? -1 : 1) * (x[d] - b[d])); vel[p] = k; } } }
		}
		double v = ask(); if (v == FAIL) { failed = true; throw std::runtime_error("scripted failure"); }
		return {v};
	};
	on_eval = [&](const V& x, const V& v, GParameterSet *p) { up(pb[p], x, v[0]); };
	on_iteration = [&](const G_OptimizationAlgorithm_Base *a) {
		const Snap& s = snaps.back(); int it = now - 1; for (auto& p : *a) keep.push_back(p);
		SQ_CHECK((int)s.pop.size() == N, w("population of " + std::to_string(s.pop.size())));
		bool any = false; double itbest = 0; for (auto& e : evals) if (e.it == it) { int n = hood[e.p]; up(nb[n], e.x, e.f[0]); up(gb, e.x, e.f[0]); if (!any || better(e.f[0], itbest, c.m)) itbest = e.f[0]; any = true; }
		for (int n = 0; n < c.nn; n++) { SQ_CHECK((int)sw.getCurrentNNeighborhoodMembers(n) == c.nm, w("neighbourhood " + std::to_string(n) + " has " + std::to_string(sw.getCurrentNNeighborhoodMembers(n)) + " members"));
			if (!nb[n].set) continue; auto p = sw.getBestNeighborhoodIndividual<GParameterSet>(n); SQ_CHECK(p && p->is_processed(), w("neighbourhood " + std::to_string(n) + " has no best individual")); bool in = false; V x = par(*p); for (auto& e : evals) if (e.x == x && e.f[0] == f(*p) && hood[e.p] == n) in = true;
			SQ_CHECK(f(*p) == nb[n].f && in, w("best of neighbourhood " + std::to_string(n) + " is " + str(x) + " with " + std::to_string(f(*p)) + " instead of " + str(nb[n].x) + " with " + std::to_string(nb[n].f))); nb[n].x = x; }
		std::map<const GParameterSet *, V> last = before; before.clear();
		for (int i = 0; i < N; i++) { const IndS& q = s.pop[i]; auto t = std::dynamic_pointer_cast<T>(q.tr); SQ_CHECK(t && (int)t->getNeighborhood() == i / c.nm, w("individual " + std::to_string(i) + " is in neighbourhood " + std::to_string(t ? t->getNeighborhood() : 99)));
			if (!q.processed) { SQ_CHECK(failed, w("unprocessed individual")); pb.erase(q.p); continue; }
			double g = val(t->getPersonalBestQuality()); V x = par(*t->getPersonalBest());
			if (!pb.count(q.p)) { SQ_CHECK(failed, w("individual of unknown origin")); SQ_CHECK(is_eval(q.x, q.raw) && is_eval(x, V{g}) && !better(q.raw[0], g, c.m), w("the replacement has a wrong personal best " + str(x))); pb[q.p] = Best{x, g, true}; }
			bool in = false; for (auto& e : evals) if (e.p == q.p && e.x == x && e.f[0] == g) in = true; if (failed) in = is_eval(x, V{g});
			SQ_CHECK(g == pb[q.p].f && in, w("personal best of individual " + std::to_string(i) + " at " + str(q.x) + " is " + str(x) + " with " + std::to_string(g) + " instead of " + str(pb[q.p].x) + " with " + std::to_string(pb[q.p].f)));
			SQ_CHECK(t->getPersonalBest()->is_processed() && f(*t->getPersonalBest()) == g, w("personal best and its fitness differ")); pb[q.p].x = x; before[q.p] = q.x; SQ_CHECK(is_eval(q.x, q.raw), w("individual " + std::to_string(i) + " carries a fitness which is not that of its position")); }
		if (any) SQ_CHECK(val(s.current) == itbest, w("wrong best fitness of the iteration: " + std::to_string(std::get<0>(s.current)) + " instead of " + std::to_string(itbest)));
		if (gb.set) SQ_CHECK(val(s.known) == gb.f, w("wrong best fitness so far"));
		stall = s.stall; sq::H h; for (auto& e : evals) h << e.it << e.f << hood[e.p]; h << c.nn << c.nm << (int)c.m << c.given; sq::state(h); if (!c.exact) mockrnd::seed(50 + it);
	};
	std::string ex; try { sw.optimize(c.offset); } catch (std::exception& e) { ex = e.what(); }
	if (!ex.empty()) { bool none = failed; for (auto& e : evals) if (e.it == now) none = false; // gave up since no evaluation of the iteration succeeded
		 SQ_CHECK(none, w("optimization was given up: " + ex.substr(0, 300))); sq::outcome("no evaluation succeeded"); return; }
	SQ_CHECK(now == c.iters, "ran " << now << " iterations");
	if (!failed) for (auto& e : evals) if (e.it == 0) first_evals++; if (!failed) SQ_CHECK(first_evals >= N, w("only " + std::to_string(first_evals) + " evaluations in the first iteration"));
	for (auto& e : startx) if (!failed && (given == 1 || given == c.nn || given == N)) { bool in = false; for (auto& v : evals) if (v.it == 0) { in = true; for (std::size_t d = 0; d < e.size(); d++) if (std::fabs(v.x[d] - e[d]) > 1e-9) in = false; if (in) break; } SQ_CHECK(in, w("start position " + str(e) + " was not evaluated")); }
	sq::outcome(std::to_string(evals.size()) + (failed ? " evaluations, with failures" : " evaluations"));
}
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
static double pick3() { return (double)sq::choose(3, "fitness"); }
static double pick2() { return (double)sq::choose(2, "fitness"); }
static void all(int nn, int nm, int it, bool three) { Conf c{nn, nm, mm(), it}; run(c, three ? pick3 : pick2); }
SQ_SCENARIO(n1m2, s.split = 512) { all(1, 2, 4, true); }
SQ_SCENARIO(n2m2, s.split = 512) { all(2, 2, 3, sq::thorough()); }
SQ_SCENARIO(n1m3, s.split = 512) { all(1, 3, 3, sq::thorough()); }
SQ_SCENARIO(n3m2, s.split = 512) { all(3, 2, 2, false); }
// failing evaluations
SQ_SCENARIO(failing, s.split = 512) { Conf c{2, 2, mm(), 3}; run(c, [] { int k = sq::choose(sq::thorough() ? 3 : 2, "fitness or failure"); static int n; if (k == 0) return FAIL; return k == 1 ? (double)((n = (n * 5 + 3) % 7)) : -1.; }); }
SQ_SCENARIO(failing1, s.split = 512) { Conf c{1, 2, mm(), 4}; run(c, [] { int k = sq::choose(3, "fitness or failure"); return k == 0 ? FAIL : (double)k; }); }
// the rule by which positions are moved, with constant random numbers and without inertia: reveals the bests the swarm really uses
SQ_SCENARIO(rule, s.split = 512) {
	static const double C[] = {0, 0.5, 2}; Conf c{1 + sq::choose(3, "neighbourhoods"), 2, mm(), sq::thorough() ? 4 : 3}; c.cv = 0; c.exact = true; c.dims = 2; c.cp = C[sq::choose(3, "personal")]; c.cn = C[sq::choose(3, "neighbourhood")]; c.cg = C[sq::choose(3, "global")];
	c.vr = sq::choose(2, "limit") ? 1. : 0.05; c.rule = sq::choose(2, "rule") ? updateRule::SWARM_UPDATERULE_CLASSIC : updateRule::SWARM_UPDATERULE_LINEAR; c.rep = sq::choose(3, "repulsion"); int pat = sq::choose(sq::thorough() ? 8 : 4, "landscape"), n = 0;
	run(c, [&] { n++; return (double)((n * (2 * pat + 3)) % 11); });
}
SQ_SCENARIO(rule_deep, s.split = 512) { Conf c{2, 2, mm(), 3}; c.cv = 0; c.exact = true; c.cp = 0.4; c.cn = 0.8; c.cg = 1.1; c.vr = 1; run(c, sq::thorough() ? pick3 : pick2); }
// with inertia: once an individual's velocity is known from its last move, the next one follows
SQ_SCENARIO(rule_inertia, s.split = 512) {
	static const double C[] = {0, 0.4, 2}, CV[] = {0.5, 1, 2}; Conf c{1 + sq::choose(2, "neighbourhoods"), 2, mm(), sq::thorough() ? 7 : 5}; c.cv = CV[sq::choose(3, "inertia")]; c.exact = true; c.dims = 2; c.cp = C[sq::choose(3, "personal")]; c.cn = C[sq::choose(3, "neighbourhood")]; c.cg = 0.7;
	c.vr = sq::choose(2, "limit") ? 0.2 : 0.03; c.rule = sq::choose(2, "rule") ? updateRule::SWARM_UPDATERULE_CLASSIC : updateRule::SWARM_UPDATERULE_LINEAR; c.rep = sq::choose(3, "repulsion"); int pat = sq::choose(sq::thorough() ? 6 : 3, "landscape"), n = 0; run(c, [&] { n++; return (double)((n * (2 * pat + 3)) % 11); });
}
// transformed evaluations
SQ_SCENARIO(sigmoid, s.split = 512) { Conf c{1 + sq::choose(2, "neighbourhoods"), 2, mm(), 3}; c.sig = true; run(c, [] { return 3. * sq::choose(2, "fitness") - 1; }); }
// sizes, numbers of individuals handed over, fill-up modes, ranges, inertia
SQ_SCENARIO(configs, s.split = 256) {
	static const double LO[] = {-10, 5, -1e-3, 1e6}, HI[] = {10, 10, 1e-3, 1e6 + 1}; int r = sq::choose(4, "range"); Conf c{1 + sq::choose(sq::thorough() ? 8 : 6, "neighbourhoods"), 2 + sq::choose(2, "members"), mm(), 4}; c.lo = LO[r]; c.hi = HI[r]; int N = c.nn * c.nm;
	static const double CV[] = {0.6, 1, 3}; c.cv = CV[sq::choose(3, "inertia")]; c.vr = sq::choose(2, "limit") ? 0.5 : 0.1; c.rnd = sq::choose(2, "random fill-up"); int g[] = {1, c.nn, N, c.nn > 1 ? c.nn - 1 : 1, c.nn + 1, N + 1, N + 3}; c.given = g[sq::choose(7, "given")]; c.offset = sq::choose(2, "offset") * 3; int n = 0;
	run(c, [&] { n++; return (double)((n * 5) % 13); });
}
SQ_SCENARIO(settings) {
	GSwarmAlgorithm s; static const double B[] = {0, -0.1, 1.0000001, 5}; SQ_THROWS(s.setVelocityRangePercentage(B[sq::choose(4, "limit")]), "wrong velocity range accepted");
	int a = sq::choose(3, "neighbourhoods"), b = sq::choose(4, "members"); s.setSwarmSizes(a, b); SQ_CHECK((int)s.getNNeighborhoods() == std::max(a, 1) && (int)s.getDefaultNNeighborhoodMembers() == std::max(b, 2) && s.getDefaultPopulationSize() == s.getNNeighborhoods() * s.getDefaultNNeighborhoodMembers(), "swarm sizes " << a << " x " << b << " not normalised"); sq::state(a * 10 + b + 1);
}
// without attraction an individual keeps its velocity (times the inertia)
SQ_SCENARIO(inertia) {
	static const double LO[] = {-10, 5, -1e-3, 100}, HI[] = {10, 10, 1e-3, 200}; int r = sq::choose(4, "range"); double cv = sq::choose(2, "inertia") ? 1. : 0.5; reset(1 + sq::choose(5, "seed"));
	GSwarmAlgorithm sw; sw.setSwarmSizes(1, 2); sw.setCPersonal(0); sw.setCNeighborhood(0); sw.setCGlobal(0); sw.setCVelocity(cv); sw.setVelocityRangePercentage(0.04); sw.setMaxStallIteration(0); sw.setMaxIteration(6); wire(sw); double mid = 0.5 * (LO[r] + HI[r]);
	sw.push_back(ind({mid}, LO[r], HI[r])); sw.push_back(ind({mid}, LO[r], HI[r])); std::map<const GParameterSet *, V> tr; std::map<const GParameterSet *, int> id; fitness = [&](const V& x, GParameterSet *p) -> V { int n = (int)id.size(); id.insert({p, n}); tr[p].push_back(x[0]); return {(double)id[p]}; };
	sw.optimize(); for (auto& t : tr) { auto& x = t.second; for (std::size_t i = 2; i < x.size(); i++) { double a = x[i - 1] - x[i - 2], b = x[i] - x[i - 1]; SQ_CHECK(std::fabs(b - cv * a) < 1e-9 * (HI[r] - LO[r]), "range [" << LO[r] << "," << HI[r] << "], inertia " << cv << ": positions " << str(x)); } }
	sq::state(r + 1);
}
