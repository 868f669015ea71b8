// C29: optimization runs stop exactly when a configured criterion is met; counters and records are truthful after every iteration.
#include "lab.hpp"
#include <chrono>
#include <filesystem>
#include <thread>
using namespace lab; typedef std::chrono::steady_clock Clk; typedef std::chrono::duration<double> Sec;
static int stalls_acted, custom_at; static std::function<void()> before_iteration;
template <class A> struct H : A { void actOnStalls_() override { stalls_acted++; } bool customHalt_() const override { return custom_at && now >= custom_at; } };
struct Scan : GParameterScan { Scan() { this->setDefaultPopulationSize(2); this->setNSimpleScans(200); } void actOnStalls_() override { stalls_acted++; } };
static const char *NAME[] = {"evolutionary algorithm", "evolutionary algorithm (comma)", "simulated annealing", "swarm", "gradient descent", "parameter scan"};
static std::shared_ptr<G_OptimizationAlgorithm_Base> alg(int k) {
	if (k < 2) { auto a = std::make_shared<H<GEvolutionaryAlgorithm>>(); a->setNThreads(1); a->setPopulationSizes(3, 1); a->setSortingScheme(k ? sortingMode::MUCOMMANU_SINGLEEVAL : sortingMode::MUPLUSNU_SINGLEEVAL); return a; }
	if (k == 2) { auto a = std::make_shared<H<GSimulatedAnnealing>>(); a->setNThreads(1); a->setPopulationSizes(3, 1); return a; }
	if (k == 3) { auto a = std::make_shared<H<GSwarmAlgorithm>>(); a->setSwarmSizes(1, 2); return a; }
	if (k == 4) { auto a = std::make_shared<H<GGradientDescent>>(); a->setNStartingPoints(1); return a; }
	return std::make_shared<Scan>();
}
struct Conf { int alg = 0; maxMode m = maxMode::MINIMIZE; std::vector<int> vals; int max = 0, min = 0, stall = 0; bool thr = false; double t = 0; int custom = 0; std::uint32_t offset = 0, report = 1, act = 0; int runs = 1; int hup = 0, touch = 0; bool touch_active = true; double scale = 1; bool copied = false; };
static double value(const Conf& c, int it) { return c.scale * c.vals[std::min<std::size_t>((std::size_t)it, c.vals.size() - 1)]; }
static std::string text(const Conf& c) { std::ostringstream o; o << NAME[c.alg] << (c.m == maxMode::MAXIMIZE ? ", maximizing" : ", minimizing") << ", maximum " << c.max << ", minimum " << c.min << ", stalls " << c.stall << ", threshold "; if (c.thr) o << c.t; else o << "off"; o << ", custom " << c.custom << ", offset " << c.offset << ", report " << c.report << ", hang-up after " << c.hup << ", file touched in " << c.touch << ", best values"; for (int v : c.vals) o << " " << c.scale * v; return o.str(); }
static void run(const Conf& c) {
	reset(); stalls_acted = 0; custom_at = 0; auto a = alg(c.alg);
	a->setMaxIteration(c.max); if (c.min) { if (c.max && c.max <= c.min) return; a->setMinIteration(c.min); } a->setMaxStallIteration(c.stall); a->setQualityThreshold(c.t, c.thr); a->setStallCounterThreshold(c.act); if (c.touch) a->setTerminationFile("./stop.txt", c.touch_active);
	SQ_CHECK((int)a->getMaxIteration() == c.max && (int)a->getMinIteration() == c.min && (int)a->getMaxStallIteration() == c.stall && a->hasQualityThreshold() == c.thr, "settings not stored");
	if (c.copied) { auto b = alg(c.alg); b->GObject::load(*a); if (c.alg == 5) std::dynamic_pointer_cast<Scan>(b)->setNSimpleScans(200); a = b; }
	wire(*a); a->setReportIteration(c.report); for (int i = 0; i < 3 && (c.alg < 3 || i < 1); i++) a->push_back(ind({0.5}, -10, 10, 0.05, 1, c.m));
	for (int r = 0; r < c.runs; r++) {
		int base = now, ev_before = (int)evals.size(); (void)ev_before; snaps.clear(); notices.clear(); inits = ends = 0; stalls_acted = 0; std::vector<int> iters; double best = 0; bool any = false; int stall = 0, acted = 0; now = 0; custom_at = c.custom; (void)base;
		// the iteration is identified by the marks of the individuals, as not every iteration needs to be reported
		int cur = -1, n = 0; std::vector<double> hist; std::string rn = r ? "repeated run: " : ""; auto w = [&](const std::string& s) { return text(c) + ": " + rn + s; };
		std::vector<double> known; std::vector<int> st;
		auto reference = [&](int k) { double v = value(c, k); if (!any || better(v, best, c.m)) { best = v; any = true; stall = 0; } else stall++; if (c.act && (std::uint32_t)stall > c.act) acted++; known.push_back(best); st.push_back(stall); };
		fitness = [&](const V&, GParameterSet *p) -> V { int it = (int)p->getAssignedIteration(); SQ_CHECK(it == cur || it == cur + 1 || (cur == -1 && it == (int)c.offset), w("an individual evaluated after iteration " + std::to_string(cur) + " is marked with iteration " + std::to_string(it)));
			if (it != cur) { cur = it; n++; SQ_CHECK(n < 60, w("does not stop")); if (c.hup && n == c.hup) GObject::sigHupHandler(SIGHUP); if (c.touch && n == c.touch) { std::this_thread::sleep_for(std::chrono::milliseconds(25)); std::ofstream o("./stop.txt"); o << "stop"; } } return {value(c, cur - (int)c.offset)}; };
		on_iteration = [&](const G_OptimizationAlgorithm_Base *) { const Snap& s = snaps.back(); while ((int)known.size() < n) reference((int)known.size()); if (c.report == 1) SQ_CHECK((int)s.iter == (int)c.offset + now - 1, w("iteration " + std::to_string(now) + " is counted as " + std::to_string(s.iter))); SQ_CHECK((int)s.iter == cur, w("report of iteration " + std::to_string(s.iter) + " while the individuals are marked with " + std::to_string(cur)));
			SQ_CHECK(s.iter % c.report == 0, w("report after iteration " + std::to_string(s.iter))); auto it = w("after iteration " + std::to_string(s.iter) + ": "); SQ_CHECK(std::get<0>(s.known) == best, it << "best fitness recorded is " << std::get<0>(s.known) << " instead of " << best); SQ_CHECK((int)s.stall == stall && s.progress == (stall == 0), it << s.stall << " stalls counted instead of " << stall);
			for (auto& p : s.pop) { SQ_CHECK((int)p.stalls == stall, it << "an individual was told about " << p.stalls << " stalls instead of " << stall); SQ_CHECK(std::get<0>(p.best) == best, it << "an individual was told that " << std::get<0>(p.best) << " is the best fitness instead of " << best); SQ_CHECK(p.iter == s.iter, it << "an individual is marked with iteration " << p.iter); } SQ_CHECK(stalls_acted == acted, it << "asked to act on stalls " << stalls_acted << " times instead of " << acted); iters.push_back((int)s.iter); };
		if (c.touch == -1) { std::ofstream o("./stop.txt"); o << "old"; o.close(); std::this_thread::sleep_for(std::chrono::milliseconds(25)); }
		a->optimize(c.offset);
		// when must it have stopped?
		int ka = 0, kb = 0; any = false; stall = 0; acted = 0; for (int k = 1; k < 60 && !(ka && kb); k++) { reference(k - 1); int it = (int)c.offset + k; bool crit = (c.max && it >= c.max) || (c.stall && stall > c.stall) || (c.thr && better(best, c.t, c.m)) || (c.custom && k >= c.custom), user = (c.hup && k >= c.hup) || (c.touch > 0 && c.touch_active && k >= c.touch); if (!ka && (user || (crit && it >= c.min))) ka = k; if (!kb && (user || (crit && it > c.min))) kb = k; if (!kb && k > 55) kb = 1 << 20; }
		SQ_CHECK(n == ka || n == kb, w("performed " + std::to_string(n) + " iterations instead of " + std::to_string(kb)));
		SQ_CHECK(a->getIteration() == c.offset + (std::uint32_t)n && a->getStartIteration() == c.offset, w("iteration counter " + std::to_string(a->getIteration()) + " after " + std::to_string(n) + " iterations"));
		any = false; stall = 0; acted = 0; for (int k = 0; k < n; k++) reference(k); SQ_CHECK((int)a->getStallCounter() == stall && a->progress() == (stall == 0), w("stall counter " + std::to_string(a->getStallCounter()) + " after the end instead of " + std::to_string(stall))); SQ_CHECK(a->halted(), w("not halted after the end"));
		if (r == 0) SQ_CHECK(std::get<0>(a->getBestKnownPrimaryFitness()) == best, w("best fitness after the end"));
		int rep = 0; for (int k = 0; k < n; k++) if ((c.offset + k) % c.report == 0) rep++; SQ_CHECK((int)iters.size() == rep && inits == 1 && ends == 1, w(std::to_string(iters.size()) + " reports, " + std::to_string(inits) + " start and " + std::to_string(ends) + " end notices instead of " + std::to_string(rep) + ", 1 and 1")); SQ_CHECK(stalls_acted == acted, w("asked to act on stalls " + std::to_string(stalls_acted) + " times instead of " + std::to_string(acted)));
		sq::H h; for (int k = 0; k < n; k++) h << value(c, k); h << n << c.alg << (int)c.m << c.min << c.max << c.stall; sq::state(h); sq::outcome(std::to_string(n) + " iterations");
		if (r + 1 < c.runs && c.alg != 5) { a->resetToOptimizationStart(); a->registerExecutor(execMode::SERIAL, "./serial.json"); for (int i = 0; i < 3 && (c.alg < 3 || i < 1); i++) a->push_back(ind({0.5}, -10, 10, 0.05, 1, c.m)); }
	}
	std::filesystem::remove("./stop.txt");
}
static std::vector<int> seq(int len) { std::vector<int> v; for (int i = 0; i < len; i++) v.push_back(sq::choose(3, "best")); return v; }
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
static void limits(Conf& c) { static const int MAX[] = {4, 2, 1, 0}, ST[] = {0, 1, 2}; c.max = MAX[sq::choose(4, "maximum")]; c.stall = ST[sq::choose(3, "stalls")]; static const double T[] = {0, 0.5, 1, 1.5, -0.5}; int t = sq::choose(5, "threshold"); c.thr = t > 0; c.t = c.m == maxMode::MAXIMIZE ? 2 - T[t] : T[t]; static const int MIN[] = {0, 2, 3}; c.min = MIN[sq::choose(3, "minimum")]; c.offset = sq::choose(2, "offset"); }
// evolutionary algorithm: all sequences of best values and limits
SQ_SCENARIO(evolution, s.split = 512) { Conf c; c.m = mm(); c.vals = seq(sq::thorough() ? 5 : 4); limits(c); if (!c.max && !c.stall) return; if (!sq::thorough() && c.min == 3 && c.offset) return; run(c); }
SQ_SCENARIO(algorithms, s.split = 512) { Conf c; c.alg = 1 + sq::choose(5, "algorithm"); c.m = mm(); c.vals = seq(3); limits(c); if (!c.max && !c.stall) return; if (!sq::thorough() && (c.min == 2 || (c.offset && c.thr))) return; run(c); }
SQ_SCENARIO(reports, s.split = 128) { Conf c; c.alg = sq::choose(6, "algorithm"); c.m = mm(); c.vals = seq(sq::thorough() ? 4 : 2); c.max = 6; c.offset = sq::choose(3, "offset"); c.report = 1 + sq::choose(3, "report"); c.act = sq::choose(3, "act"); c.runs = 1 + (c.alg != 5 ? sq::choose(2, "runs") : 0); c.copied = sq::choose(2, "copied"); run(c); }
SQ_SCENARIO(scales, s.split = 128) { Conf c; c.alg = sq::choose(6, "algorithm"); c.m = mm(); c.vals = seq(4); for (int& v : c.vals) v -= 1; static const double S[] = {1e-300, 1e300, 1e-12, -1}; c.scale = S[sq::choose(4, "scale")]; c.max = 5; c.stall = 1; if (sq::choose(2, "threshold")) { c.thr = true; c.t = 0; } run(c); }
// criteria raised by the user: a derived class, a hang-up signal and a touched file
SQ_SCENARIO(raised, s.split = 2000) { Conf c; c.alg = sq::choose(6, "algorithm"); c.m = mm(); c.vals = {1, 2, 0, 1}; c.max = sq::choose(2, "maximum") ? 3 : 7; c.min = sq::choose(2, "minimum") * 2; c.offset = sq::choose(2, "offset"); int k = sq::choose(3, "kind"), at = 1 + sq::choose(4, "at"); if (k == 0) { if (c.alg == 5) return; c.custom = at; } else if (k == 1) c.hup = at; else c.touch = at; run(c); }
SQ_SCENARIO(files) { Conf c; c.alg = sq::choose(6, "algorithm"); c.vals = {1, 2, 0}; c.max = 4; if (sq::choose(2, "kind")) c.touch = -1; else { c.touch = 2; c.touch_active = false; } run(c); }
// durations: judged by bounds of the time that really passed
SQ_SCENARIO(durations, s.split = 64) {
	int k = sq::choose(6, "algorithm"); static const double MX[] = {0, 0.02, 0.05}, MN[] = {0, 0.03}; double mx = MX[sq::choose(3, "maximum")], mn = MN[sq::choose(2, "minimum")]; if (mx && mn > mx) return; int maxit = sq::choose(2, "iterations") ? 2 : 6; reset(); custom_at = 0; auto a = alg(k); a->setMaxTime(Sec(mx)); a->setMinTime(Sec(mn)); a->setMaxIteration(maxit); a->setMaxStallIteration(0); wire(*a); for (int i = 0; i < 3; i++) a->push_back(ind({0.5}));
	Clk::time_point first, notice; bool started = false; int last = -1; double cont = -1; auto sec = [](Clk::time_point x, Clk::time_point y) { return Sec(y - x).count(); };
	fitness = [&](const V&, GParameterSet *p) -> V { if (!started) { started = true; first = Clk::now(); } else if ((int)p->getAssignedIteration() != last) cont = sec(first, notice); if ((int)p->getAssignedIteration() != last) { last = (int)p->getAssignedIteration(); SQ_CHECK(cont < 0 || !mx || cont < mx || cont < mn, NAME[k] << " started iteration " << last << " although more than the maximum duration " << mx << " had passed"); SQ_CHECK(cont < 0 || (int)last < maxit || cont <= mn, NAME[k] << " started iteration " << last << " although more than the minimum duration " << mn << " had passed"); std::this_thread::sleep_for(std::chrono::milliseconds(12)); } return {1}; };
	on_iteration = [&](const G_OptimizationAlgorithm_Base *) { notice = Clk::now(); };
	auto t0 = Clk::now(); a->optimize(); double total = sec(t0, Clk::now()); SQ_CHECK(total >= mn, NAME[k] << " stopped after " << total << " s in spite of a minimum duration of " << mn); SQ_CHECK(now >= maxit || (mx && total >= mx), NAME[k] << " stopped after " << now << " of " << maxit << " iterations and " << total << " s, maximum duration " << mx); sq::state(k * 100 + maxit * 10 + (int)(mx * 100) + (mn > 0)); }
// which settings are accepted
SQ_SCENARIO(settings) {
	int k = sq::choose(6, "algorithm"); auto a = alg(k); int mx = (int)a->getMaxIteration(), mn = (int)a->getMinIteration(); double tx = a->getMaxTime().count(), tn = a->getMinTime().count(); std::string h = NAME[k];
	for (int i = 0; i < 3; i++) { static const int N[] = {0, 1, 2, 5}; static const double D[] = {0, 1, 2.5}; int op = sq::choose(4, "operation"); bool thrown = false, bad = false; if (op < 2) { int v = N[sq::choose(4, "iterations")]; h += (op ? " minimum " : " maximum ") + std::to_string(v); bad = op ? mx > 0 && v >= mx : v > 0 && v <= mn; try { if (op) a->setMinIteration(v); else a->setMaxIteration(v); } catch (gemfony_exception&) { thrown = true; } if (!thrown) (op ? mn : mx) = v; }
		else { double v = D[sq::choose(3, "duration")]; h += (op == 2 ? " longest " : " shortest ") + std::to_string(v); bad = op == 2 ? v > 0 && v < tn : tx > 0 && v > tx; try { if (op == 2) a->setMaxTime(Sec(v)); else a->setMinTime(Sec(v)); } catch (gemfony_exception&) { thrown = true; } if (!thrown) (op == 2 ? tx : tn) = v; }
		SQ_CHECK(thrown == bad, h << (thrown ? ": refused although valid" : ": accepted although the maximum does not exceed the minimum")); SQ_CHECK((int)a->getMaxIteration() == mx && (int)a->getMinIteration() == mn && a->getMaxTime().count() == tx && a->getMinTime().count() == tn, h << ": not stored"); }
	sq::state(std::hash<std::string>()(h)); }
