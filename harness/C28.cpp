// C28: parameter scans: each grid point exactly once and nothing else; random scans: the requested number of points inside the ranges.
#include "lab.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan_Factory.hpp"
using namespace lab;
// parameters of the individual: doubles x, y[0], y[1], integers i, j and a boolean b
static const V START{0.5, 1.5, -1.5, 2, -1, 1};
static V point(const GParameterSet& p) { V x; p.streamline<double>(x); std::vector<std::int32_t> i; p.streamline<std::int32_t>(i); std::vector<bool> b; p.streamline<bool>(b); for (int v : i) x.push_back(v); for (bool v : b) x.push_back(v); return x; }
static std::shared_ptr<Ind> make(maxMode m) {
	auto p = std::make_shared<Ind>(1); auto x = std::make_shared<GConstrainedDoubleObject>(START[0], -10, 10); x->setParameterName("x"); p->push_back(x);
	auto y = std::make_shared<GConstrainedDoubleCollection>(2, -10, 10); y->at(0) = START[1]; y->at(1) = START[2]; y->setParameterName("y"); p->push_back(y);
	auto i = std::make_shared<GConstrainedInt32Object>((int)START[3], -20, 20); i->setParameterName("i"); p->push_back(i); auto j = std::make_shared<GConstrainedInt32Object>((int)START[4], -20, 20); j->setParameterName("j"); p->push_back(j);
	auto b = std::make_shared<GBooleanObject>(START[5] != 0); b->setParameterName("b"); p->push_back(b); p->setMaxMode(m); return p;
}
struct Scan : GParameterScan { void size(int n) { this->setDefaultPopulationSize(n); } };
struct Dim { int at; double lo, hi; int n; };
static std::string spec(const Dim& d, int byname) {
	static const char *NAME[] = {"x[0]", "y[0]", "y[1]", "i[0]", "j[0]", "b[0]"}, *BARE[] = {"x", "y", "", "i", "j", "b"}; static const char *IDX[] = {"0", "1", "2", "0", "1", "0"}; std::ostringstream o; o.precision(17); o << (d.at < 3 ? "d(" : d.at < 5 ? "i(" : "b(") << (byname == 2 ? BARE[d.at] : byname ? NAME[d.at] : IDX[d.at]);
	if (d.at == 5) { if (d.n) o << ", false, true, " << d.n; } else { o << ", " << d.lo << ", " << d.hi; if (d.n) o << ", " << d.n; } o << ")"; return o.str();
}
static V grid(const Dim& d) { V g; if (d.at < 3) { int n = d.n ? d.n : 100; for (int i = 0; i < n; i++) g.push_back(d.lo + (d.hi - d.lo) * i / (n - 1)); } else if (d.at < 5) for (int i = (int)d.lo; i <= d.hi; i++) g.push_back(i); else g = {0, 1}; return g; }
static V rnd(V v) { for (double& d : v) d = std::round(d * 1e9) / 1e9 + 0.0; return v; }
struct Conf { std::vector<Dim> dims; int byname; bool random; maxMode m; int pop; int copies = 0; std::uint32_t offset = 0; int simple = 0; bool by_text = true; int runs = 1; bool reset_between = false; int given = 1; };
static void run(Conf c, int pat) {
	if (c.byname == 2) for (auto& d : c.dims) if (d.at == 2) c.byname = 1;
	std::string text; for (auto& d : c.dims) text += (text.empty() ? "" : ", ") + spec(d, c.byname); std::map<V, int> want; long total = 1; int n = 0;
	if (c.simple) { text = "s(" + std::to_string(c.simple) + ")"; total = c.simple; } else if (c.random) for (auto& d : c.dims) total *= d.n ? d.n : 100; else { std::vector<V> all{START}; for (auto& d : c.dims) { std::vector<V> nx; for (auto& a : all) for (double g : grid(d)) { V y = a; y[d.at] = g; nx.push_back(y); } all = nx; } total = (long)all.size(); for (auto& a : all) want[rnd(a)]++; }
	reset(); auto w = [&](const std::string& x) { std::ostringstream o; o << (c.random ? "random scan " : "scan ") << "\"" << text << "\", population " << c.pop << ", " << c.copies << " copies: " << x; return o.str(); };
	Scan first; first.setScanRandomly(c.random); if (c.simple && !c.by_text) first.setNSimpleScans(c.simple); else first.setParameterSpecs(text); first.size(c.pop);
	std::vector<std::shared_ptr<GParameterScan>> cp; GParameterScan *s = &first; for (int k = 0; k < c.copies; k++) { if (k % 2) { auto q = std::make_shared<GParameterScan>(); q->GObject::load(*s); cp.push_back(q); } else cp.push_back(s->clone<GParameterScan>()); s = cp.back().get(); }
	s->setMaxStallIteration(0); s->setMaxIteration(100000); wire(*s); for (int k = 0; k < c.given; k++) s->push_back(make(c.m));
	std::vector<std::pair<V, double>> seen; fitness = [&](const V&, GParameterSet *p) -> V { V y = point(*p); double f = pat == 0 ? (double)((n * 7) % 11) : pat == 1 ? -n : n; n++; seen.push_back({y, f});
		SQ_CHECK((long)seen.size() <= total, w("more than the requested " + std::to_string(total) + " evaluations")); return {f}; };
	for (int r = 0; r < c.runs; r++) {
		seen.clear(); int before = now; if (r && c.reset_between) { s->resetToOptimizationStart(); s->registerExecutor(execMode::SERIAL, "./serial.json"); } if (r && s->empty()) s->push_back(make(c.m)); s->optimize(c.offset); std::string rn = r ? "repeated run: " : "";
		SQ_CHECK((long)seen.size() == total, w(rn + std::to_string(seen.size()) + " evaluations instead of " + std::to_string(total)));
		long iters = (total + c.pop - 1) / c.pop; SQ_CHECK(now - before == iters, w(rn + std::to_string(now - before) + " iterations instead of " + std::to_string(iters)));
		if (!c.random && !c.simple) { std::map<V, int> got; for (auto& e : seen) { V k = rnd(e.first); got[k]++; SQ_CHECK(want.count(k), w(rn + "evaluated " + str(k) + " which is no grid point")); SQ_CHECK(got[k] == 1, w(rn + "grid point " + str(k) + " evaluated more than once")); } SQ_CHECK(got.size() == want.size(), w(rn + "missed grid points")); }
		else for (auto& e : seen) for (int k = 0; k < 6; k++) { bool dim = false; for (auto& d : c.dims) if (d.at == k && !c.simple) { dim = true; SQ_CHECK(k == 5 || (e.first[k] >= d.lo && e.first[k] <= d.hi), w(rn + "point " + str(e.first) + " outside of the range")); } if (!dim && !c.simple) SQ_CHECK(e.first[k] == START[k], w(rn + "point " + str(e.first) + " changes a parameter which is not scanned")); if (c.simple && k < 5) SQ_CHECK(std::fabs(e.first[k]) <= (k < 3 ? 10 : 20), w("point " + str(e.first))); }
		auto best = seen[0]; for (auto& e : seen) if (better(e.second, best.second, c.m)) best = e; auto b = s->getBestGlobalIndividual<GParameterSet>(); SQ_CHECK(b, w("no best individual")); double f = std::get<0>(b->getFitnessTuple(0));
		if (r == 0 || c.reset_between) { bool in = false; for (auto& e : seen) if (e.second == f && rnd(point(*b)) == rnd(e.first)) in = true; SQ_CHECK(f == best.second && in, w(rn + "the best individual is " + str(point(*b)) + " with " + std::to_string(f) + " instead of " + str(best.first) + " with " + std::to_string(best.second)));
			SQ_CHECK(std::get<0>(s->getBestKnownPrimaryFitness()) == best.second, w(rn + "wrong best fitness")); }
	}
	sq::H h; for (auto& e : seen) h << e.first; h << c.pop << c.copies << pat << c.runs << (int)c.m; sq::state(h); sq::outcome(std::to_string(total) + " points");
}
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
static std::vector<Dim> dims() { // any set of the six values
	std::vector<Dim> v; int set = 1 + sq::choose(63, "dimensions"), most = sq::thorough() ? 6 : 3, k = 0; for (int a = 0; a < 6; a++) if (set >> a & 1) k++; if (k > most) return v;
	for (int a = 0; a < 6; a++) if (set >> a & 1) { int kind = k <= 2 ? sq::choose(3, "extent") : a % 3; if (a < 3) { static const int N[] = {2, 3, 5}; static const double L[] = {-10, 0, 2.5}, H[] = {10, 1, 7.5}; v.push_back(Dim{a, L[kind], H[kind], N[kind]}); } else if (a < 5) { static const int L[] = {-2, 3, 0}, H[] = {1, 3, 2}, N[] = {0, 4, 2}; v.push_back(Dim{a, (double)L[kind], (double)H[kind], N[kind]}); } else { static const int N[] = {0, 2, 5}; v.push_back(Dim{a, 0, 1, N[kind]}); } }
	return v; }
SQ_SCENARIO(grid_points, s.split = 512) { Conf c; c.random = false; c.dims = dims(); if (c.dims.empty()) return; c.byname = sq::choose(3, "by name"); c.m = mm(); c.pop = 1 + sq::choose(5, "population"); run(c, 0); }
SQ_SCENARIO(grid_copies, s.split = 128) { Conf c; c.random = false; c.byname = false; c.dims = std::vector<Dim>{{0, -10, 10, 3}, {3, -1, 1, 0}, {5, 0, 1, 0}}; c.dims.resize(1 + sq::choose(3, "dimensions")); c.m = mm(); c.pop = 1 + sq::choose(7, "population"); c.copies = sq::choose(4, "copies"); c.offset = sq::choose(2, "offset") * 5; c.runs = 1 + sq::choose(3, "runs"); c.reset_between = sq::choose(2, "reset"); c.given = 1 + sq::choose(2, "given"); run(c, sq::choose(3, "landscape")); }
SQ_SCENARIO(random_points, s.split = 128) { Conf c; c.random = true; c.byname = sq::choose(3, "by name"); c.dims = std::vector<Dim>{{1, 2, 3, 3}, {4, -1, 1, 4}, {5, 0, 1, 2}}; c.dims.resize(1 + sq::choose(3, "dimensions")); if (sq::choose(2, "order")) std::reverse(c.dims.begin(), c.dims.end()); c.m = mm(); c.pop = 1 + sq::choose(6, "population"); c.copies = sq::choose(3, "copies"); c.runs = 1 + sq::choose(2, "runs"); c.reset_between = true; run(c, 0); }
// extreme random numbers must stay inside of the ranges as well
SQ_SCENARIO(random_edges) { static const std::uint32_t E[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; int e = sq::choose(6, "number"), at = sq::choose(6, "value"), span = sq::choose(4, "span"); Conf c; c.random = true; c.byname = false; c.m = maxMode::MINIMIZE; c.pop = 2;
	c.dims = std::vector<Dim>{Dim{at, at < 3 ? -1. : -span, at < 3 ? 1. + span : (double)span, 4}}; Scan s; s.setScanRandomly(true); std::string t = spec(c.dims[0], false); s.setParameterSpecs(t); s.size(2); s.setMaxStallIteration(0); s.setMaxIteration(1000); reset(); wire(s); s.push_back(make(c.m)); int n = 0;
	fitness = [&](const V&, GParameterSet *p) -> V { V y = point(*p); if (at < 5) SQ_CHECK(y[at] >= c.dims[0].lo && y[at] <= c.dims[0].hi, "random scan \"" << t << "\" chose " << y[at]); return {(double)n++}; }; int k = 0; mockrnd::source([&k, e] { return ++k % 7 == 0 ? mockrnd::pseudo() : E[e]; }); s.optimize(); mockrnd::seed(1); sq::state(e * 100 + at * 10 + span); }
SQ_SCENARIO(simple_scans) { Conf c; c.random = sq::choose(2, "random"); c.byname = false; c.simple = 1 + sq::choose(sq::thorough() ? 20 : 9, "points"); c.by_text = sq::choose(2, "by text"); c.m = mm(); c.pop = 1 + sq::choose(6, "population"); c.copies = sq::choose(2, "copies"); c.runs = 1 + sq::choose(3, "runs"); c.reset_between = sq::choose(2, "reset"); run(c, 0); }
SQ_SCENARIO(refusals) {
	GParameterScan s; s.setScanRandomly(false); static const char *B[] = {"", "d(3, 0, 1, 2)", "i(2, 0, 1)", "d(z, 0, 1, 2)", "d(y[2], 0, 1, 2)", "d(0, 0, 1, 1)", "f(0, 0, 1, 2)", "d(0, 0, 1, 2), i(i, 0, 1)"}; int k = sq::choose(9, "text"); reset(); wire(s); s.push_back(make(maxMode::MINIMIZE)); s.setMaxIteration(3); fitness = [&](const V&, GParameterSet *) -> V { return {1}; };
	if (k == 8) { SQ_THROWS(s.optimize(), "a scan without any parameters was started"); return; } bool t = false; try { s.setParameterSpecs(B[k]); s.optimize(); } catch (std::exception&) { t = true; } SQ_CHECK(t, "\"" << B[k] << "\" accepted"); sq::state(k + 1);
}
// the settings read from a configuration file
SQ_SCENARIO(config_file) {
	bool rnd = sq::choose(2, "random"); int size = 1 + sq::choose(4, "size"); reset(); { std::ofstream o("./scan.json"); auto v = [&](const char *n, const std::string& x) { o << "\"" << n << "\": { \"comment\": \"c\", \"default\": \"" << x << "\", \"value\": \"" << x << "\" }"; }; o << "{ \"header\": { \"comment\": \"c\" }, "; v("size", std::to_string(size)); o << ", "; v("parameterOptions", "d(0, 0., 1., 3), i(1, 2, 3)"); o << ", "; v("scanRandomly", rnd ? "true" : "false"); o << " }";  }
	GParameterScanFactory fac("./scan.json"); auto sp = fac.get_as<GParameterScan>(); GParameterScan& s = *sp; SQ_CHECK(s.getScanRandomly() == rnd && (int)s.getDefaultPopulationSize() == size, "settings not stored"); wire(s); s.push_back(make(maxMode::MINIMIZE)); std::set<V> pts; int n = 0; fitness = [&](const V&, GParameterSet *p) -> V { V y = point(*p); n++; if (pts.size() < 1000) pts.insert(::rnd(y)); return {y[0] + y[4]}; };
	s.optimize(); if (rnd) return; SQ_CHECK(n == 6 && pts.size() == 6 && now == (6 + size - 1) / size, "grid scan by configuration file with population " << size << ": " << n << " evaluations of " << pts.size() << " points in " << now << " iterations"); sq::state(size * 2 + rnd);
}
