// C35: built-in objective functions against their published formulas (long double), for all vectors over a value set, all
// parameterisations and every order of evaluations; the individuals a factory makes follow its options.
#include "sq.hpp"
#include "mockrandom.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva-individuals/GFunctionIndividual.hpp"
#include "geneva-individuals/GLineFitIndividual.hpp"
#include "geneva-individuals/GTestIndividual2.hpp"
#include <cmath>
#include <fstream>
#include <regex>
#include <unistd.h>
using namespace Gem::Geneva; typedef std::vector<double> V; typedef long double ld;
static const ld PI = 3.141592653589793238462643383279502884L;
static ld sq2(ld x) { return x * x; }
static const char *FN[] = {"parabola", "noisy parabola", "Rosenbrock", "Ackley", "Rastrigin", "Schwefel", "Salomon", "negative parabola"};
// value and the magnitude of its terms (for the rounding error)
static ld formula(int f, const V& x, ld& mag) {
	ld s = 0, m = 0; std::size_t n = x.size(); auto add = [&](ld t) { s += t; m += fabsl(t); };
	switch (f) {
	case 0: for (double d : x) add(sq2(d)); break;
	case 1: { for (double d : x) add(sq2(d)); ld q = s; s = (cosl(q) + 2) * q; m = q * 3 + q * q; break; }
	case 2: for (std::size_t i = 0; i + 1 < n; i++) { add(100 * sq2(sq2((ld)x[i]) - x[i + 1])); add(sq2(1 - (ld)x[i])); m += 100 * (sq2(sq2((ld)x[i])) + sq2((ld)x[i + 1])); } break;
	case 3: for (std::size_t i = 0; i + 1 < n; i++) { add(expl(-0.2L) * sqrtl(sq2(x[i]) + sq2(x[i + 1]))); add(3 * cosl(2 * (ld)x[i])); add(3 * sinl(2 * (ld)x[i + 1])); m += fabsl(x[i]) + fabsl(x[i + 1]); } break;
	case 4: add(10 * (ld)n); for (double d : x) { add(sq2(d)); add(-10 * cosl(2 * PI * (ld)d)); m += 100 * fabsl(d); } break;
	case 5: for (double d : x) { add(-(ld)d * sinl(sqrtl(fabsl((ld)d)))); m += fabsl(d) * (1 + sqrtl(fabsl((ld)d))); } s /= n; break;
	case 6: { for (double d : x) add(sq2(d)); ld r = sqrtl(s); s = 1 - cosl(2 * PI * r) + 0.1L * r; m = 2 + 10 * r; break; }
	case 7: for (double d : x) add(-sq2(d)); break; }
	mag = m + 1; return s; }
static void check(int f, const V& x, double got, const std::string& c) { ld mag, want = formula(f, x, mag); SQ_CHECK(fabsl(got - want) <= 1e-12L * mag, FN[f] << " of (" << [&] { std::ostringstream o; o << std::setprecision(17); for (double d : x) o << d << " "; return o.str(); }() << ") is " << (double)want << ", the individual says " << got << c); sq::step(); }
// parameterisations: the five of the factory, single unconstrained objects, and mixtures
static const int NP = 8; static const char *PN[] = {"collection", "constrained collection", "object collection", "constrained object collection", "constrained objects", "objects", "constrained object + collection", "nested"};
static std::shared_ptr<GFunctionIndividual> make(int f, int p, const V& x, bool assign) {
	auto g = std::make_shared<GFunctionIndividual>(); g->setDemoFunction((solverFunction)f); const double L = -600, U = 600; std::size_t n = x.size(); auto at = [&](std::size_t i) { return assign ? 1.5 : x[i]; };
	switch (p) {
	case 0: { auto c = std::make_shared<GDoubleCollection>(n, 1.5, L, U); for (std::size_t i = 0; i < n; i++) c->at(i) = at(i); g->push_back(c); break; }
	case 1: { auto c = std::make_shared<GConstrainedDoubleCollection>(n, 1.5, L, U); for (std::size_t i = 0; i < n; i++) c->setValue(i, at(i)); g->push_back(c); break; }
	case 2: { auto c = std::make_shared<GDoubleObjectCollection>(); for (std::size_t i = 0; i < n; i++) c->push_back(std::make_shared<GDoubleObject>(at(i), L, U)); g->push_back(c); break; }
	case 3: { auto c = std::make_shared<GConstrainedDoubleObjectCollection>(); for (std::size_t i = 0; i < n; i++) c->push_back(std::make_shared<GConstrainedDoubleObject>(at(i), L, U)); g->push_back(c); break; }
	case 4: for (std::size_t i = 0; i < n; i++) g->push_back(std::make_shared<GConstrainedDoubleObject>(at(i), L, U)); break;
	case 5: for (std::size_t i = 0; i < n; i++) g->push_back(std::make_shared<GDoubleObject>(at(i), L, U)); break;
	case 6: { g->push_back(std::make_shared<GConstrainedDoubleObject>(at(0), L, U)); auto c = std::make_shared<GDoubleCollection>(n - 1, 1.5, L, U); for (std::size_t i = 1; i < n; i++) c->at(i - 1) = at(i); if (n > 1) g->push_back(c); break; }
	default: { auto c = std::make_shared<GParameterObjectCollection>(); for (std::size_t i = 0; i < n; i++) if (i % 2) c->push_back(std::make_shared<GConstrainedDoubleObject>(at(i), L, U)); else c->push_back(std::make_shared<GDoubleObject>(at(i), L, U)); g->push_back(c); } }
	if (assign) g->assignValueVector<double>(x, activityMode::ALLPARAMETERS);
	return g; }
static const V W = {0, 1, -1, 0.5, -0.25, 3.7, 420.96874635998, -512, 1.4393};
static std::size_t mindim(int f) { return f == 2 || f == 3 ? 2 : 1; }
static double eval(GFunctionIndividual& g) { g.mark_as_due_for_processing(); g.process(); return g.raw_fitness(0); }
SQ_SCENARIO(formulas, s.split = 72) {
	int f = sq::choose(8, "function"), d = 1 + sq::choose(3, "dimension"), first = sq::choose((int)W.size(), "first value"); if (d < (int)mindim(f)) return; if (sq::thorough() && d == 3) d = 4;
	V x(d, 0); x[0] = W[first]; std::vector<int> ix(d, 0); long n = 0;
	for (;;) { for (int i = 1; i < d; i++) x[i] = W[ix[i]]; int p = (int)(n++ % NP); for (int as = 0; as < 2; as++) { auto g = make(f, p, x, as); check(f, x, eval(*g), std::string(", ") + PN[p] + (as ? ", assigned" : "")); SQ_CHECK(g->getParameterSize() == x.size(), "getParameterSize is " << g->getParameterSize() << " for " << x.size() << " parameters, " << PN[p]); }
		int i = 1; while (i < d && ++ix[i] == (int)W.size()) ix[i++] = 0; if (i >= d) break; } }
SQ_SCENARIO(parameterisations, s.split = 64) { // every parameterisation describes the same vector
	int f = sq::choose(8, "function"), p = sq::choose(NP, "parameterisation");
	for (std::size_t d = mindim(f); d <= 8; d++) for (int k = 0; k < (int)W.size(); k++) for (int st = 0; st < 3; st++) { V x(d); for (std::size_t i = 0; i < d; i++) x[i] = W[(k + i * (st + 1)) % W.size()]; for (int as = 0; as < 2; as++) { auto g = make(f, p, x, as); V got; g->streamline(got); SQ_CHECK(got.size() == d, "vector of " << d << " has " << got.size() << " entries, " << PN[p]); for (std::size_t i = 0; i < d; i++) SQ_CHECK(std::fabs(got[i] - x[i]) < 1e-9, "entry " << i << " is " << got[i] << " instead of " << x[i] << ", " << PN[p]); check(f, x, eval(*g), std::string(", ") + PN[p]); } } }
SQ_SCENARIO(histories, s.split = 64) { // the value is independent of what was evaluated, copied or changed before
	static const std::vector<V> X = {{1, 2}, {0, 0}, {-1, 0.5}, {3.7, -1}}; std::shared_ptr<GFunctionIndividual> g[2]; int f[2], x[2];
	for (int i = 0; i < 2; i++) { f[i] = sq::choose(8, "function"); x[i] = i; g[i] = make(f[i], (f[i] + i) % NP, X[x[i]], false); }
	int n = sq::thorough() ? 4 : 3; std::string h;
	for (int s = 0; s < n; s++) { int k = sq::choose(2, "individual"); int op = sq::choose(5, "operation"); h += " " + std::to_string(op) + (k ? "b" : "a"); auto& y = *g[k]; sq::step();
		switch (op) { case 0: check(f[k], X[x[k]], eval(y), ", history" + h); break;
		case 1: x[k] = (x[k] + 1) % 4; y.assignValueVector<double>(X[x[k]], activityMode::ALLPARAMETERS); break;
		case 2: g[k] = y.clone<GFunctionIndividual>(); break;
		case 3: y.load(*g[1 - k]); f[k] = f[1 - k]; x[k] = x[1 - k]; break;
		case 4: f[k] = (f[k] + 3) % 8; y.setDemoFunction((solverFunction)f[k]); y.assignValueVector<double>(X[x[k]], activityMode::ALLPARAMETERS); SQ_CHECK(y.getDemoFunction() == (solverFunction)f[k], "getDemoFunction differs"); break; } }
	for (int k = 0; k < 2; k++) { g[k]->mark_as_due_for_processing(); check(f[k], X[x[k]], eval(*g[k]), ", end of history" + h); } }
struct TooFew { };
SQ_SCENARIO(dimensions, s.split = 8) { int f = sq::choose(8, "function"); int p = sq::choose(6, "parameterisation"); V x = {0.5}; auto g = make(f, p, x, false); if (mindim(f) == 1) { check(f, x, eval(*g), ", one dimension"); return; } bool ok = false; std::string err; try { eval(*g); ok = true; } catch (const std::exception& e) { err = e.what(); } SQ_CHECK(!ok, FN[f] << " with a single parameter has no value, but was evaluated to " << g->raw_fitness(0)); }
SQ_SCENARIO(names, s.split = 1) { for (int f = 0; f < 8; f++) { std::ostringstream o; o << (solverFunction)f; std::istringstream i(o.str()); solverFunction s; i >> s; SQ_CHECK(s == (solverFunction)f, "solver function " << f << " streams to " << (int)s); } for (int p = 0; p < 5; p++) { std::ostringstream o; o << (parameterType)p; std::istringstream i(o.str()); parameterType s; i >> s; SQ_CHECK(s == (parameterType)p, "parameter type " << p << " streams to " << (int)s); } for (int p = 0; p < 2; p++) { std::ostringstream o; o << (initMode)p; std::istringstream i(o.str()); initMode s; i >> s; SQ_CHECK(s == (initMode)p, "init mode " << p << " streams to " << (int)s); } }
// fitting a line: root of the summed squared deviations
SQ_SCENARIO(line, s.split = 16) { static const V P = {0, 1, -2, 0.5}; int a = sq::choose(4, "a"), b = sq::choose(4, "b"), n = sq::choose(4, "points"); std::vector<std::tuple<double, double>> pts; for (int i = 0; i < n; i++) { int q = sq::choose(16, "point"); pts.emplace_back(P[q / 4] * 3, P[q % 4] + 0.25); }
	GLineFitIndividual g(pts); V x = {P[a], P[b] + 0.125}; g.assignValueVector<double>(x, activityMode::ALLPARAMETERS); g.mark_as_due_for_processing(); g.process(); ld s = 0, m = 1; for (auto& t : pts) { ld d = x[0] + (ld)x[1] * std::get<0>(t) - std::get<1>(t); s += d * d; } s = sqrtl(s); SQ_CHECK(fabsl(g.raw_fitness(0) - s) <= 1e-12L * (m + s), "deviation of the line is " << g.raw_fitness(0) << " instead of " << (double)s << " for " << n << " points"); auto l = g.getLine(); SQ_CHECK(std::get<0>(l) == x[0] && std::get<1>(l) == x[1], "getLine differs"); auto c = g.clone<GLineFitIndividual>(); c->mark_as_due_for_processing(); c->process(); SQ_CHECK(c->raw_fitness(0) == g.raw_fitness(0), "a copy of the line has another deviation"); sq::step(); }
SQ_SCENARIO(test_individual, s.split = 4) { for (int t = 0; t <= (int)Gem::Tests::PERFOBJECTTYPE::PERFGCONSTRAINEDDOUBLECOLLECTION; t++) for (int n = 1; n < 6; n++) { Gem::Tests::GTestIndividual2 g(n, (Gem::Tests::PERFOBJECTTYPE)t); V x; for (int i = 0; i < n; i++) x.push_back(W[(i + t) % 6]); g.assignValueVector<double>(x, activityMode::ALLPARAMETERS); g.mark_as_due_for_processing(); g.process(); check(0, x, g.raw_fitness(0), ", test individual " + std::to_string(t)); } }
// the factory: every parameter type, dimension, initialisation mode, adaptor; options from a configuration file or set by hand
static double num(const std::string& txt, const std::string& k) { return 0; }
SQ_SCENARIO(factory, s.split = 20, s.timeout_s = 60) {
	int p = sq::choose(5, "parameter type"), file = sq::choose(2, "from file"), im = sq::choose(2, "initialisation"), bi = sq::choose(2, "bi-gauss"), f = sq::choose(8, "function"); std::size_t d = 2 + sq::choose(2, "dimension") * 3; mockrnd::seed(p * 17 + d);
	double lo = -3.5, hi = 7.25; std::string path = "./fact.json"; unlink(path.c_str());
	GFunctionIndividualFactory fac{std::filesystem::path(path)}; GFunctionIndividualFactory tmpl{std::filesystem::path(path)}; tmpl.writeConfigFile("header");
	std::ifstream is(path); std::stringstream ss; ss << is.rdbuf(); std::string txt = ss.str();
	auto set = [&](const std::string& k, const std::string& v) { auto i = txt.find("\"" + k + "\":"); SQ_CHECK(i != std::string::npos, "the configuration file has no option " << k << ": " << txt.substr(0, 300)); auto j = txt.find("\"value\":", i); auto a = txt.find('"', j + 8), b = txt.find('"', a + 1); txt = txt.substr(0, a + 1) + v + txt.substr(b); };
	set("demoFunction", std::to_string(f));
	auto S = [](double x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); };
	if (file) { set("parameterType", std::to_string(p)); set("parDim", std::to_string(d)); set("minVar", S(lo)); set("maxVar", S(hi)); set("initMode", std::to_string(im)); set("useBiGaussian", std::to_string(bi)); set("adProb", "0.625"); set("adaptAdProb", "0.0625"); set("minAdProb", "0.125"); set("maxAdProb", "0.875"); set("adaptionThreshold", "7");
		set("sigma1", "0.25"); set("sigmaSigma1", "0.5"); set("minSigma1", "0.01"); set("maxSigma1", "0.75"); set("sigma2", "0.3"); set("sigmaSigma2", "0.6"); set("minSigma2", "0.02"); set("maxSigma2", "0.8"); set("delta", "0.35"); set("sigmaDelta", "0.7"); set("minDelta", "0.03"); set("maxDelta", "0.9"); }
	else { fac.setPT((parameterType)p); fac.setParDim(d); fac.setVarBoundaries(std::make_tuple(lo, hi)); fac.setIM((initMode)im); fac.setUseBiGaussian(bi); fac.setAdProb(0.625); fac.setAdaptAdProb(0.0625); fac.setAdProbRange(0.125, 0.875); fac.setAdaptionThreshold(7);
		fac.setSigma1(0.25); fac.setSigmaSigma1(0.5); fac.setSigma1Range(std::make_tuple(0.01, 0.75)); fac.setSigma2(0.3); fac.setSigmaSigma2(0.6); fac.setSigma2Range(std::make_tuple(0.02, 0.8)); fac.setDelta(0.35); fac.setSigmaDelta(0.7); fac.setDeltaRange(std::make_tuple(0.03, 0.9)); }
	{ std::ofstream o(path); o << txt; }
	std::string c = std::string(", parameter type ") + std::to_string(p) + (file ? " from file" : " set by hand") + (bi ? ", bi-gauss" : ", gauss");
	SQ_CHECK(std::get<0>(fac.getVarBoundaries()) == lo || file, "getVarBoundaries differs");
	V prev;
	for (int k = 0; k < 3; k++) { auto raw = fac(); auto g = std::dynamic_pointer_cast<GFunctionIndividual>(raw); SQ_CHECK(g, "the factory made another type"); V x; g->streamline(x); SQ_CHECK(x.size() == d, "an individual of dimension " << d << " has " << x.size() << " parameters" << c); SQ_CHECK(g->getDemoFunction() == (solverFunction)f, "individual " << k << " computes function " << (int)g->getDemoFunction() << " instead of " << f << c);
		for (double v : x) SQ_CHECK(v >= lo && v <= hi, "initial value " << v << " outside [" << lo << "," << hi << "]" << c);
		if (im == (int)initMode::INITPERIMETER) { for (double v : x) SQ_CHECK(v == lo || (p == 1 && std::fabs(v - lo) < 1e-9) || p == 0 || p == 1, "initial value " << v << " not at the perimeter" << c); }
		else { SQ_CHECK(x != prev, "two individuals with random initialisation are the same" << c); }
		prev = x; V lb, ub; g->boundaries<double>(lb, ub, activityMode::ALLPARAMETERS); SQ_CHECK(lb == V(d, lo) , "lower boundaries differ" << c); for (double u : ub) SQ_CHECK(std::fabs(u - hi) < 1e-9, "upper boundary " << u << c);
		check(f, x, eval(*g), c); V y(d); for (std::size_t i = 0; i < d; i++) y[i] = lo + 1.0 + i; g->assignValueVector<double>(y, activityMode::ALLPARAMETERS); check(f, y, eval(*g), c);
		// adaptors as configured
		std::shared_ptr<GAdaptorT<double>> ad; auto b = g->at(0); if (auto q = std::dynamic_pointer_cast<GParameterBaseWithAdaptorsT<double>>(b)) ad = q->getAdaptor(); else if (auto q = std::dynamic_pointer_cast<GDoubleObjectCollection>(b)) ad = q->at(d - 1)->getAdaptor(); else if (auto q = std::dynamic_pointer_cast<GConstrainedDoubleObjectCollection>(b)) ad = q->at(d - 1)->getAdaptor();
		SQ_CHECK(ad, "no adaptor" << c); SQ_CHECK(ad->getAdaptionProbability() == 0.625 && ad->getAdaptAdProb() == 0.0625 && ad->getAdProbRange() == std::make_tuple(0.125, 0.875), "adaption probability of the adaptor: " << ad->getAdaptionProbability() << "/" << ad->getAdaptAdProb() << c); SQ_CHECK(ad->getAdaptionThreshold() == 7, "adaption threshold " << ad->getAdaptionThreshold() << c);
		if (bi) { auto a = std::dynamic_pointer_cast<GDoubleBiGaussAdaptor>(ad); SQ_CHECK(a, "no bi-gauss adaptor" << c); auto T = [](double x, double y) { return std::make_tuple(x, y); };
			SQ_CHECK(a->getSigma1() == 0.25 && a->getSigma1AdaptionRate() == 0.5 && a->getSigma1Range() == T(0.01, 0.75), "sigma1 of the adaptor is " << a->getSigma1() << " (rate " << a->getSigma1AdaptionRate() << ")" << c);
			SQ_CHECK(a->getSigma2() == 0.3 && a->getSigma2AdaptionRate() == 0.6 && a->getSigma2Range() == T(0.02, 0.8), "sigma2 of the adaptor is " << a->getSigma2() << " (rate " << a->getSigma2AdaptionRate() << ")" << c);
			SQ_CHECK(a->getDelta() == 0.35 && a->getDeltaAdaptionRate() == 0.7 && a->getDeltaRange() == T(0.03, 0.9), "delta of the adaptor is " << a->getDelta() << " (rate " << a->getDeltaAdaptionRate() << ")" << c); }
		else { auto a = std::dynamic_pointer_cast<GDoubleGaussAdaptor>(ad); SQ_CHECK(a, "no gauss adaptor" << c); SQ_CHECK(a->getSigma() == 0.25 && a->getSigmaAdaptionRate() == 0.5 && a->getSigmaRange() == std::make_tuple(0.01, 0.75), "sigma of the adaptor is " << a->getSigma() << c); } } }
