// C20: adaptors under scripted random numbers: every sequence of raw numbers over an alphabet (then pseudo-random) x all settings
// of a grid x sequences of adaption calls; parameter objects and trees with (in)active parts.
#include "sq.hpp"
#include "mockrandom.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GInt32ObjectCollection.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GParameterSet.hpp"
#include <cmath>
#include <deque>
using namespace Gem::Geneva; typedef std::int32_t I;
// raw numbers: the first n doubles are enumerated over A, the rest is pseudo-random
static const double A[] = {0.031, 0.371, 0.713, 0.968};
static void enumerate(int n) { mockrnd::seed(7); auto q = std::make_shared<std::deque<std::uint32_t>>(); mockrnd::source([q, n]() mutable { if (q->empty()) { if (n-- <= 0) { n = 0; return mockrnd::pseudo(); } for (auto r : mockrnd::canon({A[sq::choose(4, "random number")]})) q->push_back(r); } auto r = q->front(); q->pop_front(); return r; }); }
static void script(std::vector<double> u) { sq::H h; h << u; mockrnd::script(mockrnd::canon(u), h); }
static Gem::Hap::GRandomBase& gr() { static Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY> r; return r; }
static bool in(double v, std::tuple<double, double> r) { return v >= std::get<0>(r) && v <= std::get<1>(r); }
template <class T> struct Ad { typedef T type; virtual ~Ad() {} virtual GAdaptorT<T>& a() = 0; virtual const char *name() = 0;
	virtual std::vector<double> steps() { return {}; } virtual bool limits() { return true; } virtual void rates(double) {} virtual void width(double, double, double) {}
	virtual bool stepok(T, T) = 0; };
struct Gauss : Ad<double> { GDoubleGaussAdaptor x; GAdaptorT<double>& a() override { return x; } const char *name() override { return "gauss"; } std::vector<double> steps() override { return {x.getSigma()}; } bool limits() override { return in(x.getSigma(), x.getSigmaRange()); } void rates(double r) override { x.setSigmaAdaptionRate(r); } void width(double s, double l, double u) override { x.setSigmaRange(l, u); x.setSigma(s); } bool stepok(double o, double n) override { return o != n && std::isfinite(n); } };
struct IGauss : Ad<I> { GInt32GaussAdaptor x; GAdaptorT<I>& a() override { return x; } const char *name() override { return "integer gauss"; } std::vector<double> steps() override { return {x.getSigma()}; } bool limits() override { return in(x.getSigma(), x.getSigmaRange()); } void rates(double r) override { x.setSigmaAdaptionRate(r); } void width(double s, double l, double u) override { x.setSigmaRange(l, u); x.setSigma(s); } bool stepok(I o, I n) override { return o != n; } };
struct Bi : Ad<double> { GDoubleBiGaussAdaptor x; GAdaptorT<double>& a() override { return x; } const char *name() override { return "bi-gauss"; } std::vector<double> steps() override { return {x.getSigma1(), x.getSigma2(), x.getDelta()}; } bool limits() override { return in(x.getSigma1(), x.getSigma1Range()) && in(x.getSigma2(), x.getSigma2Range()) && in(x.getDelta(), x.getDeltaRange()); } void rates(double r) override { x.setSigma1AdaptionRate(r); x.setSigma2AdaptionRate(r); x.setDeltaAdaptionRate(r); } void width(double s, double l, double u) override { x.setSigma1Range(l, u); x.setSigma1(s); x.setSigma2Range(l, u); x.setSigma2(s); x.setDeltaRange(l, u); x.setDelta(s); } bool stepok(double o, double n) override { return o != n && std::isfinite(n); } };
struct Flip : Ad<I> { GInt32FlipAdaptor x; GAdaptorT<I>& a() override { return x; } const char *name() override { return "flip"; } bool stepok(I o, I n) override { return n == o + 1 || n == o - 1; } };
struct Bool : Ad<bool> { GBooleanAdaptor x; GAdaptorT<bool>& a() override { return x; } const char *name() override { return "boolean"; } bool stepok(bool o, bool n) override { return o != n; } };
static const char *MN[] = {"with probability", "always", "never"}; static const adaptionMode MODE[] = {adaptionMode::WITHPROBABILITY, adaptionMode::ALWAYS, adaptionMode::NEVER};
// the settings of one run and what must hold after every call
template <class K> static void run(bool vec) {
	typedef typename K::type T; K k; auto& a = k.a(); int m = sq::choose(3, "mode"), th = sq::choose(3, "threshold"), wi = sq::choose(3, "limits"), ap = sq::choose(2, "adaption of the probability");
	double p = m == 0 ? (sq::choose(2, "probability") ? 1. : 0.5) : 0.5; // 1: always; 0.5: depends on the raw number
	if (k.steps().empty() && wi) return; if (p == 1. && ap) return;
	a.setAdaptionMode(MODE[m]); a.setAdaptionThreshold(th); a.setAdaptAdaptionProbability(th ? 0.9 : (wi == 1 ? 1. : wi == 2 ? 0.5 : 0.));
	if (ap) { a.setAdProbRange(0.25, 0.75); a.setAdaptionProbability(p); a.setAdaptAdProb(2.); } else { a.setAdProbRange(0., 1.); a.setAdaptAdProb(0.); a.setAdaptionProbability(p); }
	auto pr = a.getAdProbRange(); double lo = wi == 2 ? 0.3 : 0.001, hi = wi == 2 ? 0.35 : 1.; k.width(0.32, lo, hi); k.rates(wi == 2 ? -3. : 0.1); // a negative rate counts as its absolute value
	bool free = wi != 2; // no clamping within these limits
	std::string st = std::string(k.name()) + ", mode " + MN[m] + ", threshold " + std::to_string(th) + ", limits " + std::to_string(wi) + (ap ? ", probability adapts" : "") + (vec ? ", vector" : "");
	std::vector<T> v(vec ? 2 : 1, T(1)); const T range = std::is_same<T, bool>::value ? T(1) : T(20); int calls = sq::thorough() ? 4 : 3; enumerate(sq::thorough() ? 9 : 6); int count = 0; // adaptions since the last one that adapted the widths
	for (int c = 0; c < calls; c++) { auto old = v; auto os = k.steps(); double op = a.getAdaptionProbability(); std::size_t n; sq::step();
		if (vec) n = a.adapt(v, range, gr()); else { T x = v[0]; n = a.adapt(x, range, gr()); v[0] = x; }
		std::size_t ch = 0; for (std::size_t i = 0; i < v.size(); i++) { if (v[i] != old[i]) ch++; if (v[i] != old[i]) SQ_CHECK(k.stepok(old[i], v[i]), st << ": " << old[i] << " became " << v[i]); }
		SQ_CHECK(n == ch, st << ": call " << c << " reports " << n << " adaptions, " << ch << " of " << v.size() << " values changed"); SQ_CHECK(!(m == 2 && ch), st << ": changed a value"); SQ_CHECK(!((m == 1 || p == 1.) && ch != v.size()), st << ": only " << ch << " of " << v.size() << " values changed");
		SQ_CHECK(in(a.getAdaptionProbability(), pr) && a.getAdProbRange() == pr, st << ": adaption probability " << a.getAdaptionProbability() << " outside of [" << std::get<0>(pr) << ", " << std::get<1>(pr) << "]"); if (!ap) SQ_CHECK(a.getAdaptionProbability() == op, st << ": adaption probability changed"); else SQ_CHECK(a.getAdaptionProbability() != op || op == 0.25 || op == 0.75, st << ": adaption probability did not adapt");
		SQ_CHECK(k.limits(), st << ": step width " << k.steps()[0] << " outside of its limits"); auto ns = k.steps(); SQ_CHECK(th == 0 || a.getAdaptionCounter() < (unsigned)th, st << ": adaption counter " << a.getAdaptionCounter());
		bool due = false; if (th) { for (std::size_t i = 0; i < ch; i++) if (++count >= th) { count = 0; due = true; } } else due = ch > 0 && a.getAdaptAdaptionProbability() == 1.;
		bool maybe = due || (th == 0 && ch > 0 && a.getAdaptAdaptionProbability() > 0.);
		for (std::size_t i = 0; i < ns.size(); i++) { if (!maybe) SQ_CHECK(ns[i] == os[i], st << ": step width " << i << " changed from " << os[i] << " to " << ns[i] << " in call " << c << " which was not due"); if (due && free) SQ_CHECK(ns[i] != os[i], st << ": step width " << i << " did not adapt in call " << c); }
	}
}
template <class K> static void both() { run<K>(sq::choose(2, "vector")); }
SQ_SCENARIO(gauss, s.split = 300) { both<Gauss>(); }
SQ_SCENARIO(integer_gauss, s.split = 300) { both<IGauss>(); }
SQ_SCENARIO(bi_gauss, s.split = 300) { both<Bi>(); }
SQ_SCENARIO(flip, s.split = 100) { both<Flip>(); }
SQ_SCENARIO(boolean, s.split = 100) { both<Bool>(); }
// the probability is the share of the unit interval that leads to an adaption
template <class K> static void freq() { typedef typename K::type T; int k = sq::choose(21, "probability"); const int N = 400; const double p = k / 20.; int n = 0;
	for (int i = 0; i < N; i++) { K x; auto& a = x.a(); a.setAdProbRange(0, 1); a.setAdaptAdProb(0); a.setAdaptionMode(adaptionMode::WITHPROBABILITY); a.setAdaptAdaptionProbability(0); a.setAdaptionThreshold(0); if (p >= 0.001) a.setAdaptionProbability(p); else { SQ_THROWS(a.setAdaptionProbability(p), "probability below the lower limit accepted"); return; } mockrnd::seed(i + 1); script({(i + 0.5) / N, std::fmod(i * 0.7548777 + 0.3, 1.), std::fmod(i * 0.5698403 + 0.6, 1.)}); T v = T(1); if (a.adapt(v, T(std::is_same<T, bool>::value ? 1 : 20), gr())) n++; sq::step(); }
	SQ_CHECK(std::abs(n - N * p) <= 2, "probability " << p << ": adapted for " << n << " of " << N << " equidistant random numbers"); }
SQ_SCENARIO(frequency, s.split = 105) { switch (sq::choose(5, "adaptor")) { case 0: freq<Gauss>(); break; case 1: freq<IGauss>(); break; case 2: freq<Bi>(); break; case 3: freq<Flip>(); break; default: freq<Bool>(); } }
template <class K> static void afreq() { typedef typename K::type T; int k = sq::choose(21, "probability"); const int N = 400; const double p = k / 20.; int n = 0; bool all = true;
	for (int i = 0; i < N; i++) { K x; auto& a = x.a(); a.setAdaptAdProb(0); a.setAdaptionMode(adaptionMode::ALWAYS); a.setAdaptionThreshold(0); a.setAdaptAdaptionProbability(p); x.width(0.5, 0.001, 1.); x.rates(0.1); auto o = x.steps(); mockrnd::seed(i + 1); script({(i + 0.5) / N}); T v = T(1); a.adapt(v, T(20), gr()); auto s = x.steps(); if (s[0] != o[0]) n++; for (std::size_t j = 0; j < s.size(); j++) all = all && (s[j] != o[j]) == (s[0] != o[0]); sq::step(); }
	SQ_CHECK(std::abs(n - N * p) <= 2 && all, "step widths adapted for " << n << " of " << N << " equidistant random numbers at a probability of " << p); }
SQ_SCENARIO(adaption_frequency, s.split = 63) { switch (sq::choose(3, "adaptor")) { case 0: afreq<Gauss>(); break; case 1: afreq<IGauss>(); break; default: afreq<Bi>(); } }
// mean and width of the steps, over a grid of pairs of random numbers
static void moments(GAdaptorT<double>& a, double range, double wm, double ws, const char *what, bool two, double s1 = 0, double s2 = 0, double d = 0) {
	const int G = 60; double m = 0, q = 0; long n = 0; double lm = 0, lq = 0, rm = 0, rq = 0; long ln = 0, rn = 0; a.setAdaptionMode(adaptionMode::ALWAYS); a.setAdaptAdProb(0); a.setAdaptionThreshold(0); a.setAdaptAdaptionProbability(0);
	for (int b = 0; b < (two ? 2 : 1); b++) for (int i = 0; i < G; i++) for (int j = 0; j < G; j++) { auto c = a.GObject::clone<GAdaptorT<double>>(); double u = (i + 0.5) / G, w = (j + 0.5) / G; mockrnd::seed(n + 1); if (two) script({b ? 0.75 : 0.25, u, w}); else script({u, w}); double v = 3; c->adapt(v, range, gr()); double x = v - 3; m += x; q += x * x; n++; if (b) { rn++; rm += x; rq += x * x; } else { ln++; lm += x; lq += x * x; } sq::step(); }
	m /= n; q = std::sqrt(q / n); SQ_CHECK(std::fabs(m - wm) < 0.03 * ws && std::fabs(q - ws) < 0.05 * ws, what << ": steps have mean " << m << " and spread " << q << ", should be " << wm << " and " << ws);
	if (two) { lm /= ln; rm /= rn; lq = std::sqrt(lq / ln - lm * lm); rq = std::sqrt(rq / rn - rm * rm); if (lm > rm) { std::swap(lm, rm); std::swap(lq, rq); } SQ_CHECK(std::fabs(lm + d / 2) < 0.03 * ws && std::fabs(rm - d / 2) < 0.03 * ws, what << ": the two peaks are at " << lm << " and " << rm << ", distance should be " << d); SQ_CHECK(std::fabs(lq - s1) < 0.06 * ws && std::fabs(rq - s2) < 0.06 * ws, what << ": the widths of the two peaks are " << lq << " and " << rq << ", should be " << s1 << " and " << s2); } }
SQ_SCENARIO(step_sizes, s.split = 54) { static const double S[] = {0.01, 0.2, 0.8}, R[] = {1, 0.5, 1000}; int k = sq::choose(6, "adaptor"), i = sq::choose(3, "sigma"), j = sq::choose(3, "range"); double s = S[i], r = R[j];
	if (k == 0) { GDoubleGaussAdaptor a; a.setSigmaRange(0, 1); a.setSigma(s); moments(a, r, 0, s * r, "gauss", false); }
	else if (k == 1) { GDoubleGaussAdaptor a(s, 0.1, 0.001, 1.); SQ_CHECK(a.getSigma() == s && a.getResetSigma() == s && a.getSigmaAdaptionRate() == 0.1 && a.getSigmaRange() == std::make_tuple(0.001, 1.), "constructor arguments not used"); moments(a, r, 0, s * r, "gauss (constructor)", false); }
	else if (k == 2) { GDoubleGaussAdaptor a(s, 0.1, 0.002, 0.9, 0.3); SQ_CHECK(a.getSigma() == s && a.getResetSigma() == s && a.getSigmaAdaptionRate() == 0.1 && a.getSigmaRange() == std::make_tuple(0.002, 0.9) && a.getAdaptionProbability() == 0.3, "constructor arguments not used: sigma " << a.getSigma() << ", reset value " << a.getResetSigma() << ", rate " << a.getSigmaAdaptionRate() << ", probability " << a.getAdaptionProbability()); moments(a, r, 0, s * r, "gauss (constructor with probability)", false); GInt32GaussAdaptor b(s, 0.1, 0.002, 0.9, 0.3); SQ_CHECK(b.getSigma() == s && b.getSigmaAdaptionRate() == 0.1 && b.getSigmaRange() == std::make_tuple(0.002, 0.9) && b.getAdaptionProbability() == 0.3, "constructor arguments of the integer adaptor not used: sigma " << b.getSigma()); }
	else { GDoubleBiGaussAdaptor a; double t = S[(i + 1) % 3], d = S[(i + j) % 3] * 2; a.setUseSymmetricSigmas(k == 3); a.setSigma1Range(0.001, 2); a.setSigma2Range(0.001, 2); a.setDeltaRange(0, 2); a.setSigma1(s); a.setSigma2(t); a.setDelta(d); GDoubleBiGaussAdaptor b; b.GObject::load(a); SQ_CHECK(a.getSigma1() == s && a.getSigma2() == t && a.getDelta() == d, "bi-gauss settings lost"); if (k == 3) t = s; moments(k == 5 ? b : a, r, 0, r * std::sqrt((s * s + t * t) / 2 + d * d / 4), "bi-gauss", true, s * r, t * r, d * r); } }
SQ_SCENARIO(flip_direction, s.split = 1) { int up = 0; for (int i = 0; i < 400; i++) { GInt32FlipAdaptor a; a.setAdaptionMode(adaptionMode::ALWAYS); a.setAdaptAdProb(0); a.setAdaptAdaptionProbability(0); a.setAdaptionThreshold(0); mockrnd::seed(9); script({(i + 0.5) / 400}); I v = 0; a.adapt(v, 1, gr()); up += v > 0; sq::step(); } SQ_CHECK(std::abs(up - 200) <= 3, "flip goes upwards for " << up << " of 400 equidistant random numbers"); }
// integer steps: rounded towards zero, +-1 at least
SQ_SCENARIO(integer_steps, s.split = 16) { static const double S[] = {0.001, 0.05, 0.3, 1}; static const I R[] = {1, 3, 100, 100000}; double s = S[sq::choose(4, "sigma")]; I r = R[sq::choose(4, "range")]; const int G = 50; double q = 0, m = 0, w = 0; long n = 0, one = 0;
	for (int i = 0; i < G; i++) for (int j = 0; j < G; j++) { GInt32GaussAdaptor a(s, 0.1, 0.001, 1.); a.setAdaptionMode(adaptionMode::ALWAYS); a.setAdaptAdaptionProbability(0); a.setAdaptionThreshold(0); a.setAdaptAdProb(0); mockrnd::seed(n + 1); script({(i + 0.5) / G, (j + 0.5) / G}); GDoubleGaussAdaptor b(s, 0.1, 0.001, 1.); b.setAdaptionMode(adaptionMode::ALWAYS); b.setAdaptAdaptionProbability(0); b.setAdaptionThreshold(0); b.setAdaptAdProb(0); I v = 5; a.adapt(v, r, gr()); m += v - 5; q += std::pow(v - 5, 2); n++; if (std::abs(v - 5) == 1) one++; mockrnd::seed(n); script({(i + 0.5) / G, (j + 0.5) / G}); double d = 0; b.adapt(d, r, gr()); d = std::trunc(d); w += d == 0 ? 1 : d * d; SQ_CHECK(v != 5, "integer gauss did not change the value"); sq::step(); }
	m /= n; q = std::sqrt(q / n); w = std::sqrt(w / n); SQ_CHECK(std::fabs(m) < 0.05 * w + 0.1, "mean of the steps is " << m << " for sigma " << s << ", range " << r); SQ_CHECK(std::fabs(q - w) < 0.05 * w + 0.05, "spread of the steps is " << q << " instead of " << w << " for sigma " << s << ", range " << r); if (s * r < 0.2) SQ_CHECK(one == n, "steps larger than one for sigma " << s << ", range " << r); }
// setters: every sequence of configuration calls keeps limits and values consistent, refused calls change nothing
SQ_SCENARIO(settings, s.split = 100) { static const double V[] = {0, 0.0005, 0.2, 0.6, 1, 1.5, -0.1}; GDoubleGaussAdaptor a; GDoubleBiGaussAdaptor b; std::string h; double s = a.getSigma(), sr = a.getResetSigma(), lo = std::get<0>(a.getSigmaRange()), hi = std::get<1>(a.getSigmaRange()), p = a.getAdaptionProbability(), pr = a.getResetAdaptionProbability(), pl = std::get<0>(a.getAdProbRange()), ph = std::get<1>(a.getAdProbRange());
	for (int c = 0; c < (sq::thorough() ? 4 : 3); c++) { int op = sq::choose(6, "operation"), i = sq::choose(7, "value"); double x = V[i], y = x + (i % 2 ? 0.3 : 0.0007); bool t = false; h += " " + std::to_string(op) + "(" + std::to_string(x) + ")"; sq::step(); auto cl = [](double v, double l, double u) { return v < l ? l : v > u ? u : v; };
		std::string e; try { switch (op) { case 0: a.setSigma(x); break; case 1: a.setResetSigma(x); break; case 2: a.setSigmaRange(x, y); break; case 3: a.setAdaptionProbability(x); break; case 4: a.setResetAdaptionProbability(x); break; case 5: a.setAdProbRange(x, y); break; } } catch (const std::exception& q) { t = true; e = q.what(); }
		bool ok = true; switch (op) { case 0: ok = x >= lo && x <= hi; if (ok) s = x; break; case 1: ok = x >= lo && x <= hi; if (ok) sr = x; break; case 2: ok = x >= 0 && y <= 1 && y >= 0.001; if (ok && !t) { lo = std::max(x, 0.001); hi = y; s = cl(s, lo, hi); sr = cl(sr, lo, hi); } break; case 3: ok = x >= pl && x <= ph; if (ok) p = x; break; case 4: ok = x >= pl && x <= ph; if (ok) pr = x; break; case 5: ok = x >= 0 && y <= 1 && y >= 0.001; if (ok && !t) { pl = std::max(x, 0.001); ph = y; p = cl(p, pl, ph); pr = cl(pr, pl, ph); } break; }
		SQ_CHECK(ok == !t, "settings" << h << ": last call was " << (t ? "refused" : "accepted") << " " << e); auto sg = a.getSigmaRange(); auto pg = a.getAdProbRange();
		SQ_CHECK(a.getSigma() == s && a.getResetSigma() == sr && sg == std::make_tuple(lo, hi) && a.getAdaptionProbability() == p && a.getResetAdaptionProbability() == pr && pg == std::make_tuple(pl, ph), "settings" << h << ": sigma " << a.getSigma() << " (" << s << "), reset " << a.getResetSigma() << " (" << sr << "), range [" << std::get<0>(sg) << ", " << std::get<1>(sg) << "] ([" << lo << ", " << hi << "]), probability " << a.getAdaptionProbability() << " (" << p << "), reset " << a.getResetAdaptionProbability() << " (" << pr << "), range [" << std::get<0>(pg) << ", " << std::get<1>(pg) << "]"); }
	GDoubleGaussAdaptor c(a); bool chg = a.getSigma() != sr || a.getAdaptionProbability() != pr; bool r = a.updateOnStall(1, 1.); SQ_CHECK(a.getSigma() == sr && a.getAdaptionProbability() == pr, "stall did not reset the adaptor"); SQ_CHECK(r == chg, "updateOnStall reports " << r << (chg ? ", settings were" : ", nothing was") << " reset after" << h);
	std::vector<boost::any> d; a.queryPropertyFrom("GDoubleGaussAdaptor", "sigma", d); a.queryPropertyFrom("GDoubleGaussAdaptor", "adProb", d); a.queryPropertyFrom("other", "sigma", d); SQ_CHECK(d.size() == 2 && boost::any_cast<double>(d[0]) == sr && boost::any_cast<double>(d[1]) == pr, "queried properties differ"); }
SQ_SCENARIO(bi_settings, s.split = 100) { static const double V[] = {0, 0.0005, 0.2, 0.6, 1.5, -0.1}; GDoubleBiGaussAdaptor a; std::string h; double v[3] = {a.getSigma1(), a.getSigma2(), a.getDelta()}; std::tuple<double, double> r[3] = {a.getSigma1Range(), a.getSigma2Range(), a.getDeltaRange()};
	for (int c = 0; c < (sq::thorough() ? 4 : 3); c++) { int w = sq::choose(3, "which"), op = sq::choose(2, "operation"), i = sq::choose(6, "value"); double x = V[i], y = x + (i % 2 ? 0.3 : 0.0007); bool t = false, ok; h += " " + std::to_string(w) + std::to_string(op) + "(" + std::to_string(x) + ")"; sq::step();
		try { if (op == 0) { if (w == 0) a.setSigma1(x); else if (w == 1) a.setSigma2(x); else a.setDelta(x); } else { if (w == 0) a.setSigma1Range(x, y); else if (w == 1) a.setSigma2Range(x, y); else a.setDeltaRange(x, y); } } catch (const std::exception&) { t = true; }
		if (op == 0) { ok = in(x, r[w]) && x >= 0; if (ok) v[w] = x; } else { ok = x >= 0 && (w == 2 ? true : y >= 0.001); if (w == 2 && t && y < 0.001) ok = false; if (ok) { r[w] = std::make_tuple(w == 2 ? x : std::max(x, 0.001), y); if (v[w] < std::get<0>(r[w])) v[w] = std::get<0>(r[w]); if (v[w] > y) v[w] = y; } }
		SQ_CHECK(ok == !t, "settings" << h << ": last call was " << (t ? "refused" : "accepted")); SQ_CHECK(a.getSigma1() == v[0] && a.getSigma2() == v[1] && a.getDelta() == v[2] && a.getSigma1Range() == r[0] && a.getSigma2Range() == r[1] && a.getDeltaRange() == r[2], "settings" << h << ": " << a.getSigma1() << ", " << a.getSigma2() << ", " << a.getDelta() << " instead of " << v[0] << ", " << v[1] << ", " << v[2]); }
	std::vector<boost::any> d; const char *q[] = {"sigma1", "sigma2", "delta"}; for (int i = 0; i < 3; i++) { d.clear(); a.queryPropertyFrom("GDoubleBiGaussAdaptor", q[i], d); SQ_CHECK(d.size() == 1 && boost::any_cast<double>(d[0]) == v[i], "property " << q[i] << " is reported as " << boost::any_cast<double>(d.at(0)) << " instead of " << v[i]); } }
// parameter objects and trees
template <class P, class AD> static std::shared_ptr<P> with(std::shared_ptr<P> p, int mode) { auto a = std::make_shared<AD>(); a->setAdaptionMode(MODE[mode]); a->setAdaptAdProb(0); a->setAdProbRange(0, 1); a->setAdaptionProbability(0.5); p->addAdaptor(a); return p; }
static const int NK = 14; static const char *KN[] = {"double object", "constrained double object", "double collection", "constrained double collection", "double object collection", "constrained double object collection", "int object", "constrained int object", "int collection", "int object collection", "bool object", "bool collection", "bool object collection", "constrained int object collection"};
static std::shared_ptr<GParameterBase> mk(int k, int m, int m2) {
	switch (k) {
	case 0: return with<GDoubleObject, GDoubleGaussAdaptor>(std::make_shared<GDoubleObject>(1., -10., 10.), m);
	case 1: return with<GConstrainedDoubleObject, GDoubleGaussAdaptor>(std::make_shared<GConstrainedDoubleObject>(1., -10., 10.), m);
	case 2: return with<GDoubleCollection, GDoubleGaussAdaptor>(std::make_shared<GDoubleCollection>(2, 1., -10., 10.), m);
	case 3: return with<GConstrainedDoubleCollection, GDoubleBiGaussAdaptor>(std::make_shared<GConstrainedDoubleCollection>(2, 1., -10., 10.), m);
	case 4: { auto c = std::make_shared<GDoubleObjectCollection>(); c->push_back(with<GDoubleObject, GDoubleGaussAdaptor>(std::make_shared<GDoubleObject>(1., -10., 10.), m)); c->push_back(with<GDoubleObject, GDoubleBiGaussAdaptor>(std::make_shared<GDoubleObject>(2., -10., 10.), m2)); return c; }
	case 5: { auto c = std::make_shared<GConstrainedDoubleObjectCollection>(); c->push_back(with<GConstrainedDoubleObject, GDoubleGaussAdaptor>(std::make_shared<GConstrainedDoubleObject>(1., -10., 10.), m)); c->push_back(with<GConstrainedDoubleObject, GDoubleBiGaussAdaptor>(std::make_shared<GConstrainedDoubleObject>(2., -10., 10.), m2)); return c; }
	case 6: return with<GInt32Object, GInt32FlipAdaptor>(std::make_shared<GInt32Object>(5, -10, 10), m);
	case 7: return with<GConstrainedInt32Object, GInt32FlipAdaptor>(std::make_shared<GConstrainedInt32Object>(5, -10, 10), m);
	case 8: return with<GInt32Collection, GInt32GaussAdaptor>(std::make_shared<GInt32Collection>(2, 5, -10, 10), m);
	case 9: { auto c = std::make_shared<GInt32ObjectCollection>(); c->push_back(with<GInt32Object, GInt32FlipAdaptor>(std::make_shared<GInt32Object>(5, -10, 10), m)); c->push_back(with<GInt32Object, GInt32GaussAdaptor>(std::make_shared<GInt32Object>(5, -10, 10), m2)); return c; }
	case 10: return with<GBooleanObject, GBooleanAdaptor>(std::make_shared<GBooleanObject>(true), m);
	case 11: return with<GBooleanCollection, GBooleanAdaptor>(std::make_shared<GBooleanCollection>(2, true), m);
	case 12: { auto c = std::make_shared<GBooleanObjectCollection>(); c->push_back(with<GBooleanObject, GBooleanAdaptor>(std::make_shared<GBooleanObject>(true), m)); c->push_back(with<GBooleanObject, GBooleanAdaptor>(std::make_shared<GBooleanObject>(false), m2)); return c; }
	default: { auto c = std::make_shared<GConstrainedInt32ObjectCollection>(); c->push_back(with<GConstrainedInt32Object, GInt32FlipAdaptor>(std::make_shared<GConstrainedInt32Object>(5, -10, 10), m)); c->push_back(with<GConstrainedInt32Object, GInt32GaussAdaptor>(std::make_shared<GConstrainedInt32Object>(5, -10, 10), m2)); return c; } } }
static bool two(int k) { return k == 2 || k == 3 || k == 4 || k == 5 || k == 8 || k == 9 || k >= 11; } static bool sep(int k) { return k == 4 || k == 5 || k == 9 || k == 12 || k == 13; }
static std::vector<double> values(const GParameterBase& p) { std::vector<double> d, r; std::vector<I> i; std::vector<bool> b; p.streamline(d, activityMode::ALLPARAMETERS); p.streamline(i, activityMode::ALLPARAMETERS); p.streamline(b, activityMode::ALLPARAMETERS); r = d; r.insert(r.end(), i.begin(), i.end()); r.insert(r.end(), b.begin(), b.end()); return r; }
static std::size_t diff(const std::vector<double>& a, const std::vector<double>& b) { std::size_t n = 0; SQ_CHECK(a.size() == b.size(), "number of values changed"); for (std::size_t i = 0; i < a.size(); i++) n += a[i] != b[i]; return n; }
SQ_SCENARIO(objects, s.split = 200) { int k = sq::choose(NK, "kind"), m = sq::choose(3, "mode"), m2 = sep(k) ? sq::choose(3, "second mode") : m, act = sq::choose(2, "inactive"), how = sq::choose(3, "as is/cloned/loaded"); auto p = mk(k, m, m2); if (act) p->setAdaptionsInactive();
	if (how == 1) p = p->clone<GParameterBase>(); if (how == 2) { auto q = mk(k, (m + 1) % 3, m2); q->GObject::load(p); p = q; } SQ_CHECK(p->adaptionsActive() == !act, "activity lost"); enumerate(sq::thorough() ? 8 : 5);
	for (int c = 0; c < 2; c++) { auto o = values(*p); auto b = p->clone<GParameterBase>(); std::size_t n = p->adapt(gr()); auto v = values(*p); std::size_t ch = diff(o, v); sq::step(); SQ_CHECK(o.size() == (two(k) ? 2u : 1u), "value count"); SQ_CHECK(n == ch, KN[k] << ", mode " << MN[m] << "/" << MN[m2] << (act ? ", inactive" : "") << ": reports " << n << " adaptions, " << ch << " values changed");
		if (act) { SQ_CHECK(ch == 0, KN[k] << ": inactive parameter changed"); SQ_CHECK(*p == *b, KN[k] << ": inactive parameter's settings changed"); continue; } for (std::size_t i = 0; i < o.size(); i++) { int mm = sep(k) && i == 1 ? m2 : m; SQ_CHECK(!(mm == 1 && o[i] == v[i]), KN[k] << ": value " << i << " not adapted though mode is always"); SQ_CHECK(!(mm == 2 && o[i] != v[i]), KN[k] << ": value " << i << " adapted though mode is never"); } } }
// a nested collection: counts are sums, switching a node off switches off what is below it
SQ_SCENARIO(tree, s.split = 200) { int ka = sq::choose(NK, "first"), kb = (ka + 1 + 3 * sq::choose(4, "second")) % NK, ia = sq::choose(2, "first inactive"), ib = sq::choose(2, "second inactive"), ii = sq::choose(2, "inner inactive"); auto a = mk(ka, 1, 1), b = mk(kb, 1, 1), e = mk(0, 1, 1); auto in = std::make_shared<GParameterObjectCollection>(); in->push_back(b); in->push_back(mk(kb, 2, 2)); auto out = std::make_shared<GParameterObjectCollection>(); out->push_back(a); out->push_back(in); out->push_back(e); if (ia) out->at(0)->setAdaptionsInactive(); auto pin = std::dynamic_pointer_cast<GParameterObjectCollection>(out->at(1)); if (ib) pin->at(0)->setAdaptionsInactive(); if (ii) pin->setAdaptionsInactive();
	mockrnd::seed(3); auto o = values(*out); std::size_t n = out->adapt(gr()); std::size_t ch = diff(o, values(*out)); std::size_t na = two(ka) ? 2 : 1, nb = two(kb) ? 2 : 1, w = 1 + (ia ? 0 : na) + (ib || ii ? 0 : nb); SQ_CHECK(n == w && ch == w, "tree of " << KN[ka] << (ia ? " (inactive)" : "") << " and inner " << KN[kb] << (ib ? " (inactive)" : "") << (ii ? ", inner collection inactive" : "") << ": " << n << " adaptions reported, " << ch << " values changed instead of " << w); sq::step(); }
struct Ind : GParameterSet { int calls = 0; std::size_t lastn = 0; Ind() = default; Ind(const Ind&) = default; GObject *clone_() const override { return new Ind(*this); } double fitnessCalculation() override { return 1.; } };
SQ_SCENARIO(individual, s.split = 200) { int ka = sq::choose(NK, "first"), kb = (ka + 1 + 3 * sq::choose(2, "second")) % NK, ma = sq::choose(3, "mode"), mb = sq::choose(3, "second mode"), ia = sq::choose(2, "first inactive"), mu = 1 + sq::choose(2, "unsuccessful"); Ind g; g.push_back(mk(ka, ma, ma)); g.push_back(mk(kb, mb, mb)); if (ia) g.at(0)->setAdaptionsInactive(); g.setMaxUnsuccessfulAdaptions(mu);
	auto vals = [&] { std::vector<double> r; for (auto& p : g) { auto v = values(*p); r.insert(r.end(), v.begin(), v.end()); } return r; }; g.mark_as_due_for_processing(); g.process(); SQ_CHECK(g.is_processed(), "not processed"); enumerate(sq::thorough() ? 7 : 4); for (int c = 0; c < 2; c++) { auto o = vals(); std::size_t n = g.adapt(), ch = diff(o, vals()); sq::step(); SQ_CHECK(n == ch, "individual of " << KN[ka] << " and " << KN[kb] << ": " << n << " adaptions reported, " << ch << " values changed"); SQ_CHECK(g.getNAdaptions() == n, "getNAdaptions is " << g.getNAdaptions() << " after " << n << " adaptions"); SQ_CHECK(g.is_due_for_processing() == (n > 0), n << " values adapted, but is_due_for_processing is " << g.is_due_for_processing()); std::size_t na = two(ka) ? 2 : 1, nb = two(kb) ? 2 : 1, mn = (ma == 1 && !ia ? na : 0) + (mb == 1 ? nb : 0), mx = (ma == 2 || ia ? 0 : na) + (mb == 2 ? 0 : nb); SQ_CHECK(n >= mn && n <= mx, "individual of " << KN[ka] << " (" << MN[ma] << (ia ? ", inactive" : "") << ") and " << KN[kb] << " (" << MN[mb] << "): " << n << " adaptions, expected " << mn << " to " << mx); if (n) { g.process(); } } }
