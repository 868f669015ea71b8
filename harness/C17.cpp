// C17: constrained parameters never show a value outside their range, for any internal value and any sequence of boundary changes.
#include "sq.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
using namespace Gem::Geneva;
using LL = long long; using Q = __float128;
static const double MX = GMAXCONSTRAINEDDOUBLE; static const LL MI = GMAXCONSTRAINEDINT32;
static double prior(double d) { return boost::math::float_prior(d); } static double next(double d) { return boost::math::float_next(d); }
static const double V[] = {0., 1., -1., 0.1, -0.1, 0.3, 0.7, 1. / 3, 2., -2.5, 10., -10., 1e-10, -1e-10, 1e-300, 1e3, -1e3, 1e10, -1e10, 123456789.125, 1e100, -1e100, 1e300, -1e300, MX, -MX};
static const int NV = sizeof(V) / sizeof(V[0]);
static const double W[] = {0, 1, 2, 3, 100}; // extra ranges: this many representable numbers wide
static Q qabs(Q x) { return x < 0 ? -x : x; }
static Q fold(Q v, Q l, Q u) { if (v >= l && v <= u) return v; Q w = u - l; if (w == 0 || qabs(v - l) > 1e17 * w) return l; Q x = (v - l) - 2 * w * Q(std::floor((long double)((v - l) / (2 * w)))); while (x < 0) x += 2 * w; while (x >= 2 * w) x -= 2 * w; return x <= w ? l + x : l + 2 * w - x; }
static std::string S(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
// the mapped value of internal value v within stored bounds [l,u]; e: relative accuracy demanded
static void judge(const char *who, double v, double l, double u, bool threw, bool foreign, double r, double e) {
	std::string c = std::string(who) + " with range [" + S(l) + "," + S(u) + "], internal value " + S(v);
	bool far = std::abs(v) / 2 > (u / 2 - l / 2) * 1e18; SQ_CHECK(!foreign, c << ": a foreign exception escaped");
	if (threw) { SQ_CHECK(u > l && far, c << ": refused"); return; }
	SQ_CHECK(r >= l && r <= u, c << ": mapped to " << S(r) << " outside of the range"); if (v >= l && v <= u) { SQ_CHECK(r == v, c << ": a value inside of the range was changed to " << S(r)); return; }
	if (std::abs(v) / 2 > (u / 2 - l / 2) * 1e16) return; Q ref = fold(v, l, u), tol = Q(e) * (qabs(v) + qabs(l) + qabs(u)) + Q(2.3e-16) * (qabs(l) + qabs(u)); SQ_CHECK(qabs(ref - Q(r)) <= tol, c << ": mapped to " << S(r) << " instead of " << S((double)ref)); }
static double internalValue(double l, double u) { double w = u - l; std::vector<double> c; for (int k = -14; k <= 18; k++) c.push_back(l + k * (w / 4)); for (double d : V) c.push_back(d);
	for (double b : {l, u, l - w, u + w, l - 2 * w, u + 2 * w}) for (double x : {prior(b), next(b), prior(prior(b)), next(next(b))}) c.push_back(x);
	for (double m : {1e5, 1.23456789e8, 3e9, -3e9, 1e12, 7.77e15, -7.77e15, 1e17}) { c.push_back(l + m * w); c.push_back(u + m * w); }
	double v = c[sq::choose((int)c.size(), "internal")]; return v; }
static bool range(double& l, double& u) { int a = sq::choose(NV, "lower"); l = V[a]; int b = sq::choose(NV + 5, "upper"); if (b < NV) u = V[b]; else { u = l; for (int k = 0; k < W[b - NV] + 1; k++) u = next(u); } return l < u && l >= -MX && u <= MX; }
template <class F> static void call(F f, bool& threw, bool& foreign, double& r) { threw = foreign = false; r = 0; try { r = f(); } catch (const gemfony_exception&) { threw = true; } catch (...) { threw = foreign = true; } }
SQ_SCENARIO(double_mapping, s.split = 600) {
	double l, u; if (!range(l, u)) return; double v = internalValue(l, u); if (!std::isfinite(v)) return; bool t, f; double r; int kind = sq::choose(3, "kind"); sq::outcome(std::to_string(kind));
	if (kind == 0) { GConstrainedDoubleObject o(0.5, 0., 1.); o.setValue(0.5); o.setBoundaries(-MX, MX); o.setValue(l, l, u); double us = o.getUpperBoundary(), ls = o.getLowerBoundary(); SQ_CHECK(ls == l && us == prior(u), "stored boundaries [" << S(ls) << "," << S(us) << "] for [" << S(l) << "," << S(u) << ")");
		call([&] { return o.transfer(v); }, t, f, r); judge("GConstrainedDoubleObject", v, l, us, t, f, r, 4e-19); if (t) return; o.fixedValueInit<double>(v, activityMode::ALLPARAMETERS); double x = o.value(); SQ_CHECK(x == r && o.value() == x && o.getInternalValue() == x, "value() after setting the internal value: " << S(x) << " instead of " << S(r));
	} else if (kind == 1) { if (l >= prior(u)) return; GConstrainedDoubleCollection c(2, l, l, u); SQ_CHECK(c.getLowerBoundary() == l && c.getUpperBoundary() == prior(u), "stored boundaries of a collection"); call([&] { return c.transfer(v); }, t, f, r); judge("GConstrainedDoubleCollection", v, l, prior(u), t, f, r, 1e-15); if (t) return;
		c.at(1) = v; std::vector<double> p; c.streamline<double>(p, activityMode::ALLPARAMETERS); SQ_CHECK(p.size() == 2 && p[0] == l && p[1] == r && c.value(1) == r && c.value(1) == r && c.value(0) == l, "collection shows " << S(p[1]) << " for internal value " << S(v));
	} else { if (l >= prior(u)) return; GConstrainedDoubleObject o(l, l, u); SQ_CHECK(o.value() == l, "constructed value"); bool ok = v >= l && v <= u; bool th = false; try { GConstrainedDoubleObject q(v, l, u); double x = q.value(); SQ_CHECK(x >= l && x < u && (x == v || v == u), "constructor with " << S(v) << " in [" << S(l) << "," << S(u) << ") gave " << S(x)); } catch (const gemfony_exception&) { th = true; } SQ_CHECK(th == !ok, "construction with value " << S(v) << " and range [" << S(l) << "," << S(u) << ") was " << (th ? "refused" : "accepted"));
		th = false; try { o.setValue(v); } catch (const gemfony_exception&) { th = true; } SQ_CHECK(th == !ok && (th ? o.value() == l : o.value() == std::min(v, prior(u))), "setValue(" << S(v) << ") in [" << S(l) << "," << S(u) << ") " << (th ? "refused" : "accepted") << ", value " << S(o.value()));
		th = false; o.setValue(l); try { o = v; } catch (const gemfony_exception&) { th = true; } SQ_CHECK(th == !ok && (th ? o.value() == l : o.value() == std::min(v, prior(u))), "assignment of " << S(v));
		if (v < l) { SQ_THROWS(GConstrainedDoubleObject(u, v), "reversed boundaries accepted"); SQ_THROWS(GConstrainedDoubleObject(l, u, v), "reversed boundaries accepted"); } SQ_THROWS(GConstrainedDoubleObject(l, l), "empty range accepted"); SQ_THROWS(GConstrainedDoubleObject(-1.5 * MX, u), "boundary beyond the allowed limits accepted"); SQ_THROWS(GConstrainedDoubleObject(l, 1.5 * MX), "boundary beyond the allowed limits accepted"); }
}
// integers: reference in 128 bit. Triangle wave with doubled end points: ..., l+1, l, l, l+1, ..., u, u, u-1, ...
static LL ifold(LL v, LL l, LL u) { LL w = u - l + 1, x = (v - l) % (2 * w); if (x < 0) x += 2 * w; return x < w ? l + x : u - (x - w); }
static void int_case(LL l, LL u, LL v) {
	GConstrainedInt32Object o((std::int32_t)l, (std::int32_t)l, (std::int32_t)u); LL r = o.transfer((std::int32_t)v); std::string c = "GConstrainedInt32Object with range [" + std::to_string(l) + "," + std::to_string(u) + "], internal value " + std::to_string(v);
	SQ_CHECK(r >= l && r <= u, c << ": mapped to " << r << " outside of the range"); SQ_CHECK(r == ifold(v, l, u), c << ": mapped to " << r << " instead of " << ifold(v, l, u)); o.fixedValueInit<std::int32_t>((std::int32_t)v, activityMode::ALLPARAMETERS); SQ_CHECK(o.value() == r && o.value() == r && o.getInternalValue() == r, c << ": value() is " << o.value());
	bool th = false; o.setValue((std::int32_t)l); try { o.setValue((std::int32_t)v); } catch (const gemfony_exception&) { th = true; } SQ_CHECK(th == (v < l || v > u) && o.value() == (th ? l : v), c << ": setValue " << (th ? "refused" : "accepted")); }
SQ_SCENARIO(int_mapping_small, s.split = 12) { int n = sq::thorough() ? 9 : 6; LL l = sq::choose(2 * n + 1, "lower") - n, u = l + 1 + sq::choose(n, "width"), v = sq::choose(121, "value") - 60; sq::outcome(std::to_string((v - l) / (u - l + 1))); int_case(l, u, v); }
SQ_SCENARIO(int_mapping_extreme, s.split = 100) { static const LL B[] = {-MI, -MI + 1, -1000000, -2, -1, 0, 1, 2, 3, 1000, 1000000, MI - 1, MI}; const int nb = 13; static const LL I[] = {INT32_MIN, INT32_MIN + 1, INT32_MIN + 2, -2000000000, -1073741824, -MI - 1, -MI, -17, -1, 0, 1, 17, MI, MI + 1, 1073741824, 2000000000, INT32_MAX - 1, INT32_MAX}; const int ni = 18;
	LL l = B[sq::choose(nb, "lower")], u = B[sq::choose(nb, "upper")]; if (l >= u) return; int k = sq::choose(ni + 8, "value"); LL v; if (k < ni) v = I[k]; else { LL w = u - l + 1; static const int M[] = {-3, -2, -1, 0, 1, 2, 3, 4}; v = l + w * M[k - ni] + sq::choose(5, "offset") - 2; if (v < INT32_MIN || v > INT32_MAX) return; } int_case(l, u, v); }
// histories of boundary and value changes
static std::set<std::string> g_seen;
SQ_SCENARIO(double_histories, s.split = 400) {
	GConstrainedDoubleObject o(0.5, 0., 1.); double l = 0, u = prior(1.), v = 0.5; std::string h; static const double P[] = {-1., 0., 0.25, 0.5, 1., 3., 1e-3}; const int np = 7; auto pick = [&](const char *w) { return P[sq::choose(np, w)]; }; int depth = sq::thorough() ? 5 : 3;
	for (int d = 0; d < depth; d++) { sq::H s; s << d << l << u << v; sq::state(s); if (!sq::fresh(s)) return;
		switch (sq::choose(9, "op")) {
		case 0: { double x = pick("v"); h += " setValue(" + S(x) + ")"; bool ok = (x >= l && x <= u) || x == next(u); bool t = false; try { o.setValue(x); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "refusal wrong after" << h); if (ok) v = std::min(x, u); break; }
		case 1: { double a = pick("l"), b = pick("u"), x = pick("v"); h += " setValue(" + S(x) + "," + S(a) + "," + S(b) + ")"; bool ok = a < b && x >= a && x <= b; bool t = false; try { o.setValue(x, a, b); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "refusal wrong after" << h); if (ok) { l = a; u = prior(b); v = std::min(x, u); } break; }
		case 2: { double a = pick("l"), b = pick("u"); h += " setBoundaries(" + S(a) + "," + S(b) + ")"; bool ok = a < b && v >= a && v < b; bool t = false; try { o.setBoundaries(a, b); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "refusal wrong after" << h); if (ok) { l = a; u = prior(b); } break; }
		case 3: h += " resetBoundaries"; o.resetBoundaries(); l = -MX; u = prior(MX); break;
		case 4: { double m = pick("factor") * 2; h += " multiplyBy(" + S(m) + ")"; o.multiplyBy<double>(m, activityMode::ALLPARAMETERS); v = (double)fold(m * v, l, u); break; }
		case 5: { auto p = std::make_shared<GConstrainedDoubleObject>(pick("summand"), -10., 10.); bool sub = sq::choose(2, "sub"); h += (sub ? " subtract(" : " add(") + S(p->value()) + ")"; if (sub) o.subtract<double>(p, activityMode::ALLPARAMETERS); else o.add<double>(p, activityMode::ALLPARAMETERS); v = (double)fold(sub ? v - p->value() : v + p->value(), l, u); break; }
		case 6: { double x = pick("v") * 4; h += " assignValueVector(" + S(x) + ")"; std::vector<double> vec{x}; std::size_t pos = 0; o.assignValueVector<double>(vec, pos, activityMode::ALLPARAMETERS); (void)pos; v = (double)fold(x, l, u); break; }
		case 7: { h += " load"; GConstrainedDoubleObject c(0.1, 0., 0.2); c.GObject::load(static_cast<const GObject&>(o)); o.setBoundaries(-MX, MX); o.GObject::load(static_cast<const GObject&>(c)); break; }
		case 8: { int m = sq::choose(3, "mode"); h += " serialize"; auto mode = (Gem::Common::serializationMode)m; std::string str = o.toString(mode); o.setBoundaries(-MX, MX); o.fromString(str, mode); break; } }
		sq::step(); double x = o.value(); double tol = 4e-16 * (std::abs(l) < 1e10 ? std::max({std::abs(l), std::abs(u), 1.}) : std::abs(v)); SQ_CHECK(o.getLowerBoundary() == l && o.getUpperBoundary() == u, "range is [" << S(o.getLowerBoundary()) << "," << S(o.getUpperBoundary()) << "] instead of [" << S(l) << "," << S(u) << "] after" << h); SQ_CHECK(x >= l && x <= u, "value " << S(x) << " outside of [" << S(l) << "," << S(u) << "] after" << h); SQ_CHECK(std::abs(x - v) <= tol, "value " << S(x) << " instead of " << S(v) << " after" << h); v = x;
		std::vector<double> p; o.streamline<double>(p, activityMode::ALLPARAMETERS); SQ_CHECK(p.size() == 1 && p[0] == x, "streamline differs from value() after" << h); }
}
SQ_SCENARIO(int_histories, s.split = 400) {
	GConstrainedInt32Object o(3, 0, 5); LL l = 0, u = 5, v = 3; std::string h; static const LL P[] = {-7, -1, 0, 2, 5, 11}; const int np = 6; auto pick = [&](const char *w) { return P[sq::choose(np, w)]; }; int depth = sq::thorough() ? 5 : 3; auto I = [](LL x) { return (std::int32_t)x; }; auto T = [](LL x) { return std::to_string(x); };
	for (int d = 0; d < depth; d++) { sq::H s; s << d << l << u << v; sq::state(s); if (!sq::fresh(s)) return;
		switch (sq::choose(7, "op")) {
		case 0: { LL x = pick("v"); h += " setValue(" + T(x) + ")"; bool ok = x >= l && x <= u, t = false; try { o.setValue(I(x)); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "refusal wrong after" << h); if (ok) v = x; break; }
		case 1: { LL a = pick("l"), b = pick("u"), x = pick("v"); h += " setValue(" + T(x) + "," + T(a) + "," + T(b) + ")"; bool ok = a <= b && x >= a && x <= b, t = false; try { o.setValue(I(x), I(a), I(b)); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "refusal wrong after" << h); if (ok) { l = a; u = b; v = x; } break; }
		case 2: { LL a = pick("l"), b = pick("u"); h += " setBoundaries(" + T(a) + "," + T(b) + ")"; bool ok = a <= b && v >= a && v <= b, t = false; try { o.setBoundaries(I(a), I(b)); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "refusal wrong after" << h); if (ok) { l = a; u = b; } break; }
		case 3: h += " resetBoundaries"; o.resetBoundaries(); l = -MI; u = MI; break;
		case 4: { LL m = pick("factor"); if (std::abs(m * v) > INT32_MAX) break; h += " multiplyBy(" + T(m) + ")"; o.multiplyBy<std::int32_t>(I(m), activityMode::ALLPARAMETERS); v = ifold(m * v, l, u); break; }
		case 5: { auto p = std::make_shared<GConstrainedInt32Object>(I(pick("summand")), -20, 20); bool sub = sq::choose(2, "sub"); h += (sub ? " subtract(" : " add(") + T(p->value()) + ")"; if (sub) o.subtract<std::int32_t>(p, activityMode::ALLPARAMETERS); else o.add<std::int32_t>(p, activityMode::ALLPARAMETERS); v = ifold(sub ? v - p->value() : v + p->value(), l, u); break; }
		case 6: { int m = sq::choose(4, "mode"); h += " copy/serialize"; if (m == 3) { GConstrainedInt32Object c(0, 0, 1); c.GObject::load(static_cast<const GObject&>(o)); o.resetBoundaries(); o.GObject::load(static_cast<const GObject&>(c)); break; } auto mode = (Gem::Common::serializationMode)m; std::string str = o.toString(mode); o.resetBoundaries(); o.fromString(str, mode); break; } }
		sq::step(); SQ_CHECK(o.getLowerBoundary() == l && o.getUpperBoundary() == u && o.value() == v, "state " << o.value() << " in [" << o.getLowerBoundary() << "," << o.getUpperBoundary() << "] instead of " << v << " in [" << l << "," << u << "] after" << h); }
}
SQ_SCENARIO(collection_histories, s.split = 400) {
	GConstrainedDoubleCollection o(2, 0.5, 0., 1.); double l = 0, u = prior(1.), v[2] = {0.5, 0.5}; std::string h; static const double P[] = {-1., 0., 0.25, 0.5, 1., 3.}; const int np = 6; auto pick = [&](const char *w) { return P[sq::choose(np, w)]; }; int depth = sq::thorough() ? 5 : 3;
	auto upperOk = [&](double b) { double s = o.getUpperBoundary(); return s == b || s == prior(b); };
	for (int d = 0; d < depth; d++) { sq::H s; s << d << l << u << v[0] << v[1]; sq::state(s); if (!sq::fresh(s)) return;
		switch (sq::choose(7, "op")) {
		case 0: { int p = sq::choose(2, "pos"); double x = pick("v"); h += " setValue(" + std::to_string(p) + "," + S(x) + ")"; bool t = false; try { o.setValue(p, x); } catch (const gemfony_exception&) { t = true; } if (x == next(u)) { if (!t) v[p] = u; break; } SQ_CHECK(t == (x < l || x > u), "refusal wrong after" << h); if (!t) v[p] = x; break; }
		case 1: { double a = pick("l"), b = pick("u"); h += " setBoundaries(" + S(a) + "," + S(b) + ")"; bool bad = a > b || v[0] < a || v[1] < a || v[0] > b || v[1] > b, edge = a == b || v[0] == b || v[1] == b, t = false; try { o.setBoundaries(a, b); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(!bad || t, "boundaries that contradict the values were accepted after" << h); SQ_CHECK(bad || edge || !t, "valid boundaries were refused after" << h); if (!t) { SQ_CHECK(upperOk(b), "upper boundary " << S(o.getUpperBoundary()) << " after" << h); l = a; u = o.getUpperBoundary(); } break; }
		case 2: h += " resetBoundaries"; o.resetBoundaries(); l = -MX; SQ_CHECK(upperOk(MX), "upper boundary after" << h); u = o.getUpperBoundary(); break;
		case 3: { double m = pick("factor") * 2; h += " multiplyBy(" + S(m) + ")"; o.multiplyBy<double>(m, activityMode::ALLPARAMETERS); for (double& x : v) x = (double)fold(m * x, l, u); break; }
		case 4: { int p = sq::choose(2, "pos"); double x = pick("v") * 5; h += " internal[" + std::to_string(p) + "]=" + S(x); o.at(p) = x; v[p] = (double)fold(x, l, u); break; }
		case 5: { h += " load"; GConstrainedDoubleCollection c(1, 0.1, 0., 0.2); c.GObject::load(static_cast<const GObject&>(o)); o.resetBoundaries(); o.GObject::load(static_cast<const GObject&>(c)); break; }
		case 6: { int m = sq::choose(3, "mode"); h += " serialize"; auto mode = (Gem::Common::serializationMode)m; std::string str = o.toString(mode); o.resetBoundaries(); o.fromString(str, mode); break; } }
		sq::step(); SQ_CHECK(o.getLowerBoundary() == l && o.getUpperBoundary() == u && o.size() == 2, "range is [" << S(o.getLowerBoundary()) << "," << S(o.getUpperBoundary()) << "] instead of [" << S(l) << "," << S(u) << "] after" << h); std::vector<double> pv; o.streamline<double>(pv, activityMode::ALLPARAMETERS);
		for (int p = 0; p < 2; p++) { double x = o.value(p), tol = 4e-16 * (std::abs(l) < 1e10 ? std::max({std::abs(l), std::abs(u), 1.}) : std::abs(v[p])); SQ_CHECK(x >= l && x <= u, "value " << S(x) << " outside of [" << S(l) << "," << S(u) << "] after" << h); SQ_CHECK(std::abs(x - v[p]) <= tol, "value " << S(x) << " instead of " << S(v[p]) << " after" << h); SQ_CHECK(pv.at(p) == x, "streamline shows " << S(pv[p]) << " but value() " << S(x) << " after" << h); v[p] = x; }
	}
}
