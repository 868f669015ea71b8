// C06: fixed-size priority queue. All operation sequences over a small alphabet against a list reference.
#include "sq.hpp"
#include "common/GFixedSizePriorityQueueT.hpp"
#include <algorithm>
#include <memory>
using namespace Gem::Common;
struct Item : public GCommonInterfaceT<Item> {
	double v = 0; int i = 0;
	Item() = default; Item(int id, double val) : v(val), i(id) {}
	std::string name_() const override { return "Item"; }
	void load_(const Item *o) override { v = o->v; i = o->i; }
	Item *clone_() const override { return new Item(*this); }
	void compare_(const Item& o, const expectation& e, const double& l) const override {
		GToken token("Item", e); compare_t(IDENTITY(v, o.v), token); compare_t(IDENTITY(i, o.i), token); token.evaluate(); }
	bool modify_GUnitTests_() override { return false; }
	void specificTestsNoFailureExpected_GUnitTests_() override {}
	void specificTestsFailuresExpected_GUnitTests_() override {}
	template <class A> void serialize(A& ar, const unsigned int) { ar & BOOST_SERIALIZATION_NVP(v) & BOOST_SERIALIZATION_NVP(i); }
};
struct Q : public GFixedSizePriorityQueueT<Item> {
	using B = GFixedSizePriorityQueueT<Item>;
	Q() = default; Q(size_t n, sortOrder s) : B(n, s) {} Q(const Q&) = default; Q(Q&&) = default; Q& operator=(const Q&) = default; Q& operator=(Q&&) = default;
	double evaluation(const std::shared_ptr<Item>& p) const override { return p->v; }
	std::string id(const std::shared_ptr<Item>& p) const override { return std::to_string(p->i); }
	Q *clone_() const override { return new Q(*this); }
	std::string name_() const override { return "Q"; }
	void load_(const B *cp) override { B::load_(cp); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<B>(*this)); }
};
BOOST_CLASS_EXPORT(Q)
using P = std::shared_ptr<Item>;
struct Ref { std::vector<Item> c; size_t max; bool lower;
	bool better(double a, double b) const { return lower ? a < b : a > b; }
	void norm() { std::stable_sort(c.begin(), c.end(), [this](const Item& a, const Item& b) { return better(a.v, b.v); }); if (max && c.size() > max) c.resize(max); }
	void offer(const std::vector<P>& v, bool replace) { if (replace) c.clear(); for (auto& p : v) { bool dup = false; for (auto& x : c) dup |= x.i == p->i; if (!dup) c.push_back(*p); } norm(); } };
// which of several equal ones survives the cut is not specified: compare values, and identities of those strictly better than the last
static void agree(const Q& q, const Ref& r, const std::string& hist) {
	auto v = q.toVector();
	std::ostringstream o; o << hist << " content:"; for (auto& p : v) { if (!p) sq::fail("empty pointer in queue after " + hist); o << " " << p->i << ":" << p->v; } o << " expected:"; for (auto& p : r.c) o << " " << p.i << ":" << p.v;
	SQ_CHECK(v.size() == r.c.size() && q.size() == v.size() && q.empty() == v.empty(), "wrong number of entries; " << o.str());
	SQ_CHECK(q.getMaxSize() == r.max && (q.getSortOrder() == sortOrder::LOWERISBETTER) == r.lower, "limit or sort order wrong; " << o.str());
	for (size_t i = 0; i < v.size(); i++) {
		SQ_CHECK(v[i]->v == r.c[i].v, "entry " << i << " is not the one expected; " << o.str());
		for (size_t k = 0; k < i; k++) SQ_CHECK(v[i]->i != v[k]->i, "identifier twice; " << o.str());
		if (r.better(v[i]->v, r.c.back().v)) { bool f = false; for (auto& x : r.c) f |= x.i == v[i]->i; SQ_CHECK(f, "foreign entry; " << o.str()); }
	}
	if (v.empty()) { SQ_THROWS(q.best(), "best() of an empty queue; " << hist); SQ_THROWS(q.worst(), "worst() of an empty queue; " << hist); }
	else { SQ_CHECK(q.best() == v.front() && q.worst() == v.back(), "best/worst do not agree with the content; " << o.str()); }
	sq::H h; for (auto& p : v) h << p->i; h << r.max << r.lower; sq::state(h);
}
static double val(int id, int pattern) { static const double V[3][7] = {{1, 2, 3, 4, 5, 6, 7}, {3, 1, 3, 2, 1, 2, 3}, {-2, 5, 0, -7, 1e300, -1e300, 5}}; return V[pattern][id]; }
static void check_copies(Q& q, Ref& r, int how, std::string& hist) {
	std::unique_ptr<Q> c;
	switch (how) {
	case 0: c.reset(new Q(q)); hist += "|copy"; break;
	case 1: c.reset(new Q(1, sortOrder::HIGHERISBETTER)); c->add(P(new Item(50, 3)), false); *c = q; hist += "|assign"; break;
	case 2: c.reset(dynamic_cast<Q *>(q.clone().get()->clone().get() ? new Q(*std::dynamic_pointer_cast<Q>(q.clone())) : nullptr)); hist += "|clone"; break;
	case 3: c.reset(new Q(2, sortOrder::HIGHERISBETTER)); for (int i = 0; i < 2; i++) c->add(P(new Item(50 + i, 3)), false); c->load(static_cast<const Q::B&>(q)); hist += "|load"; break;
	case 4: { Q t(q); c.reset(new Q(std::move(t))); hist += "|move"; break; }
	case 5: { Q t(q); c.reset(new Q(1, sortOrder::HIGHERISBETTER)); *c = std::move(t); hist += "|moveassign"; break; }
	default: { auto m = how == 6 ? serializationMode::TEXT : how == 7 ? serializationMode::XML : serializationMode::BINARY; c.reset(new Q(1, sortOrder::HIGHERISBETTER)); c->add(P(new Item(50, 3)), false); c->fromString(q.toString(m), m); hist += "|serialize"; break; }
	}
	agree(*c, r, hist);
	for (auto& a : c->toVector()) for (auto& b : q.toVector()) SQ_CHECK(a != b, "copy shares entries with the original; " << hist);
	SQ_NOTHROW(c->compare(q, expectation::EQUALITY, 0.), "copy differs: " << hist);
	if (!q.empty()) { // independence
		c->best()->v += 100; c->pop(); agree(q, r, hist + "|after change of the copy");
		bool eq = true; try { c->compare(q, expectation::EQUALITY, 0.); } catch (const std::exception&) { eq = false; } SQ_CHECK(!eq, "changed copy compares equal; " << hist);
	}
}
static void seq(int depth, bool lastcopy) {
	int pat = sq::choose(3, "values"); Ref r; r.lower = sq::choose(2, "order") == 0; static const size_t MX[] = {2, 3, 1, 0}; r.max = MX[sq::choose(4, "limit")];
	Q q(r.max, r.lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER); std::string hist = "limit " + std::to_string(r.max) + (r.lower ? " lower" : " higher");
	agree(q, r, hist);
	for (int d = 0; d < depth; d++) {
		sq::step(); int op = sq::choose(9, "op");
		auto mk = [&](int i) { return P(new Item(i, val(i, pat))); };
		switch (op) {
		case 0: case 1: { int i = sq::choose(5, "item"); bool cl = op == 1; auto p = mk(i); bool had = false; for (auto& x : q.toVector()) had |= x->i == i; hist += " add" + std::to_string(i) + (cl ? "c" : ""); q.add(p, cl); r.offer({p}, false);
			bool in = false, same = false; for (auto& x : q.toVector()) if (x->i == i) { in = true; same = x == p; } if (in && !had) SQ_CHECK(same == !cl, "cloning request not honoured; " << hist); p->v = p->v; break; }
		case 2: case 3: case 4: { // batches: all ordered pairs / some triples
			std::vector<P> v; int n = sq::choose(4, "batch size"); hist += op == 2 ? " batch(" : op == 3 ? " batchc(" : " replace(";
			static const int T[6][3] = {{0, 1, 2}, {2, 1, 0}, {4, 0, 3}, {3, 3, 1}, {5, 6, 0}, {6, 5, 4}};
			if (n == 3) { int t = sq::choose(6, "triple"); for (int k = 0; k < 3; k++) v.push_back(mk(T[t][k])); }
			else for (int k = 0; k < n; k++) v.push_back(mk(sq::choose(d ? 3 : 5, "batch item") * (d ? 2 : 1)));
			for (auto& p : v) hist += std::to_string(p->i); hist += ")";
			q.add(v, op == 3, op == 4); r.offer(v, op == 4);
			if (op == 3) for (auto& x : q.toVector()) for (auto& p : v) SQ_CHECK(x != p, "batch entry not cloned; " << hist);
			break; }
		case 5: { r.max = MX[sq::choose(4, "new limit")]; hist += " max" + std::to_string(r.max); q.setMaxSize(r.max); r.norm(); break; }
		case 6: { r.lower = !r.lower; hist += " flip"; q.setSortOrder(r.lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER); r.norm(); break; }
		case 7: { hist += " pop"; if (r.c.empty()) { SQ_THROWS(q.pop(), "pop() of an empty queue; " << hist); } else { auto b = q.best(); auto p = q.pop(); SQ_CHECK(p == b && p->v == r.c.front().v, "pop() does not return the best; " << hist); for (size_t k = 0; k < r.c.size(); k++) if (r.c[k].i == p->i) { r.c.erase(r.c.begin() + k); break; } } break; }
		case 8: { hist += " clear"; q.clear(); r.c.clear(); break; }
		}
		// an entry of equal value may have survived instead: adopt it
		if (r.c.size() == q.size()) { auto v = q.toVector(); for (size_t k = 0; k < v.size(); k++) if (v[k]->v != r.c[k].v) { agree(q, r, hist); } }
		agree(q, r, hist);
		{ auto v = q.toVector(); for (size_t k = 0; k < v.size(); k++) r.c[k] = *v[k]; }
		{ sq::H h; for (auto& x : r.c) h << x.i; h << r.max << r.lower << pat << d; if (!sq::fresh(h)) return; } // content, limit and order determine the future
	}
	if (lastcopy) check_copies(q, r, sq::choose(9, "copy kind"), hist);
	sq::outcome(std::to_string(q.size()) + (q.empty() ? "" : " best " + std::to_string(q.best()->i)));
}
SQ_SCENARIO(sequences) { seq(sq::thorough() ? 6 : 4, false); }
SQ_SCENARIO(copies) { seq(sq::thorough() ? 4 : 3, true); }
// offering an identifier again with another evaluation: which of the two survives is not specified, but never both
static void updates(int depth) {
	bool lower = sq::choose(2, "order") == 0; static const size_t MX[] = {0, 2, 3}; size_t max = MX[sq::choose(3, "limit")]; Q q(max, lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER);
	using IV = std::pair<int, double>; std::vector<IV> c; std::string hist = "limit " + std::to_string(max) + (lower ? " lower" : " higher");
	auto better = [&](double a, double b) { return lower ? a < b : a > b; };
	for (int d = 0; d < depth; d++) {
		sq::step(); int nb = sq::choose(2, "single or batch") ? 2 : 1; std::vector<P> v; for (int k = 0; k < nb; k++) v.push_back(P(new Item(sq::choose(3, "id"), 1. + sq::choose(3, "value"))));
		hist += nb == 1 ? " add" : " batch"; for (auto& p : v) hist += " " + std::to_string(p->i) + ":" + std::to_string((int)p->v);
		if (nb == 1) q.add(v[0], false); else q.add(v, false, false);
		std::vector<IV> got; std::ostringstream o; o << hist << " content:"; for (auto& p : q.toVector()) { got.push_back({p->i, p->v}); o << " " << p->i << ":" << p->v; }
		for (size_t k = 0; k < got.size(); k++) { for (size_t l = 0; l < k; l++) SQ_CHECK(got[k].first != got[l].first, "identifier twice; " << o.str()); if (k) SQ_CHECK(!better(got[k].second, got[k - 1].second), "not sorted; " << o.str()); bool known = false; for (auto& x : c) known |= x == got[k]; for (auto& p : v) known |= IV(p->i, p->v) == got[k]; SQ_CHECK(known, "foreign entry; " << o.str()); }
		SQ_CHECK(!max || got.size() <= max, "limit exceeded; " << o.str());
		std::set<int> ids; for (auto& x : c) ids.insert(x.first); for (auto& p : v) ids.insert(p->i); if (!max || ids.size() <= max) { std::set<int> g; for (auto& x : got) g.insert(x.first); SQ_CHECK(g == ids, "an identifier got lost although there was room; " << o.str()); }
		if (nb == 1) { bool in = false; for (auto& x : c) in |= x.first == v[0]->i; double nv = v[0]->v; size_t want = in || (max && c.size() == max) ? c.size() : c.size() + 1; SQ_CHECK(got.size() == want, "wrong number of entries; " << o.str());
			std::vector<IV> same, diff; for (auto& x : c) { bool f = false; for (auto& y : got) f |= x == y; if (!f) diff.push_back(x); } SQ_CHECK(diff.size() <= 1, "more than one entry was replaced; " << o.str());
			if (diff.size() == 1) SQ_CHECK(diff[0].first == v[0]->i || (!in && !better(diff[0].second, nv)), "a better entry was replaced by a worse one; " << o.str());
			if (!in && max && c.size() == max && better(nv, c.back().second)) SQ_CHECK(diff.size() == 1, "a better candidate was not accepted; " << o.str()); }
		c = got; sq::H h; for (auto& x : c) h << x.first << x.second; h << max << lower << d; if (!sq::fresh(h)) return;
	}
	sq::outcome(std::to_string(q.size()));
}
SQ_SCENARIO(updates) { updates(sq::thorough() ? 6 : 4); }
