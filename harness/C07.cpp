// C07: pointer and POD vector containers against std::vector, including ownership (aliasing) of the elements
#include "sq.hpp"
#include "common/GPtrVectorT.hpp"
#include "common/GPODVectorT.hpp"
#include "common/GCommonInterfaceT.hpp"
#include <memory>
using namespace Gem::Common;
struct Item : public GCommonInterfaceT<Item> {
	int v = 0; Item() = default; explicit Item(int x) : v(x) {} virtual ~Item() = default;
	bool operator==(const Item& o) const { return v == o.v; }
	std::string name_() const override { return "Item"; }
	void load_(const Item *o) override { v = o->v; }
	Item *clone_() const override { return new Item(*this); }
	void compare_(const Item& o, const expectation& e, const double&) const override { GToken token("Item", e); compare_t(IDENTITY(v, o.v), token); token.evaluate(); }
	bool modify_GUnitTests_() override { return false; }
	void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
	template <class A> void serialize(A& ar, const unsigned int) { ar & BOOST_SERIALIZATION_NVP(v); }
};
struct Sub : public Item { Sub() = default; explicit Sub(int x) : Item(x) {} Item *clone_() const override { return new Sub(*this); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("i", boost::serialization::base_object<Item>(*this)); } };
BOOST_CLASS_EXPORT(Sub)
struct V : public GPtrVectorT<Item, Item> { using GPtrVectorT<Item, Item>::operator=; V() = default; V(const V&) = default; V(V&&) = default; V& operator=(const V&) = default; V& operator=(V&&) = default;
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<GPtrVectorT<Item, Item>>(*this)); } };
using P = std::shared_ptr<Item>; using C = std::shared_ptr<int>;
struct M { V v; std::vector<C> r; std::vector<P> pool; std::vector<C> pc; std::string hist; };
static std::string show(const M& m) { std::ostringstream o; o << m.hist << " | content:"; for (auto& p : m.v) o << " " << (p ? p->v : -999); o << " expected:"; for (auto& c : m.r) o << " " << *c; return o.str(); }
static void agree(const M& m) {
	SQ_CHECK(m.v.size() == m.r.size() && m.v.empty() == m.r.empty(), "size differs: " << show(m));
	for (size_t i = 0; i < m.r.size(); i++) {
		SQ_CHECK(m.v[i], "empty pointer stored: " << show(m));
		SQ_CHECK(m.v[i]->v == *m.r[i] && m.v.at(i) == m.v[i], "element " << i << " differs: " << show(m));
		for (size_t k = 0; k < i; k++) SQ_CHECK((m.v[i] == m.v[k]) == (m.r[i] == m.r[k]), "elements " << k << "," << i << " wrongly share / do not share an object: " << show(m));
		for (size_t k = 0; k < m.pool.size(); k++) SQ_CHECK((m.v[i] == m.pool[k]) == (m.r[i] == m.pc[k]), "element " << i << " wrongly is / is not the caller's object: " << show(m));
	}
	if (!m.r.empty()) { SQ_CHECK(m.v.front() == m.v[0] && m.v.back() == m.v[m.r.size() - 1] && *m.v.begin() == m.v[0] && *m.v.rbegin() == m.v.back(), "front/back/iterators: " << show(m)); }
	SQ_CHECK(size_t(m.v.end() - m.v.begin()) == m.r.size() && size_t(m.v.rend() - m.v.rbegin()) == m.r.size(), "iterator range: " << show(m));
	SQ_THROWS(m.v.at(m.r.size()), "at() past the end is accepted: " << show(m));
}
static uint64_t hash(const M& m, int d) { sq::H h; for (size_t i = 0; i < m.r.size(); i++) { h << *m.r[i]; int a = -1, k = 0; for (; k < (int)i; k++) if (m.r[k] == m.r[i]) { a = k; break; } h << a; for (size_t j = 0; j < m.pc.size(); j++) h << (m.pc[j] == m.r[i]); } for (auto& c : m.pc) h << *c; h << d; return h; }
static C cell(int v) { return std::make_shared<int>(v); }
// the block [pos,pos+n) was inserted 'without clone' for one object: exactly one of them is the caller's
static void block(M& m, size_t pos, size_t n, int k) {
	size_t hit = n; for (size_t i = 0; i < n; i++) if (pos + i < m.v.size() && m.v[pos + i] == m.pool[k]) { hit = i; break; }
	if (n) SQ_CHECK(hit < n, "the caller's object was not stored: " << show(m));
	for (size_t i = 0; i < n; i++) m.r.insert(m.r.begin() + pos + i, i == hit ? m.pc[k] : cell(*m.pc[k]));
}
static void ptr_seq(int depth, size_t maxlen) {
	M m; for (int i = 0; i < 2; i++) { m.pool.push_back(i ? P(new Sub(i + 1)) : P(new Item(i + 1))); m.pc.push_back(cell(i + 1)); }
	for (int d = 0; d < depth; d++) {
		if (m.r.size() > maxlen) return;
		sq::step(); int op = sq::choose(27, "op"); int n = m.r.size(); auto H = [&](const std::string& s) { m.hist += " " + s; if (sq::verbose()) sq::note(m.hist); };
		auto item = [&] { return sq::choose(2, "item"); }; auto pos = [&] { return sq::choose(n + 1, "pos"); }; auto S = [](int i) { return std::to_string(i); };
		switch (op) {
		case 0: { int k = item(); H("push_back" + S(k)); m.v.push_back(m.pool[k]); m.r.push_back(m.pc[k]); break; }
		case 1: { int k = item(); H("push_back_clone" + S(k)); m.v.push_back_clone(m.pool[k]); m.r.push_back(cell(*m.pc[k])); break; }
		case 2: { int k = item(); H("push_back_noclone" + S(k)); m.v.push_back_noclone(m.pool[k]); m.r.push_back(m.pc[k]); break; }
		case 3: { int k = item(), p = pos(); H("insert" + S(p) + S(k)); auto it = m.v.insert(m.v.begin() + p, m.pool[k]); m.r.insert(m.r.begin() + p, m.pc[k]); SQ_CHECK(it - m.v.begin() == p, "iterator returned by insert: " << show(m)); break; }
		case 4: { int k = item(), p = pos(); H("insert_clone" + S(p) + S(k)); auto it = m.v.insert_clone(m.v.begin() + p, m.pool[k]); m.r.insert(m.r.begin() + p, cell(*m.pc[k])); SQ_CHECK(it - m.v.begin() == p, "iterator returned by insert: " << show(m)); break; }
		case 5: { int k = item(), p = pos(); H("insert_noclone" + S(p) + S(k)); m.v.insert_noclone(m.v.begin() + p, m.pool[k]); m.r.insert(m.r.begin() + p, m.pc[k]); break; }
		case 6: case 7: { int k = item(), p = pos(), c = sq::choose(4, "amount"); H((op == 6 ? "insertN" : "insert_cloneN") + S(p) + S(c) + S(k)); if (op == 6) m.v.insert(m.v.begin() + p, c, m.pool[k]); else m.v.insert_clone(m.v.begin() + p, c, m.pool[k]); for (int i = 0; i < c; i++) m.r.insert(m.r.begin() + p, cell(*m.pc[k])); break; }
		case 8: { int k = item(), p = pos(), c = sq::choose(4, "amount"); H("insert_nocloneN" + S(p) + S(c) + S(k)); m.v.insert_noclone(m.v.begin() + p, c, m.pool[k]); block(m, p, c, k); break; }
		case 9: { if (!n) return; int p = sq::choose(n, "pos"); H("erase" + S(p)); auto it = m.v.erase(m.v.begin() + p); m.r.erase(m.r.begin() + p); SQ_CHECK(it - m.v.begin() == p, "iterator returned by erase"); break; }
		case 10: { int p = pos(), q = p + sq::choose(n - p + 1, "to"); H("erase" + S(p) + "-" + S(q)); m.v.erase(m.v.begin() + p, m.v.begin() + q); m.r.erase(m.r.begin() + p, m.r.begin() + q); break; }
		case 11: { if (!n) return; H("pop_back"); m.v.pop_back(); m.r.pop_back(); break; }
		case 12: { int c = sq::choose(5, "amount"); H("resize" + S(c)); if (!n && c) { SQ_THROWS(m.v.resize(c), "growing an empty container without an item is accepted"); break; }
			SQ_NOTHROW(m.v.resize(c), "resize(" << c << ") " << show(m)); while ((int)m.r.size() > c) m.r.pop_back(); while ((int)m.r.size() < c) m.r.push_back(cell(*m.r[0])); break; }
		case 13: case 14: { int k = item(), c = sq::choose(5, "amount"); H((op == 13 ? "resize" : "resize_clone") + S(c) + S(k)); if (op == 13) m.v.resize(c, m.pool[k]); else m.v.resize_clone(c, m.pool[k]); while ((int)m.r.size() > c) m.r.pop_back(); while ((int)m.r.size() < c) m.r.push_back(cell(*m.pc[k])); break; }
		case 15: { int k = item(), c = sq::choose(5, "amount"); H("resize_noclone" + S(c) + S(k)); m.v.resize_noclone(c, m.pool[k]); while ((int)m.r.size() > c) m.r.pop_back(); if (c > n) block(m, n, c - n, k); break; }
		case 16: { H("clear"); m.v.clear(); m.r.clear(); break; }
		case 17: { H("swap"); std::vector<P> x{m.pool[1], m.pool[0]}; auto old = std::vector<P>(m.v.begin(), m.v.end()); m.v.swap(x); SQ_CHECK(x == old, "swap does not hand out the content " << show(m)); m.r = {m.pc[1], m.pc[0]}; break; }
		case 18: { int k = sq::choose(4, "length"); H("=vector" + S(k)); for (size_t i = 0; i < m.r.size(); i++) { for (size_t j = 0; j < m.pc.size(); j++) if (m.r[i] == m.pc[j]) return; for (size_t j = 0; j < i; j++) if (m.r[i] == m.r[j]) return; } // aliased targets: not meaningful
			std::vector<P> src; for (int i = 0; i < k; i++) src.push_back(P(new Item(40 + i))); m.v = src; for (auto& s : src) for (auto& x : m.v) SQ_CHECK(s != x, "assignment from a vector does not clone: " << show(m)); m.r.clear(); for (int i = 0; i < k; i++) m.r.push_back(cell(40 + i)); agree(m); for (auto& s : src) s->v = 77; break; }
		case 19: { H("getDataCopy"); std::vector<P> c{P(new Item(3))}; m.v.getDataCopy(c); SQ_CHECK(c.size() == m.r.size(), "getDataCopy size: " << show(m)); for (size_t i = 0; i < c.size(); i++) { SQ_CHECK(c[i]->v == *m.r[i], "getDataCopy content: " << show(m)); for (auto& x : m.v) SQ_CHECK(x != c[i], "getDataCopy shares: " << show(m)); c[i]->v = 99; } break; }
		case 20: { int k = item(); H("count/find" + S(k)); size_t c = 0, f = n; for (int i = n - 1; i >= 0; i--) if (*m.r[i] == *m.pc[k]) { c++; f = i; } P probe(new Item(*m.pc[k])); SQ_CHECK(m.v.count(probe) == c, "count: " << show(m)); SQ_CHECK(size_t(m.v.find(probe) - static_cast<const V&>(m.v).begin()) == f, "find: " << show(m)); SQ_THROWS(m.v.count(P()), "count of nothing"); SQ_THROWS(m.v.find(P()), "find of nothing"); break; }
		case 21: { if (!n) return; int p = sq::choose(n, "pos"); H("clone_at" + S(p)); auto c = m.v.clone_at<Item>(p); SQ_CHECK(c->v == *m.r[p] && c != m.v[p], "clone_at: " << show(m)); break; }
		case 22: { int k = item(); H("change" + S(k)); m.pool[k]->v += 10; *m.pc[k] += 10; break; }
		case 23: { if (!n) return; int p = sq::choose(n, "pos"); H("setelem" + S(p)); m.v[p]->v = 20 + p; *m.r[p] = 20 + p; break; }
		case 24: { H("null"); auto before = std::vector<P>(m.v.begin(), m.v.end()); P e; SQ_THROWS(m.v.push_back(e), "empty pointer accepted by push_back"); SQ_THROWS(m.v.push_back_clone(e), "empty pointer accepted by push_back_clone"); SQ_THROWS(m.v.push_back_noclone(e), "empty pointer accepted by push_back_noclone");
			SQ_THROWS(m.v.insert(m.v.begin(), e), "empty pointer accepted by insert"); SQ_THROWS(m.v.insert_clone(m.v.begin(), e), "empty pointer accepted by insert_clone"); SQ_THROWS(m.v.insert_noclone(m.v.begin(), e), "empty pointer accepted by insert_noclone"); SQ_THROWS(m.v.insert(m.v.begin(), 2, e), "empty pointer accepted by insertN"); SQ_THROWS(m.v.insert_noclone(m.v.begin(), 2, e), "empty pointer accepted by insert_nocloneN");
			SQ_THROWS(m.v.resize(n + 1, e), "empty pointer accepted by resize"); SQ_THROWS(m.v.resize_noclone(n + 2, e), "empty pointer accepted by resize_noclone"); SQ_THROWS(m.v.resize_clone(n + 2, e), "empty pointer accepted by resize_clone"); SQ_CHECK(std::vector<P>(m.v.begin(), m.v.end()) == before, "refused operation changed the content"); break; }
		case 25: { // cross-over with a second container
			int l = 1 + sq::choose(3, "other length"); V o; std::vector<C> ro; for (int i = 0; i < l; i++) { o.push_back_noclone(P(new Item(60 + i))); ro.push_back(cell(60 + i)); } int lim = std::min(n, l); if (!lim) return; int p = sq::choose(lim, "cross position"); H("cross" + S(l) + S(p));
			auto a = std::vector<P>(m.v.begin(), m.v.end()), b = std::vector<P>(o.begin(), o.end()); m.v.crossOver(o, p);
			std::vector<P> ea(a.begin(), a.begin() + p), eb(b.begin(), b.begin() + p); ea.insert(ea.end(), b.begin() + p, b.end()); eb.insert(eb.end(), a.begin() + p, a.end());
			SQ_CHECK(std::vector<P>(m.v.begin(), m.v.end()) == ea && std::vector<P>(o.begin(), o.end()) == eb, "cross-over does not exchange the tails: " << show(m));
			m.r.resize(p); m.r.insert(m.r.end(), ro.begin() + p, ro.end()); break; }
		case 26: { // views
			H("view"); std::vector<std::shared_ptr<Sub>> t, e, c; m.v.attachViewTo(t); for (auto& x : m.v) if (auto s = std::dynamic_pointer_cast<Sub>(x)) e.push_back(s); SQ_CHECK(t == e, "attachViewTo: " << show(m));
			V::conversion_iterator<Sub> it(m.v.end()); for (it = m.v.begin(); it != m.v.end(); ++it) c.push_back(*it); SQ_CHECK(c == e, "conversion iterator: " << show(m)); break; }
		}
		agree(m); uint64_t h = hash(m, d); sq::state(hash(m, 0)); if (!sq::fresh(h)) return;
	}
	// copies
	bool alias = false; for (size_t i = 0; i < m.r.size(); i++) for (size_t j = 0; j < i; j++) alias |= m.r[i] == m.r[j]; (void)alias;
	int how = sq::choose(7, "copy"); V c; int pre = sq::choose(4, "target length"); for (int i = 0; i < pre; i++) c.push_back(P(new Item(30 + i)));
	if (how == 0) { if (pre) return; V t(m.v); c.swap(*new std::vector<P>(t.begin(), t.end())); t.clear(); } else if (how == 1) c = m.v; else if (how == 2) { V t(m.v); V u(std::move(t)); if (pre) return; c = std::move(u); } else if (how == 3) { V t(m.v); c = std::move(t); }
	else { std::stringstream ss; if (how == 4) { { boost::archive::text_oarchive oa(ss); oa << boost::serialization::make_nvp("v", const_cast<const V&>(m.v)); } boost::archive::text_iarchive ia(ss); ia >> boost::serialization::make_nvp("v", c); } else if (how == 5) { { boost::archive::xml_oarchive oa(ss); oa << boost::serialization::make_nvp("v", const_cast<const V&>(m.v)); } boost::archive::xml_iarchive ia(ss); ia >> boost::serialization::make_nvp("v", c); } else { { boost::archive::binary_oarchive oa(ss); oa << boost::serialization::make_nvp("v", const_cast<const V&>(m.v)); } boost::archive::binary_iarchive ia(ss); ia >> boost::serialization::make_nvp("v", c); } }
	m.hist += " copy" + std::to_string(how) + " into " + std::to_string(pre);
	SQ_CHECK(c.size() == m.v.size(), "copy has " << c.size() << " elements: " << show(m)); for (size_t i = 0; i < c.size(); i++) { SQ_CHECK(c[i] && c[i]->v == m.v[i]->v, "copy differs at " << i << ": " << show(m)); for (auto& x : m.v) SQ_CHECK(x != c[i], "copy shares an element: " << show(m)); }
	SQ_NOTHROW(c.compare_base(m.v, expectation::EQUALITY, 0.), "copy does not compare equal: " << show(m));
	if (!m.r.empty()) { c.back()->v += 5; bool eq = true; try { c.compare_base(m.v, expectation::EQUALITY, 0.); } catch (const std::exception&) { eq = false; } SQ_CHECK(!eq, "changed copy compares equal: " << show(m)); agree(m); c.back()->v -= 5; c.pop_back(); eq = true; try { c.compare_base(m.v, expectation::EQUALITY, 0.); } catch (const std::exception&) { eq = false; } SQ_CHECK(!eq, "shortened copy compares equal: " << show(m)); agree(m); }
	sq::outcome("size " + std::to_string(m.r.size()) + " copy " + std::to_string(how));
}
SQ_SCENARIO(pointer_vector) { ptr_seq(sq::thorough() ? 4 : 3, 5); }

template <class T> struct W : public GPODVectorT<T> { using GPODVectorT<T>::operator=; W() = default; W(std::size_t n, T v) : GPODVectorT<T>(n, v) {} W(const W&) = default; W(W&&) = default; W& operator=(const W&) = default; W& operator=(W&&) = default;
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<GPODVectorT<T>>(*this)); } };
template <class T> void pod(int depth) {
	W<T> v; std::vector<T> r; std::string hist; auto VAL = [](int i) { static const double x[] = {1, 0, -2.5}; return (T)x[i]; };
	if (sq::choose(2, "ctor")) { v = W<T>(2, VAL(0)); r = std::vector<T>(2, VAL(0)); }
	for (int d = 0; d < depth; d++) {
		sq::step(); int op = sq::choose(14, "op"), n = r.size(); if (n > 6) return; hist += " " + std::to_string(op);
		auto val = [&] { return VAL(sq::choose(3, "value")); };
		switch (op) {
		case 0: { T x = val(); v.push_back(x); r.push_back(x); break; }
		case 1: { int p = sq::choose(n + 1, "pos"); T x = val(); auto it = v.insert(v.begin() + p, x); r.insert(r.begin() + p, x); SQ_CHECK(it - v.begin() == p, "insert iterator"); break; }
		case 2: { int p = sq::choose(n + 1, "pos"), c = sq::choose(3, "amount"); T x = val(); v.insert(v.begin() + p, c, x); r.insert(r.begin() + p, c, x); break; }
		case 3: { if (!n) return; int p = sq::choose(n, "pos"); auto it = v.erase(v.begin() + p); r.erase(r.begin() + p); SQ_CHECK(it - v.begin() == p, "erase iterator"); break; }
		case 4: { int p = sq::choose(n + 1, "pos"), q = p + sq::choose(n - p + 1, "to"); v.erase(v.begin() + p, v.begin() + q); r.erase(r.begin() + p, r.begin() + q); break; }
		case 5: { if (!n) return; v.pop_back(); r.pop_back(); break; }
		case 6: { int c = sq::choose(5, "amount"); v.resize(c); r.resize(c); break; }
		case 7: { int c = sq::choose(5, "amount"); T x = val(); v.resize(c, x); r.resize(c, x); break; }
		case 8: { v.clear(); r.clear(); break; }
		case 9: { std::vector<T> o{VAL(2), VAL(0), VAL(1)}, q = o; v.swap(o); SQ_CHECK(o == r, "swap"); r = q; break; }
		case 10: { int c = sq::choose(3, "len"); std::vector<T> o; for (int i = 0; i < c; i++) o.push_back(VAL(i)); v = o; r = o; break; }
		case 11: { T x = val(); SQ_CHECK(v.count(x) == (size_t)std::count(r.begin(), r.end(), x), "count " << hist); SQ_CHECK(v.find(x) - static_cast<const W<T>&>(v).begin() == std::find(r.begin(), r.end(), x) - r.begin(), "find " << hist); std::vector<T> c{VAL(0)}; v.getDataCopy(c); SQ_CHECK(c == r, "getDataCopy " << hist); break; }
		case 12: { int l = 1 + sq::choose(4, "other"); int lim = std::min(l, n); if (!lim) return; int p = sq::choose(lim, "cross"); W<T> o; std::vector<T> ro; for (int i = 0; i < l; i++) { o.push_back(VAL(i % 3)); ro.push_back(VAL(i % 3)); } v.crossOver(o, p); std::vector<T> a(r.begin(), r.begin() + p), b(ro.begin(), ro.begin() + p); a.insert(a.end(), ro.begin() + p, ro.end()); b.insert(b.end(), r.begin() + p, r.end()); std::vector<T> c; o.getDataCopy(c); SQ_CHECK(c == b, "cross-over: other side " << hist); r = a; break; }
		case 13: { if (!n) return; int p = sq::choose(n, "pos"); T x = val(); if (sq::choose(2, "at")) v.at(p) = x; else v[p] = x; r[p] = x; break; }
		}
		SQ_CHECK(v.size() == r.size() && v.empty() == r.empty(), "size " << hist); for (size_t i = 0; i < r.size(); i++) SQ_CHECK(v[i] == r[i] && v.at(i) == r[i], "content at " << i << ":" << hist);
		if (!r.empty()) SQ_CHECK(v.front() == r.front() && v.back() == r.back() && *v.begin() == r[0] && *v.rbegin() == r.back(), "ends " << hist);
		SQ_THROWS(v.at(r.size()), "at() past the end");
		sq::H h; h << (int)sizeof(T); for (T x : r) h << (double)x; sq::state(h); h << d; if (!sq::fresh(h)) return;
	}
	int how = sq::choose(5, "copy"); W<T> c(3, VAL(2)); if (how == 0) { W<T> t(v); c = std::move(t); } else if (how == 1) c = v; else { std::stringstream ss;
		if (how == 2) { { boost::archive::text_oarchive oa(ss); oa << boost::serialization::make_nvp("v", const_cast<const W<T>&>(v)); } boost::archive::text_iarchive ia(ss); ia >> boost::serialization::make_nvp("v", c); } else if (how == 3) { { boost::archive::xml_oarchive oa(ss); oa << boost::serialization::make_nvp("v", const_cast<const W<T>&>(v)); } boost::archive::xml_iarchive ia(ss); ia >> boost::serialization::make_nvp("v", c); } else { { boost::archive::binary_oarchive oa(ss); oa << boost::serialization::make_nvp("v", const_cast<const W<T>&>(v)); } boost::archive::binary_iarchive ia(ss); ia >> boost::serialization::make_nvp("v", c); } }
	std::vector<T> x; c.getDataCopy(x); SQ_CHECK(x == r, "copy " << how << " differs: " << hist); SQ_NOTHROW(c.compare_base(v, expectation::EQUALITY, 0.), "copy compares unequal");
	c.push_back(VAL(0)); bool eq = true; try { c.compare_base(v, expectation::EQUALITY, 0.); } catch (const std::exception&) { eq = false; } SQ_CHECK(!eq, "longer copy compares equal"); SQ_CHECK(v.size() == r.size(), "copy not independent");
	sq::outcome("size " + std::to_string(r.size()));
}
SQ_SCENARIO(pod_double) { pod<double>(sq::thorough() ? 5 : 3); }
SQ_SCENARIO(pod_int) { pod<int>(sq::thorough() ? 5 : 3); }
