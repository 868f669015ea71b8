// C01: bounded buffer. Programs (which flavour each call uses) are chosen by mc::choose, schedules by the explorer.
#include "mc.hpp"
#include "lin.hpp"
#include "common/GBoundedBufferT.hpp"
#include <thread>
#include <memory>
#include <deque>
#include <vector>
struct Item { int v = 0; Item() = default; Item(int x) : v(x) {} Item(const Item&) = default; Item& operator=(const Item&) = default;
	Item(Item&& o) noexcept : v(o.v) { o.v = -1; } Item& operator=(Item&& o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; } };
template <std::size_t C> using Buf = Gem::Common::GBoundedBufferT<Item, C>;
using ms = std::chrono::milliseconds;
static const std::chrono::duration<double> TO = ms(20);
// flavours 0 block/copy 1 block/move 2 try/copy 3 try/move 4 timed/copy 5 timed/move
template <std::size_t C> bool push(Buf<C>& b, int f, int v) {
	Item it(v); bool r = true;
	switch (f) { case 0: b.push_and_block_copy(it); break; case 1: b.push_and_block_move(std::move(it)); break; case 2: r = b.try_push_copy(it); break;
		case 3: r = b.try_push_move(std::move(it)); break; case 4: r = b.push_and_wait_copy(it, TO); break; case 5: r = b.push_and_wait_move(std::move(it), TO); break; }
	if (!r) MC_CHECK(it.v == v, "refused push (flavour " << f << ") altered the caller's item");
	if (r && (f % 2 == 0)) MC_CHECK(it.v == v, "copying push (flavour " << f << ") altered the caller's item");
	return r;
}
template <std::size_t C> bool pop(Buf<C>& b, int f, int& v) {
	Item it(-77); bool r = true;
	switch (f) { case 0: b.pop_and_block_copy(it); break; case 1: b.pop_and_block_move(it); break; case 2: r = b.try_pop_copy(it); break;
		case 3: r = b.try_pop_move(it); break; case 4: r = b.pop_and_wait_copy(it, TO); break; case 5: r = b.pop_and_wait_move(it, TO); break; }
	if (!r) MC_CHECK(it.v == -77, "failed pop (flavour " << f << ") altered the caller's item"); else { MC_CHECK(it.v > 0, "pop yields a moved-from item"); }
	v = it.v; return r;
}
template <std::size_t C> struct St { Buf<C> b; std::mutex m; std::vector<std::vector<int>> got; St(int n) : got(n) {} };
template <std::size_t C> void producer(St<C> *s, int id, int n, int f) {
	for (int i = 0; i < n; i++) { while (!push<C>(s->b, f, id * 10 + i + 1)) std::this_thread::yield(); }
}
template <std::size_t C> void consumer(St<C> *s, int id, int n, int f) {
	for (int i = 0; i < n; i++) { int v; while (!pop<C>(s->b, f, v)) std::this_thread::yield(); s->got[id].push_back(v); }
}
// np producers with n items each; nc consumers sharing them; flavour chosen per thread
static int pick(int n, const char *w, bool few) { static const int sel[] = {0, 3, 5}; return few ? sel[mc::choose(3, 0, w)] : mc::choose(n, 0, w); }
template <std::size_t C> void transfer(int np, int n, int nc, bool few = false) {
	auto s = std::make_unique<St<C>>(nc);
	std::vector<std::thread> t; int each = np * n / nc;
	std::vector<int> fp(np), fc(nc); std::string lab;
	for (auto& f : fp) { f = pick(6, "push flavour", few); lab += "P" + std::to_string(f); }
	for (auto& f : fc) { f = pick(6, "pop flavour", few); lab += "C" + std::to_string(f); }
	for (int i = 0; i < np; i++) t.emplace_back(producer<C>, s.get(), i, n, fp[i]);
	for (int i = 1; i < nc; i++) t.emplace_back(consumer<C>, s.get(), i, each, fc[i]);
	consumer<C>(s.get(), 0, each, fc[0]);
	for (auto& x : t) x.join();
	std::vector<int> seen(100, 0); std::string o;
	for (auto& g : s->got) { std::vector<int> last(np, 0); o += "|"; for (int v : g) { o += std::to_string(v) + " "; MC_CHECK(v > 0 && v < 100 && ++seen[v] == 1, "item " << v << " delivered twice"); MC_CHECK(v % 10 > last[v / 10], "items of one producer reordered: " << o); last[v / 10] = v % 10; } }
	MC_CHECK(s->b.empty() && s->b.size() == 0, "items left although all were taken");
	mc::outcome(lab + o);
}
MC_SCENARIO(t_cap1_p1_c1, s.horizon = 3000; s.bound_quick = 3; s.bound_thorough = 5) { transfer<1>(1, 3, 1); }
MC_SCENARIO(t_cap1_p2_c1, s.horizon = 3000; s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { transfer<1>(2, 2, 1, true); }
MC_SCENARIO(t_cap1_p1_c2, s.horizon = 3000; s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { transfer<1>(1, 4, 2, true); }
MC_SCENARIO(t_cap2_p2_c2, s.horizon = 3000; s.delay = true; s.bound_quick = 1; s.bound_thorough = 3) { transfer<2>(2, 2, 2, true); }
MC_SCENARIO(t_cap0_p1_c1, s.horizon = 3000; s.bound_quick = 2; s.bound_thorough = 3) { transfer<0>(1, 2, 1); }
MC_SCENARIO(spur_cap1_p1_c1, s.horizon = 3000; s.spurious = true; s.bound_quick = 2; s.bound_thorough = 3) { transfer<1>(1, 2, 1); }
MC_SCENARIO(spur_cap1_p2_c1, s.horizon = 3000; s.delay = true; s.spurious = true; s.bound_quick = 2; s.bound_thorough = 3) { transfer<1>(2, 1, 1, true); }
// linearizability of single calls of 3 threads on a buffer holding k items
enum { PUSH, POP, SIZE, EMPTY, NOTEMPTY };
struct Ref { std::deque<int> q; };
template <std::size_t C> void one(Buf<C>& b, mc::History& h, std::mutex&, int k, int v) {
	// k: 0-3 push try/timed, 4-7 pop try/timed, 8 size 9 empty 10 isNotEmpty
	if (k < 4) { int i = h.call(PUSH, v); bool r = push<C>(b, k + 2, v); h.ret(i, r, 0); }
	else if (k < 8) { int i = h.call(POP, 0); int x = 0; bool r = pop<C>(b, k - 2, x); h.ret(i, r, x); }
	else if (k == 8) { int i = h.call(SIZE, 0); auto r = b.size(); h.ret(i, true, r); }
	else if (k == 9) { int i = h.call(EMPTY, 0); auto r = b.empty(); h.ret(i, r, 0); }
	else { int i = h.call(NOTEMPTY, 0); auto r = b.isNotEmpty(); h.ret(i, r, 0); }
}
template <std::size_t C> void lin(int nops) {
	struct S { Buf<C> b; mc::History h; std::mutex m; }; auto s = std::make_unique<S>();
	int fill = mc::choose(C + 1, 0, "fill"); Ref init;
	s->h.ops.reserve(32);
	for (int i = 0; i < fill; i++) { push<C>(s->b, 0, 90 + i); init.q.push_back(90 + i); }
	std::vector<std::vector<int>> prog(3);
	static const int red[] = {0, 3, 4, 7, 8}; // two-op programs use a reduced alphabet
	prog[0].push_back(mc::choose(11, 0, "op0")); prog[1].push_back(mc::choose(11, 0, "op1")); prog[2].push_back(mc::choose(nops ? 11 : 5, 0, "op2"));
	if (!nops) prog[2][0] = red[prog[2][0]];
	std::vector<std::thread> t;
	for (int i = 0; i < 2; i++) t.emplace_back([i, q = s.get(), p = prog[i]] { for (size_t k = 0; k < p.size(); k++) one<C>(q->b, q->h, q->m, p[k], 10 * (i + 1) + k); });
	for (size_t k = 0; k < prog[2].size(); k++) one<C>(s->b, s->h, s->m, prog[2][k], 30 + k);
	for (auto& x : t) x.join();
	// drain
	for (;;) { int i = s->h.call(POP, 0); int v = 0; bool r = pop<C>(s->b, 2, v); s->h.ret(i, r, v); if (!r) break; }
	bool ok = s->h.template linearizable<Ref>(init, [](Ref& r, const mc::Op& o) {
		switch (o.kind) {
		case PUSH: { bool full = C > 0 && r.q.size() >= C; if (o.ok == full) return false; if (o.ok) r.q.push_back(o.arg); return true; }
		case POP: if (o.ok) { if (r.q.empty() || r.q.front() != o.ret) return false; r.q.pop_front(); return true; } return r.q.empty();
		case SIZE: return (long)r.q.size() == o.ret;
		case EMPTY: return r.q.empty() == o.ok;
		case NOTEMPTY: return r.q.empty() != o.ok; }
		return false; });
	MC_CHECK(ok, "not linearizable as a FIFO queue of capacity " << C << ": " << s->h.str());
	std::string o; for (auto& x : s->h.ops) o += std::to_string(x.kind) + (x.ok ? "+" : "-") + std::to_string(x.ret) + " ";
	mc::outcome(o);
}
MC_SCENARIO(lin_cap1, s.races = false; s.bound_quick = 2; s.bound_thorough = 3) { lin<1>(0); }
MC_SCENARIO(lin_cap2, s.races = false; s.bound_quick = 1; s.bound_thorough = 3) { lin<2>(0); }
MC_SCENARIO(lin_cap0, s.races = false; s.bound_quick = 1; s.bound_thorough = 2) { lin<0>(0); }
// a waiter must be served by every kind of counterpart operation: one blocked thread, one operation, nothing else
template <std::size_t C> void serve() {
	struct S { Buf<C> b; int got = 0; }; auto s = std::make_unique<S>(); auto *q = s.get();
	bool blockpush = mc::choose(2, 0, "blocked side"); int f = mc::choose(4, 0, "blocked flavour"); f = f < 2 ? f : f + 2; int g = mc::choose(6, 0, "serving flavour");
	if (blockpush) {
		for (std::size_t i = 0; i < C; i++) push<C>(q->b, 0, 90 + i);
		uint64_t t0 = mc::now_ns(), t1 = 0; bool r = false;
		std::thread t([&r, &t1, q, f] { bool x = push<C>(q->b, f, 5); r = x; t1 = mc::now_ns(); });
		int v; bool p = pop<C>(q->b, g, v);
		t.join(); MC_CHECK(p && v == 90, "pop from a full buffer failed");
		if (f < 4) MC_CHECK(r, "push did not succeed");
		mc::outcome(r ? "served" : "timeout"); (void)t0;
	} else {
		bool r = false; int v = 0;
		std::thread t([&r, &v, q, f] { int x = 0; bool k = pop<C>(q->b, f, x); r = k; v = x; });
		bool p = push<C>(q->b, g, 7); t.join();
		MC_CHECK(p, "push into an empty buffer failed"); if (r) MC_CHECK(v == 7, "wrong item");
		mc::outcome(r ? "served" : "timeout");
	}
}
// forced_timeouts_only: a timer may only fire if nobody else can run; then a served waiter never times out
MC_SCENARIO(serve_cap1, s.bound_quick = 4; s.bound_thorough = 6) { serve<1>(); }
MC_SCENARIO(serve_cap2, s.bound_quick = 4; s.bound_thorough = 6) { serve<2>(); }
// a timed waiter that could have been served must not be left to its timeout: with timers firing only when nothing else can run
template <std::size_t C> void prompt() {
	struct S { Buf<C> b; }; auto s = std::make_unique<S>(); auto *q = s.get();
	bool blockpush = mc::choose(2, 0, "waiting side"); int f = 4 + mc::choose(2, 0, "waiting flavour"); int g = mc::choose(6, 0, "serving flavour");
	bool r = false; bool *pr = &r; uint64_t t1 = 0; uint64_t *pt = &t1;
	if (blockpush) for (std::size_t i = 0; i < C; i++) push<C>(q->b, 0, 90 + i);
	std::thread t([pr, pt, q, f, blockpush] { int x = 0; bool k = blockpush ? push<C>(q->b, f, 5) : pop<C>(q->b, f, x); *pr = k; *pt = mc::now_ns(); });
	int v; bool p = blockpush ? pop<C>(q->b, g, v) : push<C>(q->b, g, 7);
	t.join();
	MC_CHECK(p, "serving call failed"); MC_CHECK(r && t1 < 20000000, "a timed call waited for its time-out (or failed) although it had been served before (flavours " << f << "," << g << ")");
}
MC_SCENARIO(prompt_cap1, s.forced_timeouts_only = true; s.bound_quick = 4; s.bound_thorough = 6) { prompt<1>(); }
MC_SCENARIO(prompt_cap2, s.forced_timeouts_only = true; s.bound_quick = 4; s.bound_thorough = 6) { prompt<2>(); }
// several waiters and as many counterpart calls: nobody may be left asleep (a buffer going from full to half full has to wake everyone it can serve)
template <std::size_t C> void serve_all(int nw) {
	struct S { Buf<C> b; std::vector<int> got; }; auto s = std::make_unique<S>(); auto *q = s.get();
	bool blockpush = mc::choose(2, 0, "blocked side"); int f = mc::choose(2, 0, "blocked flavour"), g[3]; q->got.assign(nw, 0);
	for (int i = 0; i < nw; i++) g[i] = i < 2 ? mc::choose(6, 0, "serving flavour") : g[0];
	if (blockpush) for (std::size_t i = 0; i < C; i++) push<C>(q->b, 0, 90 + i);
	std::vector<std::thread> t;
	for (int i = 0; i < nw; i++) t.emplace_back([q, f, i, blockpush] { int x = 0; if (blockpush) push<C>(q->b, f, 5 + i); else pop<C>(q->b, f, x); q->got[i] = x; });
	int v, sum = 0; for (int i = 0; i < nw; i++) { if (blockpush) { while (!pop<C>(q->b, g[i], v)) std::this_thread::yield(); } else { while (!push<C>(q->b, g[i], 7 + i)) std::this_thread::yield(); } }
	for (auto& x : t) x.join();
	if (!blockpush) { for (int x : q->got) sum += x; MC_CHECK(sum == 7 * nw + nw * (nw - 1) / 2, "waiting consumers got the wrong items"); } else MC_CHECK((std::size_t)q->b.size() == C, "items lost");
	mc::outcome(std::to_string(blockpush) + std::to_string(f) + std::to_string(g[0]) + std::to_string(g[1]));
}
MC_SCENARIO(all_cap1_w2, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { serve_all<1>(2); }
MC_SCENARIO(all_cap2_w2, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { serve_all<2>(2); }
MC_SCENARIO(all_cap2_w3, s.delay = true; s.bound_quick = 1; s.bound_thorough = 3) { serve_all<2>(3); }
