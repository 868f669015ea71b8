// C02: thread pool. Submitters, waiters, resizing and destruction in all schedules; task outcomes value/void/exception.
#include "mc.hpp"
#include "common/GThreadPool.hpp"
#include <thread>
#include <memory>
#include <vector>
using Gem::Common::GThreadPool;
struct Err : public std::runtime_error { int k; explicit Err(int i) : std::runtime_error("err" + std::to_string(i)), k(i) {} };
struct BErr : public boost::exception, public std::runtime_error { explicit BErr(int i) : std::runtime_error("berr" + std::to_string(i)) {} };
struct Bk { std::mutex m; std::vector<int> ran; int running = 0, maxrun = 0; explicit Bk(int n) : ran(n) {} };
static void enter(Bk *b, int i) { std::lock_guard<std::mutex> l(b->m); b->ran[i]++; b->running++; if (b->running > b->maxrun) b->maxrun = b->running; }
static void leave(Bk *b) { std::lock_guard<std::mutex> l(b->m); b->running--; }
// kinds: 0 void, 1 value, 2 void+throw std, 3 value+throw std, 4 value + boost exception, 5 void with arguments
struct Fut { int kind; std::future<void> v; std::future<int> i; };
static void submit(GThreadPool& p, Bk *b, int i, int kind, Fut& f) {
	f.kind = kind;
	switch (kind) {
	case 0: f.v = p.async_schedule([b, i] { enter(b, i); leave(b); }); break;
	case 1: f.i = p.async_schedule([b, i]() -> int { enter(b, i); leave(b); return 100 + i; }); break;
	case 2: f.v = p.async_schedule([b, i] { enter(b, i); leave(b); throw Err(i); }); break;
	case 3: f.i = p.async_schedule([b, i]() -> int { enter(b, i); leave(b); throw Err(i); }); break;
	case 4: f.i = p.async_schedule([b, i]() -> int { enter(b, i); leave(b); throw BErr(i); }); break;
	default: f.v = p.async_schedule(std::bind([](Bk *bk, int k) { enter(bk, k); leave(bk); }, b, i)); break;
	}
}
static void done(Bk *b, int i, Fut& f) {
	std::string what = "task " + std::to_string(i) + " (kind " + std::to_string(f.kind) + ")";
	try { if (f.v.valid()) { f.v.get(); MC_CHECK(f.kind == 0 || f.kind == 5, what << ": exception not delivered"); } else { int r = f.i.get(); MC_CHECK(f.kind == 1 && r == 100 + i, what << ": result " << r); } }
	catch (const std::future_error& e) { mc::violation(what + ": future never fulfilled: " + e.what()); }
	catch (const Err& e) { MC_CHECK((f.kind == 2 || f.kind == 3) && e.k == i, what << ": foreign exception"); }
	catch (const std::runtime_error& e) { MC_CHECK(f.kind == 4 && std::string(e.what()).find("berr" + std::to_string(i)) != std::string::npos, what << ": exception " << e.what()); }
	std::lock_guard<std::mutex> l(b->m); MC_CHECK(b->ran[i] == 1, what << " ran " << b->ran[i] << " times when its future became ready");
}
static void all_ran(Bk& b, int from, int to, const char *when) { std::lock_guard<std::mutex> l(b.m); for (int i = from; i < to; i++) MC_CHECK(b.ran[i] == 1, "task " << i << " ran " << b.ran[i] << " times at " << when); MC_CHECK(b.running == 0 || to < (int)b.ran.size(), "a task is still running at " << when); }
static const int KS[6][3] = {{0, 1, 2}, {3, 0, 5}, {4, 5, 1}, {1, 3, 0}, {2, 4, 5}, {5, 2, 3}};
// one submitter: n tasks on k threads, then futures / wait / destruction
static void simple(int k, int n) {
	int ks = mc::choose(6, 0, "kinds"), end = mc::choose(3, 0, "end"); Bk b(n); std::vector<Fut> f(n);
	{ GThreadPool p(k); for (int i = 0; i < n; i++) submit(p, &b, i, KS[ks][i % 3], f[i]);
		if (end == 1) { p.wait(); all_ran(b, 0, n, "the end of wait()"); MC_CHECK(p.getNThreads() == (unsigned)(n ? k : 0), "number of threads"); }
		if (end == 2) for (int i = n; i-- > 0;) done(&b, i, f[i]); }
	all_ran(b, 0, n, "the end of the pool's life"); if (end != 2) for (int i = 0; i < n; i++) done(&b, i, f[i]); MC_CHECK(b.maxrun <= k, "more tasks at a time than threads"); mc::outcome(std::to_string(b.maxrun));
}
MC_SCENARIO(one_thread_2, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { simple(1, 2); }
MC_SCENARIO(two_threads_2, s.delay = true; s.bound_quick = 1; s.bound_thorough = 3) { simple(2, 2); }
MC_SCENARIO(two_threads_3, s.delay = true; s.bound_quick = 1; s.bound_thorough = 3) { simple(2, 3); }
MC_SCENARIO(unused, s.bound_quick = 1) { simple(1, 0); }
// two submitters at once (the threads are created by whoever is first); wait() by one of them concurrently
static void submitters(int k, bool waiting) {
	int ks = mc::choose(3, 0, "kinds"); Bk b(3); std::vector<Fut> f(3);
	{ GThreadPool p(k); auto *pp = &p; auto *pb = &b; auto *pf = &f;
		std::thread t([=] { submit(*pp, pb, 1, KS[ks][1], (*pf)[1]); submit(*pp, pb, 2, KS[ks][2], (*pf)[2]); });
		submit(p, &b, 0, KS[ks][0], f[0]); if (waiting) { p.wait(); std::lock_guard<std::mutex> l(b.m); MC_CHECK(b.ran[0] == 1, "wait() returned before the caller's task had run"); } t.join(); MC_CHECK(p.getNThreads() == (unsigned)k, "threads created twice: " << p.getNThreads());
		if (waiting) { p.wait(); all_ran(b, 0, 3, "the end of wait()"); } }
	all_ran(b, 0, 3, "the end of the pool's life"); for (int i = 0; i < 3; i++) done(&b, i, f[i]); mc::outcome(std::to_string(b.maxrun));
}
MC_SCENARIO(submitters_k1, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { submitters(1, false); }
MC_SCENARIO(submitters_k1_wait, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { submitters(1, true); }
MC_SCENARIO(submitters_k2_wait, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { submitters(2, true); }
// two threads wait() at the same time
MC_SCENARIO(two_waiters, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) {
	Bk b(2); std::vector<Fut> f(2); { GThreadPool p(1); auto *pp = &p; auto *pb = &b; submit(p, &b, 0, 0, f[0]); submit(p, &b, 1, 1, f[1]); std::thread t([pp, pb] { pp->wait(); all_ran(*pb, 0, 2, "the end of wait() in the other thread"); }); p.wait(); all_ran(b, 0, 2, "the end of wait()"); t.join(); } for (int i = 0; i < 2; i++) done(&b, i, f[i]); mc::outcome("ok");
}
// resizing: before the first task, between tasks, while tasks are pending, and from another thread
static void resizing(int from, int to, bool other) {
	int before = mc::choose(2, 0, "tasks before"), ks = mc::choose(3, 0, "kinds"); Bk b(before + 2); std::vector<Fut> f(before + 2);
	{ GThreadPool p(from); auto *pp = &p; for (int i = 0; i < before; i++) submit(p, &b, i, KS[ks][i % 3], f[i]);
		if (other) { std::thread t([pp, to] { pp->setNThreads(to); }); submit(p, &b, before, KS[ks][1], f[before]); t.join(); }
		else { p.setNThreads(to); if (before) MC_CHECK(p.getNThreads() == (unsigned)to, "number of threads after resizing: " << p.getNThreads()); submit(p, &b, before, KS[ks][1], f[before]); }
		MC_CHECK(p.getNThreads() == (unsigned)to, "number of threads: " << p.getNThreads() << " instead of " << to); done(&b, before, f[before]);
		submit(p, &b, before + 1, KS[ks][2], f[before + 1]); p.wait(); all_ran(b, 0, before + 2, "the end of wait()"); }
	all_ran(b, 0, before + 2, "the end of the pool's life"); for (int i = 0; i < before + 2; i++) if (i != before) done(&b, i, f[i]); mc::outcome(std::to_string(b.maxrun));
}
MC_SCENARIO(grow, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { resizing(1, 2, false); }
MC_SCENARIO(shrink, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { resizing(2, 1, false); }
MC_SCENARIO(same, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { resizing(1, 1, false); }
MC_SCENARIO(grow_other, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { resizing(1, 2, true); }
MC_SCENARIO(shrink_other, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3) { resizing(2, 1, true); }
// grow, shrink, grow again: the bookkeeping of the size survives repetition
MC_SCENARIO(resize_chain, s.delay = true; s.bound_quick = 1; s.bound_thorough = 2) {
	int seq[3] = {1 + mc::choose(3, 0, "size"), 1 + mc::choose(3, 0, "size"), 1 + mc::choose(3, 0, "size")}; Bk b(3); std::vector<Fut> f(3);
	{ GThreadPool p(2); for (int i = 0; i < 3; i++) { submit(p, &b, i, i, f[i]); p.setNThreads(seq[i]); MC_CHECK(p.getNThreads() == (unsigned)seq[i], "number of threads " << p.getNThreads() << " instead of " << seq[i]); if (seq[i] != (i ? seq[i - 1] : 2)) all_ran(b, 0, i + 1, "the end of resizing"); } }
	for (int i = 0; i < 3; i++) done(&b, i, f[i]); mc::outcome("ok");
}
