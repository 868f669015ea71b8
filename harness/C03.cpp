// C03: barrier. Every schedule of a few threads going through several rounds, with spurious wake-ups.
#include "mc.hpp"
#include "common/GBarrier.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <vector>
using Gem::Common::GBarrier;
struct St { GBarrier b; std::mutex m; int arrived = 0, returned = 0, trues = 0; std::vector<int> round_arrived, round_true; St(int n, int rounds) : b(n), round_arrived(rounds), round_true(rounds) {} };
// nt threads call wait() `rounds` times on a barrier of size n. If nt == n the rounds can be told apart, otherwise only the totals count.
static void thread_body(St *s, int n, int nt, int rounds) {
	for (int r = 0; r < rounds; r++) {
		{ std::lock_guard<std::mutex> l(s->m); s->arrived++; s->round_arrived[r]++; }
		bool res = s->b.wait();
		std::lock_guard<std::mutex> l(s->m); s->returned++; s->trues += res; s->round_true[r] += res;
		MC_CHECK(s->returned <= s->arrived / n * n, "a thread left the barrier although only " << s->arrived << " calls had been made (" << s->returned << " returned, size " << n << ")");
		if (nt == n) MC_CHECK(s->round_arrived[r] == n, "a thread left round " << r << " when only " << s->round_arrived[r] << " of " << n << " had arrived");
		MC_CHECK(s->round_true[r] <= 1 || nt != n, "more than one 'true' in round " << r);
	}
}
static void run(int n, int nt, int rounds) {
	auto s = std::make_unique<St>(n, rounds); std::vector<std::thread> t;
	for (int i = 1; i < nt; i++) t.emplace_back(thread_body, s.get(), n, nt, rounds);
	thread_body(s.get(), n, nt, rounds); for (auto& x : t) x.join();
	MC_CHECK(s->returned == nt * rounds, "calls got lost"); MC_CHECK(s->trues == nt * rounds / n, "'true' was returned " << s->trues << " times instead of once per round");
	if (nt == n) for (int r = 0; r < rounds; r++) MC_CHECK(s->round_true[r] == 1, "round " << r << " returned 'true' " << s->round_true[r] << " times");
	std::string o; for (int x : s->round_true) o += std::to_string(x); mc::outcome(o);
}
MC_SCENARIO(n1_t1, s.spurious = true) { try { GBarrier b(0); mc::violation("a barrier of size 0 was accepted"); } catch (const std::exception&) {} run(1, 1, 3); }
MC_SCENARIO(n1_t2, s.spurious = true; s.bound_quick = 3; s.bound_thorough = 5) { run(1, 2, 2); }
MC_SCENARIO(n2_t2_r3, s.spurious = true; s.bound_quick = 4; s.bound_thorough = 6) { run(2, 2, 3); }
MC_SCENARIO(n3_t3_r2, s.spurious = true; s.bound_quick = 2; s.bound_thorough = 4) { run(3, 3, 2); }
MC_SCENARIO(n2_t4_r1, s.spurious = true; s.bound_quick = 2; s.bound_thorough = 4) { run(2, 4, 1); }
MC_SCENARIO(n4_t4_r2, s.delay = true; s.spurious = true; s.bound_quick = 2; s.bound_thorough = 3) { run(4, 4, 2); }
