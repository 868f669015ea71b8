// C10: random number factory with tiny packages (2 numbers) and a tiny buffer (1 package). Clients, producers, resizing and shutdown in all schedules.
#include "mc.hpp"
#include "hap/GRandomFactory.hpp"
#include "hap/GRandomT.hpp"
#include <thread>
#include <memory>
#include <vector>
#include <set>
#include <dirent.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace Gem::Hap; using Gem::Common::GSingletonT;
struct Book { std::mutex m; std::set<std::uint32_t> used; int packages = 0, numbers = 0, empties = 0; };
static void number(Book *b, std::uint32_t x) { std::lock_guard<std::mutex> l(b->m); MC_CHECK(b->used.insert(x).second, "number " << x << " was handed out twice"); b->numbers++; }
static const int N = GENEVA_HAP_RANDOM_FACTORY_DEFAULT_ARRAY_SIZE;
// one package: must be fresh and complete; use `use` of its numbers and give it back (or not)
static bool package(GRandomFactory& f, Book *b, int use, bool back) {
	auto p = f.getNewRandomContainer(); if (!p) { std::lock_guard<std::mutex> l(b->m); b->empties++; return false; }
	MC_CHECK((int)p->size() == N && p->getCurrentPosition() == 0 && !p->empty(), "package is not fresh: position " << p->getCurrentPosition() << " of " << p->size());
	for (int i = 0; i < use; i++) { MC_CHECK(!p->empty(), "package holds fewer numbers than promised"); number(b, p->next()); } MC_CHECK(p->empty() == (use == N), "package holds more numbers than promised");
	if (back) f.returnUsedPackage(std::move(p)); { std::lock_guard<std::mutex> l(b->m); b->packages++; } return true;
}
static void clients(int np, int nc, int k) {
	Book b; auto *pb = &b; int mode = mc::choose(4, 0, "usage"); int use = mode < 2 ? N : 1; bool back = mode % 2 == 0;
	{ GRandomFactory f; f.setNProducerThreads(np); auto *pf = &f; std::vector<std::thread> t; auto body = [=] { for (int i = 0; i < k; i++) while (!package(*pf, pb, use, back)) {} };
		for (int i = 1; i < nc; i++) t.emplace_back(body); body(); for (auto& x : t) x.join(); if (mc::choose(2, 0, "finalize twice")) f.finalize(); }
	MC_CHECK(b.packages == nc * k && b.numbers == nc * k * use, "packages got lost"); mc::outcome("empties " + std::to_string(b.empties > 2 ? 2 : b.empties));
}
MC_SCENARIO(p1_c1_k3, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4; s.horizon = 4000) { clients(1, 1, 3); }
MC_SCENARIO(p1_c2_k1, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4; s.horizon = 4000) { clients(1, 2, 1); }
MC_SCENARIO(p2_c1_k2, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3; s.horizon = 4000) { clients(2, 1, 2); }
MC_SCENARIO(p1_c2_k2, s.delay = true; s.bound_quick = 1; s.bound_thorough = 3; s.horizon = 6000) { clients(1, 2, 2); }
MC_SCENARIO(p2_c2_k2, s.delay = true; s.bound_quick = 1; s.bound_thorough = 2; s.horizon = 6000) { clients(2, 2, 2); }
// shutdown at any moment: while clients ask, while threads are being started, twice at once, and use after it
static void shutdown(int np, bool started, bool two) {
	Book b; auto *pb = &b; { GRandomFactory f; auto *pf = &f; f.setNProducerThreads(np); if (started) while (!package(f, pb, N, true)) {}
		std::thread c([=] { package(*pf, pb, N, true); package(*pf, pb, 1, true); }); std::thread d([=] { if (two) pf->finalize(); else pf->setNProducerThreads(np + 1); });
		f.finalize(); MC_CHECK(f.getBufferSize() == 1 && (int)f.getCurrentArraySize() == N, "sizes"); c.join(); d.join(); package(f, pb, 1, true); f.setNProducerThreads(np + 2); f.finalize(); }
	mc::outcome(std::to_string(b.packages));
}
MC_SCENARIO(shutdown_fresh, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4; s.horizon = 6000) { shutdown(1, false, false); }
MC_SCENARIO(shutdown_running, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3; s.horizon = 6000) { shutdown(1, true, false); }
MC_SCENARIO(shutdown_twice, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3; s.horizon = 6000) { shutdown(1, mc::choose(2, 0, "started"), true); }
// the number of producers is what was asked for (it cannot shrink while they run), whatever the order of calls
static int threads1() { mc::Quiet quiet; int n = 0; DIR *d = opendir("/proc/self/task"); while (auto *e = readdir(d)) n += e->d_name[0] != 0x2e; closedir(d); return n; }
static int threads() { return threads1(); }
// joined threads may take a moment until the kernel forgets them: look again for a while before complaining
static bool threads_are(int n) { mc::Quiet quiet; for (int i = 0; i < 3000; i++) { if (threads1() == n) return true; if (i > 100) syscall(SYS_sched_yield); } return false; }
MC_SCENARIO(resize, s.delay = true; s.bound_quick = 1; s.bound_thorough = 3; s.horizon = 6000) {
	Book b; auto *pb = &b; int base = threads(), want = 2; bool run = false; GRandomFactory f; std::string o;
	for (int i = 0; i < 3; i++) { int a = mc::choose(4, 0, "action"); o += std::to_string(a); if (a == 0) { while (!package(f, pb, N, true)) {} run = true; } else { f.setNProducerThreads(a); want = run ? std::max(want, a) : a; } MC_CHECK(threads_are(base + (run ? want : 0)), "there are " << threads() - base << " producers instead of " << (run ? want : 0) << " after " << o); }
	f.finalize(); mc::outcome(o);
}
MC_SCENARIO(resize_race, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4; s.horizon = 6000) {
	Book b; auto *pb = &b; int base = threads(); GRandomFactory f; auto *pf = &f; f.setNProducerThreads(1); std::thread t([pf] { pf->setNProducerThreads(2); }); while (!package(f, pb, N, true)) {} t.join(); MC_CHECK(threads_are(base + 2), "there are " << threads() - base << " producers instead of 2"); while (!package(f, pb, N, true)) {} mc::outcome("ok");
}
// generators on top of the factory
static void proxies(int nt, int n, bool copies) {
	Book b; auto *pb = &b; GRANDOMFACTORY->setNProducerThreads(1);
	{ auto body = [=] { GRandomT<RANDFLAVOURS::RANDOMPROXY> r; for (int i = 0; i < n; i++) number(pb, r()); if (copies) { GRandomT<RANDFLAVOURS::RANDOMPROXY> c(r), m(std::move(r)); number(pb, c()); number(pb, m()); number(pb, r()); } };
	std::vector<std::thread> t; for (int i = 1; i < nt; i++) t.emplace_back(body); body(); for (auto& x : t) x.join(); }
	MC_CHECK(b.numbers == nt * (n + 3 * copies), "numbers missing"); GRANDOMFACTORY->finalize(); GRANDOMFACTORY_RESET; mc::outcome("ok");
}
MC_SCENARIO(proxy_t1, s.delay = true; s.bound_quick = 2; s.bound_thorough = 3; s.horizon = 6000) { proxies(1, 3, true); }
MC_SCENARIO(proxy_t2, s.delay = true; s.bound_quick = 1; s.bound_thorough = 2; s.horizon = 6000) { proxies(2, 3, false); }
// seeds: never the same twice, from any thread, beyond the size of the internal collection
MC_SCENARIO(seeds, s.bound_quick = 3; s.bound_thorough = 5) {
	Book b; auto *pb = &b; GRandomFactory f; auto *pf = &f; std::thread t([=] { for (int i = 0; i < 6; i++) number(pb, pf->getSeed()); }); for (int i = 0; i < 6; i++) number(pb, f.getSeed()); t.join(); MC_CHECK(b.numbers == 12, "seeds missing"); mc::outcome("ok");
}
