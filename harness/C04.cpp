// C04: singletons. First accesses, resets and re-accesses of up to three threads, all schedules.
#include "mc.hpp"
#include "common/GSingletonT.hpp"
#include <thread>
#include <memory>
#include <vector>
#include <atomic>
using Gem::Common::GSingletonT;
// bookkeeping under a mutex of its own
struct Book { std::mutex m; int ctor = 0, dtor = 0, alive = 0; };
static Book *g_book; static int g_throw;
struct Obj { int id; int payload[3]; Obj() { std::lock_guard<std::mutex> l(g_book->m); if (g_throw > 0) { g_throw--; throw std::runtime_error("construction fails"); } id = ++g_book->ctor; g_book->alive++; for (int& x : payload) x = 4711; } ~Obj() { std::lock_guard<std::mutex> l(g_book->m); g_book->dtor++; g_book->alive--; for (int& x : payload) x = 0; } };
using S = GSingletonT<Obj>;
static void use(const std::shared_ptr<Obj>& p) { MC_CHECK(p, "no object"); for (int x : p->payload) MC_CHECK(x == 4711, "object not fully constructed or already destroyed"); }
// nt threads access it `k` times; nobody resets
static void access(int nt, int k) {
	Book book; g_book = &book; g_throw = 0; std::vector<std::shared_ptr<Obj>> got(nt * k); auto *g = &got; std::vector<std::thread> t;
	auto body = [g, k](int i) { for (int j = 0; j < k; j++) { auto p = S::Instance(0); use(p); (*g)[i * k + j] = p; } };
	for (int i = 1; i < nt; i++) t.emplace_back(body, i); body(0); for (auto& x : t) x.join();
	for (auto& p : got) MC_CHECK(p == got[0], "two callers obtained different objects"); MC_CHECK(book.ctor == 1, "constructed " << book.ctor << " times");
	MC_CHECK(got[0].use_count() == nt * k + 1, "the singleton itself does not hold the object"); S::Instance(1); MC_CHECK(book.alive == 1, "object destroyed although it is in use"); use(got[0]); got.clear(); MC_CHECK(book.alive == 0, "object not destroyed"); mc::outcome("ok");
}
// construction fails the first time: that caller sees the exception, the others the object
static void failing(int nt) {
	Book book; g_book = &book; g_throw = 1; std::mutex m; int errors = 0; std::vector<std::shared_ptr<Obj>> got; std::vector<std::thread> t; auto *pm = &m; auto *pe = &errors; auto *pg = &got;
	auto body = [pm, pe, pg](int) { try { auto p = S::Instance(0); use(p); std::lock_guard<std::mutex> l(*pm); pg->push_back(p); } catch (const std::runtime_error&) { std::lock_guard<std::mutex> l(*pm); ++*pe; } };
	for (int i = 1; i < nt; i++) t.emplace_back(body, i); body(0); for (auto& x : t) x.join();
	MC_CHECK(errors == 1 && (int)got.size() == nt - 1, errors << " callers saw the exception"); for (auto& p : got) MC_CHECK(p == got[0], "two callers obtained different objects"); got.clear(); S::Instance(1); MC_CHECK(book.alive == 0 && book.ctor == (nt > 1), "construction count"); mc::outcome("ok");
}
// some threads reset: every object handed out stays valid for its holder, at most one new object per reset
static void resetting(int users, int resets, bool before) {
	Book book; g_book = &book; g_throw = 0; if (before) use(S::Instance(0)); std::vector<std::thread> t;
	std::vector<std::vector<int>> ids(users); auto *pi = &ids;
	auto user = [pi](int i) { std::shared_ptr<Obj> a = S::Instance(0); use(a); auto b = S::Instance(0); use(b); use(a); MC_CHECK(b->id >= a->id, "an older object came back after the reset"); (*pi)[i] = {a->id, b->id}; };
	for (int i = 0; i < resets; i++) t.emplace_back([] { auto p = S::Instance(1); MC_CHECK(!p, "reset returned an object"); });
	for (int i = 1; i < users; i++) t.emplace_back(user, i); user(0); for (auto& x : t) x.join();
	MC_CHECK(book.ctor <= resets + 1 && book.ctor >= 1, book.ctor << " objects constructed for " << resets << " resets"); MC_CHECK(book.alive <= 1, "old objects leak"); auto last = S::Instance(0); use(last); MC_CHECK(book.alive == 1, "objects leak or vanish"); std::string o; for (auto& v : ids) for (int x : v) o += std::to_string(x);
	last.reset(); S::Instance(1); MC_CHECK(book.alive == 0, "object not destroyed"); mc::outcome(o);
}
MC_SCENARIO(access_t2, s.bound_quick = 5; s.bound_thorough = 8) { access(2, 2); }
MC_SCENARIO(access_t3, s.bound_quick = 3; s.bound_thorough = 5) { access(3, 1); }
MC_SCENARIO(failing_t2, s.bound_quick = 4; s.bound_thorough = 6) { failing(2); }
MC_SCENARIO(failing_t3, s.bound_quick = 2; s.bound_thorough = 4) { failing(3); }
MC_SCENARIO(reset_u1, s.bound_quick = 5; s.bound_thorough = 8) { resetting(1, 1, mc::choose(2, 0, "accessed before")); }
MC_SCENARIO(reset_u2, s.bound_quick = 3; s.bound_thorough = 5) { resetting(2, 1, mc::choose(2, 0, "accessed before")); }
MC_SCENARIO(reset_u1_r2, s.bound_quick = 3; s.bound_thorough = 5) { resetting(1, 2, true); }
