// C13: serial, multi-threaded and broker-based executors on all mixtures of items, in all schedules.
#include "mc.hpp"
#include "courtier/GExecutorT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
#include <thread>
#include <memory>
#include <vector>
using namespace Gem::Courtier; using Gem::Common::GSingletonT; using PS = processingStatus;
using ms = std::chrono::milliseconds;
// what an item is and does: 0 processed fine, 1 ignored, 2 processed already, 3 throws, 4 flags an error
struct Item : public GProcessingContainerT<Item, double> {
	using B = GProcessingContainerT<Item, double>; int kind = 0, no = 0, iter = 0; std::atomic<int> done{0};
	Item() : B(1) {} Item(int k, int n, int it) : B(1), kind(k), no(n), iter(it) { if (k == 2) this->markAsProcessedWith({-7. - n}); else if (k != 1) this->mark_as_due_for_processing(); } Item(const Item& o) : B(o), kind(o.kind), no(o.no), iter(o.iter), done(o.done.load()) {}
	void process_() override { MC_CHECK(kind != 1 && kind != 2, "item " << no << " was processed although it did not ask for it"); MC_CHECK(++done == 1, "item " << no << " was processed twice"); if (kind == 3) throw std::runtime_error("this item fails"); if (kind == 4) this->force_set_error("this item reports an error"); this->registerResult(0, iter * 100 + no); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("B", boost::serialization::base_object<B>(*this)) & BOOST_SERIALIZATION_NVP(kind) & BOOST_SERIALIZATION_NVP(no) & BOOST_SERIALIZATION_NVP(iter); } };
using IP = std::shared_ptr<Item>; using Vec = std::vector<IP>;
static const char *N(PS p) { switch (p) { case PS::DO_IGNORE: return "IGNORE"; case PS::DO_PROCESS: return "DUE"; case PS::PROCESSED: return "PROCESSED"; case PS::EXCEPTION_CAUGHT: return "EXCEPTION"; default: return "FLAGGED"; } }
static void agree(GBaseExecutorT<Item>& ex, const Vec& v, const Vec& orig, executor_status_t st, const std::vector<bool>& lost, const std::string& h) {
	MC_CHECK(v.size() == orig.size(), "size of the work vector changed"); int due = 0, bad = 0, miss = 0;
	for (size_t i = 0; i < v.size(); i++) { int k = orig[i]->kind; MC_CHECK(v[i] && v[i]->no == (int)i && v[i]->iter == orig[i]->iter, "position " << i << " holds another item in " << h); if (lost.empty() || k == 1 || k == 2) MC_CHECK(v[i] == orig[i], "position " << i << " holds another object in " << h);
		bool l = !lost.empty() && lost[i]; PS want = l ? PS::DO_PROCESS : k == 1 ? PS::DO_IGNORE : k == 3 ? PS::EXCEPTION_CAUGHT : k == 4 ? PS::ERROR_FLAGGED : PS::PROCESSED; MC_CHECK(v[i]->getProcessingStatus() == want, "item " << i << " of kind " << k << " is " << N(v[i]->getProcessingStatus()) << " instead of " << N(want) << " in " << h);
		if (!l) MC_CHECK(v[i]->done == (k == 0 || k > 2), "item " << i << " of kind " << k << " was processed " << v[i]->done << " times in " << h); if (want == PS::PROCESSED) MC_CHECK(v[i]->getStoredResult(0) == (k == 2 ? -7. - i : v[i]->iter * 100 + (int)i), "result of item " << i << " in " << h); due += k == 0 || k > 2; bad += k > 2 && !l; miss += l; }
	MC_CHECK(st.is_complete == (miss == 0), "status says " << (st.is_complete ? "complete" : "incomplete") << " but " << miss << " items are missing in " << h); MC_CHECK(st.has_errors == (bad > 0), "status says errors=" << st.has_errors << " but " << bad << " items failed in " << h);
	MC_CHECK((int)ex.getNNotReturnedLast() == miss && (int)ex.getNErroneousWorkItems() == bad, "counters: " << ex.getNNotReturnedLast() << " missing and " << ex.getNErroneousWorkItems() << " erroneous instead of " << miss << " and " << bad << " in " << h); if (!miss && h.find("L") == std::string::npos && h.find("H") == std::string::npos) MC_CHECK((int)ex.getNReturnedLast() == due, "counter: " << ex.getNReturnedLast() << " items returned instead of " << due << " in " << h); }
static Vec make(int n, int kinds, int iter, std::string& h) { Vec v; for (int i = 0; i < n; i++) { int k = mc::choose(kinds, 0, "kind"); h += std::to_string(k); v.push_back(std::make_shared<Item>(k, i, iter)); } return v; }
static void local(int kind, int threads, int rounds, int maxn, int kinds, bool vary = true) {
	std::shared_ptr<GBaseConsumerT<Item>> c; auto br = GBROKER(Item); if (kind == 2) { if (threads == 0) c = std::make_shared<GSerialConsumerT<Item>>(); else c = std::make_shared<GStdThreadConsumerT<Item>>(threads); br->enrol_consumer(c); }
	GBaseExecutorT<Item> *ex = kind == 0 ? (GBaseExecutorT<Item> *)new GSerialExecutorT<Item>() : kind == 1 ? (GBaseExecutorT<Item> *)new GMTExecutorT<Item>(threads) : new GBrokerExecutorT<Item>();
	ex->init(); std::string h; int again = mc::choose(2, 0, "resubmit");
	for (int r = 0; r < rounds; r++) { h += " round:"; int n = vary ? mc::choose(maxn + 1, 0, "items") : maxn; Vec v = make(n, kinds, r, h), orig = v; executor_status_t st = ex->workOn(v, again); agree(*ex, v, orig, st, {}, h); MC_CHECK(ex->getOldWorkItems().empty(), "old items appeared in " << h); }
	ex->finalize(); if (mc::choose(2, 0, "again")) { ex->init(); h += " reinit:"; Vec v = make(1, 1, rounds, h), orig = v; agree(*ex, v, orig, ex->workOn(v), {}, h); ex->finalize(); } if (kind == 2) br->finalize(); if (kind != 2) delete ex; mc::outcome("ok"); }
#define OPT s.delay = true; s.horizon = 10000
MC_SCENARIO(serial, OPT; s.bound_quick = 0; s.bound_thorough = 0) { local(0, 0, 1, 3, 5); }
MC_SCENARIO(serial_rounds, OPT; s.bound_quick = 0; s.bound_thorough = 0) { local(0, 0, 2, 2, 5); }
MC_SCENARIO(mt1, OPT; s.bound_quick = 1; s.bound_thorough = 2) { local(1, 1, 1, 2, 5); }
MC_SCENARIO(mt2, OPT; s.bound_quick = 1; s.bound_thorough = 2) { local(1, 2, 1, 2, 4); }
MC_SCENARIO(mt2_deep, OPT; s.bound_quick = 2; s.bound_thorough = 4) { local(1, 2, 1, 2, 1, false); }
MC_SCENARIO(mt3, OPT; s.bound_quick = 0; s.bound_thorough = 2) { local(1, 3, 1, 3, 1, false); }
MC_SCENARIO(mt2_rounds, OPT; s.bound_quick = 0; s.bound_thorough = 2) { local(1, 2, 2, 1, 5); }
MC_SCENARIO(broker_sc, OPT; s.bound_quick = 1; s.bound_thorough = 2) { local(2, 0, 1, 2, 4); }
MC_SCENARIO(broker_sc_rounds, OPT; s.bound_quick = 0; s.bound_thorough = 2) { local(2, 0, 2, 2, 4); }
MC_SCENARIO(broker_stc2, OPT; s.bound_quick = 0; s.bound_thorough = 1) { local(2, 2, 1, 2, 5); }
MC_SCENARIO(broker_stc2_deep, OPT; s.bound_quick = 1; s.bound_thorough = 2) { local(2, 2, 1, 2, 1, false); }
// several executors share one broker
static void shared(int threads, int bound) {
	auto br = GBROKER(Item); auto c = std::make_shared<GStdThreadConsumerT<Item>>(threads); br->enrol_consumer(c);
	auto run = [](int r) { auto *ex = new GBrokerExecutorT<Item>(); ex->init(); std::string h; Vec v = {std::make_shared<Item>(0, 0, r), std::make_shared<Item>(r ? 3 : 0, 1, r)}, orig = v; agree(*ex, v, orig, ex->workOn(v), {}, "shared broker"); ex->finalize(); };
	std::thread t([=] { run(1); }); run(0); t.join(); br->finalize(); mc::outcome("ok"); }
MC_SCENARIO(broker_shared1, OPT; s.bound_quick = 1; s.bound_thorough = 3) { shared(1, 0); }
MC_SCENARIO(broker_shared2, OPT; s.bound_quick = 1; s.bound_thorough = 2) { shared(2, 0); }
// a consumer that behaves like remote clients: it returns processed copies, out of order, late, twice or not at all
struct Remote : public GBaseConsumerT<Item> {
	std::vector<int> plan; std::size_t pos = 0; std::vector<IP> held; std::thread t; std::shared_ptr<GBrokerT<Item>> br = GBROKER(Item); int returned = 0; std::mutex m; std::vector<std::vector<bool>> lost; std::string h; bool full = false; int modes = 4, maxLose = 1000, nlost = 0;
	void back(IP q) { returned++; br->put(q, ms(200)); }
	void run() { while (!this->stopped()) { IP p; br->get(p, ms(20000)); if (!p) continue; auto q = std::make_shared<Item>(*p); std::this_thread::sleep_for(ms(5)); try { q->process(); } catch (const g_processing_exception&) {}
		bool may; { std::lock_guard<std::mutex> l(m); may = nlost < maxLose; } int how = returned && may && p->getResubmissionCounter() == 0 ? mc::choose(modes, 0, "fate") : 0; { std::lock_guard<std::mutex> l(m); h += "RLDH"[how]; lost.at(p->iter).at(p->no) = how == 1 || how == 3; nlost += how == 1 || how == 3; }
		if (how == 0 || how == 2) { IP dup = how == 2 ? std::make_shared<Item>(*q) : IP(); back(q); if (dup) back(dup); for (auto& x : held) back(x); held.clear(); } if (how == 3) held.push_back(q); } }
	void addCLOptions_(boost::program_options::options_description&, boost::program_options::options_description&) override {} void actOnCLOptions_(const boost::program_options::variables_map&) override {} std::string getConsumerName_() const override { return "Remote"; } std::string getMnemonic_() const override { return "remote"; }
	void async_startProcessing_() override { t = std::thread([this] { run(); }); } void shutdown_() override { GBaseConsumerT<Item>::shutdown_(); t.join(); } std::size_t getNProcessingUnitsEstimate_(bool& e) const override { e = true; return 1; } bool capableOfFullReturn_() const override { return full; } };
static void remote(int n, int rounds, int kinds, bool again, int modes, double wait = 100) { // (a large wait factor: time-outs only expire when the consumer is idle)
	auto br = GBROKER(Item); auto c = std::make_shared<Remote>(); c->modes = modes; c->lost.assign(rounds, std::vector<bool>(n));  c->full = false; br->enrol_consumer(c); auto *ex = new GBrokerExecutorT<Item>(); ex->setWaitFactor(wait); ex->init(); std::string h;
	for (int r = 0; r < rounds; r++) { h += " round:"; Vec v = make(n, kinds, r, h), orig = v; auto st = ex->workOn(v, again); std::vector<bool> lost; { std::lock_guard<std::mutex> l(c->m); lost = c->lost[r]; h += c->h; c->h.clear(); }
		// held items may arrive in the same round if a later one is returned. With short time-outs the work vector tells what arrived in time.
		for (int i = 0; i < n; i++) { bool asked = orig[i]->kind == 0 || orig[i]->kind > 2; if (!asked) lost[i] = false; else if (wait > 0 && wait < 2) lost[i] = v[i] == orig[i]; else { if (lost[i] && v[i] != orig[i]) lost[i] = false; MC_CHECK(lost[i] || v[i] != orig[i], "item " << i << " was returned but did not arrive in" << h); } }
		agree(*ex, v, orig, st, lost, h); for (auto& o : ex->getOldWorkItems()) { MC_CHECK(o && o->iter < r && o->is_processed(), "an old item which is not old or not processed was reported in" << h); } if (again) MC_CHECK(st.is_complete, "resubmission did not complete the round in" << h); }
	ex->finalize(); br->finalize(); mc::outcome(h); }
#define ROPT s.delay = true; s.horizon = 10000; s.forced_timeouts_only = true; s.edf = true
MC_SCENARIO(remote1, ROPT; s.bound_quick = 1; s.bound_thorough = 4) { remote(2, 2, 1, false, 4); }
MC_SCENARIO(remote_rounds, ROPT; s.bound_quick = 0; s.bound_thorough = 2) { remote(2, 3, 1, false, 4); }
MC_SCENARIO(remote_kinds, ROPT; s.bound_quick = 0; s.bound_thorough = 1) { remote(2, 2, 5, false, 2); }
MC_SCENARIO(remote_resubmit, ROPT; s.bound_quick = 1; s.bound_thorough = 3) { remote(2, 2, 1, true, 4); }
MC_SCENARIO(remote_resubmit_kinds, ROPT; s.bound_quick = 0; s.bound_thorough = 1) { remote(3, 1, 5, true, 2); }
MC_SCENARIO(remote_nowait, ROPT; s.bound_quick = 1; s.bound_thorough = 2) { remote(2, 1, 5, false, 1, mc::choose(2, 0, "no timeout") ? 0. : -1.); }
MC_SCENARIO(remote_short, ROPT; s.bound_quick = 1; s.bound_thorough = 2) { remote(2, 2, 1, false, 4, 1.1); }
MC_SCENARIO(remote_short_resubmit, ROPT; s.bound_quick = 0; s.bound_thorough = 1) { remote(2, 2, 1, true, 4, 1.1); }
// known finding: a time-out that expires while the consumer is busy lets the resubmission write to items which the consumer is reading
MC_SCENARIO(late_resubmit, s.delay = true; s.horizon = 10000; s.forced_timeouts_only = true; s.bound_quick = 1; s.bound_thorough = 2) { remote(2, 2, 1, true, 2, 1.1); }
// the user asked to continue as soon as a percentage of the items is back
static void partial(int n, int rounds) {
	static const int PCT[] = {33, 50, 67, 100, 0}, NEED[] = {1, 2, 3, 3, 3}; int a = mc::choose(5, 0, "percentage"); bool full = mc::choose(2, 0, "full return");
	auto br = GBROKER(Item); auto c = std::make_shared<Remote>(); c->full = full; c->lost.assign(rounds, std::vector<bool>(n)); br->enrol_consumer(c); auto *ex = new GBrokerExecutorT<Item>(); ex->setWaitFactor(100); ex->setMinPartialReturnPercentage(PCT[a]); MC_CHECK(ex->getMinPartialReturnPercentage() == PCT[a], "percentage"); ex->init(); std::string h = std::to_string(PCT[a]) + "%";
	for (int r = 0; r < rounds; r++) { { std::lock_guard<std::mutex> l(c->m); c->nlost = 0; c->maxLose = n - NEED[a]; } h += " round:"; Vec v = make(n, 1, r, h), orig = v; auto st = ex->workOn(v, false); int there = 0; std::vector<bool> lost(n); for (int i = 0; i < n; i++) { lost[i] = v[i] == orig[i]; there += !lost[i]; } MC_CHECK(there >= NEED[a], "only " << there << " items are back in " << h); agree(*ex, v, orig, st, lost, h + "L"); for (auto& o : ex->getOldWorkItems()) MC_CHECK(o && o->iter < r && o->is_processed(), "an old item which is not old or not processed was reported in" << h); h += std::to_string(there); }
	ex->finalize(); br->finalize(); mc::outcome(h); }
MC_SCENARIO(partial_return, ROPT; s.bound_quick = 0; s.bound_thorough = 2) { partial(3, 2); }
