// C12: broker and buffer ports with hand-written and with the library's consumers, in all schedules.
#include "mc.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
#include <thread>
#include <memory>
#include <vector>
using namespace Gem::Courtier; using Gem::Common::GSingletonT;
using ms = std::chrono::milliseconds;
struct Item : public GProcessingContainerT<Item, double> {
	using B = GProcessingContainerT<Item, double>; int port = 0, no = 0; std::atomic<int> got{0}, done{0}, back{0};
	Item() : B(1) {} Item(int p, int n) : B(1), port(p), no(n) { this->mark_as_due_for_processing(); } Item(const Item& o) : B(o), port(o.port), no(o.no) {}
	void process_() override { MC_CHECK(++done == 1, "item " << no << " of port " << port << " was processed twice"); this->registerResult(0, port * 10 + no); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("B", boost::serialization::base_object<B>(*this)) & BOOST_SERIALIZATION_NVP(port) & BOOST_SERIALIZATION_NVP(no); } };
using Port = GBufferPortT<Item>; using Broker = GBrokerT<Item>; using IP = std::shared_ptr<Item>;
// the producer's side of one port
static void produce(std::shared_ptr<Port> port, int id, int n, bool timed, bool interleave) {
	std::vector<IP> it; for (int i = 0; i < n; i++) it.push_back(std::make_shared<Item>(id, i)); int back = 0, lost = 0;
	auto take = [&] { IP r; if (timed) { while (!port->pop_processed(r, ms(1000))) { MC_CHECK(!r, "failed retrieval returned an item"); } } else port->pop_processed(r); MC_CHECK(r, "empty item retrieved"); MC_CHECK(r->port == id, "item of port " << r->port << " came back through port " << id); MC_CHECK(++r->back == 1, "item came back twice"); MC_CHECK(r == it.at(r->no) && r->done == 1 && r->is_processed() && r->getStoredResult(0) == id * 10 + r->no, "item came back unprocessed"); back++; };
	for (int i = 0; i < n; i++) { it[i]->setBufferId(port->getUniqueTag()); if (timed) { if (!port->push_raw(it[i], ms(1000))) lost++; } else port->push_raw(it[i]); if (interleave && i) take(); }
	while (back + lost < n) take(); IP none; MC_CHECK(!port->pop_processed(none, ms(1)) && !none, "more items came back than were submitted"); for (auto& i : it) MC_CHECK(i->back == i->done, "bookkeeping"); MC_CHECK(!lost, "push into a port with room was refused"); }
struct Stop { std::mutex m; bool on = false; bool get() { std::lock_guard<std::mutex> l(m); return on; } void set() { std::lock_guard<std::mutex> l(m); on = true; } };
static void serve(Broker *b, Stop *s, bool timedPut) { while (!s->get()) { IP p; bool r = b->get(p, ms(200)); MC_CHECK(r == bool(p), "get() returns " << r << " with" << (p ? "" : "out") << " an item"); if (!p) continue; MC_CHECK(++p->got == 1, "item " << p->no << " of port " << p->port << " was handed out twice"); p->process(); if (timedPut) { MC_CHECK(b->put(p, ms(200)), "put() refused"); } else b->put(p); } }
static void direct(int ports, int items, int workers, bool interleave, bool late = false) {
	int mode = mc::choose(2, 0, "timed"); { Broker b; Stop s; auto *pb = &b; auto *ps = &s; std::vector<std::shared_ptr<Port>> po; std::vector<std::thread> t, w;
		auto open = [&] { auto p = std::make_shared<Port>(); MC_CHECK(!b.enrol_buffer_port(p), "full return promised without a consumer"); for (auto& q : po) MC_CHECK(q->getUniqueTag() != p->getUniqueTag(), "port tag used twice"); po.push_back(p); };
		for (int i = 0; i < ports - late; i++) open();
		for (int i = 0; i < workers; i++) w.emplace_back([=] { serve(pb, ps, mode); });
		for (int i = 1; i < ports; i++) { if (i == ports - 1 && late) open(); t.emplace_back([=, p = po[i]] { produce(p, i, items, mode, interleave); }); } produce(po[0], 0, items, mode, interleave); for (auto& x : t) x.join(); s.set(); for (auto& x : w) x.join(); }
	mc::outcome("ok"); }
#define OPT s.delay = true; s.horizon = 8000
MC_SCENARIO(port1_worker1, OPT; s.bound_quick = 3; s.bound_thorough = 5) { direct(1, 2, 1, false); }
MC_SCENARIO(port1_worker2, OPT; s.bound_quick = 2; s.bound_thorough = 4) { direct(1, 2, 2, false); }
MC_SCENARIO(port2_worker1, OPT; s.bound_quick = 2; s.bound_thorough = 4) { direct(2, 2, 1, true); }
MC_SCENARIO(port2_worker2, OPT; s.bound_quick = 2; s.bound_thorough = 3) { direct(2, 1, 2, false); }
MC_SCENARIO(port3_worker1, OPT; s.bound_quick = 1; s.bound_thorough = 3) { direct(3, 1, 1, false); }
MC_SCENARIO(port3_worker2, OPT; s.bound_quick = 1; s.bound_thorough = 2) { direct(3, 2, 2, true); }
MC_SCENARIO(late_port, OPT; s.bound_quick = 2; s.bound_thorough = 3) { direct(2, 1, 1, false, true); }
// the library's own consumers, with ports coming and going
static void consumers(int kind, int rounds, bool abandon, bool crowd) {
	auto br = GBROKER(Item); std::shared_ptr<GBaseConsumerT<Item>> c; if (kind == 0) c = std::make_shared<GSerialConsumerT<Item>>(); else c = std::make_shared<GStdThreadConsumerT<Item>>(kind);
	std::string o; std::vector<IP> left; std::vector<std::shared_ptr<Port>> keep; { auto p0 = std::make_shared<Port>(); bool early = mc::choose(2, 0, "consumer first"); if (early) { MC_CHECK(!br->hasConsumers(), "has consumers"); br->enrol_buffer_port(p0); br->enrol_consumer(c); } else { br->enrol_buffer_port(p0); br->enrol_consumer(c); } MC_CHECK(br->hasConsumers() && br->capableOfFullReturn(), "consumer not registered");
		keep.push_back(p0); std::vector<BUFFERPORT_ID_TYPE> tags{p0->getUniqueTag()};
		for (int r = 0; r < rounds; r++) { std::shared_ptr<Port> p; if (r == 0) p = p0; else { p = std::make_shared<Port>(); MC_CHECK(br->enrol_buffer_port(p), "full return not promised"); for (auto& q : keep) if (q->is_connected_to_producer()) MC_CHECK(q->getUniqueTag() != p->getUniqueTag(), "tag of an open port used again"); keep.push_back(p); }
			std::thread t; if (crowd && r) { auto q = keep[0]; if (q->is_connected_to_producer()) t = std::thread([q] { produce(q, 7, 1, false, false); }); }
			if (abandon && r + 1 < rounds) { for (int i = 0; i < 2; i++) { auto x = std::make_shared<Item>(r, i); x->setBufferId(p->getUniqueTag()); p->push_raw(x); left.push_back(x); } if (mc::choose(2, 0, "fetch one")) { IP y; p->pop_processed(y); MC_CHECK(y && y->port == r, "item of another port"); } p->producer_disconnect(); MC_CHECK(!p->is_connected_to_producer(), "disconnect"); }
			else produce(p, r, 1 + !crowd, false, false); if (t.joinable()) t.join(); }
		br->finalize(); }
	int late = 0; for (auto& x : left) { MC_CHECK(x->done <= 1, "processed twice"); late += x->done; } RESETGBROKER(Item); mc::outcome("abandoned " + std::to_string(late)); }
MC_SCENARIO(serial_consumer, OPT; s.bound_quick = 2; s.bound_thorough = 3) { consumers(0, 2, false, false); }
MC_SCENARIO(thread_consumer1, OPT; s.bound_quick = 2; s.bound_thorough = 3) { consumers(1, 2, false, true); }
MC_SCENARIO(thread_consumer2, OPT; s.bound_quick = 1; s.bound_thorough = 2) { consumers(2, 2, false, true); }
MC_SCENARIO(abandon_serial, OPT; s.bound_quick = 2; s.bound_thorough = 3) { consumers(0, 2, true, false); }
MC_SCENARIO(abandon_threads, OPT; s.bound_quick = 1; s.bound_thorough = 2) { consumers(2, 3, true, false); }
