// C16: networked consumer and client over real loopback sockets: every short history of well- and ill-behaved peers.
#include "sq.hpp"
#include "courtier/GAsioConsumerT.hpp"
#include "courtier/GWebsocketConsumerT.hpp"
#include "courtier/GExecutorT.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <unistd.h>
#include <thread>
#include <set>
#include <map>
using namespace Gem::Courtier; using Gem::Common::serializationMode; using CMD = networked_consumer_payload_command;
static const serializationMode M[] = {serializationMode::TEXT, serializationMode::XML, serializationMode::BINARY};
struct Item : public GProcessingContainerT<Item, double> { using B = GProcessingContainerT<Item, double>; int id = 0, kind = 0, n = 0;
	Item() : B(1) {} Item(int i, int k) : B(1), id(i), kind(k) { this->mark_as_due_for_processing(); }
	void process_() override { n++; if (kind == 1) throw std::runtime_error("evaluation failed"); if (kind == 2) this->force_set_error("flagged"); if (kind == 3) throw 7; this->registerResult(0, id + 0.5); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("B", boost::serialization::base_object<B>(*this)) & BOOST_SERIALIZATION_NVP(id) & BOOST_SERIALIZATION_NVP(kind) & BOOST_SERIALIZATION_NVP(n); } };
BOOST_CLASS_EXPORT(Item)
using C = GCommandContainerT<Item, CMD>; using IP = std::shared_ptr<Item>; using Port = GBufferPortT<Item>; using ms = std::chrono::milliseconds;
static IP right(const IP& p) { // what local processing would have given
	auto q = std::make_shared<Item>(p->id, p->kind); try { q->process(); } catch (...) {} return q; }
static void same(const IP& p, const char *where) { SQ_CHECK(p, where << ": empty item"); auto q = right(p); SQ_CHECK(p->n == 1, where << ": item " << p->id << " was processed " << p->n << " times"); SQ_CHECK(p->getProcessingStatus() == q->getProcessingStatus(), where << ": item " << p->id << " (kind " << p->kind << ") came back in state " << int(p->getProcessingStatus()) << " instead of " << int(q->getProcessingStatus()));
	if (p->is_processed()) SQ_CHECK(p->getStoredResult(0) == p->id + 0.5, where << ": wrong result"); SQ_CHECK(p->has_errors() == q->has_errors(), where << ": errors lost"); }
static std::string text(CMD c, IP p, int m) { C x(c); x.reset(c, p); return container_to_string(x, M[m]); }
// ---- plain sockets: one peer that does what the history says
static int bound(int port, int on) { int s = socket(AF_INET, SOCK_STREAM, 0); if (on) setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); if (bind(s, (sockaddr *)&a, sizeof a)) { close(s); return -1; } return s; }
static int freePort() { static int k = 0; for (int i = 0; i < 300; i++) { int p = 10000 + (getpid() * 3 + k++ * 997) % 22000; int s = bound(p, 0); if (s < 0) continue; close(s); return p; } sq::fail("no free port"); return 0; } // not among those used for outgoing connections, different for neighbouring processes
static int dial(int port) { int s = socket(AF_INET, SOCK_STREAM, 0); timeval t{25, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); setsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); SQ_CHECK(connect(s, (sockaddr *)&a, sizeof a) == 0, "the server does not accept connections any more"); return s; }
static void put(int s, const std::string& x) { size_t o = 0; while (o < x.size()) { ssize_t k = send(s, x.data() + o, x.size() - o, MSG_NOSIGNAL); if (k <= 0) return; o += k; } }
static std::string rest(int s) { std::string r; char b[8192]; for (;;) { ssize_t k = recv(s, b, sizeof b, 0); if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) sq::fail("no answer within 25 seconds"); if (k <= 0) return r; r.append(b, k); } }
static void hangUp(int s, bool rst) { if (rst) { linger l{1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(s); }
// the two protocols: how a message is exchanged, and what an ill-behaved peer does
struct Tcp { using Cons = GAsioConsumerT<Item>; int port; int s = -1;
	explicit Tcp(int p) : port(p) {}
	std::string ask(const std::string& x) { int f = dial(port); put(f, x); shutdown(f, SHUT_WR); std::string r = rest(f); hangUp(f, false); return r; }
	std::string half(const std::string& x) { return ask(x.substr(0, x.size() / 2)); }
	std::string noise(int d) { return ask(d % 2 ? std::string(100000, 'x') : std::string("GET / HTTP/1.1\r\n\r\n")); }
	void polite() { hangUp(dial(port), false); }
	void abrupt(const std::string& x, bool whole) { int f = dial(port); put(f, whole ? x : x.substr(0, x.size() / 2)); if (whole) shutdown(f, SHUT_WR); hangUp(f, true); }
	int idle(int d) { int f = dial(port); if (d % 2) put(f, "x"); return f; } };
namespace bb = boost::beast; namespace ws_ = boost::beast::websocket; namespace ba = boost::asio;
struct Conn { ba::io_context io; ws_::stream<ba::ip::tcp::socket> ws{io}; explicit Conn(int port) { int s = dial(port); ws.next_layer().assign(ba::ip::tcp::v4(), s); boost::system::error_code ec; ws.handshake("127.0.0.1", "/", ec); SQ_CHECK(!ec, "the server does not accept connections any more: " << ec.message()); ws.binary(true); }
	std::string ask(const std::string& x) { boost::system::error_code ec; ws.write(ba::buffer(x), ec); if (ec) return ""; bb::multi_buffer b; ws.read(b, ec); return ec ? "" : bb::buffers_to_string(b.data()); } };
struct Ws { using Cons = GWebsocketConsumerT<Item>; int port; std::unique_ptr<Conn> c; // well-behaved messages use one connection, as the library's client does
	explicit Ws(int p) : port(p) {}
	std::string ask(const std::string& x) { if (!c) c.reset(new Conn(port)); auto r = c->ask(x); if (r.empty()) c.reset(); return r; }
	std::string half(const std::string& x) { Conn k(port); return k.ask(x.substr(0, x.size() / 2)); }
	std::string noise(int d) { if (d % 2) { int f = dial(port); put(f, "GET / HTTP/1.0\r\nFoo: bar\r\n\r\n"); shutdown(f, SHUT_WR); rest(f); hangUp(f, false); return ""; } Conn k(port); return k.ask(std::string(100000, 'x')); }
	void polite() { boost::system::error_code ec; if (c) c->ws.close(ws_::close_code::normal, ec); c.reset(); hangUp(dial(port), false); }
	void abrupt(const std::string& x, bool whole) { Conn k(port); boost::system::error_code ec; k.ws.write_some(whole, ba::buffer(whole ? x : x.substr(0, x.size() / 2)), ec); int f = k.ws.next_layer().release(); hangUp(f, true); }
	int idle(int d) { if (d % 2) { int f = dial(port); put(f, "GET"); return f; } Conn k(port); return k.ws.next_layer().release(); } };
static void conf(GAsioConsumerT<Item>& c, int port, int m, int th) { c.setPort(port); c.setServerName("127.0.0.1"); c.setSerializationMode(M[m]); c.setNThreads(th); }
static void conf(GWebsocketConsumerT<Item>& c, int port, int m, int th) { // this one can only be configured through the command line
	namespace po = boost::program_options; po::options_description v, h; c.addCLOptions(v, h); v.add(h); std::vector<std::string> a{"--beast_ip", "127.0.0.1", "--beast_port", std::to_string(port), "--beast_serializationMode", std::to_string(int(M[m])), "--beast_nListenerThreads", std::to_string(th)}; po::variables_map vm; po::store(po::command_line_parser(a).options(v).run(), vm); po::notify(vm); c.actOnCLOptions(vm); }
template <class Cons> struct Server { std::shared_ptr<Cons> c; int port = 0; Server(int m, int th) { for (int i = 0;; i++) { c = std::make_shared<Cons>(); port = freePort(); conf(*c, port, m, th); try { c->async_startProcessing(); break; } catch (const gemfony_exception&) { if (i > 50) throw; } } } };
static const char *ACT[] = {"request", "deliver", "deliver again", "deliver for a closed port", "deliver nothing", "wrong command", "garbage", "hang up at once", "half a request", "half a result", "reset after half a request", "reset after a request", "reset after a result", "idle connection"};
template <class T> static void server(int depth, int nact, int nitems) {
	RESETGBROKER(Item); auto br = GBROKER(Item); int m = sq::choose(3, "mode"), th = 1 + sq::choose(2, "threads"); Server<typename T::Cons> sv(m, th); T peer(sv.port); auto port = std::make_shared<Port>(); br->enrol_buffer_port(port); int streak = 0, others = 0; // with several ports a request may meet an empty one; the next ones must not
	std::set<int> waiting; std::map<int, IP> out; std::vector<IP> done; std::multiset<int> delivered; int lost = 0, maybe = 0; std::vector<int> idle; // lost: requests whose answer nobody read; maybe: deliveries that may or may not have arrived
	for (int i = 0; i < nitems; i++) { auto p = std::make_shared<Item>(i, i % 3); p->setBufferId(port->getUniqueTag()); port->push_raw(p); waiting.insert(i); }
	auto answer = [&](const std::string& r, const char *to) { C x(CMD::NONE); sq::step(); SQ_CHECK(!r.empty(), "no answer to: " << to); SQ_NOTHROW(container_from_string(r, x, M[m]), "unreadable answer to: " << to); auto p = x.get_payload();
		if (x.get_command() == CMD::NODATA) { SQ_CHECK(!p, "NODATA with an item"); if (int(waiting.size()) > lost && ++streak <= others) return false; SQ_CHECK(int(waiting.size()) <= lost, "a client that asked got nothing although " << waiting.size() << " items were waiting (" << to << ")"); return false; }
		SQ_CHECK(x.get_command() == CMD::COMPUTE && p, "unexpected command " << int(x.get_command()) << " in the answer to: " << to); streak = 0; SQ_CHECK(waiting.erase(p->id), "item " << p->id << " was handed out twice"); if (!lost) for (int w : waiting) SQ_CHECK(w > p->id, "item " << p->id << " overtook item " << w); SQ_CHECK(p->n == 0 && p->is_due_for_processing(), "item " << p->id << " altered"); out[p->id] = p; return true; };
	auto finish = [&](IP p) { try { p->process(); } catch (...) {} return p; };
	for (int d = 0; d < depth; d++) { int a = sq::choose(nact, "action"); const char *t = ACT[a]; sq::note(t);
		switch (a) {
		case 0: answer(peer.ask(text(CMD::GETDATA, nullptr, m)), t); break;
		case 1: { IP p; if (!out.empty()) { p = finish(out.begin()->second); out.erase(out.begin()); } else { p = finish(std::make_shared<Item>(50 + d, 0)); p->setBufferId(port->getUniqueTag()); } delivered.insert(p->id); done.push_back(p); answer(peer.ask(text(CMD::RESULT, p, m)), t); break; }
		case 2: if (!done.empty()) { delivered.insert(done.back()->id); answer(peer.ask(text(CMD::RESULT, done.back(), m)), t); } break;
		case 3: { auto p = finish(std::make_shared<Item>(90, 0)); { auto dead = std::make_shared<Port>(); br->enrol_buffer_port(dead); p->setBufferId(dead->getUniqueTag()); others++; } answer(peer.ask(text(CMD::RESULT, p, m)), t); break; }
		case 4: answer(peer.ask(text(CMD::RESULT, nullptr, m)), t); break;
		case 5: SQ_CHECK(peer.ask(text(d % 2 ? CMD::COMPUTE : CMD::NODATA, d % 2 ? std::make_shared<Item>(70, 0) : nullptr, m)).empty(), "answered a wrong command"); break;
		case 6: SQ_CHECK(peer.noise(d).empty(), "answered garbage"); break;
		case 7: peer.polite(); break;
		case 8: { auto x = text(CMD::GETDATA, nullptr, m); SQ_CHECK(peer.half(x).empty(), "answered half a request"); break; }
		case 9: { IP p = std::make_shared<Item>(80, 0); p->setBufferId(port->getUniqueTag()); auto x = text(CMD::RESULT, finish(p), m); SQ_CHECK(peer.half(x).empty(), "answered half a result"); break; }
		case 10: peer.abrupt(text(CMD::GETDATA, nullptr, m), false); break;
		case 11: lost++; peer.abrupt(text(CMD::GETDATA, nullptr, m), true); break;
		case 12: { IP p = finish(std::make_shared<Item>(60 + d, 0)); p->setBufferId(port->getUniqueTag()); maybe++; lost++; peer.abrupt(text(CMD::RESULT, p, m), true); break; }
		default: idle.push_back(peer.idle(d)); break; } }
	// everything still there can be fetched, every result arrives once
	for (int idle_ = 0; idle_ <= others;) if (!answer(peer.ask(text(CMD::GETDATA, nullptr, m)), "request at the end")) idle_++; else idle_ = 0; SQ_CHECK(int(waiting.size()) <= lost, "items disappeared");
	while (!out.empty()) { IP p = finish(out.begin()->second); out.erase(out.begin()); delivered.insert(p->id); answer(peer.ask(text(CMD::RESULT, p, m)), "result at the end"); }
	IP r; while (port->pop_processed(r, ms(delivered.empty() ? (maybe ? 30 : 5) : 10000))) { SQ_CHECK(r, "empty item came back"); auto it = delivered.find(r->id); if (it == delivered.end()) { SQ_CHECK(r->id >= 60 && r->id < 70 && maybe-- > 0, "item " << r->id << " came back more often than it was delivered"); } else delivered.erase(it); same(r, "server"); r.reset(); }
	SQ_CHECK(delivered.empty(), delivered.size() << " delivered results did not reach the port they belong to");
	sv.c->shutdown(); SQ_CHECK(sv.c->stopped(), "server not stopped"); for (int s : idle) close(s); sq::outcome("ok"); sq::state(sq::H() << int(waiting.size()) << m << th); RESETGBROKER(Item); }
SQ_SCENARIO(asio_server, s.timeout_s = 60; s.native = true; s.split = 128) { server<Tcp>(sq::thorough() ? 3 : 2, 14, 2); }
SQ_SCENARIO(ws_server, s.timeout_s = 60; s.native = true; s.split = 128) { server<Ws>(sq::thorough() ? 3 : 2, 14, 2); }
SQ_SCENARIO(asio_server_deep, s.timeout_s = 60; s.native = true; s.split = 128) { server<Tcp>(sq::thorough() ? 6 : 4, 3, 2); }
SQ_SCENARIO(ws_server_deep, s.timeout_s = 60; s.native = true; s.split = 128) { server<Ws>(sq::thorough() ? 6 : 4, 3, 2); }
// ---- the library's client against a scripted server
static const char *SRV[] = {"item", "throwing item", "flagging item", "no data", "hang up", "reset", "garbage", "wrong command", "item throwing an int", "refuse to connect"};
static int listener(int port, int& got) { if (!port) port = freePort(); for (int i = 0; i < 500; i++) { int s = bound(port, 1); if (s >= 0) { if (!listen(s, 16)) { got = port; return s; } close(s); } usleep(20000); } sq::fail("scripted server cannot listen"); return -1; }
SQ_SCENARIO(asio_client, s.timeout_s = 60; s.native = true; s.split = 128) {
	int m = sq::choose(3, "mode"), depth = sq::thorough() ? 4 : 2, port = 0; int ls = listener(0, port); auto cons = std::make_shared<GAsioConsumerT<Item>>(); cons->setPort(port); cons->setServerName("127.0.0.1"); cons->setSerializationMode(M[m]); cons->setMaxReconnects(8); SQ_CHECK(cons->needsClient(), "no client needed?"); auto cl = cons->getClient(); SQ_CHECK(cl, "no client");
	auto fin = std::make_shared<std::atomic<bool>>(false); auto& ended = *fin; std::thread t([cl, fin] { try { cl->run(); } catch (const std::exception&) {} *fin = true; }); struct Join { std::thread& t; std::shared_ptr<GBaseClientT<Item>>& c; int& ls; ~Join() { c->flagCloseRequested(); if (ls >= 0) close(ls); if (t.joinable()) t.detach(); } } join{t, cl, ls};
	int expect = -1, kind = 0; int items = 0; bool over = false; // expect: number of the item whose result must come next
	for (int d = 0; d <= depth && !over; d++) { // every round: one connection of the client
		pollfd pf{ls, POLLIN, 0}; int w = 0; while (!(w = poll(&pf, 1, 100)) && !ended) ; if (!w && !poll(&pf, 1, 0)) { over = true; sq::fail("the client gave up although the server was well-behaved"); }
		int s = accept(ls, nullptr, nullptr); timeval tv{25, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); std::string x = rest(s); C c(CMD::NONE); SQ_NOTHROW(container_from_string(x, c, M[m]), "unreadable message from the client"); sq::step(); auto p = c.get_payload();
		if (expect < 0) { SQ_CHECK(c.get_command() == CMD::GETDATA && !p, "the client sent command " << int(c.get_command()) << " instead of a request"); } else { SQ_CHECK(c.get_command() == CMD::RESULT && p, "the client sent command " << int(c.get_command()) << " instead of the result of item " << expect); SQ_CHECK(p->id == expect && p->kind == kind, "result of another item"); same(p, "client"); }
		int a = d == depth ? 3 : sq::choose(10, "answer"); sq::note(SRV[a]); expect = -1;
		if (a <= 2 || a == 8) { kind = a == 8 ? 3 : a; expect = 10 + d; items++; put(s, text(CMD::COMPUTE, std::make_shared<Item>(expect, kind), m)); hangUp(s, false); }
		else if (a == 3) { if (d == depth) cl->flagCloseRequested(); put(s, text(CMD::NODATA, nullptr, m)); hangUp(s, false); }
		else if (a == 9) { close(ls); kind = 0; expect = 10 + d; items++; put(s, text(CMD::COMPUTE, std::make_shared<Item>(expect, 0), m)); hangUp(s, false); usleep(300000); int q; ls = listener(port, q); } // connections fail for a while: the result must still arrive
		else { if (a == 6) put(s, "nonsense"); if (a == 7) put(s, text(CMD::RESULT, std::make_shared<Item>(3, 0), m)); hangUp(s, a == 5); over = true; } }
	// after an ill-behaved answer the client may end or go on, but nothing may come that is not a request or a known result
	cl->flagCloseRequested(); for (int i = 0; !ended; i++) { pollfd pf{ls, POLLIN, 0}; if (poll(&pf, 1, 50) == 1) { int s = accept(ls, nullptr, nullptr); rest(s); hangUp(s, false); } SQ_CHECK(i < 800, "the client does not end although it was told to"); }
	t.join(); SQ_CHECK(int(cl->getNProcessed()) == items, "the client counts " << cl->getNProcessed() << " processed items instead of " << items); sq::outcome("ok"); sq::state(sq::H() << items << m); }
static const char *WSRV[] = {"item", "throwing item", "flagging item", "no data", "item throwing an int", "ping, then an item", "close frame", "hang up", "reset", "garbage", "wrong command"};
SQ_SCENARIO(ws_client, s.timeout_s = 60; s.native = true; s.split = 128) {
	int m = sq::choose(3, "mode"), depth = sq::thorough() ? 4 : 2, port = 0, ls = listener(0, port); auto cons = std::make_shared<GWebsocketConsumerT<Item>>(); conf(*cons, port, m, 1); SQ_CHECK(cons->needsClient(), "no client needed?"); auto cl = cons->getClient(); SQ_CHECK(cl, "no client");
	auto fin = std::make_shared<std::atomic<bool>>(false); auto& ended = *fin; std::thread t([cl, fin] { try { cl->run(); } catch (const std::exception&) {} *fin = true; }); struct Join { std::thread& t; std::shared_ptr<GBaseClientT<Item>>& c; ~Join() { c->flagCloseRequested(); if (t.joinable()) t.detach(); } } join{t, cl};
	ba::io_context io; ws_::stream<ba::ip::tcp::socket> ws(io); int s = accept(ls, nullptr, nullptr); timeval tv{25, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ws.next_layer().assign(ba::ip::tcp::v4(), s); boost::system::error_code ec; ws.accept(ec); SQ_CHECK(!ec, "no handshake: " << ec.message()); ws.binary(true); int expect = -1, kind = 0, items = 0; bool over = false, gone = false;
	for (int d = 0; d <= depth && !over; d++) {
		bb::multi_buffer b; ws.read(b, ec); SQ_CHECK(!ec, "the client gave up although the server was well-behaved: " << ec.message()); C c(CMD::NONE); SQ_NOTHROW(container_from_string(bb::buffers_to_string(b.data()), c, M[m]), "unreadable message from the client"); sq::step(); auto p = c.get_payload();
		if (expect < 0) { SQ_CHECK(c.get_command() == CMD::GETDATA && !p, "the client sent command " << int(c.get_command()) << " instead of a request"); } else { SQ_CHECK(c.get_command() == CMD::RESULT && p, "the client sent command " << int(c.get_command()) << " instead of the result of item " << expect); SQ_CHECK(p->id == expect && p->kind == kind, "result of another item"); same(p, "client"); }
		if (d == depth) { over = true; int w = sq::choose(3, "told to end"); sq::note(w == 0 ? "told to end, then no data" : w == 1 ? "no data, then told to end" : "told to end while working"); // the client must end, whatever it is doing
			if (w == 0) cl->flagCloseRequested(); if (w == 2) { kind = 0; items++; ws.write(ba::buffer(text(CMD::COMPUTE, std::make_shared<Item>(77, 0), m)), ec); bb::multi_buffer q; ws.read(q, ec); cl->flagCloseRequested(); } if (w < 2 || !ec) ws.write(ba::buffer(text(CMD::NODATA, nullptr, m)), ec); if (w == 1) { usleep(20000); cl->flagCloseRequested(); }
			bb::multi_buffer q; ws.read(q, ec); while (!ec) { C e(CMD::NONE); SQ_NOTHROW(container_from_string(bb::buffers_to_string(q.data()), e, M[m]), "unreadable message at the end"); SQ_CHECK(e.get_command() == CMD::GETDATA, "unexpected command at the end"); q.clear(); ws.write(ba::buffer(text(CMD::NODATA, nullptr, m)), ec); if (!ec) ws.read(q, ec); } break; }
		int a = sq::choose(11, "answer"); sq::note(WSRV[a]); expect = -1;
		if (a <= 2 || a == 4 || a == 5) { kind = a == 4 ? 3 : a == 5 ? 0 : a; expect = 10 + d; items++; if (a == 5) ws.ping({}, ec); ws.write(ba::buffer(text(CMD::COMPUTE, std::make_shared<Item>(expect, kind), m)), ec); }
		else if (a == 3) ws.write(ba::buffer(text(CMD::NODATA, nullptr, m)), ec);
		else { over = true; if (a == 6) ws.close(ws_::close_code::normal, ec); else { if (a == 9) ws.write(ba::buffer(std::string("nonsense")), ec); if (a == 10) ws.write(ba::buffer(text(CMD::RESULT, std::make_shared<Item>(3, 0), m)), ec); if (a > 8) cl->flagCloseRequested(); if (a < 9) { hangUp(ws.next_layer().release(), a == 8); gone = true; } else { bb::multi_buffer q; ws.read(q, ec); while (!ec) { q.clear(); ws.write(ba::buffer(text(CMD::NODATA, nullptr, m)), ec); if (!ec) ws.read(q, ec); } } } } }
	for (int i = 0; !ended; i++) { usleep(20000); SQ_CHECK(i < 1000, "the client does not end although " << (gone ? "the connection is gone" : "it was told to")); }
	t.join(); close(ls); for (int i = 0; i < 200 && int(cl->getNProcessed()) != items; i++) usleep(20000); SQ_CHECK(int(cl->getNProcessed()) == items, "the client counts " << cl->getNProcessed() << " processed items instead of " << items); sq::outcome("ok"); sq::state(sq::H() << items << m); }
// ---- both ends and the broker executor
template <class Cons> static void whole(int n) { int m = sq::choose(3, "mode"), nclients = 1 + sq::choose(2, "clients");
	RESETGBROKER(Item); auto br = GBROKER(Item); auto c = std::make_shared<Cons>(); std::vector<IP> v; for (int i = 0; i < n; i++) { int k = sq::choose(5, "kind"); auto p = std::make_shared<Item>(i, k == 4 ? 0 : k); if (k == 4) p->mark_as_ignorable(); v.push_back(p); }
	for (int i = 0;; i++) { int port = freePort(); conf(*c, port, m, 2); try { br->enrol_consumer(c); break; } catch (const gemfony_exception&) { if (i > 20) throw; c.reset(); br.reset(); RESETGBROKER(Item); br = GBROKER(Item); c = std::make_shared<Cons>(); } }
	std::vector<std::thread> t; std::vector<std::shared_ptr<GBaseClientT<Item>>> cl; for (int i = 0; i < nclients; i++) { cl.push_back(c->getClient()); t.emplace_back([x = cl.back()] { try { x->run(); } catch (const std::exception&) {} }); }
	GBrokerExecutorT<Item> ex; ex.setWaitFactor(0); ex.init(); auto orig = v; bool err = false, any = false; for (auto& p : v) { any |= p->is_due_for_processing(); err |= p->is_due_for_processing() && p->kind; } auto st = ex.workOn(v, false); sq::step(n);
	SQ_CHECK(st.is_complete, "not complete"); SQ_CHECK(st.has_errors == err, "has_errors is " << st.has_errors); SQ_CHECK(v.size() == orig.size(), "size changed"); std::vector<int> seen(n); for (int i = 0; i < n; i++) { SQ_CHECK(v[i] && v[i]->id == i, "position " << i << " holds another item"); if (v[i]->is_ignored()) SQ_CHECK(v[i]->n == 0, "ignored item processed"); else same(v[i], "whole"); }
	(void)any; ex.finalize(); for (auto& x : cl) x->flagCloseRequested(); for (auto& x : t) x.join(); br->finalize(); RESETGBROKER(Item); sq::outcome("ok"); }
SQ_SCENARIO(asio_whole, s.timeout_s = 60; s.native = true; s.split = 128) { whole<GAsioConsumerT<Item>>(sq::thorough() ? 3 : 2); }
SQ_SCENARIO(ws_whole, s.timeout_s = 60; s.native = true; s.split = 128) { whole<GWebsocketConsumerT<Item>>(sq::thorough() ? 3 : 2); }
