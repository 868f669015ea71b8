// C15: transfer of commands and work items between server and client, all serialization modes.
#include "sq.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "courtier/GCommandContainerT.hpp"
#include "courtier/GCourtierEnums.hpp"
#include "common/GSerializationHelperFunctionsT.hpp"
#include "common/GSerializeTupleT.hpp"
using namespace Gem::Courtier; using Gem::Common::serializationMode;
using CMD = networked_consumer_payload_command; using PS = processingStatus;
struct Item; struct Fn;
struct Item : public GProcessingContainerT<Item, double> { using B = GProcessingContainerT<Item, double>;
	double d = 0; std::int64_t n = 0; std::string s; std::vector<double> v; std::shared_ptr<Item> child; boost::logic::tribool t = false; std::chrono::duration<double> dur{0}; std::chrono::high_resolution_clock::time_point tp; std::atomic<bool> ab{false}; int mode = 0;
	Item() : B(2) {} virtual ~Item() = default;
	virtual double f() const { return d + double(n); }
	void process_() override { if (mode == 1) throw std::runtime_error("evaluation failed"); if (mode == 2) { this->force_set_error("flagged"); } this->registerResult(0, f()); this->registerResult(1, -f()); n++; }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("B", boost::serialization::base_object<B>(*this)) & BOOST_SERIALIZATION_NVP(d) & BOOST_SERIALIZATION_NVP(n) & BOOST_SERIALIZATION_NVP(s) & BOOST_SERIALIZATION_NVP(v) & BOOST_SERIALIZATION_NVP(child) & BOOST_SERIALIZATION_NVP(t) & BOOST_SERIALIZATION_NVP(dur) & BOOST_SERIALIZATION_NVP(tp) & BOOST_SERIALIZATION_NVP(ab) & BOOST_SERIALIZATION_NVP(mode); } };
struct Derived : public Item { std::string extra = "x"; double f() const override { return d / 3 + 1; }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("Item", boost::serialization::base_object<Item>(*this)) & BOOST_SERIALIZATION_NVP(extra); } };
struct Fn : public Gem::Common::GSerializableFunctionObjectT<Item> { using F = Gem::Common::GSerializableFunctionObjectT<Item>; int k = 0; bool process_(Item& i) override { i.v.push_back(k); return true; } Fn *clone_() const override { return new Fn(*this); } void load_(const F *o) override { F::load_(o); k = dynamic_cast<const Fn *>(o)->k; }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("F", boost::serialization::base_object<F>(*this)) & BOOST_SERIALIZATION_NVP(k); } };
BOOST_CLASS_EXPORT(Item) BOOST_CLASS_EXPORT(Derived) BOOST_CLASS_EXPORT(Fn)
using C = GCommandContainerT<Item, CMD>;
static const serializationMode M[] = {serializationMode::TEXT, serializationMode::XML, serializationMode::BINARY};
static std::string show(const Item *i) { if (!i) return "none"; std::ostringstream o; o << std::setprecision(17) << (dynamic_cast<const Derived *>(i) ? "Derived:" + dynamic_cast<const Derived *>(i)->extra : "Item") << " d=" << i->d << " n=" << i->n << " s=" << i->s << " v="; for (auto x : i->v) o << x << ","; o << " t=" << (i->t == true ? 1 : i->t == false ? 0 : 2) << " dur=" << i->dur.count() << " tp=" << std::chrono::duration_cast<std::chrono::milliseconds>(i->tp.time_since_epoch()).count() << " ab=" << i->ab.load() << " mode=" << i->mode << " st=" << int(i->getProcessingStatus()) << " it=" << i->getIterationCounter() << " rs=" << i->getResubmissionCounter() << " pos=" << i->getCollectionPosition() << " buf=" << i->getBufferId() << " pre=" << i->mayBePreProcessed() << i->mayBePostProcessed() << " err=" << i->getStoredErrorDescriptions() << " ev=" << i->getCurrentEvaluationID() << " nres=" << i->getNStoredResults();
	auto tt = i->getProcessingTimes(); o << " times=" << std::get<0>(tt) << "/" << std::get<1>(tt) << "/" << std::get<2>(tt); for (auto p : {i->getRawRetrievalTime(), i->getRawSubmissionTime(), i->getProcRetrievalTime(), i->getProcSubmissionTime()}) o << " " << std::chrono::duration_cast<std::chrono::milliseconds>(p.time_since_epoch()).count(); if (i->is_processed()) o << " r=" << i->getStoredResult(0) << "/" << i->getStoredResult(1); o << " child={" << show(i->child.get()) << "}"; return o.str(); }
static std::shared_ptr<Item> item(int k, int depth = 0) {
	static const double D[] = {0.1, -1.7976931348623157e308, 4.9406564584124654e-324, 1. / 3, 0}; static const std::int64_t NN[] = {0, INT64_MAX, INT64_MIN, 42, -1}; static const char *S[] = {"", "plain", "<a>&amp;\"quotes\"</a> \\ \n\t end ", "\xc3\xa4 utf8", "0 1 2"};
	auto p = k % 2 ? std::static_pointer_cast<Item>(std::make_shared<Derived>()) : std::make_shared<Item>(); p->d = D[k % 5]; p->n = NN[(k + 2) % 5]; p->s = S[k % 5]; for (int i = 0; i < k % 4; i++) p->v.push_back(D[i]); p->t = k % 3 == 0 ? boost::logic::tribool(true) : k % 3 == 1 ? boost::logic::tribool(false) : boost::logic::tribool(boost::logic::indeterminate); p->dur = std::chrono::duration<double>(k * 1.5); p->tp = std::chrono::high_resolution_clock::time_point(std::chrono::milliseconds(1000003 * k)); p->ab = k % 2; if (auto x = std::dynamic_pointer_cast<Derived>(p)) x->extra = S[(k + 1) % 5];
	p->setIterationCounter(k); p->setResubmissionCounter(k * 2); p->setCollectionPosition(k * 3); p->vetoPostProcessing(k % 3 == 1); if (k >= 2) { auto f = std::make_shared<Fn>(); f->k = k; p->registerPreProcessor(f); } if (k >= 3) { auto f = std::make_shared<Fn>(); f->k = -k; p->registerPostProcessor(f); } p->markRawSubmissionTime(); p->markRawRetrievalTime(); if (depth == 0 && k % 3 == 2) p->child = item(k + 1, 1); return p; }
static void state(Item& p, int st) { switch (st) { case 1: p.mark_as_due_for_processing(); break; case 2: p.markAsProcessedWith({0.1, -5}); break; case 3: p.mode = 1; p.mark_as_due_for_processing(); try { p.process(); } catch (const gemfony_exception&) {} break; case 4: p.mode = 2; p.mark_as_due_for_processing(); try { p.process(); } catch (const gemfony_exception&) {} break; } }
SQ_SCENARIO(hop) { // one transfer of every kind of content
	int c = sq::choose(6, "command"), k = sq::choose(11, "payload"); int st = k == 10 ? 0 : sq::choose(5, "state"), m = sq::choose(3, "mode"); std::shared_ptr<Item> p; if (k < 10) { p = item(k); state(*p, st); }
	std::string want = show(p.get()); C a; if (sq::choose(2, "form")) a.reset(CMD(c), p); else if (p) a = C(CMD(c), p); else { a = C(CMD((c + 1) % 6)); a.set_command(CMD(c)); } SQ_CHECK(a.get_command() == CMD(c) && a.get_payload() == p, "container does not hold what it was given");
	std::string s = container_to_string(a, M[m]); sq::step(2); SQ_CHECK(show(p.get()) == want, "sending changed the item");
	C b(CMD((c + 1) % 6), item(1)); container_from_string(s, b, M[m]); SQ_CHECK(b.get_command() == CMD(c), "command became " << int(b.get_command()) << " instead of " << c); SQ_CHECK(show(b.get_payload().get()) == want, "payload became\n" << show(b.get_payload().get()) << "\ninstead of\n" << want); SQ_CHECK(!p || b.get_payload() != p, "payload is not a copy");
	auto q = Gem::Common::sharedPtrFromString<Item>(Gem::Common::sharedPtrToString(p, M[m]), M[m]); SQ_CHECK(show(q.get()) == want, "sharedPtrToString/FromString gave\n" << show(q.get()) << "\ninstead of\n" << want);
	if (!p) SQ_THROWS(b.process(), "processing without payload"); sq::state(sq::H() << s); }
SQ_SCENARIO(round_trip) { // server -> client -> (process) -> server, possibly forwarded; the result must be that of local processing
	int k = sq::choose(10, "payload"), mode = sq::choose(3, "behaviour"); auto p = item(k), local = item(k); p->mode = local->mode = mode; p->mark_as_due_for_processing(); local->mark_as_due_for_processing(); try { local->process(); } catch (const gemfony_exception&) {}
	C c(CMD::COMPUTE, p); int hops = 1 + sq::choose(2, "hops"); for (int i = 0; i < hops; i++) { int m = sq::choose(3, "mode"); C d; container_from_string(container_to_string(c, M[m]), d, M[m]); c = std::move(d); sq::step(); }
	SQ_CHECK(c.get_command() == CMD::COMPUTE, "command lost"); bool threw = false; try { c.process(); } catch (const gemfony_exception&) { threw = true; } SQ_CHECK(threw == (mode != 0), "remote processing " << (threw ? "threw" : "did not throw")); c.set_command(CMD::RESULT);
	for (int i = 0; i < hops; i++) { int m = sq::choose(3, "mode"); C d; container_from_string(container_to_string(c, M[m]), d, M[m]); c = std::move(d); sq::step(); }
	auto q = c.get_payload(); SQ_CHECK(q && c.get_command() == CMD::RESULT, "result lost"); SQ_CHECK(q->getProcessingStatus() == local->getProcessingStatus(), "status differs from local processing"); SQ_CHECK(q->v == local->v && q->n == local->n && q->d == local->d && q->s == local->s, "content differs from local processing"); if (mode == 0) SQ_CHECK(q->getStoredResult(0) == local->getStoredResult(0) && q->getStoredResult(1) == local->getStoredResult(1), "results differ from local processing: " << q->getStoredResult(0) << " / " << local->getStoredResult(0)); else SQ_CHECK(!q->getStoredErrorDescriptions().empty(), "error description lost"); SQ_CHECK(q->getCollectionPosition() == std::size_t(k * 3) && (int)q->getIterationCounter() == k && (int)q->getResubmissionCounter() == 2 * k, "bookkeeping lost"); SQ_CHECK(p->is_due_for_processing(), "the original changed"); }
SQ_SCENARIO(truncated, s.split = 12) { // every truncation: exception, or nothing but the tail of the last value is missing
	int k = sq::choose(6, "payload"), m = sq::choose(3, "mode"); std::shared_ptr<Item> p = k == 5 ? nullptr : item(k); if (p) state(*p, k % 5); C a(CMD::COMPUTE, p); std::string s = container_to_string(a, M[m]); int cut = sq::choose(int(s.size()), "cut"); C b(CMD::STOP, item(7)); bool threw = false;
	if (m == 1 && cut >= int(s.rfind("</boost_serialization>")) - 1) { // try it in a process of its own: an archive destructor that throws ends the process
		pid_t q = fork(); if (!q) { signal(SIGABRT, SIG_DFL); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); try { C x; container_from_string(s.substr(0, cut), x, M[m]); } catch (...) {} _exit(0); } int st = 0; waitpid(q, &st, 0); if (WIFSIGNALED(st)) sq::fail("process ends with signal " + std::to_string(WTERMSIG(st)) + " for XML text cut inside the final closing tag"); }
	try { container_from_string(s.substr(0, cut), b, M[m]); } catch (const gemfony_exception&) { threw = true; } catch (...) { sq::fail("a foreign exception escaped for a truncated text"); } sq::step(); sq::outcome(threw ? "refused" : "read"); if (threw) return; SQ_CHECK(b.get_command() == CMD::COMPUTE && !!b.get_payload() == !!p, "text cut after " << cut << " of " << s.size() << " bytes gave another command or no payload"); SQ_CHECK(cut + 60 >= int(s.size()), "text cut after " << cut << " of " << s.size() << " bytes was accepted"); }
SQ_SCENARIO(garbage) { int m = sq::choose(3, "mode"), k = sq::choose(6, "text"); static const char *T[] = {"", "x", "22 serialization::archive", "<?xml version=\"1.0\"?>", "GET / HTTP/1.1\r\n\r\n", "\x01\x02\x03\x04\x05\x06\x07\x08"}; C b(CMD::STOP, item(7)); SQ_THROWS(container_from_string(std::string(T[k]), b, M[m]), "garbage accepted"); SQ_CHECK(b.get_payload() == nullptr, "old payload kept after a failed transfer");
	int n = sq::choose(3, "sent as"); if (n != m) { C a(CMD::COMPUTE, item(1)); std::string s = container_to_string(a, M[n]); SQ_THROWS(container_from_string(s, b, M[m]), "text of mode " << n << " accepted as mode " << m); } }
