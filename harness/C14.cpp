// C14: life cycle of work items. Every operation sequence on real processing containers against a reference automaton.
#include "sq.hpp"
#include "courtier/GProcessingContainerT.hpp"
#include "common/GSerializationHelperFunctionsT.hpp"
#include <set>
using namespace Gem::Courtier;
using PS = processingStatus;
static std::string g_log; // order of pre-processing (<), evaluation (e / x: external), post-processing (>)
static int g_pre, g_eval, g_post; // behaviour: 0 fine, 1 std exception, 2 library exception, 3 int, 4 flag an error (evaluation and post-processing only)
struct Item; struct Fn;
struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
static void behave(int b, const char *who) { if (b == 1) throw Err(std::string("problem in ") + who); if (b == 2) throw gemfony_exception(g_error_streamer(NO_LOG, time_and_place) << "problem in " << who << std::endl); if (b == 3) throw 5; }
struct Item : public GProcessingContainerT<Item, double> {
	using B = GProcessingContainerT<Item, double>; int payload = 0; bool partial = false;
	Item() : B(2) {} Item(const Item& o) : B(o), payload(o.payload), partial(o.partial) {} Item& operator=(const Item&) = default;
	void process_() override { g_log += "e"; this->registerResult(0, payload + 0.5); if (g_eval == 1 || g_eval == 3) behave(g_eval, "evaluation"); this->registerResult(1, payload * 2); behave(g_eval, "evaluation"); if (g_eval == 4) flag("flagged by evaluation"); }
	void flag(const std::string& s) { this->force_set_error(s); }
	void addOne() { this->modifyStoredResult(0) += 1000; }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("B", boost::serialization::base_object<B>(*this)) & BOOST_SERIALIZATION_NVP(payload) & BOOST_SERIALIZATION_NVP(partial); } };
struct Fn : public Gem::Common::GSerializableFunctionObjectT<Item> { using F = Gem::Common::GSerializableFunctionObjectT<Item>; bool post = false;
	Fn() = default; explicit Fn(bool p) : post(p) {} Fn(const Fn&) = default;
	bool process_(Item& i) override { g_log += post ? ">" : "<"; int b = post ? g_post : g_pre; if (post) i.addOne(); behave(b, post ? "post-processing" : "pre-processing"); if (b == 4) i.flag("flagged by post-processing"); return true; }
	Fn *clone_() const override { return new Fn(*this); } void load_(const F *o) override { F::load_(o); post = dynamic_cast<const Fn *>(o)->post; }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("F", boost::serialization::base_object<F>(*this)) & BOOST_SERIALIZATION_NVP(post); } };
BOOST_CLASS_EXPORT(Fn) BOOST_CLASS_EXPORT(Item)
struct Ref { PS st = PS::DO_IGNORE; double r[2] = {0, 0}; std::string err; bool pre = false, post = false, vpre = false, vpost = false; int it = 0, sub = 0; size_t pos = 0; int evals = 0; };
static const char *N(PS p) { switch (p) { case PS::DO_IGNORE: return "IGNORE"; case PS::DO_PROCESS: return "DUE"; case PS::PROCESSED: return "PROCESSED"; case PS::EXCEPTION_CAUGHT: return "EXCEPTION"; default: return "FLAGGED"; } }
static const PS ALL[] = {PS::DO_IGNORE, PS::DO_PROCESS, PS::PROCESSED, PS::EXCEPTION_CAUGHT, PS::ERROR_FLAGGED};
static void agree(Item& i, const Ref& r, const std::string& h) {
	SQ_CHECK(i.getProcessingStatus() == r.st, "state is " << N(i.getProcessingStatus()) << " instead of " << N(r.st) << " after" << h);
	bool err = r.st == PS::EXCEPTION_CAUGHT || r.st == PS::ERROR_FLAGGED;
	SQ_CHECK(i.is_processed() == (r.st == PS::PROCESSED) && i.is_ignored() == (r.st == PS::DO_IGNORE) && i.is_due_for_processing() == (r.st == PS::DO_PROCESS) && i.has_errors() == err && i.error_flagged_by_user() == (r.st == PS::ERROR_FLAGGED), "state predicates disagree with state " << N(r.st) << " after" << h);
	for (int k = 0; k < 2; k++) { bool got = false; double v = 0; try { v = i.getStoredResult(k); got = true; } catch (const gemfony_exception&) {} SQ_CHECK(got == (r.st == PS::PROCESSED), "result " << (got ? "readable" : "unreadable") << " in state " << N(r.st) << " after" << h); if (got) SQ_CHECK(v == r.r[k], "result " << k << " is " << v << " instead of " << r.r[k] << " after" << h); }
	SQ_CHECK(i.getNStoredResults() == 2, "number of results"); if (err) SQ_CHECK(i.getStoredErrorDescriptions().find(r.err) != std::string::npos && !i.getStoredErrorDescriptions().empty(), "error description '" << i.getStoredErrorDescriptions() << "' lacks '" << r.err << "' after" << h); if (r.st == PS::PROCESSED) SQ_CHECK(i.getStoredErrorDescriptions().empty(), "processed item has an error description after" << h);
	SQ_CHECK(i.mayBePreProcessed() == !r.vpre && i.mayBePostProcessed() == !r.vpost && (int)i.getIterationCounter() == r.it && (int)i.getResubmissionCounter() == r.sub && i.getCollectionPosition() == r.pos, "attributes wrong after" << h); }
static void process(Item& i, Ref& r, std::string& h, bool reduced) {
	g_log.clear(); g_pre = g_eval = g_post = 0; if (r.st == PS::DO_PROCESS) { if (r.pre && !r.vpre) g_pre = sq::choose(reduced ? 2 : 5, "pre"); if (!g_pre || g_pre == 4) g_eval = sq::choose(5, "eval"); if (r.post && !r.vpost && (!g_eval || g_eval == 4)) g_post = sq::choose(reduced ? 2 : 5, "post"); }
	bool ext = sq::choose(2, "external"); h += " process(" + std::to_string(g_pre) + std::to_string(g_eval) + std::to_string(g_post) + (ext ? ",ext)" : ")");
	std::string id0 = i.getCurrentEvaluationID(); bool threw = false, lib = false; double ret = 0; std::string msg;
	try { ret = ext ? i.process([](Item& x) { x.process_(); g_log += "x"; }) : i.process(); } catch (const g_processing_exception& e) { threw = lib = true; msg = e.what(); } catch (const gemfony_exception& e) { threw = true; msg = e.what(); } catch (...) { sq::fail("a foreign exception escaped from process() after" + h); }
	sq::step();
	if (r.st != PS::DO_PROCESS) { SQ_CHECK(threw && !lib, "processing was possible in state " << N(r.st) << h); SQ_CHECK(g_log.empty(), "something was called although the item did not ask for it: " << g_log << h); return; }
	std::string want; if (r.pre && !r.vpre) want += "<"; bool stop = g_pre && g_pre != 4; if (!stop) { want += "e"; stop = g_eval && g_eval != 4; if (!stop && ext) want += "x"; } if (!stop && r.post && !r.vpost) { want += ">"; stop = g_post && g_post != 4; }
	SQ_CHECK(g_log == want, "call order is '" << g_log << "' instead of '" << want << "' after" << h); SQ_CHECK(i.getCurrentEvaluationID() != id0, "evaluation id not renewed after" << h);
	r.err.clear(); bool flagged = g_pre == 4 || (g_eval == 4 && want.find('e') != std::string::npos) || (g_post == 4);
	if (stop) { r.st = PS::EXCEPTION_CAUGHT; int b = g_pre && g_pre != 4 ? g_pre : g_eval && g_eval != 4 ? g_eval : g_post; const char *who = g_pre && g_pre != 4 ? "pre-processing" : g_eval && g_eval != 4 ? "evaluation" : "post-processing"; r.err = b == 3 ? "unknown exception" : std::string("problem in ") + who; }
	else if (flagged) { r.st = PS::ERROR_FLAGGED; r.err = g_pre == 4 ? "flagged by pre" : g_eval == 4 ? "flagged by evaluation" : "flagged by post-processing"; if (g_pre == 4) r.err = "flagged by"; }
	else { r.st = PS::PROCESSED; r.r[0] = i.payload + 0.5 + (r.post && !r.vpost ? 1000 : 0); r.r[1] = i.payload * 2; r.evals++; }
	SQ_CHECK(threw == (r.st != PS::PROCESSED) && (!threw || lib), "process() " << (threw ? "threw" : "returned") << " in state " << N(r.st) << " after" << h); if (threw) SQ_CHECK(msg.find(r.err) != std::string::npos, "exception message '" << msg << "' lacks '" << r.err << "'" << h); else SQ_CHECK(ret == r.r[0], "process() returned " << ret << " instead of " << r.r[0] << h); }
static std::set<std::string> g_seen;
SQ_SCENARIO(life_cycle, s.split = 200) {
	auto i = std::make_unique<Item>(); Ref r; std::string h; i->payload = 3; agree(*i, r, " construction"); int cfg = sq::choose(4, "functions"); r.pre = cfg & 1; r.post = cfg & 2; if (r.pre) i->registerPreProcessor(std::make_shared<Fn>(false)); if (r.post) i->registerPostProcessor(std::make_shared<Fn>(true)); i->registerPreProcessor(nullptr); i->registerPostProcessor(nullptr);
	int depth = sq::thorough() ? 8 : 6;
	for (int d = 0; d < depth; d++) {
		sq::H s; s << d << cfg << r.st << r.r[0] << r.r[1] << r.err << r.vpre << r.vpost << r.it << i->payload; sq::state(s); if (!sq::fresh(s)) return;
		switch (sq::choose(16, "op")) {
		case 0: case 1: process(*i, r, h, d > 3); break;
		case 2: { int k = sq::choose(5, "target"); h += std::string(" set(") + N(ALL[k]) + ")"; bool same = ALL[k] == r.st; bool ok = same || k < 2; bool t = false; try { i->set_processing_status(ALL[k]); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t == !ok, "set_processing_status " << (t ? "refused" : "accepted") << " after" << h); if (ok) r.st = ALL[k]; break; }
		case 3: i->mark_as_due_for_processing(); r.st = PS::DO_PROCESS; h += " due"; break;
		case 4: i->mark_as_ignorable(); r.st = PS::DO_IGNORE; h += " ignore"; break;
		case 5: { double v = sq::choose(2, "v") ? 7 : -1; SQ_CHECK(i->markAsProcessedWith({v, v * 3}) == v, "markAsProcessedWith return value"); r.st = PS::PROCESSED; r.r[0] = v; r.r[1] = v * 3; h += " markAsProcessedWith"; break; }
		case 6: { bool t = false; try { i->markAsProcessedWith({1}); } catch (const gemfony_exception&) { t = true; } SQ_CHECK(t, "wrong number of results accepted (debug build)"); h += " markAsProcessedWith(1 of 2)"; break; }
		case 7: { int k = sq::choose(2, "target"); bool err = r.st == PS::EXCEPTION_CAUGHT || r.st == PS::ERROR_FLAGGED; std::string e = i->get_and_clear_exceptions(ALL[k]); if (err) { SQ_CHECK(e.find(r.err) != std::string::npos, "get_and_clear_exceptions returned '" << e << "'" << h); } SQ_CHECK(r.st == ALL[k] || i->getStoredErrorDescriptions().empty(), "errors not cleared" << h); r.st = ALL[k]; h += std::string(" clear(") + N(ALL[k]) + ")"; break; }
		case 8: { auto n = std::make_unique<Item>(*i); i->markAsProcessedWith({99, 99}); i->vetoPreProcessing(!r.vpre); i->setIterationCounter(77); i = std::move(n); h += " copy"; break; }
		case 9: { auto n = std::make_unique<Item>(); n->markAsProcessedWith({98, 98}); n->registerPreProcessor(std::make_shared<Fn>(false)); n->vetoPostProcessing(true); *n = *i; i = std::move(n); h += " assign"; break; }
		case 10: { auto n = std::make_unique<Item>(); n->markAsProcessedWith({98, 98}); n->registerPostProcessor(std::make_shared<Fn>(true)); n->load_pc(i.get()); n->payload = i->payload; i = std::move(n); h += " load_pc"; break; }
		case 11: { std::shared_ptr<Item> p(i.release()); auto m = std::vector<Gem::Common::serializationMode>{Gem::Common::serializationMode::TEXT, Gem::Common::serializationMode::XML, Gem::Common::serializationMode::BINARY}[sq::choose(3, "mode")]; auto q = Gem::Common::sharedPtrFromString<Item>(Gem::Common::sharedPtrToString(p, m), m); i.reset(new Item(*q)); h += " serialize"; break; }
		case 12: { r.vpre = !r.vpre; i->vetoPreProcessing(r.vpre); h += " vetoPre"; break; }
		case 13: { r.vpost = !r.vpost; i->vetoPostProcessing(r.vpost); h += " vetoPost"; break; }
		case 14: { r.it++; r.sub += 2; r.pos += 3; i->setIterationCounter(r.it); i->setResubmissionCounter(r.sub); i->setCollectionPosition(r.pos); h += " counters"; break; }
		case 15: { i->payload++; h += " payload"; break; }
		}
		agree(*i, r, h); sq::outcome(N(r.st)); } }
