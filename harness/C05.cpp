// C05: logger. Messages of up to three threads through every log type and target set, all schedules.
#include "mc.hpp"
#include "common/GLogger.hpp"
#include "common/GExceptions.hpp"
#include <thread>
#include <memory>
#include <vector>
#include <set>
#include <unistd.h>
#include <fstream>
using namespace Gem::Common; using LG = GLogger<GLogStreamer>;
struct Rec { std::mutex m; int inside = 0; std::vector<std::pair<int, std::string>> seen; }; // (target, message)
static Rec *g_rec;
struct Target : public GBaseLogTarget { int id; explicit Target(int i) : id(i) {}
	void put(std::string s) const { { std::lock_guard<std::mutex> l(g_rec->m); MC_CHECK(g_rec->inside == 0, "deliveries of two messages overlap"); g_rec->inside++; } std::this_thread::yield(); std::lock_guard<std::mutex> l(g_rec->m); g_rec->inside--; g_rec->seen.push_back({id, s}); }
	void log(std::string const& s) const override { put(s); } void logWithSource(std::string const& s, std::string const& e) const override { put("<" + e + ">" + s); } };
// what a message of this kind must look like when it arrives
static bool fits(const std::string& got, int kind, int t, int i) {
	std::string body = "msg " + std::to_string(t) + "." + std::to_string(i) + "\n";
	if (kind == 0) return got == body; if (kind == 1) return got == "<ext" + std::to_string(t) + ">" + body;
	bool ext = kind == 3; std::string pre = ext ? "<ext" + std::to_string(t) + ">" : ""; if (got.compare(0, pre.size(), pre)) return false; if (!ext && got[0] == '<') return false;
	return got.find(body) != std::string::npos && got.find("C05.cpp") != std::string::npos && got.find("WARNING") != std::string::npos && got.find(body) == got.rfind(body);
}
static void send(int kind, int t, int i) {
	switch (kind) {
	case 0: glogger << "msg " << t << "." << i << std::endl << GLOGGING; break;
	case 1: glogger(std::string("ext") + std::to_string(t)) << "msg " << t << "." << i << std::endl << GLOGGING; break;
	case 2: glogger << "msg " << t << "." << i << std::endl << GWARNING; break;
	case 3: glogger(std::string("ext") + std::to_string(t)) << "msg " << t << "." << i << std::endl << GWARNING; break;
	default: { bool thrown = false; try { glogger << "msg " << t << "." << i << std::endl << GEXCEPTION; } catch (const gemfony_exception& e) { thrown = std::string(e.what()).find("msg " + std::to_string(t) + "." + std::to_string(i) + "\n") != std::string::npos; MC_CHECK(thrown, "exception without the message text: " << e.what()); } MC_CHECK(thrown, "GEXCEPTION did not throw the library's exception"); }
	}
}
static void run(int nt, int n, bool exc) {
	Rec rec; g_rec = &rec; int targets = mc::choose(3, 0, "targets"); // 0: default target only
	char dir[] = "/tmp/c05.XXXXXX"; if (exc) { if (!mkdtemp(dir) || chdir(dir)) mc::violation("no scratch directory"); }
	glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<Target>(9));
	for (int i = 0; i < targets; i++) glogger_ptr->addLogTarget(std::make_shared<Target>(i)); MC_CHECK(glogger_ptr->hasLogTargets() == (targets > 0), "hasLogTargets");
	std::vector<int> kind(nt); int k0 = nt > 2 ? mc::choose(4, 0, "kinds") : 0; for (int t = 0; t < nt; t++) kind[t] = nt > 2 ? (k0 + t) % 4 : mc::choose(exc ? 5 : 4, 0, "kind");
	auto body = [n, &kind](int t) { for (int i = 0; i < n; i++) send(kind[t], t, i); };
	std::vector<std::thread> th; for (int i = 1; i < nt; i++) th.emplace_back(body, i); body(0); for (auto& x : th) x.join();
	if (exc) { std::string all; { std::ifstream f("GENEVA-EXCEPTION.log"); std::stringstream ss; ss << f.rdbuf(); all = ss.str(); } int want = 0; for (int t = 0; t < nt; t++) if (kind[t] == 4) for (int i = 0; i < n; i++) { want++; MC_CHECK(all.find("msg " + std::to_string(t) + "." + std::to_string(i) + "\n") != std::string::npos, "exception message missing in the exception log"); } (void)want; unlink("GENEVA-EXCEPTION.log"); if (chdir("/") == 0) rmdir(dir); }
	int nrec = targets ? targets : 1; std::vector<std::vector<std::string>> per(10); for (auto& p : rec.seen) per[p.first].push_back(p.second);
	size_t want = 0; for (int k : kind) want += k == 4 ? 0 : n;
	std::string order;
	for (int r = 0; r < nrec; r++) { auto& v = per[targets ? r : 9]; MC_CHECK(v.size() == want, "target " << r << " received " << v.size() << " messages instead of " << want); MC_CHECK(v == per[targets ? 0 : 9], "two targets saw a different order");
		std::vector<int> next(nt); for (auto& s : v) { bool ok = false; for (int t = 0; t < nt && !ok; t++) if (next[t] < n && kind[t] != 4 && fits(s, kind[t], t, next[t])) { ok = true; next[t]++; if (!r) order += std::to_string(t); } MC_CHECK(ok, "message altered, duplicated or out of order: " << s); } }
	if (targets) MC_CHECK(per[9].empty(), "default target used although targets are registered");
	for (size_t i = 0; i < rec.seen.size(); i++) MC_CHECK(rec.seen[i].first == (targets ? int(i % targets) : 9), "delivery of one message to all targets was interrupted by another");
	glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<GConsoleLogger>()); mc::outcome(order);
}
MC_SCENARIO(t2_n2, s.bound_quick = 2; s.bound_thorough = 4) { run(2, 2, false); }
MC_SCENARIO(t3_n1, s.delay = true; s.bound_quick = 2; s.bound_thorough = 4) { run(3, 1, false); }
MC_SCENARIO(t2_n1_exceptions, s.bound_quick = 2; s.bound_thorough = 4) { run(2, 1, true); }
// a target is registered (or all are dropped) while others log: every message reaches a consistent set of targets
static void changing() {
	Rec rec; g_rec = &rec; int what = mc::choose(3, 0, "change"); glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<Target>(9)); glogger_ptr->addLogTarget(std::make_shared<Target>(0));
	std::thread a([] { send(0, 0, 0); send(1, 0, 1); }); std::thread b([what] { if (what == 0) glogger_ptr->addLogTarget(std::make_shared<Target>(1)); else if (what == 1) glogger_ptr->resetLogTargets(); else { (void)glogger_ptr->hasLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<Target>(8)); } });
	a.join(); b.join(); std::string o; for (auto& p : rec.seen) o += std::to_string(p.first);
	static const std::set<std::string> ok[3] = {{"00", "001", "0101"}, {"00", "09", "99"}, {"00"}}; MC_CHECK(ok[what].count(o), "messages reached the targets " << o << " (change " << what << ")");
	glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<GConsoleLogger>()); mc::outcome(o);
}
MC_SCENARIO(changing_targets, s.bound_quick = 3; s.bound_thorough = 5) { changing(); }
// stdout/stderr/one-time-file types and the shipped targets, single threaded
static std::string slurp(const std::string& n) { std::ifstream f(n); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
MC_SCENARIO(shipped_targets, s.bound_quick = 1; s.bound_thorough = 2) {
	mc::Quiet q; char dir[] = "/tmp/c05.XXXXXX"; if (!mkdtemp(dir)) mc::violation("no scratch directory"); std::string d = dir;
	{ GFileLogger f(std::filesystem::path(d + "/a")); f.log("one\n"); f.log("two\n"); f.logWithSource("x\n", "s"); f.logWithSource("y\n", "s"); MC_CHECK(slurp(d + "/a") == "one\ntwo\n", "file target content: " << slurp(d + "/a")); std::string s = slurp(d + "/a_s"); MC_CHECK(s == "Logging data from source s\nx\ny\n", "file target with source: " << s); }
	{ glogger(std::filesystem::path(d + "/once")) << "hello " << 5 << std::endl << GFILE; glogger(std::filesystem::path(d + "/once")) << "again" << GFILE; MC_CHECK(slurp(d + "/once") == "hello 5\nagain", "one time log file: " << slurp(d + "/once")); }
	{ bool t = false; try { glogger << "no file" << GFILE; } catch (const gemfony_exception&) { t = true; } MC_CHECK(t, "GFILE without a file name was accepted"); }
	{ std::stringstream o, e, l; auto *po = std::cout.rdbuf(o.rdbuf()); auto *pe = std::cerr.rdbuf(e.rdbuf()); auto *pl = std::clog.rdbuf(l.rdbuf()); glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<GConsoleLogger>());
		glogger << "out" << 1 << GSTDOUT; glogger << "err" << 2 << GSTDERR; glogger << "log" << 3 << GLOGGING; glogger(std::string("src")) << "log" << 4 << GLOGGING; std::cout.rdbuf(po); std::cerr.rdbuf(pe); std::clog.rdbuf(pl);
		MC_CHECK(o.str() == "out1", "stdout: " << o.str()); MC_CHECK(e.str() == "err2", "stderr: " << e.str()); MC_CHECK(l.str() == "log3Message from source \"src\":\nlog4", "console: " << l.str()); }
	for (auto t : {0, 1}) { bool thrown = false; try { if (t) glogger_ptr->addLogTarget(nullptr); else glogger_ptr->setDefaultLogTarget(nullptr); } catch (const gemfony_exception&) { thrown = true; } MC_CHECK(thrown, "an empty target was accepted"); }
	std::filesystem::remove_all(d); std::filesystem::remove("GENEVA-EXCEPTION.log"); mc::outcome("ok");
}
// every text: empty, without newline, several lines, special characters, manipulators; two messages in a row, each type, 0-2 targets
static void put_text(GLogStreamer& l, int w) {
	switch (w) { case 0: break; case 1: l << "a"; break; case 2: l << std::endl; break; case 3: l << "x" << std::endl << "y"; break; case 4: l << "%s %n \\ <e>" << '\t'; break;
	case 5: l << std::hex << 255 << std::dec << ' ' << -3 << ' ' << 2.5 << ' ' << true; break; case 6: l << std::string(70000, 'q'); break; default: l << ""; } }
static std::string text_of(int w) { switch (w) { case 0: return ""; case 1: return "a"; case 2: return "\n"; case 3: return "x\ny"; case 4: return "%s %n \\ <e>\t"; case 5: return "ff -3 2.5 1"; case 6: return std::string(70000, 'q'); default: return ""; } }
MC_SCENARIO(texts, s.bound_quick = 0; s.bound_thorough = 0) {
	Rec rec; g_rec = &rec; int targets = mc::choose(3, 0, "targets"); glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<Target>(9)); for (int i = 0; i < targets; i++) glogger_ptr->addLogTarget(std::make_shared<Target>(i));
	std::vector<std::pair<int, int>> sent; for (int m = 0; m < 2; m++) { int w = mc::choose(8, 0, "text"), kind = mc::choose(5, 0, "kind"); sent.push_back({w, kind}); // kinds: plain, source, warning, warning with source, empty source
		static const char *src[2] = {"src one", "t"}; GLogStreamer l = kind == 1 || kind == 3 ? GLogStreamer(std::string(src[m])) : kind == 4 ? GLogStreamer(std::string()) : GLogStreamer(); put_text(l, w); MC_CHECK(l.content() == text_of(w), "content() of the stream: " << l.content()); if (kind == 2 || kind == 3) l << GWARNING; else l << GLOGGING; }
	int nrec = targets ? targets : 1; MC_CHECK(rec.seen.size() == size_t(2 * nrec), rec.seen.size() << " deliveries instead of " << 2 * nrec);
	for (size_t i = 0; i < rec.seen.size(); i++) { int m = int(i) / nrec; auto [w, kind] = sent[m]; std::string want = text_of(w), got = rec.seen[i].second, pre = kind == 1 || kind == 3 ? (m ? "<t>" : "<src one>") : ""; MC_CHECK(rec.seen[i].first == (targets ? int(i) % targets : 9), "wrong target");
		if (kind == 2 || kind == 3) { MC_CHECK(got.compare(0, pre.size(), pre) == 0 && got.find(want) != std::string::npos && got.find("WARNING") != std::string::npos && got.find("C05.cpp") != std::string::npos, "warning altered (text " << w << ", kind " << kind << "): " << got.substr(0, 300)); if (kind == 2) MC_CHECK(got[0] != '<', "source where none was given"); }
		else MC_CHECK(got == pre + want, "message altered (text " << w << ", kind " << kind << "): " << got.substr(0, 300)); }
	glogger_ptr->resetLogTargets(); glogger_ptr->setDefaultLogTarget(std::make_shared<GConsoleLogger>()); mc::outcome("ok");
}
