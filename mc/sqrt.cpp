#include <mutex>
// Driver of the sequential explorer: stateless depth-first enumeration of all choice vectors, subtrees in forked processes.
#include "sq.hpp"
#include <atomic>
#include <algorithm>
#include <unordered_set>
#include <map>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
using u64 = uint64_t;
namespace {
std::vector<sq::Scenario> *SCN;
const sq::Scenario *SC;
constexpr int MAXP = 4096;          // choices per execution
constexpr u64 TABN = 1ull << 25;
struct Path { int n = 0; uint16_t v[MAXP]; };
struct Slot { std::atomic<u64> tick; std::atomic<int> status; Path cur; uint16_t ar[MAXP]; char msg[4096]; char kind[32]; }; // status 0 running 1 done 2 violation 3 internal
struct Shared {
	std::atomic<u64> execs, steps, states; std::atomic<int> maxpath, stop, overflow, toodeep; std::atomic<int> lock;
	int nout; char outs[65][256]; u64 outother; u64 knownhits[16];
};
Shared *S; std::atomic<u64> *TAB, *TAB2; bool g_noprune; Slot *SLOTS; Slot *slot;
std::vector<std::string> KNOWN;
bool g_thorough, g_verbose; int g_bound, g_left;
std::vector<std::string> notes;
std::string cur_outcome;
std::unordered_set<u64> *SEEN;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void lk() { while (S->lock.exchange(1)) usleep(20); }
void ulk() { S->lock.store(0); }
int g_fixed; // positions < g_fixed replay cur.v
struct TooDeep {};
std::string js(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += ' '; else o += c; } return o; }
template <class X> X *shm(size_t n) { void *p = mmap(nullptr, n * sizeof(X), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (X *)p; }
int depth_now;
std::mutex first_mx; std::string first_fail; // the first failure of an execution: code under test may swallow the exception that reports it
// runs one execution with the first `fixed` choices given in slot->cur.v; fills slot->cur/ar. returns 0 ok 1 pruned 2 violation
int run(int fixed, std::string& msg, std::string& kind) {
	g_fixed = fixed; depth_now = 0; g_left = g_bound; notes.clear(); cur_outcome.clear(); { std::lock_guard<std::mutex> g(first_mx); first_fail.clear(); }
	slot->cur.n = fixed; slot->tick++;
	int r = 0;
	try { SC->fn(); }
	catch (const sq::Fail& f) { msg = f.msg; kind = "property"; r = 2; }
	catch (const sq::Prune&) { r = 1; }
	catch (const TooDeep&) { S->toodeep = 1; r = 1; }
	catch (const std::exception& e) { msg = std::string("exception escaped: ") + e.what(); kind = "exception"; r = 2; }
	catch (...) { msg = "unknown exception escaped"; kind = "exception"; r = 2; }
	{ std::lock_guard<std::mutex> g(first_mx); if (!first_fail.empty()) { msg = first_fail; kind = "property"; r = 2; } }
	if (r == 2 && !notes.empty()) { msg += " ["; for (auto& n : notes) msg += n + "; "; msg += "]"; }
	S->execs++; slot->cur.n = depth_now; if (depth_now > S->maxpath) S->maxpath = depth_now;
	if (r == 0) {
		lk(); int i; for (i = 0; i < S->nout; i++) if (!strncmp(S->outs[i], cur_outcome.c_str(), 255)) break;
		if (i == S->nout) { if (i < 64) { snprintf(S->outs[i], 256, "%s", cur_outcome.c_str()); S->nout++; } else S->outother++; }
		ulk();
	}
	return r;
}
int known_hit(const std::string& m) { for (size_t i = 0; i < KNOWN.size() && i < 16; i++) if (m.find(KNOWN[i]) != std::string::npos) return i; return -1; }
// explores the subtree under the first `fixed` choices of slot->cur; only_first: one execution
void subtree(int fixed, bool single, double t_end) {
	int start = fixed;
	for (;;) {
		std::string m, k;
		int r = run(start, m, k);
		if (r == 2) {
			int h = known_hit(m);
			if (h >= 0) { lk(); S->knownhits[h]++; ulk(); }
			else { snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str()); snprintf(slot->kind, sizeof slot->kind, "%s", k.c_str()); slot->status = 2; return; }
		}
		if (single) break;
		int i = slot->cur.n - 1;
		while (i >= fixed && slot->cur.v[i] + 1 >= slot->ar[i]) i--;
		if (i < fixed) break;
		slot->cur.v[i]++; start = i + 1;
		if (now() > t_end) { S->overflow = 1; break; }
		if (S->stop) break;
	}
	slot->status = 1;
}
int devnull;
pid_t spawn(int w, const Path& p, bool single, double t_end) {
	Slot *s = &SLOTS[w]; s->status = 0; s->cur = p; s->msg[0] = 0; s->kind[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t c = fork();
	if (c) return c;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	slot = s; g_noprune = single;
	if (!g_verbose) { dup2(devnull, 1); dup2(devnull, 2); }
	struct rlimit rl{12ull << 30, 12ull << 30}; setrlimit(RLIMIT_AS, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	char d[64]; snprintf(d, sizeof d, "w%d", w); mkdir(d, 0777); if (chdir(d)) {}
	SEEN = new std::unordered_set<u64>;
	subtree(p.n, single, t_end);
	if (g_verbose && slot->status == 1) { std::cout << "outcome: " << cur_outcome << std::endl; for (auto& n : notes) std::cout << "note: " << n << std::endl; }
	_exit(0);
}
// waits for one child (blocking with watchdog); returns 1 ok, 2 violation (slot filled), 3 killed for time
int finish(int w, int st) {
	Slot *s = &SLOTS[w];
	if (s->status == 2 || s->status == 1) return s->status;
	snprintf(s->kind, sizeof s->kind, "crash");
	if (WIFSIGNALED(st)) snprintf(s->msg, sizeof s->msg, "execution dies with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	else snprintf(s->msg, sizeof s->msg, "execution ends the process with exit code %d", WEXITSTATUS(st));
	if (s->cur.n < s->cur.n) {}
	return 2;
}
int run_alone(int w, const Path& p, bool single, int limit, double t_end) {
	pid_t c = spawn(w, p, single, t_end); int st; u64 lt = SLOTS[w].tick; double t = now();
	for (;;) { pid_t r = waitpid(c, &st, WNOHANG); if (r == c) break; usleep(500); if (SLOTS[w].tick != lt) { lt = SLOTS[w].tick; t = now(); } if (now() - t > limit) { kill(c, SIGKILL); waitpid(c, &st, 0); return 3; } }
	return finish(w, st);
}
}
namespace sq {
int reg(const Scenario& s) { if (!SCN) SCN = new std::vector<Scenario>; SCN->push_back(s); return 0; }
int choose(int n, const char *what, int cost) {
	if (n <= 0) fail(std::string("harness error: choose(0) ") + what);
	if (cost > 0 && g_left < cost) n = 1;
	if (n == 1) return 0;
	int d = depth_now; if (d >= MAXP) throw TooDeep();
	depth_now++;
	if (d >= g_fixed) { slot->cur.v[d] = 0; }
	slot->ar[d] = n; slot->cur.n = std::max(g_fixed, depth_now);
	int v = slot->cur.v[d];
	if (v >= n) fail(std::string("divergence: recorded choice out of range at ") + what);
	if (v > 0) g_left -= cost;
	if (g_verbose) std::cout << "choice " << what << " = " << v << " of " << n << std::endl;
	return v;
}
void fail(const std::string& m) { { std::lock_guard<std::mutex> g(first_mx); if (first_fail.empty()) first_fail = m.empty() ? "?" : m; } throw Fail{m}; }
bool fresh(u64 h) { if (g_noprune || depth_now < g_fixed) return true; h |= 1; u64 i = (h * 0x9E3779B97F4A7C15ull) >> (64 - 25); for (int k = 0; k < 4096; k++, i = (i + 1) & (TABN - 1)) { u64 c = TAB2[i].load(std::memory_order_relaxed); if (c == h) return false; if (!c) { if (TAB2[i].compare_exchange_strong(c, h)) return true; if (c == h) return false; } } return true; }
void state(u64 h) { h |= 1; u64 i = (h * 0x9E3779B97F4A7C15ull) >> (64 - 25); for (int k = 0; k < 64; k++, i = (i + 1) & (TABN - 1)) { u64 c = TAB[i].load(std::memory_order_relaxed); if (c == h) return; if (!c) { if (TAB[i].compare_exchange_strong(c, h)) { S->states++; return; } if (c == h) return; } } }
bool first(u64 h) { if (depth_now < g_fixed) return true; return SEEN->insert(h).second; }
void step(int n) { S->steps += n; }
void outcome(const std::string& s) { cur_outcome = s; }
bool thorough() { return g_thorough; }
bool verbose() { return g_verbose; }
void note(const std::string& s) { if (notes.size() < 60) notes.push_back(s); if (g_verbose) std::cout << s << std::endl; }
}
int main(int argc, char **argv) {
	std::string scn, replay; int bound = -1, workers = 8; double budget = 600; bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--scenario") scn = nx(); else if (a == "--bound") bound = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
		else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--replay") replay = nx(); else if (a == "--thorough") g_thorough = true;
		else if (a == "--list") list = true; else if (a == "-v") g_verbose = true;
		else if (a == "--known") { FILE *f = fopen(nx().c_str(), "r"); char b[512]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) KNOWN.push_back(b); } if (f) fclose(f); }
	}
	if (list) { for (auto& s : *SCN) if (!s.thorough_only || g_thorough || getenv("SQ_ALL") || (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"))) printf("%s\n", s.name); return 0; }
	for (auto& s : *SCN) if (scn == s.name) SC = &s;
	if (!SC) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 3; }
	S = shm<Shared>(1); TAB = shm<std::atomic<u64>>(TABN); TAB2 = shm<std::atomic<u64>>(TABN); SLOTS = shm<Slot>(workers + 2);
	g_bound = bound >= 0 ? bound : g_thorough ? SC->bound_thorough : SC->bound_quick;
	devnull = open("/dev/null", O_RDWR);
	if (!replay.empty()) {
		Path p; FILE *f = fopen(replay.c_str(), "r"); if (!f) return 3; int a; while (fscanf(f, "%d", &a) == 1) p.v[p.n++] = a; fclose(f);
		int r = run_alone(0, p, true, 120, now() + 1e9);
		printf("status=%d kind=%s %s\n", r, SLOTS[0].kind, SLOTS[0].msg);
		return r == 1 ? 0 : 1;
	}
	double t0 = now(), t_end = t0 + budget;
	std::string vkind, vmsg, internal; Path vpath; bool hasv = false; int unrepeated = 0;
	auto violation = [&](int w, const Path& unit, bool single) {
		Path p = SLOTS[w].cur; std::string k = SLOTS[w].kind, m = SLOTS[w].msg;
		int ok = 0;
		for (int i = 0; i < 2; i++) { if (k == "hang" && i) { ok++; break; } int r = run_alone(workers, p, true, k == "hang" ? 60 : 120, now() + 1e9); if ((r == 2 && k == SLOTS[workers].kind) || (r == 3 && k == "hang")) { ok++; if (r == 2) m = SLOTS[workers].msg; } }
		if (ok < 2 && k != "hang") { // depends on earlier executions of the same process: rerun the whole unit
			S->stop = 0; int r = run_alone(workers, unit, single, 120, now() + 600);
			if (r == 2 && k == SLOTS[workers].kind) { ok = 2; p = SLOTS[workers].cur; m = "(after the preceding executions of its subtree) " + std::string(SLOTS[workers].msg); }
		}
		if (ok < 2 && SC->native && ++unrepeated <= 3) return; // timing of native threads and sockets, which the scenario does not control
		if (ok < 2) { internal = "unreproducible " + k + ": " + m; return; }
		if (!hasv || p.n < vpath.n) { hasv = true; vkind = k; vmsg = m; vpath = p; }
	};
	// 1. cut the tree into subtrees
	std::vector<Path> fr{Path()}, leaves;
	while (!fr.empty() && (int)fr.size() + (int)leaves.size() < SC->split && !hasv && internal.empty()) {
		std::vector<Path> nx; bool any = false;
		for (auto& p : fr) {
			if (hasv || !internal.empty()) break;
			u64 e0 = S->execs;
			int r = run_alone(0, p, true, SC->timeout_s, t_end);
			(void)e0;
			if (r == 3) { snprintf(SLOTS[0].kind, 32, "hang"); snprintf(SLOTS[0].msg, 4096, "one execution does not end within %d s", SC->timeout_s); SLOTS[0].cur = p; violation(0, p, true); if (hasv || !internal.empty()) break; leaves.push_back(p); continue; }
			if (r == 2) { violation(0, p, true); if (hasv || !internal.empty()) break; leaves.push_back(p); continue; }
			S->execs--; // run again as part of its subtree
			if (SLOTS[0].cur.n <= p.n) { leaves.push_back(p); continue; }
			any = true;
			for (int a = 0; a < SLOTS[0].ar[p.n]; a++) { Path q = p; q.v[q.n++] = a; nx.push_back(q); }
		}
		if (hasv || !internal.empty()) break;
		fr.swap(nx); if (!any) break;
	}
	std::vector<Path> units = leaves; units.insert(units.end(), fr.begin(), fr.end());
	// the expansion already counted transitions/outcomes of its runs; only execution counts are corrected
	size_t next = 0; std::vector<pid_t> pid(workers, 0); std::vector<size_t> unit(workers, 0); std::vector<u64> lt(workers, 0); std::vector<double> lts(workers, 0);
	while (!hasv && internal.empty()) {
		bool busy = false;
		for (int w = 0; w < workers && !hasv; w++) {
			if (!pid[w] && next < units.size() && now() < t_end) { unit[w] = next; pid[w] = spawn(w, units[next++], false, t_end); lt[w] = SLOTS[w].tick; lts[w] = now(); }
			if (!pid[w]) continue;
			busy = true; int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
			if (r == pid[w]) { pid[w] = 0; if (finish(w, st) == 2) { if (!SC->native) S->stop = 1; Path u = units[unit[w]]; violation(w, u, false); if (!hasv && internal.empty()) units.push_back(u); } continue; }
			if (SLOTS[w].tick != lt[w]) { lt[w] = SLOTS[w].tick; lts[w] = now(); }
			else if (now() - lts[w] > SC->timeout_s) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; snprintf(SLOTS[w].kind, 32, "hang"); snprintf(SLOTS[w].msg, 4096, "one execution does not end within %d s", SC->timeout_s); Path u = units[unit[w]]; violation(w, u, false); if (!hasv && internal.empty()) units.push_back(u); }
		}
		if (!busy) { if (next < units.size()) S->overflow = 1; break; }
		usleep(300);
	}
	for (int w = 0; w < workers; w++) if (pid[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
	bool capped = S->overflow || S->toodeep;
	std::ostringstream o;
	o << "{\"scenario\":\"" << SC->name << "\",\"bound\":" << g_bound << ",\"bound_completed\":" << (capped || hasv ? -1 : g_bound) << ",\"capped\":" << (capped ? "true" : "false")
	  << ",\"executions\":" << S->execs << ",\"pruned\":0,\"states\":" << S->states << ",\"transitions\":" << S->steps << ",\"subtrees\":" << units.size() << ",\"max_steps\":" << S->maxpath
	  << ",\"wall_s\":" << now() - t0 << ",\"unrepeated\":" << unrepeated << ",\"internal\":\"" << js(internal) << "\",\"distinct_outcomes\":" << S->nout + (S->outother ? 1 : 0) << ",\"outcomes\":[";
	for (int i = 0; i < S->nout && i < 12; i++) o << (i ? "," : "") << "\"" << js(S->outs[i]) << "\"";
	o << "],\"known\":{"; for (size_t i = 0; i < KNOWN.size() && i < 16; i++) o << (i ? "," : "") << "\"" << js(KNOWN[i]) << "\":" << S->knownhits[i];
	o << "},\"violation\":";
	if (hasv) { o << "{\"kind\":\"" << vkind << "\",\"message\":\"" << js(vmsg) << "\",\"schedule\":\""; for (int i = 0; i < vpath.n; i++) o << (i ? " " : "") << vpath.v[i]; o << "\"}"; } else o << "null";
	o << "}\n"; fputs(o.str().c_str(), stdout);
	return hasv ? 1 : internal.empty() ? 0 : 3;
}
