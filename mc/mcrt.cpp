// Schedule explorer: a stateless model checker for the real, compiled code.
//
// The code under test is compiled with -fsanitize=thread, but the __tsan_* entry points and the pthread /
// clock / once / guard / futex functions resolve to this file.  In an explored execution exactly one thread
// runs at a time; every synchronisation operation and atomic access is a scheduling point at which the next
// thread is *chosen*.  All choices up to a deviation bound are enumerated, each execution in a forked child.
// Mutexes, condition variables, rwlocks, once flags, timers and the clock are fully virtual in the child.
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <typeinfo>
#include <vector>
#include <chrono>
#include <thread>
#include <random>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

namespace {
// ---------------------------------------------------------------- constants and shared structures
const int MAXT = 16, MAXALT = 24, MAXDEV = 64, MAXPTS = 6000, MAXB = 8;
const u64 INF = ~0ULL;

enum K : u8 { K_START, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CVENTER, K_CVWAIT, K_NOTIFY, K_JOIN, K_ATOMR, K_ATOMW, K_ONCE, K_GUARD,
	K_FUTEX, K_FNOTIFY, K_SLEEP, K_YIELD, K_RD, K_WR, K_RWUN, K_POINT, K_EXIT, K_REF, K_CHOOSE, K_LOG };
const char *kname[] = {"start","lock","trylock","unlock","cv_wait","cv_blocked","notify","join","atomic_read","atomic_write","once","static_guard",
	"futex_wait","futex_notify","sleep","yield","rdlock","wrlock","rwunlock","point","exit","ref","choose","log"};

struct PointRec { u64 hash; u16 nalts; u16 chosen; u8 cost[MAXALT]; };
struct Dev { u16 pos; u8 alt; u8 pad; };
struct Item { u16 n; u16 cost; u64 expect; Dev dev[MAXDEV]; };

enum Status { S_NONE, S_OK, S_PRUNED, S_VIOLATION, S_DIVERGED, S_INTERNAL };
struct Slot {
	volatile int status;
	char msg[8192];
	char kind[32];
	u32 npts, first_new;         // recorded multi-alternative points
	u64 steps, newstates;
	char outcome[256];
	PointRec pts[MAXPTS];
};
struct Shared {
	std::atomic<int> lock, stop, idle, hassviol, overflow_items, overflow_pts, overflow_dev, overflow_table;
	std::atomic<u64> execs, pruned, states, steps, diverged, confirmed, maxsteps, maxpts;
	std::atomic<u64> execs_at[MAXB + 1];
	std::atomic<int> inflight;
	int cnt[MAXB + 1];
	int bound_done;
	Item viol; char viol_msg[8192]; char viol_kind[32];
	int nout; char outs[64][256]; u64 outcnt[64]; u64 outother;
	char internal[1024]; u64 knownhits[16];
};
const size_t QCAP = 1u << 20;
size_t TABN = 1u << 24;

Shared *S; Item *Q[MAXB + 1]; std::atomic<u64> *TAB; Slot *SLOTS;

void lk() { int e; do { e = 0; if (S->lock.compare_exchange_strong(e, 1)) return; syscall(SYS_sched_yield); } while (1); }
void ulk() { S->lock.store(0); }

// ---------------------------------------------------------------- per-execution (child) state
struct VC { u32 c[MAXT]; VC() { memset(c, 0, sizeof c); }
	void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Obj {
	u64 id = 0, lastW = 0, reads = 0; VC vc;
	int owner = -1, rec = 0, nrd = 0, state = 0;
	std::vector<int> waiters;
};
struct Thread {
	int id = 0; volatile int go = 0;
	K kind = K_START; Obj *obj = nullptr; void *addr = nullptr; u64 deadline = INF; bool spur_ok = false; int target = -1; u32 fval = 0; bool signaled = false;
	u64 chain = 0; u64 ident = 0; u32 nops = 0; VC vc;
	bool finished = false, yielded = false; void *ret = nullptr;
	void *(*fn)(void *) = nullptr; void *arg = nullptr; pthread_t real{}; char *slo = nullptr, *shi = nullptr;
	int mode = 0; // 0 normal 1 timeout 2 spurious
	u64 consec = 0;
};
bool g_active = false;           // in a controlled execution
Thread T[MAXT]; int NT = 0;
std::map<void *, Obj *> *OBJ;
u64 trace_hash, g_clock, g_steps, g_nowcalls; int g_cur;
mc::Scenario *SC; Slot *SLOT; const Item *ITEM; u32 pt_idx; int dev_i; bool g_verbose; bool g_replay; u32 g_cost; int g_bound;
Obj *logobj; Obj *fenceobj;
std::string *tracetxt;
__thread int my = -1; __thread int in_rt = 0; __thread int quiet = 0;
pthread_key_t exit_key;
std::vector<mc::Scenario> *SCN;

struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };
inline bool on() { return g_active && !in_rt && my >= 0; }

u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x632BE59BD9B4E019ULL + (a << 6) + (a >> 2)); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return x; }

// ---------------------------------------------------------------- real functions
#define REAL(R, N, ...) typedef R (*N##_FT)(__VA_ARGS__); N##_FT r_##N() { static N##_FT p = nullptr; if (!p) p = (N##_FT)dlsym(RTLD_NEXT, #N); return p; }
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_once, pthread_once_t *, void (*)(void))
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, clock_gettime, clockid_t, struct timespec *)

void fwait(volatile int *p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
void fwake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] void end_exec(int st) {
	SLOT->steps = g_steps; SLOT->status = st;
	if (g_verbose && tracetxt) { ssize_t r = write(1, tracetxt->data(), tracetxt->size()); (void)r; }
	_exit(0);
}
[[noreturn]] void violate(const char *kind, const std::string& m) {
	in_rt++;
	snprintf(SLOT->kind, sizeof SLOT->kind, "%s", kind);
	snprintf(SLOT->msg, sizeof SLOT->msg, "%s", m.c_str());
	end_exec(S_VIOLATION);
}
[[noreturn]] void internal(const std::string& m) { in_rt++; snprintf(SLOT->msg, sizeof SLOT->msg, "%s", m.c_str()); end_exec(S_INTERNAL); }

Obj *obj(void *a) {
	auto it = OBJ->find(a);
	if (it != OBJ->end()) return it->second;
	Obj *o = new Obj; o->id = mix(T[my].ident, 7777 + T[my].nops++); OBJ->emplace(a, o); return o;
}
void event(K k, Obj *o, bool write, u64 extra) {
	Thread& t = T[my];
	u64 h = mix(mix(t.chain, k), extra);
	if (o) { h = mix(h, o->id); h = mix(h, o->lastW); if (write) h = mix(h, o->reads); }
	t.chain = h; t.nops++;
	trace_hash += mix(h, t.ident) | 1;
	if (o) { if (write) { o->lastW = h; o->reads = 0; } else o->reads += mix(h, 3); }
}

std::string tname(int i) { return "T" + std::to_string(i); }
std::string describe(Thread& t) {
	std::ostringstream o; o << tname(t.id) << ":";
	if (t.finished) { o << "finished"; return o.str(); }
	o << kname[t.kind];
	if (t.kind == K_LOCK && t.obj && t.obj->owner >= 0) o << "(held by T" << t.obj->owner << ")";
	if (t.kind == K_JOIN) o << "(T" << t.target << ")";
	if (t.deadline != INF) o << "[timed]";
	return o.str();
}

bool enabled(Thread& t) {
	if (t.finished) return false;
	switch (t.kind) {
	case K_LOCK: return t.obj->owner < 0 || (t.obj->owner == t.id && t.obj->rec > 0);
	case K_CVWAIT: return false;
	case K_FUTEX: return t.signaled || *(volatile u32 *)t.addr != t.fval;
	case K_JOIN: return T[t.target].finished;
	case K_ONCE: case K_GUARD: return t.obj->state != 1;
	case K_RD: return t.obj->owner < 0;
	case K_WR: return t.obj->owner < 0 && t.obj->nrd == 0;
	case K_SLEEP: return false;
	default: return true;
	}
}

// ---------------------------------------------------------------- choice points
struct Alt { int t; int mode; int cost; };
bool tab_visit(u64 key, u32 cost) { // true: first visit with this (or lower) cost
	u64 k = key & ~0xFFULL; if (!k) k = 0x100;
	size_t i = (size_t)(key >> 17) % TABN;
	for (size_t n = 0; n < 4096; n++, i = (i + 1) % TABN) {
		u64 v = TAB[i].load(std::memory_order_relaxed);
		while (true) {
			if (v == 0) {
				if (TAB[i].compare_exchange_strong(v, k | cost)) { SLOT->newstates++; return true; }
				continue;
			}
			if ((v & ~0xFFULL) != k) break;
			if ((v & 0xFF) <= cost) return false;
			if (TAB[i].compare_exchange_strong(v, k | cost)) return true;
		}
	}
	S->overflow_table.store(1);
	return true;
}

int pick_alt(int n, const u8 *costs, u64 statehash) {
	if (n <= 1) return 0;
	if (n > MAXALT) internal("too many alternatives at a point");
	if (pt_idx >= MAXPTS) { S->overflow_pts.store(1); internal("too many choice points in one execution"); }
	PointRec& p = SLOT->pts[pt_idx]; p.hash = statehash; p.nalts = n; memcpy(p.cost, costs, n); p.chosen = 0;
	if (dev_i < ITEM->n && ITEM->dev[dev_i].pos == pt_idx) {
		int a = ITEM->dev[dev_i].alt;
		if (a >= n) { snprintf(SLOT->msg, sizeof SLOT->msg, "alternative %d of %d at point %u", a, n, pt_idx); end_exec(S_DIVERGED); }
		if (dev_i == ITEM->n - 1 && ITEM->expect != statehash && !g_replay) { snprintf(SLOT->msg, sizeof SLOT->msg, "state hash differs at the last deviation (point %u)", pt_idx); end_exec(S_DIVERGED); }
		p.chosen = a; dev_i++; g_cost += costs[a];
	} else if (dev_i >= ITEM->n && !g_replay) {
		SLOT->npts = pt_idx; // without this one, in case it is pruned
		if (!tab_visit(statehash, g_cost)) end_exec(S_PRUNED);
	}
	pt_idx++; SLOT->npts = pt_idx;
	return p.chosen;
}

void note(const std::string& s) { if (tracetxt) { *tracetxt += s; *tracetxt += '\n'; } }

void resume(int n, int me) { // hand the token to thread n
	g_cur = n;
	if (n == me) return;
	T[n].consec = 0;
	fwake(&T[n].go);
}

// choose the next thread to run; called by the running thread whose pending operation is set
int choose_next(int me) {
	if (++g_steps > (u64)SC->horizon) {
		std::string d; for (int i = 0; i < NT; i++) d += describe(T[i]) + " ";
		violate("livelock", "no termination within the horizon of " + std::to_string(SC->horizon) + " steps; threads: " + d);
	}
	Alt a[MAXT * 3]; int n = 0;
	bool me_en = !T[me].finished && enabled(T[me]) && T[me].kind != K_YIELD;
	bool fair = me_en && ++T[me].consec > 400; // spinning thread: let the others run
	int others = 0;
	for (int i = 0; i < NT; i++) if (i != me && enabled(T[i])) others++;
	if (fair && others == 0) fair = false;
	if (me_en && !fair) a[n++] = {me, 0, 0};
	for (int d = 1; d < NT + 1; d++) {
		int i = (fair || T[me].kind == K_YIELD) ? (me + d) % NT : (d - 1);
		if (i == me) continue;
		if (enabled(T[i])) a[n++] = {i, 0, (me_en && !fair) ? 1 : 0};
	}
	bool yself = !T[me].finished && T[me].kind == K_YIELD;
	if (n == 0 && yself) a[n++] = {me, 0, 0};
	bool none = n == 0;
	// timers
	if (none || !SC->forced_timeouts_only) {
		int tm[MAXT], k = 0;
		for (int i = 0; i < NT; i++) if (!T[i].finished && T[i].deadline != INF && !enabled(T[i])) tm[k++] = i;
		std::stable_sort(tm, tm + k, [](int x, int y) { return T[x].deadline < T[y].deadline; });
		for (int j = 0; j < k && (!SC->edf || T[tm[j]].deadline == T[tm[0]].deadline); j++) a[n++] = {tm[j], 1, (none && j == 0) ? 0 : 1};
	}
	if (SC->spurious && !none)
		for (int i = 0; i < NT; i++) if (!T[i].finished && T[i].kind == K_CVWAIT && i != me) a[n++] = {i, 2, 1};
	if (n == 0) {
		bool all = true; std::string d;
		for (int i = 0; i < NT; i++) { if (!T[i].finished) all = false; d += describe(T[i]) + " "; }
		if (all) end_exec(S_OK);
		violate("deadlock", "no thread can make progress: " + d);
	}
	// (state for duplicate detection includes who is running, as it determines the cost of a switch)
	u8 costs[MAXALT]; if (n > MAXALT) n = MAXALT;
	for (int i = 0; i < n; i++) costs[i] = (SC->delay && i) ? 1 : a[i].cost;
	u64 sh = mix(mix(trace_hash, T[me].ident), (me_en ? 1 : 2) + (fair ? 4 : 0) + 8 * (u64)T[me].kind);
	int c = pick_alt(n, costs, sh);
	Thread& t = T[a[c].t]; t.mode = a[c].mode;
	if (a[c].mode == 1) { if (t.deadline > g_clock) g_clock = t.deadline; }
	if (tracetxt) {
		std::ostringstream o; o << "  " << (c ? "* " : "  ") << "T" << t.id << " " << kname[t.kind] << (t.mode == 1 ? " TIMEOUT" : t.mode == 2 ? " SPURIOUS" : "");
		if (n > 1) o << "   (" << n << " alternatives, point " << pt_idx - 1 << ", took " << c << ")";
		note(o.str());
	}
	return a[c].t;
}

// announce operation, be scheduled.  Returns mode (0 normal, 1 timeout, 2 spurious)
int sched(K k, Obj *o, u64 deadline = INF) {
	Thread& t = T[my];
	t.kind = k; t.obj = o; t.deadline = deadline; t.mode = 0;
	if (quiet && enabled(t)) return 0;
	t.go = 0;
	int n = choose_next(my);
	if (n != my) { resume(n, my); fwait(&t.go); }
	t.deadline = INF;
	return t.mode;
}
inline void acq(Obj *o) { T[my].vc.join(o->vc); }
inline void rel(Obj *o) { o->vc.join(T[my].vc); T[my].vc.c[my]++; }

int do_lock(void *m, bool recursive, u64 deadline = INF) {
	Obj *o = obj(m); T[my].addr = m;
	if (sched(K_LOCK, o, deadline) == 1) { event(K_LOCK, o, true, 99); return ETIMEDOUT; }
	if (o->owner == my) { o->rec++; return 0; }
	o->owner = my; if (recursive) o->rec = 1;
	event(K_LOCK, o, true, 0); acq(o); return 0;
}
int do_unlock(void *m) {
	Obj *o = obj(m);
	if (SC->unlock_points) sched(K_UNLOCK, o);
	if (o->owner != my) violate("misuse", "unlock of a mutex that is not held by the calling thread");
	if (o->rec > 1) { o->rec--; return 0; }
	o->rec = 0; o->owner = -1; event(K_UNLOCK, o, true, 0); rel(o); return 0;
}
bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int do_cvwait(void *c, void *m, u64 deadline) {
	Obj *co = obj(c), *mo = obj(m);
	sched(K_CVENTER, co);
	if (mo->owner != my) violate("misuse", "condition wait without holding the mutex");
	event(K_CVENTER, co, true, 0);
	int rec = mo->rec; mo->owner = -1; mo->rec = 0; event(K_UNLOCK, mo, true, 0); rel(mo);
	co->waiters.push_back(my); T[my].signaled = false;
	// blocked; a notifier turns this into a pending lock of the mutex
	Thread& t = T[my]; t.addr = m;
	int mode = sched(K_CVWAIT, co, deadline);
	bool sig = t.signaled; t.signaled = false;
	if (!sig) {
		auto it = std::find(co->waiters.begin(), co->waiters.end(), my); if (it != co->waiters.end()) co->waiters.erase(it);
		event(K_CVWAIT, co, true, mode);
		sched(K_LOCK, mo);
	}
	mo->owner = my; mo->rec = rec; event(K_LOCK, mo, true, 1); acq(mo);
	return (!sig && mode == 1) ? ETIMEDOUT : 0;
}
void wake_waiter(Obj *co, int w) {
	auto it = std::find(co->waiters.begin(), co->waiters.end(), w); if (it != co->waiters.end()) co->waiters.erase(it);
	Thread& t = T[w]; t.signaled = true; t.kind = K_LOCK; t.obj = obj(t.addr); t.deadline = INF;
}
int do_notify(void *c, bool all) {
	Obj *co = obj(c);
	sched(K_NOTIFY, co);
	u64 who = 0;
	if (all) { auto w = co->waiters; for (int x : w) wake_waiter(co, x); }
	else if (!co->waiters.empty()) {
		int n = co->waiters.size(), k = 0;
		if (n > 1) { u8 costs[MAXALT] = {0}; k = pick_alt(n, costs, mix(mix(trace_hash, T[my].ident), 4242)); }
		who = T[co->waiters[k]].ident; wake_waiter(co, co->waiters[k]);
	}
	event(K_NOTIFY, co, true, who + (all ? 1 : 0));
	return 0;
}

// ---------------------------------------------------------------- race detection
struct Acc { u32 ep; u8 tid, mask, wr; void *pc; };
struct Cell { u64 key; u8 n; Acc a[6]; };
Cell *SH; size_t SHN = 1u << 20; size_t shused;
std::vector<std::pair<u64, u64>> *dummy;
void sh_init() { SH = (Cell *)mmap(nullptr, SHN * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
Cell *cell(u64 g, bool create) {
	size_t i = (((g >> 5) * 0x9E3779B97F4A7C15ULL >> 20) << 5 | (g & 31)) % SHN;
	for (;;) { if (SH[i].key == g) return &SH[i]; if (!SH[i].key) { if (!create || shused > SHN / 2) return nullptr; shused++; SH[i].key = g; SH[i].n = 0; return &SH[i]; } i = (i + 1) % SHN; }
}
int alive; // number of unfinished threads
std::string pcname(void *pc) {
	Dl_info d; std::ostringstream o;
	if (dladdr(pc, &d) && d.dli_sname) { int st; char *s = abi::__cxa_demangle(d.dli_sname, 0, 0, &st); o << (s ? s : d.dli_sname); }
	o << " [+0x" << std::hex << ((u64)pc - (d.dli_fbase ? (u64)d.dli_fbase : 0)) << "]"; return o.str();
}
void access(void *addr, int size, bool wr, void *pc) {
	Thread& t = T[my];
	if (NT < 2 || (alive < 2 && my == 0 && NT < 2)) return;
	if ((char *)addr >= t.slo && (char *)addr < t.shi) return;
	u64 a = (u64)addr;
	while (size > 0) {
		u64 g = a >> 3; int off = a & 7, len = std::min(size, 8 - off); u8 mask = ((1 << len) - 1) << off;
		Cell *c = cell(g, true); if (!c) return;
		int same = -1;
		for (int i = 0; i < c->n; i++) {
			Acc& x = c->a[i];
			if (x.tid == my) { if (x.mask == mask && x.wr == wr) same = i; continue; }
			if ((x.mask & mask) && (x.wr || wr) && t.vc.c[x.tid] < x.ep) {
				in_rt++;
				violate("data-race", std::string("data race: ") + (wr ? "write" : "read") + " by T" + std::to_string(my) + " in " + pcname(pc) + " and " + (x.wr ? "write" : "read") + " by T" + std::to_string(x.tid) + " in " + pcname(x.pc));
			}
		}
		Acc na{t.vc.c[my], (u8)my, mask, wr, pc};
		if (same >= 0) c->a[same] = na;
		else {
			// a write ordered after everything supersedes covered records
			int k = 0;
			if (wr) { for (int i = 0; i < c->n; i++) { Acc& x = c->a[i]; bool hb = x.tid == my || t.vc.c[x.tid] >= x.ep; if (!(hb && (x.mask & ~mask) == 0)) c->a[k++] = x; } c->n = k; }
			if (c->n == 6) { memmove(&c->a[0], &c->a[1], sizeof(Acc) * 5); c->n = 5; }
			c->a[c->n++] = na;
		}
		a += len; size -= len;
	}
}
void clear_range(void *p, size_t n) {
	if (!SH || NT < 2) return;
	if (shused) {
	u64 g0 = (u64)p >> 3, g1 = ((u64)p + n + 7) >> 3;
	if (g1 - g0 > 4096 && shused < g1 - g0) { for (size_t i = 0; i < SHN; i++) if (SH[i].key >= g0 && SH[i].key < g1) SH[i].n = 0; }
	else for (u64 g = g0; g < g1; g++) { Cell *c = cell(g, false); if (c) c->n = 0; }
	}
	auto it = OBJ->lower_bound(p);
	while (it != OBJ->end() && (char *)it->first < (char *)p + n) { // synchronisation objects in freed memory
		Obj *o = it->second;
		if (!o->waiters.empty()) violate("misuse", "condition variable destroyed while a thread is waiting on it");
		if (o->owner >= 0 && o->nrd == 0 && o->state == 0) violate("misuse", "mutex destroyed while locked");
		it = OBJ->erase(it);
	}
}

// ---------------------------------------------------------------- refcount functions (atomics that are not scheduling points)
std::vector<std::pair<u64, u64>> *REFR;
extern "C" char __executable_start;
void load_syms() {
	REFR = new std::vector<std::pair<u64, u64>>;
	int fd = open("/proc/self/exe", O_RDONLY); struct stat st; fstat(fd, &st);
	char *b = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
	Elf64_Ehdr *eh = (Elf64_Ehdr *)b; Elf64_Shdr *sh = (Elf64_Shdr *)(b + eh->e_shoff);
	u64 base = eh->e_type == ET_DYN ? (u64)&__executable_start : 0;
	for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
		Elf64_Sym *s = (Elf64_Sym *)(b + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *s; char *str = b + sh[sh[i].sh_link].sh_offset;
		for (size_t k = 0; k < n; k++) if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC) {
			const char *nm = str + s[k].st_name;
			if (strstr(nm, "_Sp_counted_base") || strstr(nm, "__exchange_and_add") || strstr(nm, "12__atomic_add") || strstr(nm, "__atomic_add_dispatch") || strstr(nm, "sp_counted_base"))
				REFR->push_back({base + s[k].st_value, base + s[k].st_value + s[k].st_size});
		}
	}
	std::sort(REFR->begin(), REFR->end());
	munmap(b, st.st_size);
}
bool is_ref(void *pc) {
	u64 p = (u64)pc; auto it = std::upper_bound(REFR->begin(), REFR->end(), std::pair<u64, u64>(p, ~0UL));
	if (it == REFR->begin()) return false; --it; return p <= it->second;
}

// ---------------------------------------------------------------- threads
void finish_thread() {
	RT g; Thread& t = T[my];
	t.finished = true; t.kind = K_EXIT; alive--;
	event(K_EXIT, nullptr, true, 0); t.vc.c[my]++;
	int n = choose_next(my); int me = my; my = -1;
	T[n].consec = 0; g_cur = n; fwake(&T[n].go); (void)me;
}
void key_dtor(void *v) {
	long c = (long)v;
	if (c < 3) { pthread_setspecific(exit_key, (void *)(c + 1)); return; } // run after the other destructors
	finish_thread();
}
void *tramp(void *p) {
	Thread *t = (Thread *)p;
	in_rt++;
	pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void *lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
	t->slo = (char *)lo; t->shi = (char *)lo + sz;
	fwait(&t->go);
	my = t->id; pthread_setspecific(exit_key, (void *)1);
	event(K_START, nullptr, false, 0);
	in_rt--;
	t->ret = t->fn(t->arg);
	return t->ret;
}

u64 ts2ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ULL + t->tv_nsec; }
const u64 EPOCH0 = 1700000000ULL * 1000000000ULL;
u64 vnow() { if (++g_nowcalls > 2000) g_clock += 1000; return EPOCH0 + g_clock; }
u64 dl(const struct timespec *t) { u64 x = ts2ns(t); return x <= EPOCH0 ? 0 : x - EPOCH0; }

const char *sigmsg(int s) { switch (s) { case SIGSEGV: return "segmentation fault"; case SIGABRT: return "abort"; case SIGFPE: return "floating point exception"; case SIGBUS: return "bus error"; case SIGILL: return "illegal instruction"; } return "signal"; }
void on_sig(int s) {
	in_rt++;
	snprintf(SLOT->kind, sizeof SLOT->kind, "crash");
	size_t l = strnlen(SLOT->msg, sizeof SLOT->msg - 1);
	snprintf(SLOT->msg + l, sizeof SLOT->msg - l, "%s in T%d", sigmsg(s), my);
	SLOT->steps = g_steps; SLOT->status = S_VIOLATION; _exit(0);
}
void on_term() {
	in_rt++;
	std::string m = "std::terminate called";
	if (std::type_info *ti = abi::__cxa_current_exception_type()) {
		int st; char *n = abi::__cxa_demangle(ti->name(), 0, 0, &st); m = std::string("exception ") + (n ? n : ti->name()) + " not caught";
		try { throw; } catch (std::exception& e) { m += std::string(": ") + e.what(); } catch (...) {}
	}
	violate("crash", m + " in T" + std::to_string(my));
}
} // namespace

// ================================================================ interposed functions
#define RA __builtin_return_address(0)
extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
	if (!on()) return r_pthread_create()(th, attr, fn, arg);
	RT g;
	sched(K_POINT, nullptr);
	if (NT >= MAXT) internal("too many threads");
	Thread& t = T[NT]; t = Thread(); t.id = NT; t.fn = fn; t.arg = arg; t.kind = K_START;
	event(K_START, nullptr, true, NT);
	t.ident = mix(T[my].chain, 1234567); t.chain = t.ident; t.vc = T[my].vc; t.vc.c[t.id] = 1; T[my].vc.c[my]++;
	NT++; alive++;
	int r = r_pthread_create()(&t.real, nullptr, tramp, &t);
	if (r) internal("pthread_create failed");
	*th = t.real;
	return 0;
}
static int find_t(pthread_t p) { for (int i = 0; i < NT; i++) if (i && pthread_equal(T[i].real, p)) return i; return -1; }
int pthread_join(pthread_t p, void **ret) {
	if (!on()) return r_pthread_join()(p, ret);
	RT g; int k = find_t(p); if (k < 0) return ESRCH;
	T[my].target = k; sched(K_JOIN, nullptr);
	event(K_JOIN, nullptr, false, T[k].chain); T[my].vc.join(T[k].vc);
	if (ret) *ret = T[k].ret;
	return 0;
}
int pthread_detach(pthread_t p) { if (!on()) return r_pthread_detach()(p); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) { if (g_active) return 0; return r_pthread_mutex_lock()(m); } RT g; return do_lock(m, is_rec(m)); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!on()) { if (g_active) return 0; return r_pthread_mutex_trylock()(m); }
	RT g; Obj *o = obj(m); sched(K_TRYLOCK, o);
	bool r = is_rec(m);
	if (o->owner < 0 || (o->owner == my && r)) { if (o->owner == my) o->rec++; else { o->owner = my; if (r) o->rec = 1; } event(K_LOCK, o, true, 2); acq(o); return 0; }
	event(K_LOCK, o, true, 3); return EBUSY;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) { if (!on()) return 0; RT g; return do_lock(m, is_rec(m), dl(ts)); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!on()) return 0; RT g; return do_lock(m, is_rec(m), dl(ts)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!on()) { if (g_active) return 0; return r_pthread_mutex_unlock()(m); } RT g; return do_unlock(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (on()) { RT g; auto it = OBJ->find(m); if (it != OBJ->end()) { if (it->second->owner >= 0) violate("misuse", "mutex destroyed while locked"); OBJ->erase(it); } } return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return r_pthread_cond_wait()(c, m); RT g; return do_cvwait(c, m, INF); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!on()) return ETIMEDOUT; RT g; return do_cvwait(c, m, dl(ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { if (!on()) return ETIMEDOUT; RT g; return do_cvwait(c, m, dl(ts)); }
int pthread_cond_signal(pthread_cond_t *c) { if (!on()) { if (g_active) return 0; return r_pthread_cond_signal()(c); } RT g; return do_notify(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on()) { if (g_active) return 0; return r_pthread_cond_broadcast()(c); } RT g; return do_notify(c, true); }
int pthread_cond_destroy(pthread_cond_t *c) { if (on()) { RT g; auto it = OBJ->find(c); if (it != OBJ->end()) { if (!it->second->waiters.empty()) violate("misuse", "condition variable destroyed while a thread is waiting on it"); OBJ->erase(it); } } return 0; }
static int rd(pthread_rwlock_t *l, u64 d) { RT g; Obj *o = obj(l); if (sched(K_RD, o, d) == 1) { event(K_RD, o, true, 9); return ETIMEDOUT; } o->nrd++; event(K_RD, o, true, 0); acq(o); return 0; }
static int wr(pthread_rwlock_t *l, u64 d) { RT g; Obj *o = obj(l); if (sched(K_WR, o, d) == 1) { event(K_WR, o, true, 9); return ETIMEDOUT; } o->owner = my; event(K_WR, o, true, 0); acq(o); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!on()) { if (g_active) return 0; return r_pthread_rwlock_rdlock()(l); } return rd(l, INF); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!on()) { if (g_active) return 0; return r_pthread_rwlock_wrlock()(l); } return wr(l, INF); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) { return rd(l, dl(ts)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) { return wr(l, dl(ts)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t, const struct timespec *ts) { return rd(l, dl(ts)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t, const struct timespec *ts) { return wr(l, dl(ts)); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { RT g; Obj *o = obj(l); sched(K_TRYLOCK, o); if (o->owner >= 0) { event(K_RD, o, true, 3); return EBUSY; } o->nrd++; event(K_RD, o, true, 2); acq(o); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { RT g; Obj *o = obj(l); sched(K_TRYLOCK, o); if (o->owner >= 0 || o->nrd) { event(K_WR, o, true, 3); return EBUSY; } o->owner = my; event(K_WR, o, true, 2); acq(o); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
	if (!on()) { if (g_active) return 0; return r_pthread_rwlock_unlock()(l); }
	RT g; Obj *o = obj(l); if (SC->unlock_points) sched(K_UNLOCK, o);
	if (o->owner == my) o->owner = -1; else if (o->nrd > 0) o->nrd--; else violate("misuse", "unlock of an unlocked rwlock");
	event(K_RWUN, o, true, 0); rel(o); return 0;
}
int pthread_once(pthread_once_t *c, void (*fn)(void)) {
	if (!on()) { if (g_active) { if (*(int*)c == 0) { *(int*)c = 2; fn(); } return 0; } return r_pthread_once()(c, fn); }
	Obj *o; { RT g; o = obj(c); if (o->state == 0 && *(int *)c == 2) o->state = 2; sched(K_ONCE, o); event(K_ONCE, o, true, o->state); acq(o); if (o->state == 2) return 0; o->state = 1; }
	try { fn(); } catch (...) { RT g; o->state = 0; event(K_ONCE, o, true, 7); rel(o); throw; }
	{ RT g; o->state = 2; *(int *)c = 2; event(K_ONCE, o, true, 8); rel(o); }
	return 0;
}
int sched_yield(void) { if (!on()) { if (!g_active) syscall(SYS_sched_yield); return 0; } RT g; sched(K_YIELD, nullptr); event(K_YIELD, nullptr, true, 0); return 0; }
static void do_sleep(u64 ns) { RT g; sched(K_SLEEP, nullptr, g_clock + ns); event(K_SLEEP, nullptr, true, ns); }
int nanosleep(const struct timespec *r, struct timespec *) { if (!on()) { syscall(SYS_nanosleep, r, nullptr); return 0; } do_sleep(ts2ns(r)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *) {
	if (!on()) { syscall(SYS_clock_nanosleep, c, fl, r, nullptr); return 0; }
	if (fl & TIMER_ABSTIME) { u64 d = dl(r); do_sleep(d > g_clock ? d - g_clock : 0); } else do_sleep(ts2ns(r)); return 0; }
int usleep(useconds_t u) { if (!on()) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); return 0; } do_sleep((u64)u * 1000); return 0; }
unsigned sleep(unsigned s) { if (!on()) { struct timespec t{(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } do_sleep((u64)s * 1000000000ULL); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) __THROW {
	if (!g_active) return syscall(SYS_clock_gettime, c, t);
	u64 n = vnow(); t->tv_sec = n / 1000000000ULL; t->tv_nsec = n % 1000000000ULL; return 0; }
int get_nprocs(void) __THROW { return SC ? SC->hw : 2; }
int __cxa_guard_acquire(u64 *gd) {
	if (*(volatile u8 *)gd) { if (on()) { RT g; acq(obj(gd)); } return 0; }
	if (!on()) return 1;
	RT g; Obj *o = obj(gd); sched(K_GUARD, o); event(K_GUARD, o, true, o->state); acq(o);
	if (o->state == 2 || *(volatile u8 *)gd) return 0;
	o->state = 1; return 1;
}
void __cxa_guard_release(u64 *gd) { *(volatile u8 *)gd = 1; if (!on()) return; RT g; Obj *o = obj(gd); o->state = 2; event(K_GUARD, o, true, 8); rel(o); }
void __cxa_guard_abort(u64 *gd) { if (!on()) return; RT g; Obj *o = obj(gd); o->state = 0; event(K_GUARD, o, true, 9); rel(o); }

// exception objects are reference counted inside libstdc++, where we cannot see the atomics: order all releases among each other
static Obj *excobj;
static void exc_sync() { if (!on()) return; RT g; if (!excobj) { excobj = new Obj; excobj->id = 12; } acq(excobj); rel(excobj); }
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *p) { static void (*r)(void *); if (!r) r = (void (*)(void *))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); exc_sync(); r(p); }
void __cxa_end_catch() { static void (*r)(); if (!r) r = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch"); exc_sync(); r(); }

// ---------------------------------------------------------------- __tsan_* interface
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define MEMF(SZ) \
	void __tsan_read##SZ(void *a) { if (on() && SC->races) { RT g; access(a, SZ, false, RA); } } \
	void __tsan_write##SZ(void *a) { if (on() && SC->races) { RT g; access(a, SZ, true, RA); } } \
	void __tsan_unaligned_read##SZ(void *a) { if (on() && SC->races) { RT g; access(a, SZ, false, RA); } } \
	void __tsan_unaligned_write##SZ(void *a) { if (on() && SC->races) { RT g; access(a, SZ, true, RA); } } \
	void __tsan_volatile_read##SZ(void *a) { if (on() && SC->races) { RT g; access(a, SZ, false, RA); } } \
	void __tsan_volatile_write##SZ(void *a) { if (on() && SC->races) { RT g; access(a, SZ, true, RA); } }
MEMF(1) MEMF(2) MEMF(4) MEMF(8) MEMF(16)
void __tsan_vptr_update(void **a, void *v) { if (on() && SC->races && *a != v) { RT g; access(a, 8, true, RA); } }
void __tsan_vptr_read(void **a) { if (on() && SC->races) { RT g; access(a, 8, false, RA); } }
void __tsan_read_range(void *a, unsigned long n) { if (on() && SC->races) { RT g; access(a, (int)std::min<unsigned long>(n, 65536), false, RA); } }
void __tsan_write_range(void *a, unsigned long n) { if (on() && SC->races) { RT g; access(a, (int)std::min<unsigned long>(n, 65536), true, RA); } }
}
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
namespace {
inline bool racq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool rrel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
template <class V> V at_load(V *a, int mo, void *pc) {
	if (!on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
	RT g;
	if (is_ref(pc)) { Obj *o = obj((void *)((u64)a & ~7ULL)); V v = *a; if (racq(mo)) acq(o); event(K_REF, nullptr, false, sizeof(V) == 8 ? (v == (V)0x100000001ULL) : 0); return v; }
	Obj *o = obj(a); sched(K_ATOMR, o); V v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (racq(mo)) acq(o); event(K_ATOMR, o, false, 0); return v;
}
template <class V> void at_store(V *a, V v, int mo, void *pc) {
	if (!on()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
	RT g; Obj *o = obj(a); if (!is_ref(pc)) sched(K_ATOMW, o);
	__atomic_store_n(a, v, __ATOMIC_SEQ_CST); event(K_ATOMW, o, true, 0);
	if (rrel(mo)) { o->vc = VC(); rel(o); } else o->vc = VC();
}
template <class V, class F> V at_rmw(V *a, int mo, void *pc, F f) {
	if (!on()) { V o = __atomic_load_n(a, __ATOMIC_SEQ_CST); while (!__atomic_compare_exchange_n(a, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} return o; }
	RT g;
	if (is_ref(pc)) {
		Obj *o = obj((void *)((u64)a & ~7ULL)); V old = *a; *a = f(old);
		if (racq(mo)) acq(o); if (rrel(mo)) rel(o);
		if (*a == 0 || old == 0) event(K_REF, nullptr, false, 5 + (u64)(*a == 0));
		return old;
	}
	Obj *o = obj(a); sched(K_ATOMW, o); V old = *a; *a = f(old); event(K_ATOMW, o, true, 1);
	if (racq(mo)) acq(o); if (rrel(mo)) rel(o);
	return old;
}
template <class V> int at_cas(V *a, V *e, V d, int mo, int fmo, void *pc) {
	if (!on()) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
	RT g; bool ref = is_ref(pc); Obj *o = obj(a); if (!ref) sched(K_ATOMW, o);
	if (*a == *e) { *a = d; event(K_ATOMW, o, true, 2); if (racq(mo)) acq(o); if (rrel(mo)) rel(o); return 1; }
	*e = *a; event(K_ATOMW, o, true, 3); if (racq(fmo)) acq(o); return 0;
}
}
extern "C" {
#define ATOMF(B, V) \
	V __tsan_atomic##B##_load(const volatile V *a, int mo) { return at_load<V>((V *)a, mo, RA); } \
	void __tsan_atomic##B##_store(volatile V *a, V v, int mo) { at_store<V>((V *)a, v, mo, RA); } \
	V __tsan_atomic##B##_exchange(volatile V *a, V v, int mo) { return at_rmw<V>((V *)a, mo, RA, [v](V) { return v; }); } \
	V __tsan_atomic##B##_fetch_add(volatile V *a, V v, int mo) { return at_rmw<V>((V *)a, mo, RA, [v](V o) { return (V)(o + v); }); } \
	V __tsan_atomic##B##_fetch_sub(volatile V *a, V v, int mo) { return at_rmw<V>((V *)a, mo, RA, [v](V o) { return (V)(o - v); }); } \
	V __tsan_atomic##B##_fetch_and(volatile V *a, V v, int mo) { return at_rmw<V>((V *)a, mo, RA, [v](V o) { return (V)(o & v); }); } \
	V __tsan_atomic##B##_fetch_or(volatile V *a, V v, int mo) { return at_rmw<V>((V *)a, mo, RA, [v](V o) { return (V)(o | v); }); } \
	V __tsan_atomic##B##_fetch_xor(volatile V *a, V v, int mo) { return at_rmw<V>((V *)a, mo, RA, [v](V o) { return (V)(o ^ v); }); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile V *a, V *e, V d, int mo, int f) { return at_cas<V>((V *)a, e, d, mo, f, RA); } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile V *a, V *e, V d, int mo, int f) { return at_cas<V>((V *)a, e, d, mo, f, RA); } \
	V __tsan_atomic##B##_compare_exchange_val(volatile V *a, V e, V d, int mo, int f) { at_cas<V>((V *)a, &e, d, mo, f, RA); return e; }
ATOMF(8, u8) ATOMF(16, u16) ATOMF(32, u32) ATOMF(64, u64)
void __tsan_atomic_thread_fence(int) { if (!on()) return; RT g; if (!fenceobj) { fenceobj = new Obj; fenceobj->id = 11; } event(K_ATOMW, fenceobj, true, 0); acq(fenceobj); rel(fenceobj); }
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (on() && SC->races) { RT g; access((void *)s, n, false, RA); access(d, n, true, RA); } return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (on() && SC->races) { RT g; access(d, n, true, RA); } return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (on() && SC->races) { RT g; access((void *)s, n, false, RA); access(d, n, true, RA); } return memmove(d, s, n); }
}
// libstdc++ futex based waits (std::future), clocks, entropy
namespace std {
static bool fut(unsigned *addr, unsigned val, bool has, u64 d) {
	RT g; Obj *o = obj((char *)addr + 1); Thread& t = T[my]; // (object distinct from the atomic itself)
	for (;;) {
		if (*(volatile unsigned *)addr != val) { return true; }
		t.addr = addr; t.fval = val; t.signaled = false; o->waiters.push_back(my);
		int m = sched(K_FUTEX, o, has ? d : INF);
		auto it = std::find(o->waiters.begin(), o->waiters.end(), my); if (it != o->waiters.end()) o->waiters.erase(it);
		event(K_FUTEX, o, true, m); acq(o);
		if (m == 1) return false;
		return true;
	}
}
static u64 dls(long long s, long long ns) { u64 x = (u64)s * 1000000000ULL + ns; return x <= EPOCH0 ? 0 : x - EPOCH0; }
struct __attribute__((visibility("default"))) __atomic_futex_unsigned_base_x {};
}
extern "C" {
bool mc_fut1(void *, unsigned *a, unsigned v, bool h, std::chrono::seconds s, std::chrono::nanoseconds ns) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool mc_fut1(void *, unsigned *a, unsigned v, bool h, std::chrono::seconds s, std::chrono::nanoseconds ns) { if (!on()) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; } return std::fut(a, v, h, std::dls(s.count(), ns.count())); }
bool mc_fut2(void *, unsigned *a, unsigned v, bool h, std::chrono::seconds s, std::chrono::nanoseconds ns) __asm__("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool mc_fut2(void *, unsigned *a, unsigned v, bool h, std::chrono::seconds s, std::chrono::nanoseconds ns) { if (!on()) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; } return std::fut(a, v, h, std::dls(s.count(), ns.count())); }
void mc_fut3(unsigned *a) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void mc_fut3(unsigned *a) { if (!on()) { syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0); return; }
	RT g; Obj *o = obj((char *)a + 1); for (int w : o->waiters) T[w].signaled = true; event(K_FNOTIFY, o, true, 0); rel(o); }
unsigned mc_rd(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned mc_rd(void *) { static unsigned x = 12345; return x = x * 1664525u + 1013904223u; }
double mc_ent(void *) __asm__("_ZNKSt13random_device13_M_getentropyEv");
double mc_ent(void *) { return 32.0; }
unsigned mc_hw() __asm__("_ZNSt6thread20hardware_concurrencyEv");
unsigned mc_hw() { return SC ? SC->hw : 2; }
long long mc_steady() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
long long mc_steady() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return ts2ns(&t); }
long long mc_system() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
long long mc_system() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return ts2ns(&t); }
}
// heap: only needed to forget shadow state of recycled memory
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (on()) { RT g; clear_range(p, malloc_usable_size(p)); } return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p && on()) { RT g; clear_range(p, malloc_usable_size(p)); } free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ================================================================ harness interface
namespace mc {
int reg(const Scenario& s) { if (!SCN) SCN = new std::vector<Scenario>; SCN->push_back(s); return 0; }
void violation(const std::string& m) { violate("property", m); }
void check(bool ok, const std::string& m) { if (!ok) violation(m); }
int choose(int n, int cost, const char *what) {
	if (!on()) return 0;
	RT g; u8 c[MAXALT]; for (int i = 0; i < n && i < MAXALT; i++) c[i] = i ? cost : 0;
	int k = pick_alt(n, c, mix(mix(trace_hash, T[my].ident), 5151));
	event(K_CHOOSE, nullptr, true, k); note(std::string("    T") + std::to_string(my) + " env " + what + " -> " + std::to_string(k)); return k;
}
void point() { if (!on()) return; RT g; sched(K_POINT, logobj); event(K_POINT, logobj, true, 0); }
void log(const std::string& s) { if (!on()) return; RT g; u64 h = 0; for (char c : s) h = mix(h, c); event(K_LOG, logobj, true, h); note("    T" + std::to_string(my) + " log: " + s); }
void outcome(const std::string& s) { RT g; snprintf(SLOT->outcome, sizeof SLOT->outcome, "%s", s.c_str()); }
int tid() { return my; }
bool verbose() { return g_verbose; }
uint64_t now_ns() { return g_clock; }
Quiet::Quiet() { quiet++; }
Quiet::~Quiet() { quiet--; }
}

// ================================================================ explorer
namespace {
void *main_lo; size_t main_sz;
void child(const Item *it, Slot *slot, bool verbose_, bool replay) {
	in_rt++;
	SLOT = slot; ITEM = it; pt_idx = 0; dev_i = 0; g_verbose = verbose_; g_replay = replay; g_cost = 0;
	slot->npts = 0; slot->msg[0] = 0; slot->kind[0] = 0; slot->outcome[0] = 0; slot->newstates = 0; slot->steps = 0;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (!verbose_) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); close(n); }
	else tracetxt = new std::string;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig;
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
	std::set_terminate(on_term);
	OBJ = new std::map<void *, Obj *>;
	logobj = new Obj; logobj->id = 99;
	pthread_key_create(&exit_key, key_dtor); mallopt(M_ARENA_MAX, 1);
	void *lo = main_lo; size_t sz = main_sz;
	Thread& t = T[0]; t = Thread(); t.id = 0; t.ident = 1; t.chain = 1; t.vc.c[0] = 1; t.slo = (char *)lo; t.shi = (char *)lo + sz; t.real = pthread_self();
	NT = 1; alive = 1; my = 0; g_cur = 0; trace_hash = 0; g_clock = 0; g_steps = 0; g_nowcalls = 0;
	sh_init();
	g_active = true;
	in_rt--;
	try { SC->fn(); }
	catch (std::exception& e) { violate("property", std::string("exception escaped: ") + e.what()); }
	catch (...) { violate("property", "unknown exception escaped"); }
	in_rt++;
	end_exec(S_OK);
}

// run one item; returns status
int run_one(const Item *it, Slot *slot, bool verbose_, bool replay, int limit_s) {
	slot->status = S_NONE;
	pid_t p = fork();
	if (p == 0) child(it, slot, verbose_, replay);
	if (p < 0) { snprintf(slot->msg, sizeof slot->msg, "fork failed"); return S_INTERNAL; }
	int st; struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
	int spins = 0;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		if (++spins < 200) { struct timespec d{0, 20000}; syscall(SYS_nanosleep, &d, nullptr); }
		else {
			struct timespec d{0, 1000000}; syscall(SYS_nanosleep, &d, nullptr);
			syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
			if (t1.tv_sec - t0.tv_sec > limit_s) { kill(p, SIGKILL); waitpid(p, &st, 0); return -2; }
		}
	}
	if (slot->status == S_NONE) { snprintf(slot->msg, sizeof slot->msg, "child ended without a verdict (wait status %d)", st); snprintf(slot->kind, sizeof slot->kind, "crash"); return S_VIOLATION; }
	return slot->status;
}
int run_item(const Item *it, Slot *slot, bool verbose_, bool replay) {
	int r = run_one(it, slot, verbose_, replay, 20);
	if (r == -2) { r = run_one(it, slot, verbose_, true, 120); if (r == -2) { snprintf(slot->kind, sizeof slot->kind, "hang"); snprintf(slot->msg, sizeof slot->msg, "execution does not end (no synchronisation operation within 120 s)"); slot->npts = 0; return S_VIOLATION; } }
	return r;
}

std::vector<std::string> KNOWN;
void push(const Item& it) {
	if (it.cost > g_bound) return;
	lk();
	if (S->cnt[it.cost] >= (int)QCAP) S->overflow_items.store(1); else Q[it.cost][S->cnt[it.cost]++] = it;
	ulk();
}
void worker(int w, double t_end) {
	Slot *slot = &SLOTS[w];
	Item it;
	for (;;) {
		if (S->stop.load()) return;
		struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
		if (t.tv_sec + t.tv_nsec * 1e-9 > t_end) { S->stop.store(2); return; }
		bool got = false;
		lk();
		for (int c = 0; c <= g_bound && !got; c++) if (S->cnt[c] > 0) { it = Q[c][--S->cnt[c]]; got = true; S->inflight++; }
		bool idle = !got && S->inflight.load() == 0;
		ulk();
		if (idle) return;
		if (!got) { struct timespec d{0, 200000}; syscall(SYS_nanosleep, &d, nullptr); continue; }
		int r = run_item(&it, slot, false, false);
		S->execs++; S->steps += slot->steps; S->states += slot->newstates; S->execs_at[it.cost]++;
		if (slot->steps > S->maxsteps.load()) S->maxsteps = slot->steps;
		if (slot->npts > S->maxpts.load()) S->maxpts = slot->npts;
		if (r == S_PRUNED) S->pruned++;
		if (r == S_DIVERGED) { S->diverged++; lk(); if (!S->internal[0]) snprintf(S->internal, sizeof S->internal, "diverged: %.900s", slot->msg); ulk(); }
		if (r == S_INTERNAL) { lk(); snprintf(S->internal, sizeof S->internal, "internal: %.900s", slot->msg); ulk(); S->stop.store(3); }
		if (r == S_OK) {
			lk(); int i; for (i = 0; i < S->nout; i++) if (!strcmp(S->outs[i], slot->outcome)) break;
			if (i == S->nout) { if (S->nout < 64) { strcpy(S->outs[S->nout], slot->outcome); S->outcnt[S->nout++] = 0; } else i = -1; }
			if (i >= 0) S->outcnt[i]++; else S->outother++;
			ulk();
		}
		if (r == S_VIOLATION) {
			std::string k = slot->kind, m = slot->msg; int ok = 1;
			if (k != "hang") for (int n = 0; n < 2; n++) { int r2 = run_item(&it, slot, false, true); if (r2 != S_VIOLATION || k != slot->kind) ok = 0; }
			int kh = -1; for (size_t i = 0; i < KNOWN.size() && i < 16; i++) if (m.find(KNOWN[i]) != std::string::npos) kh = i;
			if (ok && kh >= 0) { lk(); S->knownhits[kh]++; ulk(); r = S_OK; }
			else if (ok) {
				lk();
				if (!S->hassviol.load() || it.cost < S->viol.cost || (it.cost == S->viol.cost && it.n < S->viol.n)) { S->viol = it; snprintf(S->viol_msg, sizeof S->viol_msg, "%s", m.c_str()); snprintf(S->viol_kind, sizeof S->viol_kind, "%s", k.c_str()); }
				S->hassviol.store(1); ulk(); S->stop.store(1);
			} else { lk(); snprintf(S->internal, sizeof S->internal, "unreproducible %s: %.800s", k.c_str(), m.c_str()); ulk(); S->diverged++; }
		}
		if (r == S_OK || r == S_PRUNED) {
			int last = it.n ? it.dev[it.n - 1].pos : -1;
			for (u32 i = last + 1; i < slot->npts; i++) {
				PointRec& p = slot->pts[i];
				for (int a = 1; a < p.nalts; a++) {
					if (it.n >= MAXDEV) { S->overflow_dev.store(1); continue; }
					Item nw = it; nw.dev[nw.n++] = Dev{(u16)i, (u8)a, 0}; nw.cost = it.cost + p.cost[a]; nw.expect = p.hash; push(nw);
				}
			}
		}
		S->inflight--;
	}
}
std::string js(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
template <class X> X *shm(size_t n) { void *p = mmap(nullptr, n * sizeof(X), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (X *)p; }
}

int main(int argc, char **argv) {
	std::string scn, out, replay, knownf; int bound = -1, workers = 8; double budget = 60; bool thorough = false, list = false, verb = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--scenario") scn = nx(); else if (a == "--bound") bound = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
		else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") knownf = nx();
		else if (a == "--thorough") thorough = true; else if (a == "--list") list = true; else if (a == "-v") verb = true;
	}
	if (!knownf.empty()) { FILE *f = fopen(knownf.c_str(), "r"); char b[512]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) KNOWN.push_back(b); } if (f) fclose(f); }
	if (list) { for (auto& s : *SCN) printf("%s %d %d\n", s.name, s.bound_quick, s.bound_thorough); return 0; }
	std::sort(SCN->begin(), SCN->end(), [](const mc::Scenario& a, const mc::Scenario& b) { return strcmp(a.name, b.name) < 0; });
	for (auto& s : *SCN) if (scn == s.name) SC = &s;
	if (!SC) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 3; }
	load_syms();
	{ pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &main_lo, &main_sz); pthread_attr_destroy(&at); r_pthread_create(); }
	S = shm<Shared>(1); new (S) Shared; TAB = shm<std::atomic<u64>>(TABN); SLOTS = shm<Slot>(workers + 1);
	for (int i = 0; i <= MAXB; i++) Q[i] = shm<Item>(QCAP);
	g_bound = bound >= 0 ? bound : thorough ? SC->bound_thorough : SC->bound_quick; if (g_bound > MAXB) g_bound = MAXB;
	if (!replay.empty()) {
		Item it; memset(&it, 0, sizeof it); FILE *f = fopen(replay.c_str(), "r"); if (!f) return 3; int p, a;
		while (fscanf(f, "%d:%d", &p, &a) == 2) it.dev[it.n++] = Dev{(u16)p, (u8)a, 0};
		fclose(f);
		int r = run_item(&it, &SLOTS[0], verb, true);
		printf("status=%d kind=%s %s\n", r, SLOTS[0].kind, SLOTS[0].msg);
		return r == S_VIOLATION ? 1 : r == S_OK ? 0 : 3;
	}
	struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
	double t_end = t0.tv_sec + t0.tv_nsec * 1e-9 + budget;
	Item root; memset(&root, 0, sizeof root); push(root);
	std::vector<pid_t> kids;
	for (int w = 0; w < workers; w++) { pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(w, t_end); _exit(0); } kids.push_back(p); }
	for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
	double wall = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
	bool capped = S->stop.load() == 2 || S->overflow_items || S->overflow_dev || S->overflow_table || S->overflow_pts;
	int done = -1; // highest completed bound
	if (!capped && !S->hassviol) done = g_bound; else for (int c = 0; c <= g_bound; c++) { if (S->cnt[c]) break; done = c; }
	if (capped && done == g_bound) done = g_bound - 1;
	std::ostringstream o;
	o << "{\"scenario\":\"" << SC->name << "\",\"bound\":" << g_bound << ",\"bound_completed\":" << done << ",\"capped\":" << (capped ? "true" : "false")
	  << ",\"executions\":" << S->execs << ",\"pruned\":" << S->pruned << ",\"states\":" << S->states << ",\"transitions\":" << S->steps << ",\"diverged\":" << S->diverged
	  << ",\"max_steps\":" << S->maxsteps << ",\"max_points\":" << S->maxpts << ",\"wall_s\":" << wall << ",\"internal\":\"" << js(S->internal) << "\",\"executions_at_cost\":[";
	for (int c = 0; c <= g_bound; c++) o << (c ? "," : "") << S->execs_at[c];
	o << "],\"distinct_outcomes\":" << S->nout + (S->outother ? 1 : 0) << ",\"outcomes\":[";
	for (int i = 0; i < S->nout && i < 12; i++) o << (i ? "," : "") << "\"" << js(S->outs[i]) << "\"";
	o << "],\"known\":{"; for (size_t i = 0; i < KNOWN.size() && i < 16; i++) o << (i ? "," : "") << "\"" << js(KNOWN[i]) << "\":" << S->knownhits[i];
	o << "},\"violation\":";
	if (S->hassviol) {
		o << "{\"kind\":\"" << S->viol_kind << "\",\"message\":\"" << js(S->viol_msg) << "\",\"cost\":" << S->viol.cost << ",\"schedule\":\"";
		for (int i = 0; i < S->viol.n; i++) o << (i ? " " : "") << S->viol.dev[i].pos << ":" << (int)S->viol.dev[i].alt;
		o << "\"}";
	} else o << "null";
	o << "}\n";
	if (out.empty()) fputs(o.str().c_str(), stdout); else { FILE *f = fopen(out.c_str(), "w"); fputs(o.str().c_str(), f); fclose(f); }
	if (S->hassviol) return 1;
	if (S->internal[0]) return 3;
	return 0;
}
