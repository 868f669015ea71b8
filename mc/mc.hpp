// Interface between a concurrency harness and the schedule explorer (mcrt.cpp).
#pragma once
#include <string>
#include <functional>
#include <cstdint>
#include <sstream>
namespace mc {
struct Scenario {
	const char *name;
	void (*fn)();
	int bound_quick = 2;         // deviations (preemptions, early timeouts, spurious wake-ups) explored exhaustively
	int bound_thorough = 3;
	bool races = true;           // happens-before race detection on plain accesses
	bool spurious = false;       // let condition variables wake spuriously (one deviation each)
	bool unlock_points = false;  // scheduling point at unlock (needed if trylock/timed locks are used)
	int horizon = 20000;         // steps per execution; exceeding it is a livelock
	int hw = 2;                  // value of std::thread::hardware_concurrency()
	bool forced_timeouts_only = false; // timers only fire when nothing else can run
	bool edf = false;            // timers only fire in the order of their deadlines
	bool delay = false;          // every departure from the default schedule costs one deviation (delay bounding), not only preemptions
};
int reg(const Scenario&);
[[noreturn]] void violation(const std::string& msg);
void check(bool ok, const std::string& msg);
int choose(int n, int cost, const char *what);   // environment choice; alternative 0 is the default
void point();                                    // explicit scheduling point (dependent with all other point()/log())
void log(const std::string& s);                  // totally ordered observation
void outcome(const std::string& s);              // label of this execution, for the distinct-outcome count
int tid();
bool verbose();
uint64_t now_ns();
// scope in which the calling thread takes no scheduling points (harness bookkeeping)
struct Quiet { Quiet(); ~Quiet(); };
}
#define MC_SCENARIO(NAME, ...) \
	static void NAME(); \
	static int reg_##NAME = mc::reg([]{ mc::Scenario s{#NAME, NAME}; __VA_ARGS__; return s; }()); \
	static void NAME()
#define MC_CHECK(C, M) do { if(!(C)) { std::ostringstream o_; o_ << M; mc::violation(o_.str()); } } while(0)
