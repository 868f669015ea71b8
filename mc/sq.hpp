// Exhaustive exploration of sequential code: a scenario is a function that calls sq::choose(); every choice vector is executed.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <cstring>
#include <sstream>
#include <iostream>
#include <iomanip>
namespace sq {
struct Scenario {
	const char *name;
	void (*fn)();
	int bound_quick = 1000;    // total cost of choices that carry a cost (deviations from the default answer)
	int bound_thorough = 1000;
	int timeout_s = 15;        // one execution
	int split = 64;            // number of subtrees the tree is cut into (each one runs in a process of its own)
	bool thorough_only = false;
	bool native = false;       // native threads and sockets: an irregularity which does not occur again when the execution is repeated is not reported (at most 3)
};
int reg(const Scenario&);
int choose(int n, const char *what, int cost = 0); // all n alternatives are explored; alternatives > 0 consume `cost`
struct Fail { std::string msg; };
struct Prune {};
[[noreturn]] void fail(const std::string& msg);
void state(uint64_t h);         // a state of the explored system (counted when distinct)
bool first(uint64_t h);         // true iff this process has not seen h before (for explicit state search with pruning)
bool fresh(uint64_t h);         // true iff no process has seen h before: explicit state search (if false: return, the state was/is expanded elsewhere)
void step(int n = 1);           // transitions executed on the implementation
void outcome(const std::string& s);
bool thorough();
bool verbose();
void note(const std::string& s); // printed under -v, appended to the failure message
struct H { uint64_t h = 1469598103934665603ull; template <class T> H& operator<<(const T& x) { add(x); return *this; }
	void raw(const void *p, size_t n) { auto c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } h ^= h >> 29; }
	void add(const std::string& s) { size_t n = s.size(); raw(&n, sizeof n); raw(s.data(), n); } void add(const char *s) { add(std::string(s)); }
	void add(double d) { raw(&d, sizeof d); }
	template <class T> void add(const std::vector<T>& v) { size_t n = v.size(); raw(&n, sizeof n); for (const auto& x : v) add((T)x); }
	template <class T> std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value> add(T x) { long long l = (long long)x; raw(&l, sizeof l); }
	operator uint64_t() const { return h; } };
}
#define SQ_SCENARIO(NAME, ...) \
	static void NAME(); \
	static int reg_##NAME = sq::reg([]{ sq::Scenario s{#NAME, NAME}; __VA_ARGS__; return s; }()); \
	static void NAME()
#define SQ_CHECK(C, M) do { if(!(C)) { std::ostringstream o_; o_ << std::setprecision(17) << M; sq::fail(o_.str()); } } while(0)
// the statement must throw (any std::exception); afterwards execution continues
#define SQ_THROWS(S, M) do { bool t_ = false; try { S; } catch (const std::exception&) { t_ = true; } SQ_CHECK(t_, M); } while(0)
#define SQ_NOTHROW(S, M) do { std::string e_; try { S; } catch (const std::exception& x_) { e_ = x_.what(); if (e_.empty()) e_ = "?"; } SQ_CHECK(e_.empty(), M << ": unexpected exception " << e_); } while(0)
