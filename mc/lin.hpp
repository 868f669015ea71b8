// Brute-force linearizability check for short histories (call/return order recorded through mc::log).
#pragma once
#include "mc.hpp"
#include <vector>
#include <functional>
#include <string>
namespace mc {
struct Op { int thread, kind; long arg; long ret = 0; bool ok = false; int call = -1, retn = -1; bool done = false; };
struct History {
	std::vector<Op> ops; int clock = 0;
	int call(int kind, long arg, const std::string& nm = "") { ops.push_back(Op{tid(), kind, arg}); ops.back().call = clock++; log("call " + nm + std::to_string(kind) + "," + std::to_string(arg)); return ops.size() - 1; }
	void ret(int i, bool ok, long r) { Op& o = ops[i]; o.ok = ok; o.ret = r; o.retn = clock++; o.done = true; log("ret " + std::to_string(i) + " " + std::to_string(ok) + "," + std::to_string(r)); }
	std::string str() const { std::ostringstream o; for (auto& x : ops) o << "[T" << x.thread << " op" << x.kind << "(" << x.arg << ")" << (x.done ? "" : " pending") << "->" << x.ok << "," << x.ret << " @" << x.call << "-" << x.retn << "] "; return o.str(); }
	// apply(state, op): true if the completed op's result is possible in `state`, which is updated
	template <class St> bool linearizable(const St& init, std::function<bool(St&, const Op&)> apply) const {
		std::vector<char> used(ops.size(), 0);
		return rec<St>(init, used, ops.size(), apply);
	}
	template <class St> bool rec(const St& s, std::vector<char>& used, size_t left, std::function<bool(St&, const Op&)>& apply) const {
		if (!left) return true;
		for (size_t i = 0; i < ops.size(); i++) if (!used[i]) {
			bool minimal = true;
			for (size_t j = 0; j < ops.size(); j++) if (!used[j] && j != i && ops[j].retn < ops[i].call) minimal = false;
			if (!minimal) continue;
			St t = s;
			if (!apply(t, ops[i])) continue;
			used[i] = 1; if (rec<St>(t, used, left - 1, apply)) { used[i] = 0; return true; } used[i] = 0;
		}
		return false;
	}
};
}
