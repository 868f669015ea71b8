// C09: configuration files. Every sequence of (change default / write / parse / edit the file) against a table of expected values.
#include "sq.hpp"
#include "common/GParserBuilder.hpp"
#include <map>
#include <fstream>
using namespace Gem::Common;
namespace pt = boost::property_tree;
static const int MISSING = -1, WRONG = -2; // in a file
template <class T> static std::string show(const T& t) { std::ostringstream o; o << std::setprecision(17) << t; return o.str(); }
template <class T> static std::string show(const std::vector<T>& t) { std::ostringstream o; o << "["; for (size_t i = 0; i < t.size(); i++) o << show(static_cast<T>(t[i])) << ","; o << "]"; return o.str(); }
template <class T, size_t N> static std::string show(const std::array<T, N>& t) { return show(std::vector<T>(t.begin(), t.end())); }
// One option of every kind of registration: set (user's variable), register, reset the default, put into a file
struct Opt { std::string name; int nvals; bool byref; bool isvec; bool canWrong;
	virtual ~Opt() = default;
	virtual void reg(GParserBuilder& b, int def, bool essential) = 0;
	virtual void reset(GParserBuilder& b, int def) = 0;
	virtual std::string want(int k) const = 0;
	virtual std::string have() const = 0;
	virtual void clear() = 0;
	virtual void edit(pt::ptree& t, int k) = 0; // k >= 0: value k; MISSING; WRONG
	int calls = 0; };
using OP = std::unique_ptr<Opt>;
static void drop(pt::ptree& t, const std::string& n) { if (t.get_child_optional(n)) t.erase(n); }
template <class T> static void putv(pt::ptree& t, const std::string& key, const T& v) { t.put(key, v); }
template <class T> struct Single : Opt { std::vector<T> v; T var{};
	Single(std::string n, std::vector<T> vals, bool ref, bool wrong) : v(vals) { name = n; nvals = int(vals.size()); byref = ref; isvec = false; canWrong = wrong; }
	void reg(GParserBuilder& b, int d, bool ess) override { if (byref) b.registerFileParameter<T>(name, var, v[d], ess, "a comment;second line") << " more"; else b.registerFileParameter<T>(name, v[d], std::function<void(T)>([this](T x) { var = x; calls++; }), ess, "a comment"); }
	void reset(GParserBuilder& b, int d) override { b.resetFileParameterDefaults<T>(name, v[d]); }
	std::string want(int k) const override { return show(v[k]); } std::string have() const override { return show(var); } void clear() override { var = T{}; calls = 0; }
	void edit(pt::ptree& t, int k) override { if (k == MISSING) drop(t, name); else if (k == WRONG) t.put(name + ".value", "xyz"); else t.put(name + ".value", v[k]); } };
template <class A, class B> struct Comb : Opt { std::vector<A> a; std::vector<B> b; A va{}; B vb{};
	Comb(std::string n, std::vector<A> x, std::vector<B> y) : a(x), b(y) { name = n; nvals = int(x.size()); byref = false; isvec = false; canWrong = false; }
	void reg(GParserBuilder& g, int d, bool ess) override { g.registerFileParameter<A, B>(name, name + "_2", a[d], b[d], std::function<void(A, B)>([this](A x, B y) { va = x; vb = y; calls++; }), name + "_label", ess, "first", "second") << " 1" << nextComment() << " 2"; }
	void reset(GParserBuilder& g, int d) override { g.resetFileParameterDefaults<A, B>(name, a[d], b[d]); }
	std::string want(int k) const override { return show(a[k]) + "/" + show(b[k]); } std::string have() const override { return show(va) + "/" + show(vb); } void clear() override { va = A{}; vb = B{}; calls = 0; }
	void edit(pt::ptree& t, int k) override { std::string l = name + "_label"; if (k == MISSING) drop(t, l); else { t.put(l + "." + name + ".value", a[k]); t.put(l + "." + name + "_2.value", b[k]); } } };
template <class T> struct Vec : Opt { std::vector<std::vector<T>> v; std::vector<T> var;
	Vec(std::string n, std::vector<std::vector<T>> vals, bool ref, bool wrong) : v(vals) { name = n; nvals = int(vals.size()); byref = ref; isvec = true; canWrong = wrong; }
	void reg(GParserBuilder& b, int d, bool ess) override { if (byref) b.registerFileParameter<T>(name, var, v[d], ess, "a comment"); else b.registerFileParameter<T>(name, v[d], std::function<void(std::vector<T>)>([this](std::vector<T> x) { var = x; calls++; }), ess, "a comment"); }
	void reset(GParserBuilder& b, int d) override { b.resetFileParameterDefaults<T>(name, v[d]); }
	std::string want(int k) const override { return show(v[k]); } std::string have() const override { return show(var); } void clear() override { var.clear(); calls = 0; }
	void edit(pt::ptree& t, int k) override { if (k == MISSING) { drop(t, name); return; } pt::ptree c; if (k == WRONG) { pt::ptree e; e.put_value("xyz"); c.push_back({"item", e}); } else for (const auto& x : v[k]) { pt::ptree e; e.put_value(static_cast<T>(x)); c.push_back({"item", e}); } t.put_child(name + ".value", c); } };
template <class T, size_t N> struct Arr : Opt { std::vector<std::array<T, N>> v; std::array<T, N> var{};
	Arr(std::string n, std::vector<std::array<T, N>> vals, bool ref) : v(vals) { name = n; nvals = int(vals.size()); byref = ref; isvec = false; canWrong = false; }
	void reg(GParserBuilder& b, int d, bool ess) override { if (byref) b.registerFileParameter<T, N>(name, var, v[d], ess, "a comment"); else b.registerFileParameter<T, N>(name, v[d], std::function<void(std::array<T, N>)>([this](std::array<T, N> x) { var = x; calls++; }), ess, "a comment"); }
	void reset(GParserBuilder& b, int d) override { b.resetFileParameterDefaults<T, N>(name, v[d]); }
	std::string want(int k) const override { return show(v[k]); } std::string have() const override { return show(var); } void clear() override { var = {}; calls = 0; }
	void edit(pt::ptree& t, int k) override { if (k == MISSING) { drop(t, name); return; } for (size_t i = 0; i < N; i++) t.put(name + "." + std::to_string(i) + ".value", v[k][i]); } };
static const int KINDS = 16;
static OP make(int kind, std::string n) {
	using D = double; using S = std::string;
	switch (kind) {
	case 0: return OP(new Single<int>(n, {7, -2147483647 - 1, 2147483647}, true, true));
	case 1: return OP(new Single<D>(n, {0.1, -1.7976931348623157e308, 4.9406564584124654e-324}, false, true));
	case 2: return OP(new Single<S>(n, {"plain", "with blanks \"quotes\" \\ / \t\n and {[,:]}", ""}, true, false));
	case 3: return OP(new Single<bool>(n, {true, false, true}, false, true));
	case 4: return OP(new Single<float>(n, {0.1f, -3.40282347e38f, 16777215.f}, true, true));
	case 5: return OP(new Comb<int, S>(n, {1, -5, 0}, {"x", "y z", ""}));
	case 6: return OP(new Vec<D>(n, {{0.1, 1. / 3}, {-1e300}, {1, 2, 3}}, true, true));
	case 7: return OP(new Vec<int>(n, {{1, 2}, {-2147483647 - 1, 0, 2147483647}, {5}}, false, true));
	case 8: return OP(new Vec<S>(n, {{"a", "b c"}, {"", "\"q\""}, {"x", "y", "z"}}, true, false));
	case 9: return OP(new Vec<bool>(n, {{true, false}, {false}, {true, true, false}}, false, true));
	case 10: return OP(new Arr<D, 2>(n, {{0.1, -1e-300}, {3, 4}, {1e300, 1. / 3}}, true));
	case 11: return OP(new Arr<int, 3>(n, {{1, 2, 3}, {-1, 0, 2147483647}, {4, 4, 4}}, false));
	case 12: return OP(new Single<std::uint64_t>(n, {0, 18446744073709551615ull, 9007199254740993ull}, true, true));
	case 13: return OP(new Single<serializationMode>(n, {serializationMode::TEXT, serializationMode::BINARY, serializationMode::XML}, true, true));
	case 14: return OP(new Comb<D, bool>(n, {0.1, -2.5e-7, 1e22}, {true, false, true}));
	default: return OP(new Single<S>(n, {"a;b", "2026-11-19", "0.1"}, false, false));
	}
}
struct World { std::vector<OP> o; std::vector<int> def, par, ess; std::unique_ptr<GParserBuilder> b; std::map<std::string, std::vector<int>> files; int nf = 0; std::string last, hist;
	void build(std::vector<int> defs) { b.reset(new GParserBuilder()); def = par = defs; for (size_t i = 0; i < o.size(); i++) o[i]->reg(*b, defs[i], ess[i]); SQ_CHECK(b->numberOfFileOptions() == o.size(), "number of options wrong"); }
	void reset(int i, int k) { hist += " reset(" + o[i]->name + "," + std::to_string(k) + ")"; o[i]->reset(*b, k); def[i] = par[i] = k; }
	void write(bool all) { last = "./f" + std::to_string(nf++) + ".json"; hist += all ? " write" : " writeEssential"; std::remove(last.c_str()); SQ_NOTHROW(b->writeConfigFile(last, "header line", all), "writeConfigFile after" << hist);
		auto& f = files[last]; f = par; for (size_t i = 0; i < o.size(); i++) if (!all && !ess[i]) f[i] = MISSING; }
	void edit(int i, int k) { hist += " edit(" + o[i]->name + "," + std::to_string(k) + ")"; pt::ptree t; pt::read_json(last, t); o[i]->edit(t, k); std::ofstream s(last); pt::write_json(s, t); files[last][i] = k; }
	// returns false if refused
	bool parse(bool fresh) { bool isnew = fresh; if (fresh) { last = "./n" + std::to_string(nf++) + ".json"; std::remove(last.c_str()); files[last] = par; } hist += fresh ? " parse(new)" : " parse";
		auto& f = files[last]; bool refuse = false; std::vector<std::string> before; for (size_t i = 0; i < o.size(); i++) { before.push_back(o[i]->have()); if (o[i]->isvec && f[i] < 0) refuse = true; o[i]->calls = 0; }
		bool ok = b->parseConfigFile(last); sq::step();
		SQ_CHECK(ok == !refuse, "parseConfigFile returned " << ok << " for " << hist);
		for (size_t i = 0; i < o.size(); i++) {
			int e = f[i] >= 0 ? f[i] : def[i];
			if (refuse) { SQ_CHECK(o[i]->have() == before[i] || (f[i] >= 0 && o[i]->have() == o[i]->want(f[i])) || (f[i] < 0 && !o[i]->isvec && o[i]->have() == o[i]->want(def[i])), "option " << o[i]->name << " became " << o[i]->have() << " by a refused file;" << hist); continue; }
			SQ_CHECK(o[i]->have() == o[i]->want(e), "option " << o[i]->name << " is " << o[i]->have() << " instead of " << o[i]->want(e) << " after" << hist);
			if (!o[i]->byref) SQ_CHECK(o[i]->calls == 1, "call-back of " << o[i]->name << " called " << o[i]->calls << " times;" << hist);
			par[i] = e; }
		if (isnew && !refuse) { /* the file must exist now and a second builder with other defaults must read the same */ second(); }
		return ok; }
	void second() { auto& f = files[last]; World w; w.ess = ess; for (size_t i = 0; i < o.size(); i++) w.o.push_back(make(kinds[i], o[i]->name)); w.kinds = kinds; std::vector<int> d; for (size_t i = 0; i < o.size(); i++) d.push_back((def[i] + 1) % o[i]->nvals); w.build(d); w.last = last; w.files[last] = f; w.hist = hist + " second builder:"; w.parse(false); }
	std::vector<int> kinds; };
static void ops(World& w, int depth) {
	int n = int(w.o.size());
	for (int d = 0; d < depth; d++) {
		int c = sq::choose(4 + 3 * n + (w.last.empty() ? 0 : 5 * n), "operation");
		if (c == 0) return;
		if (c == 1) w.write(true); else if (c == 2) w.write(false); else if (c == 3) { if (!w.parse(w.last.empty())) return; }
		else if (c < 4 + 3 * n) w.reset((c - 4) / 3, (c - 4) % 3);
		else { int e = c - 4 - 3 * n, i = e / 5, k = e % 5; if (k == 4 && !w.o[i]->canWrong) return; if (w.files[w.last][i] == MISSING && w.o[i]->isvec == false && k < 3 && dynamic_cast<Opt *>(w.o[i].get()) == nullptr) return; w.edit(i, k == 3 ? MISSING : k == 4 ? WRONG : k); }
	}
	if (!w.last.empty()) { bool ok = w.parse(false); if (ok) { w.write(true); w.second(); w.parse(true); } } else w.parse(true);
}
SQ_SCENARIO(one_option, s.split = 400) {
	World w; int k = sq::choose(KINDS, "kind"); w.kinds = {k}; w.o.push_back(make(k, "opt")); w.ess = {sq::choose(2, "essential")}; w.build({0}); ops(w, sq::thorough() ? 5 : 3); }
SQ_SCENARIO(two_options, s.split = 800) {
	World w; int a = sq::choose(KINDS, "kind"), b = sq::choose(KINDS, "kind"); w.kinds = {a, b}; w.o.push_back(make(a, "alpha")); w.o.push_back(make(b, "beta")); int e = sq::choose(2, "essential"); w.ess = {1, e}; w.build({0, 1});
	if (!sq::thorough()) { w.reset(0, sq::choose(3, "k")); w.write(sq::choose(2, "all")); int i = sq::choose(2, "i"); int k = sq::choose(5, "k"); if (k < 4 || w.o[i]->canWrong) w.edit(i, k == 3 ? MISSING : k == 4 ? WRONG : k); if (w.parse(false)) { w.reset(1, 2); w.write(true); w.second(); } }
	else ops(w, 3); }
SQ_SCENARIO(refusals) {
	int c = sq::choose(13, "case"), k = sq::choose(KINDS, "kind"); World w; w.kinds = {k}; w.o.push_back(make(k, "opt")); w.ess = {1}; w.build({0}); std::ofstream("./dir_marker"); system("mkdir -p ./sub.json ./sub");
	switch (c) {
	case 0: w.write(true); SQ_THROWS(w.b->writeConfigFile(w.last), "existing file overwritten"); w.parse(false); break;
	case 1: SQ_THROWS(w.b->writeConfigFile("./sub.json"), "directory accepted as file"); break;
	case 2: SQ_THROWS(w.b->writeConfigFile("./nodir/x.json"), "missing directory accepted"); break;
	case 3: SQ_THROWS(w.b->writeConfigFile("./x.txt"), "wrong extension accepted"); SQ_CHECK(!std::ifstream("./x.txt"), "file with wrong extension written"); break;
	case 4: SQ_CHECK(!w.b->parseConfigFile("./sub.json"), "directory parsed"); break;
	case 5: { std::ofstream("./bad.json") << "{ \"opt\": { \"value\": "; SQ_CHECK(!w.b->parseConfigFile("./bad.json"), "truncated json accepted"); break; }
	case 6: { std::ofstream("./t.cfg") << "{ }"; SQ_CHECK(!w.b->parseConfigFile("./t.cfg"), "wrong extension parsed"); break; }
	case 7: { GParserBuilder e; SQ_THROWS(e.writeConfigFile("./e.json"), "builder without options wrote a file"); break; }
	case 8: SQ_THROWS(w.o[0]->reg(*w.b, 1, true), "duplicate option name accepted (debug build)"); SQ_CHECK(w.b->numberOfFileOptions() == 1, "refused option was added"); break;
	case 9: { auto other = make((k + 1) % KINDS, "nosuch"); SQ_THROWS(other->reset(*w.b, 0), "default of an unknown option changed"); break; }
	case 10: { GParserBuilder g; SQ_THROWS(g.registerFileParameter<int>("a", 1, std::function<void(int)>()), "empty call-back accepted"); SQ_THROWS((g.registerFileParameter<int>("a", std::vector<int>{1}, std::function<void(std::vector<int>)>())), "empty call-back accepted"); SQ_CHECK(g.numberOfFileOptions() == 0, "refused option added"); break; }
	case 11: { // every truncation of a written file: refused, or the values are those of the file
		w.o[0]->reset(*w.b, 1); w.par = w.def = {1}; w.write(true); std::string t; { std::ifstream f(w.last); std::stringstream s; s << f.rdbuf(); t = s.str(); } int cut = sq::choose(int(t.size()), "cut"); std::ofstream("./cut.json") << t.substr(0, cut); auto before = w.o[0]->have(); bool ok = w.b->parseConfigFile("./cut.json"); SQ_CHECK(ok ? w.o[0]->have() == w.o[0]->want(1) : w.o[0]->have() == before, "truncated file gave " << w.o[0]->have()); break; }
	default: { // absent file in an existing directory is created
		SQ_CHECK(w.b->parseConfigFile("./sub/new.json"), "absent file not created"); SQ_CHECK(w.o[0]->have() == w.o[0]->want(0) && std::ifstream("./sub/new.json"), "defaults not taken or file not written"); SQ_CHECK(!w.b->parseConfigFile("./none/new.json"), "file in a missing directory 'parsed'"); std::remove("./sub/new.json"); }
	}
	sq::outcome("ok"); }
// command line: every combination of forms for four options
SQ_SCENARIO(command_line) {
	int i = 0; double d = 0; std::string s; bool f = false, g = false; GParserBuilder b;
	b.registerCLParameter<int>("num", i, 42, "a number"); b.registerCLParameter<double>("dbl", d, 0.25); b.registerCLParameter<std::string>("str", s, std::string("dflt"), "text"); b.registerCLParameter<bool>("flag", f, false, "a flag", GCL_IMPLICIT_ALLOWED, true); b.registerCLParameter<bool>("gflag,g", g, true, "g", GCL_IMPLICIT_ALLOWED, false);
	SQ_CHECK(b.numberOfCLOptions() == 5, "number of options"); SQ_THROWS(b.registerCLParameter<int>("num", i, 1), "duplicate accepted");
	int ei = 42; double ed = 0.25; std::string es = "dflt"; bool ef = false, eg = true; std::vector<std::string> a{"prog"}; std::vector<std::vector<std::string>> parts;
	switch (sq::choose(4, "num")) { case 1: parts.push_back({"--num", "-7"}); ei = -7; break; case 2: parts.push_back({"--num=2147483647"}); ei = 2147483647; break; case 3: parts.push_back({"--nu", "5"}); ei = 5; }
	switch (sq::choose(3, "dbl")) { case 1: parts.push_back({"--dbl", "1e-300"}); ed = 1e-300; break; case 2: parts.push_back({"--dbl=-0.1"}); ed = -0.1; }
	switch (sq::choose(3, "str")) { case 1: parts.push_back({"--str", "a"}); es = "a"; break; case 2: parts.push_back({"--str=a=b"}); es = "a=b"; }
	switch (sq::choose(3, "flag")) { case 1: parts.push_back({"--flag"}); ef = true; break; case 2: parts.push_back({"--flag=true"}); ef = true; }
	switch (sq::choose(4, "gflag")) { case 1: parts.push_back({"-g"}); eg = false; break; case 2: parts.push_back({"--gflag=1"}); eg = true; break; case 3: parts.push_back({"--gflag=0"}); eg = false; }
	while (!parts.empty()) { int n = sq::choose(int(parts.size()), "order"); a.insert(a.end(), parts[n].begin(), parts[n].end()); parts.erase(parts.begin() + n); }
	bool help = sq::choose(2, "help"); std::string hist; if (help) a.push_back("--help"); std::vector<char *> av; for (auto& x : a) { av.push_back(&x[0]); hist += " " + x; } av.push_back(nullptr);
	std::ostringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf()); bool r; try { r = b.parseCommandLine(int(a.size()), av.data(), sq::choose(2, "verbose")); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); sq::step();
	SQ_CHECK(r == help, "help detection wrong:" << hist); SQ_CHECK(i == ei && d == ed && s == es && f == ef && g == eg, "values " << i << " " << d << " " << s << " " << f << " " << g << " for" << hist); }
