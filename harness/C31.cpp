// C31: checkpoints are written when configured, restore the complete state and survive crashes and full discs.
#include "lab.hpp"
#include "geneva/Go2.hpp"
#include <filesystem>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
using namespace lab;
namespace fs = std::filesystem; using Gem::Common::serializationMode;
struct Scan : GParameterScan { Scan() { this->setDefaultPopulationSize(2); this->setNSimpleScans(200); } Scan(const Scan&) = default; GObject *clone_() const override { return new Scan(*this); } template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterScan>(*this)); } };
BOOST_CLASS_EXPORT(Scan)
// an adaptor without hidden state of the normal distribution: equal objects do the same
struct Ad : GDoubleGaussAdaptor {
	Ad() : GDoubleGaussAdaptor(0.05, 0.1, 0.001, 1.) { this->setAdaptionProbability(1.); this->setAdaptAdProb(0.); } Ad(const Ad&) = default; GObject *clone_() const override { return new Ad(*this); }
	void customAdaptions(double& v, const double& range, Gem::Hap::GRandomBase& gr) override { this->m_normal_distribution.reset(); std::normal_distribution<double> n(0., this->getSigma()); v += range * n(gr); }
	void customAdaptAdaption(const double&, Gem::Hap::GRandomBase& gr) override { std::normal_distribution<double> n(0., this->getSigmaAdaptionRate()); double s = this->getSigma() * std::exp(n(gr)); this->setSigma(s < 0.001 ? 0.001 : s > 1 ? 1 : s); }
	template <class A> void serialize(A& ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GDoubleGaussAdaptor>(*this)); }
};
BOOST_CLASS_EXPORT(Ad)
static std::shared_ptr<Ind> ind31(const V& x, int crit, maxMode m) { auto p = std::make_shared<Ind>((std::size_t)crit); for (double v : x) { auto o = std::make_shared<GConstrainedDoubleObject>(v, -10., 10.); o->addAdaptor(std::make_shared<Ad>()); p->push_back(o); } p->setMaxMode(m); return p; }
static const int N = 7; static const char *NAME[] = {"EA+", "EA,", "EA pareto", "swarm", "descent", "annealing", "scan"};
static std::shared_ptr<G_OptimizationAlgorithm_Base> alg(int k) {
	if (k < 3) { auto a = std::make_shared<GEvolutionaryAlgorithm>(); a->setNThreads(1); a->setPopulationSizes(3, 1); a->setSortingScheme(k == 0 ? sortingMode::MUPLUSNU_SINGLEEVAL : k == 1 ? sortingMode::MUCOMMANU_SINGLEEVAL : sortingMode::MUPLUSNU_PARETO); return a; }
	if (k == 3) { auto a = std::make_shared<GSwarmAlgorithm>(); a->setSwarmSizes(1, 2); return a; }
	if (k == 4) { auto a = std::make_shared<GGradientDescent>(); a->setNStartingPoints(1); return a; }
	if (k == 5) { auto a = std::make_shared<GSimulatedAnnealing>(); a->setNThreads(1); a->setPopulationSizes(3, 1); return a; }
	return std::make_shared<Scan>();
}
static const serializationMode MODE[] = {serializationMode::TEXT, serializationMode::BINARY, serializationMode::XML}; static const char *MN[] = {"text", "binary", "XML"};
static std::string equal(const G_OptimizationAlgorithm_Base& a, const G_OptimizationAlgorithm_Base& b) { try { a.compare(b, Gem::Common::expectation::EQUALITY, 0.); return ""; } catch (const g_expectation_violation& e) { return e.what(); } }
static double later(const V& x, int k) { double r = 0; for (double v : x) r += std::fmod(std::fabs(v) * (7 + 4 * k), 3.); return r; }
struct Trace { std::vector<Eval> evals; std::vector<Snap> snaps; std::vector<IndS> best; };
static bool same(std::vector<IndS> a, std::vector<IndS> b, bool queue = false) { if (queue) for (auto v : {&a, &b}) std::sort(v->begin(), v->end(), [](const IndS& p, const IndS& q) { return std::tie(p.raw, p.x) < std::tie(q.raw, q.x); }); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].x != b[i].x || a[i].processed != b[i].processed || (a[i].processed && (a[i].raw != b[i].raw || a[i].trans != b[i].trans)) || (!queue && (a[i].iter != b[i].iter || a[i].best != b[i].best || a[i].stalls != b[i].stalls))) return false; return true; }
static std::string show(const std::vector<IndS>& a) { std::string r; for (auto& p : a) r += str(p.x) + (p.processed ? "=" + str(p.raw) : "?") + " "; return r; }
static std::string diff(const Trace& a, const Trace& b) { std::ostringstream o;
	for (size_t i = 0; i < std::min(a.evals.size(), b.evals.size()); i++) if (a.evals[i].x != b.evals[i].x || a.evals[i].f != b.evals[i].f || a.evals[i].it != b.evals[i].it) { o << "evaluation " << i << ": " << a.evals[i].it << str(a.evals[i].x) << "=" << str(a.evals[i].f) << " / " << b.evals[i].it << str(b.evals[i].x) << "=" << str(b.evals[i].f); return o.str(); }
	if (a.evals.size() != b.evals.size()) { o << "number of evaluations: " << a.evals.size() << " / " << b.evals.size(); return o.str(); }
	for (size_t i = 0; i < std::min(a.snaps.size(), b.snaps.size()); i++) { auto &s = a.snaps[i], &t = b.snaps[i]; if (s.iter != t.iter) o << "iteration " << s.iter << " / " << t.iter; else if (!same(s.pop, t.pop)) o << "population in iteration " << s.iter << ": " << show(s.pop) << " / " << show(t.pop); else if (s.known != t.known || s.current != t.current) o << "best values in iteration " << s.iter << ": " << std::get<0>(s.known) << "," << std::get<0>(s.current) << " / " << std::get<0>(t.known) << "," << std::get<0>(t.current); else if (s.stall != t.stall || s.progress != t.progress) o << "stalls in iteration " << s.iter; else if (!same(s.gbest, t.gbest, true)) o << "best individuals in iteration " << s.iter << ": " << show(s.gbest) << " / " << show(t.gbest); else if (!same(s.ibest, t.ibest, true)) o << "best individuals of iteration " << s.iter << ": " << show(s.ibest) << " / " << show(t.ibest); if (!o.str().empty()) return o.str(); }
	if (a.snaps.size() != b.snaps.size()) { o << "number of iterations: " << a.snaps.size() << " / " << b.snaps.size(); return o.str(); }
	if (!same(a.best, b.best, true)) o << "results: " << show(a.best) << " / " << show(b.best); return o.str(); }
// runs an algorithm; the random numbers of each iteration depend on the number of the iteration only
static Trace go(G_OptimizationAlgorithm_Base& a, std::uint32_t from, std::function<void(const G_OptimizationAlgorithm_Base *)> each = nullptr, bool first = false) {
	reset(1000 + from); with_bests = true; a.resetPluggableOM(); a.registerPluggableOM(std::make_shared<Mon>()); a.setReportIteration(1); a.setEmitTerminationReason(false); if (first) a.registerExecutor(execMode::SERIAL, "./serial.json"); on_iteration = [&](const G_OptimizationAlgorithm_Base *p) { if (each) each(p); mockrnd::seed(1000 + p->getIteration() + 1); }; on_init = [&](const G_OptimizationAlgorithm_Base *) { mockrnd::seed(1000 + from); }; a.optimize(from);
	Trace t; t.evals = evals; t.snaps = snaps; for (auto& p : a.getBestGlobalIndividuals<GParameterSet>()) t.best.push_back(snap(*p)); return t; }
static void fill(G_OptimizationAlgorithm_Base& a, int n, int dim, int crit, maxMode m) { for (int i = 0; i < n; i++) { V x; for (int d = 0; d < dim; d++) x.push_back(0.5 + i + d * 0.25); a.push_back(ind31(x, crit, m)); } }
static std::vector<std::string> files(const std::string& d) { std::vector<std::string> r; if (fs::exists(d)) for (auto& e : fs::directory_iterator(d)) r.push_back(e.path().filename().string()); std::sort(r.begin(), r.end()); return r; }
static int serial = 0; static std::string fresh() { std::string d = "./cp" + std::to_string(getpid()) + "_" + std::to_string(serial++); fs::remove_all(d); return d; }
static maxMode mm() { return sq::choose(2, "maximize") ? maxMode::MAXIMIZE : maxMode::MINIMIZE; }
struct Gone { std::string d; ~Gone() { std::error_code e; fs::remove_all(d, e); } };
// ---- restoring: every iteration of a run is saved, loaded into a new algorithm, compared, and continued
SQ_SCENARIO(restore, s.split = 256) {
	int k = sq::choose(N, "algorithm"), mode = sq::choose(3, "mode"); maxMode m = mm(); int dim = 1 + sq::choose(sq::thorough() ? 2 : 1, "dimensions"), crit = k == 2 ? 2 : 1, iters = 3, stop = sq::choose(iters, "stop"), asked = 0; std::uint32_t offset = sq::choose(2, "offset") * 5;
	auto a = alg(k); std::string dir = fresh(); Gone g{dir}; a->setCheckpointBaseName(dir, "base.txt"); a->setCheckpointSerializationMode(MODE[mode]); a->setCheckpointInterval(0); a->setRemoveCheckpointFiles(false); a->setMaxIteration(offset + iters + 2); a->setMaxStallIteration(sq::choose(2, "stalls") ? 2 : 0); fill(*a, 1 + sq::choose(2, "given"), dim, crit, m);
	std::vector<double> answers; fitness = [&](const V& x, GParameterSet *) -> V { V f; double first = asked < (sq::thorough() ? 5 : 2) ? (answers.push_back(sq::choose(3, "fitness")), answers.back()) : later(x, 0); asked++; for (int c = 0; c < crit; c++) f.push_back(c ? later(x, c) : first); return f; };
	auto w = [&](const std::string& s) { std::ostringstream o; o << NAME[k] << ", " << MN[mode] << (m == maxMode::MAXIMIZE ? ", maximizing" : "") << ", saved after iteration " << stop << " from " << offset << ", first values"; for (double d : answers) o << " " << d; o << ": " << s; return o.str(); };
	std::shared_ptr<G_OptimizationAlgorithm_Base> copy; std::string file; Trace full = go(*a, offset, [&](const G_OptimizationAlgorithm_Base *p) { if ((int)p->getIteration() - (int)offset != stop) return; copy = p->clone<G_OptimizationAlgorithm_Base>(); auto w0 = const_cast<G_OptimizationAlgorithm_Base *>(p); w0->setCheckpointInterval(-1); p->checkpoint(true); w0->setCheckpointInterval(0); }, true);
	if (!copy) { sq::outcome("ended early"); return; }
	auto fl = files(dir); SQ_CHECK(fl.size() == 1, w(std::to_string(fl.size()) + " files")); copy->setCheckpointInterval(-1);
	auto b = alg(k); b->setCheckpointSerializationMode(MODE[mode]); b->loadCheckpoint(fs::path(dir) / fl[0]); std::string d = equal(*copy, *b); SQ_CHECK(d.empty(), w("the restored algorithm differs: " + d)); SQ_CHECK(b->getIteration() == offset + stop, w("iteration " + std::to_string(b->getIteration())));
	b->setCheckpointInterval(0); copy->setCheckpointInterval(0); asked = 1000;
	Trace t1 = go(*copy, offset + stop + 1), t2 = go(*b, offset + stop + 1); d = diff(t1, t2); SQ_CHECK(d.empty(), w("the restored algorithm continues differently (in memory / restored): " + d));
	sq::H h; h << k << mode << (int)m << stop << (int)offset << dim; for (auto& e : full.evals) h << e.it << e.f; sq::state(h); sq::outcome(std::to_string(t1.evals.size()) + " evaluations after the restart");
}
// ---- when: files are written after exactly the configured iterations, the preceding one is removed if wanted
SQ_SCENARIO(written, s.split = 128) {
	int k = sq::choose(N, "algorithm"); maxMode m = mm(); static const int IV[] = {-1, 0, 1, 2, 3}; int iv = IV[sq::choose(5, "interval")], mode = sq::choose(sq::thorough() ? 3 : 1, "mode"); bool rem = sq::choose(2, "remove"); int runs = 1 + sq::choose(2, "runs"), iters = 3; std::uint32_t offset = sq::choose(2, "offset"); bool dflt = sq::choose(2, "settings left");
	auto a = alg(k); std::string dir = fresh(); Gone g{dir}; a->setCheckpointBaseName(dir, "base.txt"); SQ_CHECK(a->getCheckpointBaseName() == "base.txt", "base name"); a->setCheckpointSerializationMode(MODE[mode]); a->setCheckpointInterval(iv); if (!dflt) a->setRemoveCheckpointFiles(rem); else if (!rem) { sq::outcome("skipped"); return; } SQ_CHECK(a->getCheckpointInterval() == iv && a->checkpointFilesAreRemoved() == rem, "settings"); a->setMaxIteration(offset + iters); a->setMaxStallIteration(0); wire(*a);
	int asked = 0; std::set<std::string> want; std::string last; 
	for (int r = 0; r < runs; r++) { reset(); a->clear(); fill(*a, 1, 1, k == 2 ? 2 : 1, m); double best = NAN_; std::vector<double> its;
		auto w = [&](const std::string& s) { std::ostringstream o; o << NAME[k] << (m == maxMode::MAXIMIZE ? ", maximizing" : "") << ", interval " << iv << (rem ? ", removing" : "") << ", run " << r << " from " << offset << ", fitness"; int it = -1; for (auto& e : evals) { if (e.it != it) o << " |"; it = e.it; o << " " << e.f[0]; } o << ": " << s; return o.str(); };
		fitness = [&](const V& x, GParameterSet *) -> V { static int n; if (!asked) n = 0; double f = asked++ % 3 == 0 && n++ < (sq::thorough() ? 5 : 3) ? sq::choose(3, "fitness") + 1 : 1 + asked * 7 % 3; return k == 2 ? V{f, 1} : V{f}; };
		double prevbest = NAN_; bool first = r == 0; on_iteration = [&](const G_OptimizationAlgorithm_Base *p) {
			double b = NAN_; for (auto& e : evals) if (e.it == now - 1) if (!(b == b) || better(e.f[0], b, m)) b = e.f[0];
			const Snap& s = snaps.back(); bool improved = s.progress; if (first) { improved = !(best == best) || (b == b && better(b, best, m)); if (k == 4 || k == 5) improved = s.progress; } if (b == b && (!(best == best) || better(b, best, m))) best = b;
			if (iv < 0 ? improved : iv > 0 && s.iter % iv == 0) { std::string name = "checkpoint-" + p->getAlgorithmPersonalityType() + "-" + std::to_string(s.iter) + "-" + Gem::Common::to_string(std::get<1>(s.known)) + "-base.txt"; if (rem && last != "") want.erase(last); want.insert(name); last = name; }
			auto fl = files(dir); std::string l; for (auto& f : fl) l += " " + f; std::string l2; for (auto& f : want) l2 += " " + f; SQ_CHECK(std::set<std::string>(fl.begin(), fl.end()) == want, w("after iteration " + std::to_string(s.iter) + " the files are" + l + " instead of" + l2));
			if (last != "") { auto q = alg(k); q->setCheckpointSerializationMode(MODE[mode]); q->loadCheckpoint(fs::path(dir) / last); its.push_back(q->getIteration()); SQ_CHECK(last.find(p->getAlgorithmPersonalityType() + "-" + std::to_string(q->getIteration()) + "-") != std::string::npos, w("the checkpoint " + last + " contains iteration " + std::to_string(q->getIteration()))); } };
		a->optimize(offset); auto fl = files(dir); SQ_CHECK(std::set<std::string>(fl.begin(), fl.end()) == want, w("at the end there are " + std::to_string(fl.size()) + " files instead of " + std::to_string(want.size()))); }
	sq::H h; h << k << iv << rem << runs << (int)m << (int)offset << mode; for (auto& e : evals) h << e.it << e.f; sq::state(h); sq::outcome(std::to_string(want.size()) + " files");
}
// ---- crashes and full discs while a checkpoint is written, at positions spread over the file: a complete checkpoint survives, the torn one is refused
SQ_SCENARIO(crash, s.split = 512) {
	int k = sq::choose(N, "algorithm"), mode = sq::choose(3, "mode"), at = sq::choose(sq::thorough() ? 3 : 2, "iteration"); bool rem = sq::choose(2, "remove"), full = sq::choose(2, "full disc"); int parts = sq::thorough() ? 64 : 8, part = sq::choose(parts + 4, "position");
	std::string dir = fresh(); Gone g{dir}; long limit = -1; fitness = [&](const V& x, GParameterSet *) -> V { return k == 2 ? V{later(x, 0), later(x, 1)} : V{later(x, 0)}; };
	auto w = [&](const std::string& s) { std::ostringstream o; o << NAME[k] << ", " << MN[mode] << (rem ? ", removing" : "") << (full ? ", disc full" : ", crash") << " at byte " << limit << " of the checkpoint of iteration " << at << ": " << s; return o.str(); };
	auto run = [&]() -> int { fs::remove_all(dir); pid_t p = fork(); if (p == 0) { int code = 0; try { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); signal(SIGXFSZ, full ? SIG_IGN : SIG_DFL); auto set = [&] { struct rlimit r { (rlim_t)limit, (rlim_t)limit }; struct rlimit c { 0, 0 }; setrlimit(RLIMIT_CORE, &c); setrlimit(RLIMIT_FSIZE, &r); }; reset(); auto a = alg(k); a->setCheckpointBaseName(dir, "base.txt"); a->setCheckpointSerializationMode(MODE[mode]); a->setCheckpointInterval(1); a->setRemoveCheckpointFiles(rem); a->setMaxIteration(at + 1); fill(*a, 1, 1, k == 2 ? 2 : 1, maxMode::MINIMIZE); wire(*a); if (limit >= 0 && at == 0) set(); on_iteration = [&](const G_OptimizationAlgorithm_Base *q) { if (limit >= 0 && (int)q->getIteration() == at - 1) set(); }; a->optimize(0); } catch (const gemfony_exception&) { code = 3; } catch (...) { code = 4; } _exit(code); } int st = 0; waitpid(p, &st, 0); sq::step(); return st; };
	int st = run(); SQ_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, w("run failed")); auto newest = [&](int it) { for (auto& f : files(dir)) if (f.find(alg(k)->getAlgorithmPersonalityType() + "-" + std::to_string(it) + "-") != std::string::npos) return f; return std::string(); };
	std::string nf = newest(at); SQ_CHECK(nf != "", w("no checkpoint")); long size = fs::file_size(fs::path(dir) / nf); auto load = [&](const std::string& f) { auto q = alg(k); q->setCheckpointSerializationMode(MODE[mode]); q->loadCheckpoint(fs::path(dir) / f); return q; };
	SQ_CHECK((int)load(nf)->getIteration() == at, w("complete checkpoint")); limit = part == parts ? size - 1 : part == parts + 1 ? 1 : part == parts + 2 ? size - 2 : part == parts + 3 ? size / 8192 * 8192 : size * part / parts;
	st = run(); if (full) SQ_CHECK(WIFSIGNALED(st) || WEXITSTATUS(st) >= 3, w("the run went on in spite of the failure to write")); else SQ_CHECK(WIFSIGNALED(st), w("not killed"));
	if (at > 0) { std::string of = newest(at - 1); SQ_CHECK(of != "", w("the preceding checkpoint is gone")); auto q = load(of); SQ_CHECK((int)q->getIteration() == at - 1 && q->size() > 0, w("the preceding checkpoint is damaged")); }
	nf = newest(at); if (nf != "") { bool refused = false; auto q = alg(k); try { q = load(nf); } catch (const std::exception&) { refused = true; } catch (...) { refused = true; } if (!refused) { SQ_CHECK((int)q->getIteration() == at, w("a torn checkpoint was accepted")); } sq::outcome(refused ? "torn file refused" : "complete in spite of the missing end"); } else sq::outcome("no new file");
	sq::H h; h << k << mode << at << rem << full << part; sq::state(h);
}
// ---- files which are no checkpoints of the algorithm are refused and leave it usable
SQ_SCENARIO(refused, s.split = 128) {
	int k = sq::choose(N, "algorithm"), j = sq::choose(N, "file of"), mode = sq::choose(3, "mode"), kind = sq::choose(7, "kind"); auto w = [&](const std::string& s) { std::ostringstream o; o << NAME[k] << ", " << MN[mode] << ", file of " << NAME[j] << ", case " << kind << ": " << s; return o.str(); };
	std::string dir = fresh(); Gone g{dir}; fitness = [&](const V& x, GParameterSet *) -> V { return V(2, later(x, 0)); }; reset(); auto b = alg(j); b->setCheckpointBaseName(dir, "a-b.txt"); b->setCheckpointSerializationMode(MODE[mode]); b->setCheckpointInterval(1); b->setMaxIteration(1); fill(*b, 1, 1, j == 2 ? 2 : 1, maxMode::MINIMIZE); wire(*b); b->optimize(0); auto fl = files(dir); SQ_CHECK(fl.size() == 1, w("files")); fs::path f = fs::path(dir) / fl[0];
	auto a = alg(k); a->setCheckpointSerializationMode(MODE[mode]); a->setMaxIteration(2); fill(*a, 1, 1, k == 2 ? 2 : 1, maxMode::MINIMIZE); auto before = a->clone<G_OptimizationAlgorithm_Base>(); bool fits = a->getAlgorithmPersonalityType() == b->getAlgorithmPersonalityType(), want = true;
	if (kind == 0) want = !fits; else if (kind == 1) { f = fs::path(dir) / "absent-PERSONALITY_EA-x"; } else if (kind == 2) { auto n = fs::path(dir) / "nothing"; fs::rename(f, n); f = n; } else if (kind == 3) { std::string t = a->getAlgorithmPersonalityType(); auto n = fs::path(dir) / ("my-" + t + "-1"); fs::rename(f, n); f = n; want = !fits; if (!fits) { sq::outcome("renamed file of another algorithm"); return; } } else if (kind == 4) { fs::resize_file(f, 0); } else if (kind == 5) { a->setCheckpointSerializationMode(MODE[(mode + 1) % 3]); before->setCheckpointSerializationMode(MODE[(mode + 1) % 3]); } else { fs::resize_file(f, fs::file_size(f) / 2); }
	SQ_CHECK(kind == 1 || kind == 2 || kind == 3 || a->cp_personality_fits(f) == fits, w("personality"));
	bool thrown = false; try { a->loadCheckpoint(f); } catch (const std::exception&) { thrown = true; } SQ_CHECK(thrown == want, w(want ? "accepted" : "refused")); if (!thrown) { SQ_CHECK(a->getIteration() == 0 && a->size() == b->size(), w("contents")); auto d = b->clone<G_OptimizationAlgorithm_Base>(); }
	else { std::string d = equal(*a, *before); SQ_CHECK(d.empty(), w("the refusal changed the algorithm: " + d)); wire(*a); reset(); a->optimize(0); SQ_CHECK(snaps.size() == 2 || k == 6, w("not usable any more")); }
	sq::H h; h << k << j << mode << kind; sq::state(h); sq::outcome(thrown ? "refused" : "accepted");
}
// ---- resuming with Go2: the first algorithm of the chain continues after the iteration of the file, the others follow
SQ_SCENARIO(go2, s.split = 128) {
	int k = sq::choose(N, "algorithm"), j = sq::thorough() ? sq::choose(N + 1, "second") : 7 - sq::choose(3, "second") * 2, stop = sq::choose(3, "stop"); maxMode m = mm(); std::uint32_t offset = sq::choose(2, "offset") * 5; int crit = k == 2 ? 2 : 1, asked = 0; if ((k == 2) != (j == 2) && j < N) { sq::outcome("skipped"); return; }
	auto a = alg(k); std::string dir = fresh(); Gone g{dir}; a->setCheckpointBaseName(dir, "base.txt"); a->setCheckpointInterval(1); a->setRemoveCheckpointFiles(false); a->setMaxIteration(offset + 5); a->setMaxStallIteration(0); fill(*a, 1, 1, crit, m); fitness = [&](const V& x, GParameterSet *) -> V { double f = asked++ < 2 ? (double)sq::choose(3, "fitness") : later(x, 0); return crit == 2 ? V{f, later(x, 1)} : V{f}; };
	auto w = [&](const std::string& s) { std::ostringstream o; o << NAME[k] << ", then " << (j < N ? NAME[j] : "nothing") << (m == maxMode::MAXIMIZE ? ", maximizing" : "") << ", saved after iteration " << stop << " from " << offset << ": " << s; return o.str(); };
	std::shared_ptr<G_OptimizationAlgorithm_Base> copy; Trace full = go(*a, offset, [&](const G_OptimizationAlgorithm_Base *p) { if ((int)p->getIteration() - (int)offset == stop) copy = p->clone<G_OptimizationAlgorithm_Base>(); }, true); if (!copy) { sq::outcome("ended early"); return; } std::string file; for (auto& f : files(dir)) if (f.find(a->getAlgorithmPersonalityType() + "-" + std::to_string(offset + stop) + "-") != std::string::npos) file = dir + "/" + f; SQ_CHECK(file != "", w("no checkpoint"));
	if (offset + stop + 1 >= offset + 5) { sq::outcome("nothing left"); return; }
	asked = 1000; copy = alg(k); copy->loadCheckpoint(file); copy->setCheckpointInterval(0); Trace want = go(*copy, offset + stop + 1);
	reset(1000 + offset + stop + 1); with_bests = true; on_iteration = [&](const G_OptimizationAlgorithm_Base *p) { mockrnd::seed(1000 + p->getIteration() + 1); }; on_init = [&](const G_OptimizationAlgorithm_Base *p) { mockrnd::seed(1000 + p->getIteration()); }; static std::string prog = "chain", o1 = "--consumer", v1 = "sc", o2 = "--cp_file"; std::string v2 = file; char *argv[] = {prog.data(), o1.data(), v1.data(), o2.data(), v2.data(), nullptr}; Go2 go2(5, argv, "./Go2.json"); auto f = alg(k); go2 & f; std::shared_ptr<G_OptimizationAlgorithm_Base> s; if (j < N) { s = alg(j); s->setMaxIteration(offset + 7); s->setReportIteration(1); s->setMaxStallIteration(0); s->registerExecutor(execMode::SERIAL, "./serial.json"); s->registerPluggableOM(std::make_shared<Mon>()); go2 & s; }
	go2.optimize(); Trace t; t.evals = evals; t.snaps = snaps; if (j < N) { t.evals.clear(); t.snaps.clear(); for (auto& e : evals) if (e.it < (int)want.snaps.size()) t.evals.push_back(e); for (size_t i = 0; i < want.snaps.size() && i < snaps.size(); i++) t.snaps.push_back(snaps[i]); } t.best = want.best; std::string d = diff(want, t); SQ_CHECK(d.empty(), w("Go2 continues differently (in memory / Go2): " + d)); int it = offset + stop + 1; for (auto& s : snaps) SQ_CHECK((int)s.iter == it++, w("iteration " + std::to_string(s.iter) + " instead of " + std::to_string(it - 1)));
	SQ_CHECK(go2.getNAlgorithms() == (j < N ? 2u : 1u) && (int)go2.getIteration() == it, w("iterations")); if (k != 2) { double best = NAN_; for (auto& e : full.evals) if (e.it <= stop && (!(best == best) || better(e.f[0], best, m))) best = e.f[0]; for (auto& e : evals) if (better(e.f[0], best, m)) best = e.f[0]; double r = raw(*go2.getBestGlobalIndividual<Ind>())[0]; SQ_CHECK(r == best, w("the result is " + std::to_string(r) + " although " + std::to_string(best) + " was found")); }
	sq::H h; h << k << j << stop << (int)m << (int)offset; for (auto& e : full.evals) h << e.f; sq::state(h); sq::outcome(std::to_string(snaps.size()) + " iterations");
}
SQ_SCENARIO(go2_refused) { int k = sq::choose(N, "algorithm"), kind = sq::choose(3, "kind"); std::string dir = fresh(); Gone g{dir}; fs::create_directory(dir); std::string v2 = dir + (kind == 0 ? "/checkpoint-PERSONALITY_OTHER-1-2-x" : kind == 1 ? "/nothing" : "/checkpoint-" + alg(k)->getAlgorithmPersonalityType() + "-0-0-x"); static std::string prog = "chain", o1 = "--consumer", v1 = "sc", o2 = "--cp_file"; char *argv[] = {prog.data(), o1.data(), v1.data(), o2.data(), v2.data(), nullptr}; reset(); Go2 go2(5, argv, "./Go2.json"); auto f = alg(k); f->setMaxIteration(1); fitness = [](const V&, GParameterSet *) -> V { return {1, 1}; }; go2 & f; go2.push_back(ind31({1}, 1, maxMode::MINIMIZE)); SQ_THROWS(go2.optimize(), NAME[k] << ", case " << kind << ": a missing or foreign checkpoint was accepted"); SQ_CHECK(evals.empty(), "evaluated"); sq::state(10 * k + kind); }
