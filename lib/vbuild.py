#!/usr/bin/env python3
"""Build driver: compiles sources of /repo's *current* working tree together with a harness.

Every object is produced by `ccache <compiler>` keyed on content (never on mtimes), so an edit of
/repo is always seen and an unchanged tree is cheap.  Nothing is written into /repo.
"""
import os, subprocess, sys, hashlib, re, concurrent.futures as cf, shutil, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LIBS = ["common", "hap", "courtier", "geneva", "geneva-individuals"]
CXX = "/usr/bin/g++"

BASE = ["-std=c++17", "-include", "cstdint", "-ftemplate-depth=1024", "-pthread", "-fPIC",
        "-fno-unsafe-math-optimizations", "-fno-finite-math-only", "-w", "-DDEBUG", "-DGEM_DYNAMIC", "-g0"]

FLAVORS = {
    # ordinary code, used by the sequential explorers
    "plain": ["-O0"],
    # as plain, with the repository's own "testing" hooks (GEM_TESTING) compiled in
    "testing": ["-O0", "-DGEM_TESTING"],
    # instrumented for the schedule explorer: the __tsan_* calls resolve to /verif/mc/mcrt.cpp
    "mc": ["-O1", "-fno-inline", "-fno-omit-frame-pointer", "-fsanitize=thread", "-gline-tables-only" if False else "-g1"],
}
BOOST = ["boost_atomic", "boost_filesystem", "boost_regex", "boost_serialization", "boost_system",
         "boost_program_options", "boost_thread"]


def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="8G", CCACHE_NOHASHDIR="1",
             CCACHE_COMPILERCHECK="content", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime",
             CCACHE_DIRECT="1", LANG="C.UTF-8", CCACHE_COMPRESSLEVEL="1", CCACHE_TEMPDIR=os.path.join(BUILD, "tmp"))
    return e


def gen_defines():
    """GGlobalDefines.hpp is generated by cmake (and git-ignored). If the tree has none, generate it out of tree."""
    if os.path.exists(os.path.join(REPO, "include/common/GGlobalDefines.hpp")):
        return []
    out = os.path.join(BUILD, "gen/include/common")
    os.makedirs(out, exist_ok=True)
    txt = open(os.path.join(REPO, "include/common/GGlobalDefines.hpp.in")).read()
    txt = re.sub(r"@[A-Z_a-z0-9]+@", "", txt)
    txt = re.sub(r"^\s*#cmakedefine01\s+(\S+).*$", r"#define \1 0", txt, flags=re.M)
    txt = re.sub(r"^\s*#cmakedefine\s+(\S+).*$", r"/* #undef \1 */", txt, flags=re.M)
    p = os.path.join(out, "GGlobalDefines.hpp")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return ["-I" + os.path.join(BUILD, "gen/include")]


def flags(flavor, extra=()):
    return BASE + FLAVORS[flavor] + list(extra) + gen_defines() + ["-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "mc")]


class BuildError(Exception):
    pass


class LinkError(BuildError):
    pass


def compile_one(src, flavor, extra=()):
    fl = flags(flavor, extra)
    h = hashlib.sha1(("\0".join(fl) + "\0" + src).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, "obj", flavor, os.path.basename(src) + "." + h + ".o")
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp.o" % os.getpid()
    cmd = ["ccache", CXX] + fl + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compilation failed: %s\n%s" % (src, "\n".join([l for l in r.stdout.splitlines() if "error" in l][:20])+r.stdout[-1500:]))
    new = hashlib.sha1(open(tmp, "rb").read()).hexdigest()
    os.replace(tmp, obj)
    return obj, new


def lib_sources(libs, exclude=()):
    res = []
    for l in libs:
        d = os.path.join(REPO, "src", l)
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp") and f not in exclude and "MPI" not in f:
                res.append(os.path.join(d, f))
    return res


# Unity groups: the library's sources are compiled as a few translation units (much cheaper than one by one).
# A source that no pattern matches goes to the "<lib>_rest" group, which is linked whenever the lib is used.
GROUPS = {
    "common": [("common_plot", r"GPlotDesigner|GCanvas"), ("common_base", r"GExceptions|GThreadGroup|GThreadPool|GCommonEnums|GLogger|GCommonHelper|GCommonMath|GExpectation|GFormula|GParserB")],
    "hap": [("hap_fac", r"GRandomFactory"), ("hap_base", r".")],
    "courtier": [("courtier_demo", r"GDemo"), ("courtier_base", r".")],
    "geneva": [("geneva_test1", r"GTestIndividual"), ("geneva_mon", r"GPluggable"),
               ("geneva_p1", r"GConstrained"), ("geneva_p2", r"GDouble(Object|Coll)|GInt32(Object|Coll)"),
               ("geneva_p3", r"Adaptor|GBoolean"),
               ("geneva_prop", r"GParameterP"), ("geneva_set", r"GParameterSet|MultiConstraint"), ("geneva_core", r"GObject|GParameterBase|GParameterObject|GOptimizationEnums|G_Interface|GenevaHelper|GPersonality|Consumers|GenevaInit"),
               ("geneva_a1", r"ParChild|EvolutionaryAlgorithm|SimulatedAnnealing"), ("geneva_a2", r"Swarm|G_OA_Conj|Gradient"), ("geneva_a3", r"ParameterScan|GPostProc"), ("geneva_base", r"OptimizationAlgorithm_Base"), ("geneva_go2", r"Go2")],
    "geneva-individuals": [("ind_func", r"GFunctionIndividual"), ("ind_delay", r"GDelay"), ("ind_neural", r"GNeural"), ("ind_ext", r"GExternal"), ("ind_line", r"GLineFit"), ("ind_test", r"GTestInd"), ("ind_meta", r"GMeta")],
}


def group_sources(want, exclude=()):
    """want: group or lib names. returns [(group name, [sources])]"""
    out = {}
    for lib, pats in GROUPS.items():
        names = [n for n, _ in pats]
        sel = set(names + [lib + "_rest"]) if lib in want else set(n for n in names if n in want)
        if not sel: continue
        if sel: sel.add(lib + "_rest")
        for s in lib_sources([lib], exclude):
            b = os.path.basename(s)
            g = next((n for n, p in pats if re.search(p, b)), lib + "_rest")
            if g in sel: out.setdefault(g, []).append(s)
    return sorted(out.items())


def put(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != txt:
        tmp = path + ".%d" % os.getpid(); open(tmp, "w").write(txt); os.replace(tmp, path)


def compile_group(name, srcs, flavor, extra):
    if len(srcs) == 1: return [compile_one(srcs[0], flavor, extra)]
    u = os.path.join(BUILD, "unity", name + "-" + hashlib.sha1(" ".join(srcs).encode()).hexdigest()[:8] + ".cpp")
    put(u, "".join('#include "%s"\n' % s for s in srcs))
    try:
        return [compile_one(u, flavor, extra)]
    except BuildError:   # e.g. two sources of the group now define the same file-local name
        return [compile_one(s, flavor, extra) for s in srcs]


def build(name, sources, flavor="plain", libs=(), exclude=(), extra=(), link=(), runtime_plain=(), mock=()):
    """Compile `sources` (paths, relative ones under /verif) + the unity groups / libs named in `libs`; return the executable.
    runtime_plain: sources compiled WITHOUT instrumentation (the explorer's own runtime)."""
    try:
        return _build(name, sources, flavor, libs, exclude, extra, link, runtime_plain, mock)
    except LinkError as e:
        if os.environ.get("VERIF_DEBUG"): print(e, file=sys.stderr)
        # the selection of groups no longer suffices on this tree: take everything
        full = [l for l in LIBS if l != "geneva-individuals" or any(str(x).startswith("ind_") for x in libs)]
        return _build(name, sources, flavor, full, exclude, extra, link, runtime_plain, mock)


def _build(name, sources, flavor, libs, exclude, extra, link, runtime_plain, mock):
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    jobs = []
    absp = lambda s: os.path.join(VERIF, s) if not s.startswith("/") else s
    for s in list(sources) + list(mock):
        jobs.append((os.path.getsize(absp(s)) * 50, lambda s=s: [compile_one(absp(s), flavor, tuple(extra))]))
    for s in runtime_plain:
        jobs.append((os.path.getsize(absp(s)), lambda s=s: [compile_one(absp(s), "plain", ("-O2", "-g1"))]))
    for g, srcs in group_sources(libs, exclude):
        jobs.append((sum(os.path.getsize(s) for s in srcs), lambda g=g, srcs=srcs: compile_group(g, srcs, flavor, tuple(extra))))
    jobs.sort(key=lambda j: -j[0])   # biggest first
    objs, hs = [], []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for r in ex.map(lambda j: j[1](), jobs):
            for o, h in r:
                objs.append(o)
                hs.append(h)
    key = hashlib.sha1(" ".join(sorted(hs) + list(link)).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "bin", name + "." + key)
    if os.path.exists(exe):
        return exe
    for old in os.listdir(os.path.join(BUILD, "bin")):
        if old.startswith(name + "."):
            try: os.unlink(os.path.join(BUILD, "bin", old))
            except OSError: pass
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = [CXX, "-pthread", "-o", tmp] + sorted(objs) + list(link) + ["-l" + b for b in BOOST] + ["-ldl", "-lrt"]
    if os.path.exists("/usr/bin/ld.gold"): cmd.insert(1, "-fuse-ld=gold")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise LinkError("link failed: %s\n%s" % (name, "\n".join([l for l in r.stdout.splitlines() if "undefined" in l or "multiple" in l][:20]) + r.stdout[-1500:]))
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    t = time.time()
    for fl in sys.argv[1:] or ["plain"]:
        os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            def one(s):
                t0=time.time(); compile_one(s, fl); return s, time.time()-t0
            for s, d in ex.map(one, lib_sources(LIBS)):
                if d > 15: print("%6.1f %s" % (d, s))
        print(fl, time.time() - t)
