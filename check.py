#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--scenario S]: decide one property on /repo's current tree.

exit 0: held on everything explored (known findings are printed), exit 1: VIOLATION line, other: error of the check.
"""
import json, os, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild
from registry import CHECKS


def known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                head, _, desc = l[len("finding: "):].strip().partition(" :: ")
                f = dict(kv.split("=", 1) for kv in head.split(" ", 2))
                res.append((f["scenario"], f["match"], desc))
    return res


def build(pid):
    c = CHECKS[pid]
    if c["engine"] == "mc":
        return vbuild.build(pid, ["harness/%s.cpp" % pid], "mc", libs=c.get("libs", ()), exclude=c.get("exclude", ()),
                            extra=c.get("extra", ()), link=["-rdynamic"], runtime_plain=["mc/mcrt.cpp"], mock=c.get("mock", ()))
    return vbuild.build(pid, ["harness/%s.cpp" % pid], c.get("flavor", "plain"), libs=c.get("libs", ()), exclude=c.get("exclude", ()),
                        extra=c.get("extra", ()), runtime_plain=["mc/sqrt.cpp"], mock=c.get("mock", ()))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]
        if a[0] == "--scenario": only = a[1]
        a = a[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    exe = build(pid)
    t_build = time.time() - t0
    limit = (600 if tier == "quick" else 4 * 3600) # guard only: the registered bounds complete well below it
    scn = [l.split()[0] for l in subprocess.check_output([exe, "--list"], text=True).splitlines() if l.strip()]
    if not scn:
        print("no scenarios", file=sys.stderr); return 2
    kn = known(pid)
    scratch = os.path.join(VERIF, ".build", "scratch", pid)
    subprocess.run(["rm", "-rf", scratch]); os.makedirs(scratch)
    res, viol, hits = [], None, {}
    for s in scn:
        if only and only not in s: continue
        left = limit - (time.time() - t0 - t_build)
        if left < 5: res.append(dict(scenario=s, capped=True, skipped=True, executions=0, states=0, transitions=0)); continue
        kf = os.path.join(scratch, "known"); open(kf, "w").write("".join(m.replace("_", " ") + "\n" for sc, m, d in kn if sc in (s, "*")))
        cmd = [exe, "--scenario", s, "--budget", "%.0f" % left, "--known", kf, "--workers", str(min(8, os.cpu_count() or 8))] + (["--thorough"] if tier == "thorough" else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=scratch)
        try:
            d = json.loads(r.stdout.splitlines()[-1], strict=False)
        except Exception:
            print("scenario %s: no verdict (exit %d)\n%s\n%s" % (s, r.returncode, r.stdout[-2000:], r.stderr[-2000:]), file=sys.stderr); return 2
        res.append(d)
        for m, n in d.get("known", {}).items():
            hits[(s, m)] = n
        if d.get("violation"):
            v = d["violation"]
            rp = os.path.join(VERIF, ".build", "replay"); os.makedirs(rp, exist_ok=True)
            rf = os.path.join(rp, "%s-%s.txt" % (pid, s))
            open(rf, "w").write("%s\n# property %s scenario %s kind %s\n# %s\n# replay: python3 /verif/replay.py %s\n" % (v["schedule"], pid, s, v["kind"], v["message"].replace("\n", " "), rf))
            viol = (rf, s, v); break
        if d.get("internal"):
            print("scenario %s: %s" % (s, d["internal"]), file=sys.stderr); return 2
        if r.returncode != 0:
            print("scenario %s: exit %d\n%s" % (s, r.returncode, r.stderr[-2000:]), file=sys.stderr); return 2
    subprocess.run(["rm", "-rf", scratch])
    for sc, m, d in kn:
        n = sum(v for (s, mm), v in hits.items() if mm == m.replace("_", " ") and sc in (s, "*"))
        if n: print("KNOWN-FINDING: property=%s %s (%d executions)" % (pid, d, n))
    tot = lambda k: sum(int(d.get(k, 0)) for d in res)
    samples = []
    for d in res:
        for o in d.get("outcomes", [])[:2]:
            if o and len(samples) < 16: samples.append({"scenario": d["scenario"], "outcome": o[:300]})
    ev = dict(property=pid, tier=tier, seed=seed, level=c.get("level", "model_checking"), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
              coverage=dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions") - tot("pruned"),
                            evaluations=tot("executions"), distinct_nontrivial=tot("distinct_outcomes"),
                            rule=c.get("rule", "every execution runs the real code; distinct = distinct observed outcomes per scenario (capped at 65 by the explorer)"),
                            exhaustive=all(not d.get("capped") for d in res) and not viol, build_s=round(t_build, 2),
                            scenarios=[{k: d.get(k) for k in ("scenario", "bound", "bound_completed", "capped", "executions", "pruned", "states", "transitions", "distinct_outcomes", "max_steps", "wall_s")} for d in res],
                            samples=samples or [{"scenario": res[0]["scenario"], "outcome": "no label"}] if res else []),
              assumptions=c.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d scenarios, %d executions, %d states, %d transitions, build %.1fs, total %.1fs" % (pid, len(res), tot("executions"), tot("states"), tot("transitions"), t_build, time.time() - t0))
    for d in res:
        if d.get("capped"): print("note: %s capped, completed bound %s" % (d["scenario"], d.get("bound_completed")))
    if viol:
        rf, s, v = viol
        print("%s: %s: %s" % (s, v["kind"], v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rf))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except vbuild.BuildError as e:
        print("build error: %s" % e, file=sys.stderr); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
