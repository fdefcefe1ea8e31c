#!/usr/bin/env python3
"""run.py setup | check <ID> [--tier quick|thorough] | replay <file> | manifest"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/mc"); sys.path.insert(0, V)
sys.dont_write_bytecode = True
import build
from checks import HARNESS, CHECKS

def known(prop):
    out = []
    for l in open(V + "/known_findings.txt"):
        l = l.strip()
        if l.startswith("known: "):
            kv = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
            if kv["property"] == prop:
                out.append((kv["sig"], l[7:].split(" ", 2)[2]))
    return out

def hbuild(name):
    h = dict(HARNESS[name])
    return build.build(name, **h)

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:" \
        "quarantine_size_mb=16:max_redzone=64"
    e["LC_ALL"] = "C"
    for k in ("UMF_LOG", "UMF_PROXY", "UMF_CONF"):
        e.pop(k, None)
    return e

CRASH = (98, 99, -4, -6, -7, -8, -11)
def check(prop, tier):
    c = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    kn = known(prop)
    runs = [r for r in c["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    total = c.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    res, viol = [], 0
    os.makedirs(build.BUILD + "/out", exist_ok=True)
    for i, r in enumerate(runs):
        b = hbuild(r["bin"])
        out = f"{build.BUILD}/out/{prop}-{i}.json"
        if os.path.exists(out):
            os.unlink(out)
        left = max(20, total - (time.time() - t0))
        cmd = [b, "--scenario", r["scenario"], "--prop", prop, "--out", out, "--budget", str(min(left, r.get("budget", left))),
               "--hang", str(r.get("hang", 20)), "--replaydir", build.BUILD + "/replays"]
        if tier == "thorough":
            cmd.append("--thorough")
        par = dict(r.get("params", {})); par.update(r.get(tier, {}))
        for k, v in par.items():
            cmd += ["--param", f"{k}={v}"]
        for s, _ in kn:
            cmd += ["--known", s]
        if "workers" in r:
            cmd += ["--workers", str(r["workers"])]
        e = env(); e.update(r.get("env", {}))
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, text=True, cwd=build.BUILD)
        sys.stdout.write(p.stdout); sys.stdout.flush()
        if p.returncode in CRASH:
            # the library's constructor or the set-up of the scenario crashed, before anything was explored
            q = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=build.BUILD)
            if q.returncode in CRASH:
                rp = f"{build.BUILD}/replays/{prop}-{r['scenario']}-start.txt"
                with open(rp, "w") as fh:
                    fh.write("command: " + " ".join(cmd) + "\n" + q.stderr[-20000:])
                print(f"VIOLATION property={prop} replay={rp}\n  scenario={r['scenario']} crash while the library was started (exit {q.returncode})")
                res.append(dict(scenario=r["scenario"], bin=r["bin"], params=par, states=0, transitions=0, sched_steps=0, executions=0, outcomes=0, complete=False, violations=["crash at start"]))
                viol += 1
                break
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print(f"engine error in {r['scenario']} (exit {p.returncode})", file=sys.stderr)
            sys.exit(2)
        d = json.load(open(out)); d["bin"] = r["bin"]; res.append(d)
        viol += len(d["violations"])
        if viol:
            break
    for s, desc in kn:
        print(f"KNOWN-FINDING: property={prop} {s} {desc}")
    tot = lambda k: sum(d[k] for d in res)
    cov = dict(states=tot("states"), transitions=tot("transitions") + tot("sched_steps"),
               traces_validated_against_impl=tot("executions"),
               distinct_outcomes=tot("outcomes"),
               exhaustive=all(d["complete"] for d in res) and not viol,
               samples=[s for d in res for s in d.get("samples", [])[-1:]],
               bounds=c["bounds"],
               runs=[{k: d.get(k, 0) for k in ("bin", "scenario", "params", "executions", "transitions", "sched_steps", "states", "outcomes",
                                        "pruned", "max_choices", "race_points", "rounds", "diverged", "unreproducible",
                                        "known_hits", "complete", "wall_s")} for d in res])
    if c["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = tot("executions")
        cov["distinct_nontrivial"] = tot("states")
        cov["rule"] = c["rule"]
        for k in ("states", "traces_validated_against_impl"):
            del cov[k]
    ev = dict(property=prop, tier=tier, seed=seed, level=c["level"], coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=viol, assumptions=c.get("assumptions", []))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    return 1 if viol else 0

def manifest():
    props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    from checks import NOT_APPLICABLE
    m = dict(version=1, setup_cmd="python3 run.py setup",
             checks=[dict(property=p, quick_cmd=f"python3 run.py check {p} --tier quick",
                          thorough_cmd=f"python3 run.py check {p} --tier thorough",
                          technique=CHECKS[p]["technique"], level=CHECKS[p]["level"], level_note=CHECKS[p]["note"])
                     for p in props if p in CHECKS],
             not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction")) for p in props if p not in CHECKS],
             hooks=dict(guard="none", enable="no hooks: the checks compile the unmodified sources of /repo and interpose at link time",
                        source_commits=[]))
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        try:
            for h in HARNESS:
                hbuild(h)
        except build.BuildError as e:
            print(e, file=sys.stderr); return 2
        return 0
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        try:
            return check(a[1], tier)
        except build.BuildError as e:
            print(e, file=sys.stderr); return 2
    if a[0] == "replay":
        b = open(a[1]).readline().split()[1]
        return subprocess.call([b, "--replay", a[1]], env=env())
    if a[0] == "manifest":
        return manifest()
    return 2
sys.exit(main())
