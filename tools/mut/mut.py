#!/usr/bin/env python3
"""mut.py LISTFILE [id...]: applies one-line changes one at a time to a clone (MUT_REPO, default /tmp/mu) and runs the
quick check of the named properties against it. Each entry: M(id, "C08 C09", file, old, new).
Prints: id prop rc first-violation."""
import os, subprocess, sys, re
R = os.environ.get("MUT_REPO", "/tmp/mu")
ms = []
def M(i, props, f, *edits): ms.append((i, props.split(), f, edits))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for i, props, f, edits in ms:
    if want and not any(re.fullmatch(w, i) for w in want): continue
    sh(f"git -C {R} checkout -q -- .")
    p = R + "/" + f; s = open(p).read(); bad = False
    for old, new in zip(edits[::2], edits[1::2]):
        if s.count(old) != 1: print(i, "EDIT MATCHES", s.count(old), repr(old), flush=True); bad = True; break
        s = s.replace(old, new)
    if bad: continue
    open(p, "w").write(s)
    for pr in props:
        r = sh(f"cd /verif && MC_REPO={R} timeout 880 python3 run.py check {pr} --tier quick")
        o = r.stdout + r.stderr
        v = re.findall(r"VIOLATION.*", o); e = re.findall(r"(?:error:|ERROR|sig=).*", o)
        print(f"{i:28s} {pr} rc={r.returncode} {'caught' if r.returncode == 1 and v else '*** MISSED' if r.returncode == 0 else '??? ' + o[-300:]} {(v or [''])[0][:60]} {(e or [''])[0][:120]}", flush=True)
    sh(f"git -C {R} checkout -q -- .")
