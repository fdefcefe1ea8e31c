#!/usr/bin/env python3
"""Developer tool: mcr.py <bin> <scenario> [k=v ...] [-t] [-- extra args]: build one harness and run one scenario."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc"); sys.path.insert(0, V); sys.dont_write_bytecode = True
sys.argv, a = [sys.argv[0], "none"], sys.argv[1:]
import build, checks
try:
    b = build.build(a[0], **checks.HARNESS[a[0]])
except build.BuildError as e:
    print("\n".join(l[:300] for l in str(e).splitlines() if not l.startswith("$"))[:2500]); sys.exit(3)
extra = []
if "--" in a:
    extra = a[a.index("--") + 1:]; a = a[:a.index("--")]
cmd = [b, "--scenario", a[1], "--prop", "DEV", "--out", "/tmp/mcr.json", "--replaydir", build.BUILD + "/replays"]
for x in a[2:]:
    cmd += ["--thorough"] if x == "-t" else ["--param", x]
e = dict(os.environ)
e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=16:max_redzone=64"
e["LC_ALL"] = "C"
r = subprocess.call(cmd + extra, env=e)
sys.exit(r)
