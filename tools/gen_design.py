"""Writes DESIGN.md from checks.py, the seeded changes and the notes below."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
HEAD = open(V + "/tools/design_head.md").read()
NOTES = {}
cur = None
for l in open(V + "/tools/design_notes.md"):
    if l.startswith("## "): cur = l[3:].strip(); NOTES[cur] = []
    elif cur: NOTES[cur].append(l.rstrip())
CAUGHT = json.load(open(V + "/tools/seed/results.json"))
out = [HEAD.rstrip(), "", "## Properties", ""]
for p in P:
    i = p["id"]; c = checks.CHECKS.get(i)
    out += [f"### {i} {p['title']}", ""]
    if not c:
        out += ["Not applicable: " + checks.NOT_APPLICABLE.get(i, "(no check yet)"), ""]; continue
    h = sorted({checks.HARNESS[r["bin"]]["harness"] for r in c["runs"]})
    out += [f"*Harness* {', '.join('`harness/' + x + '`' for x in h)}; scenarios {', '.join(sorted({r['scenario'] for r in c['runs']}))}; level {c['level']}.", "",
            "*Enumerated and judged.* " + c["note"], "", "*Bounds (thorough in parentheses).* " + c["bounds"] + ".", "",
            "*Beyond the tests.* " + p["why_tests_cant"] + " Enumerated instead: " + p["quantifier"]["text"] + ".", ""]
    n = [x for x in NOTES.get(i, []) if x]
    if n: out += ["*Notes.*"] + ["* " + x.lstrip("* ") for x in n] + [""]
    s = [os.path.basename(d) for d in sorted(glob.glob(V + "/seeded/*")) if json.load(open(d + "/meta.json"))["property"] == i]
    if s: out += ["*Seeded changes.* " + "; ".join(f"`{x}` ({CAUGHT.get(x, 'not run')})" for x in s) + ".", ""]
if "END" in NOTES: out += [x for x in NOTES["END"]]
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
