"""mk.py: seed(id, prop, edits, needs, breaks, demo) writes /verif/seeded/<id>."""
import json, os, shutil, subprocess
REPO = os.environ.get("SEED_REPO", "/repo")
H = os.path.dirname(os.path.abspath(__file__))
def seed(sid, prop, edits, needs, breaks, demo, sh=None, extra={}):
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(f"git -C {REPO} status --porcelain -uno", shell=True, capture_output=True, text=True).stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            p = REPO + "/" + f; s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(f"git -C {REPO} diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(f"git -C {REPO} checkout -q -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(demo)
    shutil.copy(H + "/demo.h", d)
    open(d + "/demo.sh", "w").write(sh or open(H + "/demo.sh").read())
    for n, t in extra.items(): open(f"{d}/{n}", "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print(sid, "written")
