#!/bin/bash
# try.sh ID... : demo on clean tree, demo with patch (static lib rebuilt only), optional quick checks
for id in "$@"; do
d=/verif/seeded/$id
cd /repo && git checkout -q -- . 
ninja -C _build/static src/libumf.a >/dev/null 2>&1 || ninja -C _build/static lib/libumf.a >/dev/null 2>&1
bash $d/demo.sh >/tmp/seed_a.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
ninja -C _build/static lib/libumf.a >/tmp/seed_build.log 2>&1 || echo BUILD FAILED
[ -n "$PROXY" ] && make -C _build/shared -j8 >/tmp/seed_build2.log 2>&1
bash $d/demo.sh >/tmp/seed_b.log 2>&1; b=$?
echo "$id: clean=$a patched=$b ($(tail -1 /tmp/seed_b.log))"
if [ -n "$CHECK" ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif && timeout 900 python3 run.py check ${CHECKP:-$p} 2>&1 | grep -E "VIOLATION|KNOWN|held|error" | head -5; echo "check rc=${PIPESTATUS[0]}")
fi
git checkout -q -- .
done
ninja -C _build/static lib/libumf.a >/dev/null 2>&1
[ -n "$PROXY" ] && make -C _build/shared -j8 >/tmp/seed_build2.log 2>&1
