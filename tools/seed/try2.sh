#!/bin/bash
# try2.sh ID...: everything about a seed, in a second clone SD (default /tmp/sd) with scripts in /tmp/vp2
SD=${SD:-/tmp/sd}; VP=${VP:-/tmp/vp2}
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/try.XXXXXX)
git -C $SD checkout -q -- .
git -C $SD apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
# '-' lines must be original
python3 - $d/patch.diff <<'P'
import subprocess,sys
f=None;orig=""
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); orig=subprocess.run(["git","-C","/repo","show","2b0bb94:"+f],capture_output=True,text=True).stdout.split('\n')
    elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in orig: print("NOT ORIGINAL:",l.rstrip())
P
bash $d/demo.sh >$w/a.log 2>&1; a=$?
mkdir $w/demo; cp $d/* $w/demo/; rm $w/demo/*.diff $w/demo/meta.json
sed -i "s#/repo#$SD#g" $w/demo/*
if [ -z "$NOTEST" ]; then
bash $VP/test.sh $w/out.json >$w/test.log 2>&1
t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open('$w/out.json')); m=sorted(b-set(o['passed'])); print(len(o['passed']),'missing',len(m),m[:4])")
else bash $VP/build.sh >$w/build.log 2>&1 || tail -5 $w/build.log; fi
bash $w/demo/demo.sh >$w/b.log 2>&1; b=$?
echo "$id: clean=$a patched=$b ($(tail -1 $w/b.log)) tests: $t"
[ $a = 0 ] || tail -3 $w/a.log
for c in ${CHECKP:-$p}; do
  [ -n "$NOCHECK" ] && continue
  (cd /verif && MC_REPO=$SD timeout 900 python3 run.py check $c >$w/chk.log 2>&1; rc=$?; echo "  $id check $c rc=$rc: $(grep -A1 VIOLATION $w/chk.log | head -2 | tr '\n' ' ')$(grep -m1 -i 'error:' $w/chk.log)")
done
git -C $SD checkout -q -- .
rm -r $w
done
