#!/bin/bash
# usage: plant.sh ID   Confirms the planted bug seeded/ID: applies, builds, passes the stable tests, demo tells it apart.
set -u
d=/verif/seeded/$1; w=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$w/repo"
st=0
git -C "$w/repo" apply "$d/patch.diff" || { echo "does not apply"; rm -r "$w"; exit 1; }
# build and tests look at /repo only: apply it there for a moment
( cd /repo && git diff --quiet && bash "$d/demo.sh" > $w/demo0 2>&1 ); a=$?
git -C /repo apply "$d/patch.diff"
bash /opt/vp/build.sh > $w/b 2>&1 || { echo "build fails"; st=1; }
bash /opt/vp/test.sh $w/t.json > /dev/null 2>&1
( cd /repo && bash "$d/demo.sh" > $w/demo1 2>&1 ); b=$?
git -C /repo checkout -- .
python3 - $w/t.json <<'PY' || st=1
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    return set(x.get('stable') or x.get('passed') or x.get('passing') or x)
lost=[n for n in names(b) if n not in set(t.get('passed') or t.get('pass') or [])]
print("lost tests:", lost[:5]); sys.exit(1 if lost else 0)
PY
echo "demo unchanged: $a  patched: $b"; tail -2 $w/demo0; tail -2 $w/demo1
[ $a = 0 ] && [ $b != 0 ] || st=1
rm -r "$w"; exit $st
