#!/bin/bash
# usage: catch.sh [ID...]   Runs each planted bug's own check on a copy of /repo with the bug; -a: every check.
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# = 0 ] && set -- $(ls /verif/seeded)
cd /verif
for id in "$@"; do
  w=$(mktemp -d /tmp/catch.XXXXXX)
  cp -a /repo "$w/repo" && git -C "$w/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -r "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  list=$p; [ -n "$all" ] && list=$(ls checks | sed -n 's/^\(p[0-9]*\).py/\U\1/p')
  res=
  for c in $list; do
    MQC_SIM_REPO=$w/repo timeout 900 /opt/venv/bin/python check.py $c quick > $w/out 2>&1; st=$?
    [ $st = 0 ] || res="$res $c($st: $(grep -m1 '^violated\|^harness' $w/out | cut -c1-110))"
    [ -z "$all" ] && [ $st = 0 ] && res="MISSED by $c"
  done
  echo "$id [$p]:$res"
  rm -r "$w"
done
