#!/bin/bash
# usage: tools/tryseed.sh <seed-id> [property]...   runs the checks against a copy of /repo with the planted change
V=$(cd "$(dirname "$0")/.." && pwd); S=$1; shift
W=$(mktemp -d /tmp/ts.XXXXXX)
mkdir $W/v; cp -a /repo $W/r; cp -a $V/harness $V/check.sh $V/known_findings.txt $V/properties.jsonl $W/v/ 2>/dev/null
git -C $W/r apply $V/seeded/$S/patch.diff || { echo "patch does not apply"; exit 2; }
P="$@"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$V/seeded/$S/meta.json'))['property'])")
for p in $P; do
  (cd $W/v && DART_REPO=$W/r ./check.sh $p ${TIER:-quick} ${OPTS} >$W/out 2>&1); rc=$?
  echo "$S $p rc=$rc $(grep -m1 -A2 VIOLATION $W/out | tr '\n' ' ' | cut -c1-300)"
  [ -n "$SHOW" ] && cat $W/out
done
rm -rf $W
