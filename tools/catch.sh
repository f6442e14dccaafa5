#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo in turn, runs the check of its property (and with ALL=1 every check), undoes it.
cd /verif
ids="$*"; [ -n "$ids" ] || ids="$(ls seeded)"
for b in $ids; do
  p="$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")"
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  cs="$p"; [ -n "$ALL" ] && cs="$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")"
  r=""
  for c in $cs; do
    s=$(date +%s)
    timeout 900 bash check.sh $c quick >/tmp/catch.out 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " /tmp/catch.out; then r="$r $c($(( $(date +%s) - s ))s)"; elif [ $rc != 0 ]; then r="$r $c:rc=$rc"; elif [ $c = $p ]; then r="$r $c:MISSED"; fi
  done
  git -C /repo checkout -q -- .
  echo "$b [$p]:$r"
done
