#!/bin/bash
# Development: tools/catch.sh ID... : applies each planted bug to /repo, runs the check of its property (or $PROP), undoes it
cd /verif
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick ./check $p > /tmp/catch.$id 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/catch.$id | tr '\n' ' ' | cut -c1-230)"
done
