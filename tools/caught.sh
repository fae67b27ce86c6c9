#!/bin/bash
# usage: caught.sh ID [PROPERTY]   apply to /repo, run the property's quick check, undo
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
[ -z "$(git -C /repo status --short)" ] || { echo "repo not clean"; exit 1; }
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 1
cd /verif; ./check $P quick > /tmp/caught_$ID.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$ID $P rc=$rc $(grep -c '^VIOLATION' /tmp/caught_$ID.log) violations: $(grep -A1 '^VIOLATION' /tmp/caught_$ID.log | sed -n 2p | cut -c1-150)"
