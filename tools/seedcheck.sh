#!/bin/bash
# seedcheck.sh ID...: runs the property's quick check against each planted change,
# in a scratch copy of /repo (development aid; the registered checks use /repo).
for id in "$@"; do
 T=$(mktemp -d); cp -a /repo $T/repo
 git -C $T/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf $T; continue; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 s=$(date +%s)
 ${GOSYM:-/verif/bin/gosym} check -id $p -tier quick -repo $T/repo -verif ${VERIF:-/verif} > $T/out 2>&1; rc=$?
 echo "$id: $p exit $rc $(( $(date +%s) - s ))s: $(grep -m1 VIOLATION $T/out)"
 [ $rc = 1 ] || tail -5 $T/out
 rm -rf "$T"
done
