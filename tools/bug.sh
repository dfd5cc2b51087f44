#!/bin/bash
# tools/bug.sh ID [PROPERTY...]: runs the check(s) against /repo with seeded/ID applied.
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply $d/patch.diff || exit 2
for p in $props; do
    out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} ./check $p 2>&1); rc=$?
    echo "$id $p: exit $rc: $(echo "$out" | grep -B1 VIOLATION | head -4 | cut -c1-300 | tr '\n' '|')"
done
