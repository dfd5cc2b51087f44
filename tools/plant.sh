#!/bin/bash
# tools/plant.sh ID...: checks seeded/ID in a scratch copy of /repo: builds, passes the stable tests, demo fails
# with the patch and passes without it.
P=/tmp/plant
[ -d $P ] || cp -a /repo $P
sed "s#/repo/#$P/#" /opt/vp/test.sh > /tmp/plant-test.sh
. /opt/vp/env.sh
git -C $P checkout -q -- . && git -C $P pull -q --ff-only /repo 2>/dev/null || { git -C $P fetch -q /repo HEAD && git -C $P reset -q --hard FETCH_HEAD; }
for id in "$@"; do
    d=/verif/seeded/$id
    tmp=$(mktemp -d); cp -a $d/. $tmp/; rm -f "$tmp"/*.diff "$tmp"/meta.json
    cd $P && git checkout -q -- .
    if [ -z "$NOCLEAN" ]; then
        timeout 300 bash $tmp/demo.sh >$tmp/clean.log 2>&1; c=$?
    else c=skip; fi
    git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
    timeout 300 bash $tmp/demo.sh >$tmp/bug.log 2>&1; b=$?
    t=skip
    if [ -z "$NOTEST" ]; then
        cargo test --workspace --no-run --offline --locked >$tmp/build.log 2>&1 || echo "$id: BUILD FAILS"
        bash /tmp/plant-test.sh $tmp/out.json >$tmp/test.log 2>&1
        t=$(tail -1 $tmp/test.log)
    fi
    git checkout -q -- .
    echo "$id: demo clean=$c bug=$b tests: $t"
    [ "$c" = 0 -o "$c" = skip ] && [ $b != 0 ] || { echo "--- clean"; tail -20 $tmp/clean.log; echo "--- bug"; tail -30 $tmp/bug.log; }
    [ -n "$VERBOSE" ] && { echo "--- bug"; tail -30 $tmp/bug.log; }
    rm -rf "$tmp"
    git status --short | head -3
done
