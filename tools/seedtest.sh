#!/bin/bash
# usage: seedtest.sh [-n] [-s SECS] ID...  Confirms planted bugs in a scratch copy of /repo mounted over /repo in a private mount
# namespace: applies, builds, stable tests pass (skipped with -n), demo passes without and fails with the patch, and the check of
# the bug's property reports it. Prints one line per bug.
NT=; SECS=40; while [ "${1#-}" != "$1" ]; do case $1 in -n) NT=1; shift;; -s) SECS=$2; shift 2;; esac; done
SD=${SEEDDIR:-/verif/seeded}; export NT SECS SD
for id in "$@"; do
  S=/tmp/seedtest-$$; rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; ( cd "$S/repo" && git checkout -q -- . )
  mkdir "$S/demo"; for f in $SD/$id/*; do case $f in *.diff|*/meta.json) ;; *) cp -r "$f" "$S/demo/";; esac; done
  unshare -Urm bash -c '
    id=$1; S=$2; mount --bind $S/repo /repo; cd /repo; o="$id:"
    bash /opt/vp/build.sh >$S/b0.log 2>&1 || { echo "$id: base build failed"; exit; }
    timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1; d0=$?; o="$o demo-base=$d0"
    git apply $SD/$id/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo "$id: patched build failed"; tail -5 $S/b1.log; exit; }
    timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1; d1=$?; o="$o demo-patched=$d1"
    if [ -z "$NT" ]; then timeout 800 bash /opt/vp/test.sh $S/out.json >$S/t.log 2>&1; o="$o $(python3 -c "
import json;b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);p=set(json.load(open(\"$S/out.json\"))[\"passed\"]);print(\"tests-missing=%d %s\"%(len(b-p),sorted(b-p)[:3]))")"; fi
    P=$(python3 -c "import json;print(json.load(open(\"$SD/$id/meta.json\"))[\"property\"])")
    B=/verif/build/seed-$$; bash /verif/sim/build.sh $B >$S/sb.log 2>&1 || echo "$id: sim build failed: $(tail -3 $S/sb.log)"
    t=$(date +%s); $B/dst check $P --secs $SECS --seed 1 --tier quick --evidence $S --replays $S --known /verif/known_findings.txt >$S/c.log 2>&1; rc=$?; o="$o check=$P rc=$rc $(grep -c "^VIOLATION property=$P" $S/c.log) $(($(date +%s)-t))s $(grep "^seed" $S/c.log|head -1|cut -c1-90)"
    [ -n "$SHOW" ] && { cat $S/d0.log; echo ----; cat $S/d1.log; echo ----; cat $S/c.log; }
    rm -rf "$B"; echo "$o"' _ "$id" "$S"
  rm -rf "/tmp/seedtest-$$"
done
