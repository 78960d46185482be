#!/bin/bash
# usage: check.sh PROPERTY   - rebuilds the simulator from /repo's working tree and explores seeds for one property.
cd "$(dirname "$0")" || exit 2
ID=${1:?property}; TIER=${VERIF_TIER:-quick}; SEED=${VERIF_SEED:-1}; SECS=${VERIF_SECS:-}
[ -n "$SECS" ] || { [ "$TIER" = thorough ] && SECS=600 || SECS=30; }
B=build/chk-$ID; mkdir -p "$B" evidence build/replays
bash sim/build.sh "$B" || { echo "$ID: the simulator does not build from the working tree" >&2; exit 2; }
"$B/dst" check "$ID" --secs "$SECS" --seed "$SEED" --tier "$TIER" --evidence "$PWD/evidence" --replays "$PWD/build/replays" --known "$PWD/known_findings.txt"; rc=$?
rm -rf "/verif/$B"
exit $rc
