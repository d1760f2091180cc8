#!/bin/bash
# run.sh <property> : build the simulator around /repo's current sources and
# search for a violation of one property. VERIF_SEED and VERIF_TIER apply.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case $tier in
thorough) t=${VERIF_TIME:-600} ;;
*) tier=quick; t=${VERIF_TIME:-15} ;;
esac
python3 sim/build.py || exit 2
mkdir -p evidence/replays || exit 2
exec .build/simrun --property "$id" --tier "$tier" --seed "$seed" --time "$t" \
    --evidence "evidence/$id.json" --replay-dir evidence/replays --known known-findings.txt
