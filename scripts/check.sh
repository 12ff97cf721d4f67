#!/bin/bash
# Run the check of one property.   usage: check.sh ID [quick|thorough]
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error.
set -uo pipefail
VERIF=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_DIR=$VERIF
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
WORK=$VERIF/.work
bash "$VERIF/scripts/build.sh" || { echo "check.sh: build failed" >&2; exit 2; }
PART=$WORK/part-$ID
rm -f "$PART"
"$WORK/target/checked/vh" check "$ID" --tier "$TIER" --seed "$SEED" --part "$PART"
A=$?
[ $A -le 1 ] || exit 2
"$WORK/target/release/vh" check "$ID" --tier "$TIER" --seed "$SEED" --merge "$PART"
B=$?
rm -f "$PART"
[ $B -le 1 ] || { [ $A -eq 1 ] && exit 1; exit 2; }
exit $((A | B))
