#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
T0=$SECONDS
bash tools/build.sh || { echo "the tree does not build" >&2; exit 3; }
D=700
[ "$TIER" = thorough ] && D=10000
exec engine/target/release/engine --prop "$P" --tier "$TIER" --verif "$V" --repo /repo --seed "${VERIF_SEED:-1}" --deadline $((D - (SECONDS - T0)))
