#!/bin/bash
# check.sh <property> <quick|thorough>: builds the simulator against /repo's working tree and
# searches for violations of one property. Exit 0: held; 1: violated; 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
verif=$PWD
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
. "$verif/build.sh" || exit 2
exec "$CARGO_TARGET_DIR/release/inksim" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
  --evidence "$verif/evidence/$id.json" --replays "$verif/replays" --known "$verif/KNOWN_FINDINGS.txt"
