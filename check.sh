#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property by seeded simulation.
cd "$(dirname "$0")"
P=$1; T=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence
rm -f "$PWD/evidence/$P.json"
B=$(sim/build.sh) || { echo "the simulator does not build from /repo's working tree" >&2; exit 2; }
exec "$B" check --prop "$P" --tier "$T" --seed "${VERIF_SEED:-1}" --evidence "evidence/$P.json" \
    --known known_findings.txt --replays evidence/replay
