#!/bin/bash
# usage: bash check.sh PROPERTY [quick|thorough]
# exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
P=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
bash "$V/build.sh" || exit 2
B=$V/build
case "$VERIF_TIER" in
    thorough) S=${SECONDS_THOROUGH:-600} ;;
    *)        S=${SECONDS_QUICK:-60} ;;
esac
T=$(mktemp -d "$B/tmp/run.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
libs="libs=$B/plugin-release.so,$B/plugin-debug.so"
probes="probes=$B/probe-release.so,$B/probe-debug.so"
"$B/sim/release/sim" check "$P" seconds="$S" seed="$VERIF_SEED" "$libs" "$probes" approve="$B/approve" \
    known="$V/known_findings.txt" out="$V/out" evidence="$V/evidence/$P.json" tmp="$T"
