#!/bin/bash
# usage: determinism.sh [RUNS] [PROPERTY...]: executes the same seeds in different processes, split in different ways, at
# different load, and compares complete traces and choice lists.
V=$(cd "$(dirname "$0")/.." && pwd)
N=${1:-400}; shift
[ $# -gt 0 ] || set -- C01 C02 C05 C07 C08 C09 C10 C16 C17 C18 C19 C21 C22 C23 C24
bash "$V/build.sh" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
bad=0
for p; do
    for way in 1 3 8; do
        for k in $(seq 0 $((way - 1))); do
            "$V/build/sim/release/sim" hashes "$p" seed=7 from=$k runs=$((N - k)) step=$way >"$T/$way.$k" &
        done
        wait
        sort -n "$T/$way".* >"$T/all.$way"
    done
    if cmp -s "$T/all.1" "$T/all.3" && cmp -s "$T/all.1" "$T/all.8"; then
        echo "$p: $(wc -l <"$T/all.1") runs identical in 3 ways of running them"
    else
        echo "$p: DIFFERENT"; diff "$T/all.1" "$T/all.3" | head -4; diff "$T/all.1" "$T/all.8" | head -4; bad=1
    fi
done
exit $bad
