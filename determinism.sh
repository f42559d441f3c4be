#!/bin/bash
# Usage: determinism.sh [RUNS]
# Runs the first RUNS plans of several seeds of every property twice, split
# differently over processes, and compares everything observed.
set -u
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
N=${1:-2000}
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
bad=0
for p in ${PROPS:-$("$SIM" list)}; do
    for seed in 1 2 3; do
        "$SIM" trace --property "$p" --seed $seed --from 0 --to "$N" >"$T/a" &
        for k in 0 1 2 3 4 5 6; do
            "$SIM" trace --property "$p" --seed $seed --from $((N * k / 7)) --to $((N * (k + 1) / 7)) >"$T/b$k" &
        done
        wait
        cat "$T"/b? >"$T/b"
        if cmp -s "$T/a" "$T/b" && [ -s "$T/a" ]; then
            echo "$p seed $seed: $(wc -l <"$T/a") runs, same"
        else
            echo "$p seed $seed: DIFFERENT"; diff "$T/a" "$T/b" | head -4
            bad=1
        fi
    done
done
exit $bad
