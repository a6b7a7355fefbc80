#!/bin/sh
# determinism.sh [RUNS]: one seed is one execution? Compares the digests of every run of every check between two
# executions with different worker counts and different hash seeds.
cd "$(dirname "$0")/.." || exit 2
n=${1:-160}
t=$(mktemp -d /tmp/determinism-XXXXXX)
rc=0
for p in $(ls sim/props | sed -n 's/^c\([0-9]*\)\.py$/C\1/p'); do
    PYTHONHASHSEED=0 ./run.sh digests "$p" --runs "$n" --workers 8 > "$t/a"
    PYTHONHASHSEED=0 ./run.sh digests "$p" --runs "$n" --workers 3 > "$t/b"
    PYTHONHASHSEED=77 ./run.sh digests "$p" --runs "$n" --workers 5 > "$t/c"
    if cmp -s "$t/a" "$t/b" && cmp -s "$t/a" "$t/c"; then echo "$p: $(wc -l < "$t/a") runs identical"
    else echo "$p: DIFFERENT"; diff "$t/a" "$t/b" | head -4; diff "$t/a" "$t/c" | head -4; rc=1; fi
done
rm -r "$t"
exit $rc
