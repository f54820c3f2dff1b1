#!/bin/bash
# Runs the checks on copies of /repo with refactored.patch and refactored2.patch
# applied: behaviour preserving rewrites of most functions, on which every check
# has to be quiet and decide everything ("undecided=0").
# Usage: refactor.sh [C01 ...]
set -e
d=$(mktemp -d /tmp/refactor.XXXXXX)
trap 'rm -rf "$d"' EXIT
cd "$(dirname "$0")/.."
for p in tools/refactored*.patch; do
    n=$d/$(basename $p .patch)
    mkdir $n
    cp -a /repo/strata /repo/droplets $n/
    patch -s -p1 -d $n < $p
    for i in ${@:-$(ls checks | sed -n 's/^c\([0-9][0-9]\)_.*/C\1/p' | sort)}; do
        STRATA_REPO=$n python3 run.py $i | grep 'VIOLATION\|tier=' | sed "s/^/$(basename $n) /"
    done
done
