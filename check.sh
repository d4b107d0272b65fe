#!/bin/bash
# check.sh <property id> | check.sh replay <file>
# Rebuilds the harness against /repo's working tree, with and without debug assertions, and runs one
# check (or replays one case) with both.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
./build.sh || exit 2
if [ "$1" = C25 ] || { [ "$1" = replay ] && grep -q '"C25"' "$2"; }; then
    ./cfgs.sh || exit 2
fi
ulimit -v 26000000
for bin in release plain; do
    # C25 compares the two itself
    [ "$bin $1" = "plain C25" ] && continue
    if [ "$1" = replay ]; then
        "harness/target/$bin/harness" replay "$2" || exit
    else
        "harness/target/$bin/harness" check "$1" || exit
    fi
done
