#!/bin/bash
# Builds the harness with (release) and without (plain) debug assertions and overflow checks.
cd "$(dirname "$0")/harness" || exit 2
LOG=$(mktemp -d)
trap '/bin/rm -rf "$LOG"' EXIT
cargo build --profile plain --offline --quiet >"$LOG/plain" 2>&1 &
cargo build --release --offline --quiet >"$LOG/release" 2>&1
r=$?
wait $!
p=$?
if [ $r != 0 ] || [ $p != 0 ]; then
    cat "$LOG"/* | grep -E '^error' -A12 | head -60 >&2
    echo "build.sh: the harness does not build" >&2
    exit 2
fi
