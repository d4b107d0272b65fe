#!/bin/bash
# Builds the transcript program for several feature sets of jmt into harness/target/cfgs/<name>/bin
# (or leaves harness/target/cfgs/<name>/error where the library does not build).
cd "$(dirname "$0")/harness/cfgs" || exit 2
OUT="$(cd ..; pwd)/target/cfgs"
mkdir -p "$OUT"
one() {
    local f="${1%@*}" profile=release name dir
    # @plain: without debug assertions and overflow checks, as users build releases
    [ "$1" != "$f" ] && profile="${1#*@}"
    name="${1:-none}"
    name="${name//t_/}"
    name="${name//,/+}"
    dir="$OUT/$name"
    mkdir -p "$dir"
    /bin/rm -f "$dir/bin" "$dir/error"
    if cargo build --profile "$profile" --offline --quiet -j 3 --target-dir "$dir" --features "$f" >"$dir/log" 2>&1; then
        cp "$dir/$profile/cfgs" "$dir/bin"
    elif grep -q 'could not compile `jmt`' "$dir/log"; then
        grep -E '^error' -A6 "$dir/log" | head -40 >"$dir/error"
    else
        tail -40 "$dir/log" >&2
        return 2
    fi
}
export OUT
export -f one
printf '%s\n' "" t_std t_ics23 t_std,t_ics23,t_sha2 t_mocks,t_migration t_std,t_sha2,t_mocks \
    t_std,t_migration t_ics23,t_sha2,t_mocks,t_blake3 t_std,t_ics23,t_sha2,t_migration,t_mocks,t_blake3 \
    t_std,t_ics23,t_sha2,t_migration,t_mocks@plain |
    tr '\n' '\0' | xargs -0 -P 4 -I{} bash -c 'one "{}"' || { echo "cfgs.sh: a configuration does not build" >&2; exit 2; }
