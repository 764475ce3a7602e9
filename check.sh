#!/bin/bash
# check.sh <property> [quick|thorough] | check.sh replay <file> | check.sh build
# Builds the harness against the working tree of /repo and runs one check.
cd "$(dirname "$0")" || exit 2
root=$PWD
export VERIF_ROOT=$root HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
log=$(mktemp)
if ! (cd harness && CARGO_TARGET_DIR=$root/target cargo build --offline --locked) >"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "the harness does not build against /repo" >&2
    # The harness is itself a legal use of the library: when the library compiles and rustc refuses
    # the harness because of the library's types, legal uses do not compile (P23).
    prop=$1
    [ "$1" = replay ] && grep -q '"arm": "harness"' "$2" && prop=P23
    if [ "$prop" = P23 ] && grep -q '^error\[E[0-9]*\]' "$log" && grep -q 'could not compile .vharness.' "$log" \
        && ! grep -q 'could not compile .wot-td.' "$log"; then
        mkdir -p "$root/replays"
        python3 - "$log" "$root/replays/P23-harness.json" <<'PY'
import json, sys
text = open(sys.argv[1], encoding="utf-8", errors="replace").read()
json.dump({"property": "P23", "arm": "harness", "message": "the harness, a legal use of the library, does not compile", "log": text[-8000:]},
          open(sys.argv[2], "w"), indent=1)
PY
        echo "VIOLATION property=P23 replay=$root/replays/P23-harness.json"
        rm -f "$log"
        exit 1
    fi
    rm -f "$log"
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
if [ "$1" = replay ]; then
    if grep -q '"arm": "harness"' "$2"; then
        echo "the harness compiles: the property holds"
        exit 0
    fi
    exec target/debug/vharness replay "$2"
fi
exec target/debug/vharness "$1" "${2:-${VERIF_TIER:-quick}}"
