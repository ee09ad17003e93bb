#!/bin/bash
# Usage: check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Builds the harness against /repo's working tree and runs the monitors of one property.
# Exit 0: held on everything explored; 1: VIOLATION line; anything else: no verdict.
id="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS
mkdir -p "$here/evidence" "$here/replays" "$here/target"
rm -f "$here/evidence/$id.json"
build() { # args of cargo build
    local log="$here/target/build-$id.log"
    if ! cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" "$@" >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "HARNESS ERROR: the harness does not build" >&2
        exit 2
    fi
}
case "$id" in
C28)
    exec "$here/tools/sanitize.sh"
    ;;
C27)
    # checked arithmetic first, then arithmetic that wraps silently as in release builds
    build || exit 2
    VERIF_EVIDENCE_PART=.checked "$here/target/debug/mxcheck" C27
    rc=$?
    [ $rc -ne 0 ] && exit $rc
    build --profile wrapping || exit 2
    VERIF_EVIDENCE_PART=.wrapping "$here/target/wrapping/mxcheck" C27
    rc=$?
    python3 "$here/tools/merge_evidence.py" "$here/evidence" C27 .checked .wrapping || exit 2
    exit $rc
    ;;
*)
    build || exit 2
    exec "$here/target/debug/mxcheck" "$id"
    ;;
esac
