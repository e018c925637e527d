#!/bin/bash
# Builds the harness together with the current working tree of /repo and runs one of its commands:
#   check.sh build | check.sh check ID | check.sh replay FILE | check.sh case ID SEED CASE | check.sh list
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$here/harness/target"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
(
    flock 9
    cd "$here/harness" || exit 2
    # the tree under test is always compiled anew, whatever the time stamps of its files are
    cargo clean --offline --locked -p strict_types >/dev/null 2>&1
    cargo build --offline --locked >"$log" 2>&1
) 9>"$CARGO_TARGET_DIR/.lock"
if [ $? -ne 0 ]; then
    echo "INCONCLUSIVE: the harness does not build"
    tail -40 "$log"
    exit 2
fi
[ "$1" = build ] && exit 0
export VERIF_DIR="$here"
cd "$here" || exit 2
exec "$CARGO_TARGET_DIR/debug/vmon" "$@"
