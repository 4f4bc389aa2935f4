#!/bin/bash
# check.sh PROPERTY TIER: builds the harness from /repo's working tree and runs the check.
# check.sh build: builds only.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET VERIF_CASES
# Cargo judges freshness by modification times; without the fingerprints it compiles whatever they say.
rm -rf "$VERIF_DIR"/target/debug/.fingerprint "$VERIF_DIR"/target/release/.fingerprint "$VERIF_DIR"/target/macrogen/debug/.fingerprint "$VERIF_DIR"/target/count/release/.fingerprint
build() {
    local log="$VERIF_DIR/target/build.$1.log"
    # The build in which each step of the program (edge of its control flow graph) is counted.
    if [ "$1" = count ]; then
        export CARGO_TARGET_DIR="$VERIF_DIR/target/count"
        export RUSTFLAGS="--cfg count_steps -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
    fi
    mkdir -p "$VERIF_DIR/target"
    if ! (cd harness && cargo build --offline $2) >"$log" 2>&1; then
        tail -40 "$log"
        echo "check.sh: the harness does not build against /repo"
        exit 2
    fi
}
pids=
build debug "" & pids="$pids $!"
[ "$1" = C24 ] || { build release --release & pids="$pids $!"; }
case "$1" in build | C24) build count --release & pids="$pids $!" ;; esac
for p in $pids; do
    wait "$p" || exit 2
done
[ "$1" = build ] && exit 0
exec "$VERIF_DIR/target/debug/harness" run "$1" "$2"
