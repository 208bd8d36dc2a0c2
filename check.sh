#!/bin/bash
# check.sh ID [--replay FILE]: builds the harness against /repo's working tree
# and runs the check of one property. Exit 0: held; 1: VIOLATION; else: error.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
# old code, new compiler (same flag as the repository's own build here)
export RUSTFLAGS="-A dependency_on_unit_never_type_fallback -A warnings"
export RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$here/target
export PBT_VERIF=$here
id=$1; shift
[ "$id" = --build ] && id=build
mkdir -p "$here/evidence" "$here/target"
rm -f "$here/evidence/$id.json"
log=$here/target/build-$id.log
if ! cargo build --manifest-path "$here/harness/Cargo.toml" --offline --locked >"$log" 2>&1; then
    tail -n 40 "$log" >&2; echo "build failed" >&2; exit 3
fi
[ "$id" = build ] && exit 0
case $id in
C18|C19|C20|C02|C23)
    # the command line program, built from the same tree with the same settings
    if ! CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=0 \
        cargo build --manifest-path /repo/Cargo.toml --bin papyri --offline --locked >>"$log" 2>&1; then
        tail -n 40 "$log" >&2; echo "build failed" >&2; exit 3
    fi
    export PBT_PAPYRI=$here/target/debug/papyri;;
esac
exec "$here/target/debug/papyri-pbt" "$id" "$@"
