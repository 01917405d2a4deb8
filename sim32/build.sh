#!/bin/bash
# Builds sim32 for wasm32 without network: the standard library comes from the
# toolchain's sources, all dependencies from cargo's cache.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
export CARGO_NET_OFFLINE=true
mkdir -p target
all="$here/target/sources"
if [ ! -e "$all/.done" ]; then
    rm -rf "$here/target/sources" "$here/target/vendored"
    cargo +nightly vendor --offline --locked "$here/target/vendored" >/dev/null 2>"$here/target/vendor.log" || {
        tail -5 "$here/target/vendor.log" >&2
        exit 2
    }
    mkdir -p "$all"
    ln -s "$(rustc +nightly --print sysroot)"/lib/rustlib/src/rust/library/vendor/* "$all/"
    for d in "$here"/target/vendored/*; do
        n=$(basename "$d")
        [ -e "$all/$n" ] || ln -s "$d" "$all/$n"
    done
    touch "$all/.done"
fi
rm -rf "$here"/target/wasm32-unknown-unknown/release/.fingerprint/substrate_parser-* "$here"/target/wasm32-unknown-unknown/release/.fingerprint/sim32-*
export RUSTFLAGS="-C link-arg=-zstack-size=16777216"
log=$(cargo +nightly build --offline --locked --release -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown \
    --config 'source.crates-io.replace-with="all"' --config "source.all.directory='$all'" 2>&1) || {
    printf '%s\n' "$log" | tail -40 >&2
    exit 2
}
