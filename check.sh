#!/bin/bash
# check.sh <property> [quick|thorough]   run the check of one property
# check.sh replay <file>                 replay a recorded violation
# check.sh build                         build only
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
cd "$here/sim" || exit 2
build() {
    # never trust timestamps for the code under test
    rm -rf "$here"/sim/target/release/.fingerprint/substrate_parser-* "$here"/sim/target/release/.fingerprint/sim-*
    local log
    if ! log=$(cargo build --offline --release --locked 2>&1); then
        printf '%s\n' "$log" | tail -40 >&2
        exit 2
    fi
}
build
export SIM_NARROW="$here/sim32"
# C18 alone needs the build for the narrow target
if [ "$1" = C18 ] || { [ "$1" = replay ] && grep -q '^property C18' "$2" 2>/dev/null; }; then
    bash "$here/sim32/build.sh" || exit 2
fi
case "$1" in
build) exit 0 ;;
replay) exec ./target/release/sim replay "$2" ;;
esac
ulimit -c 0
tier="${2:-${VERIF_TIER:-quick}}"
SIM_FINDINGS="$here/known_findings.txt" ./target/release/sim check "$1" --seed "${VERIF_SEED:-1}" --tier "$tier" --root "$here"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
