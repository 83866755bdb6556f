#!/bin/bash
# check.sh <PROPERTY> [--case FAMILY IDX]: build the monitors against /repo's working tree, run one property.
# Exit 0 held, 1 violated (VIOLATION line), anything else: no verdict.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VERIF" HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2025-03-27 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= PROTOC=/usr/bin/protoc RUST_BACKTRACE=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
. "$VERIF/lib/build.sh" || exit 4
prop="$1"; shift
case "$prop" in
C*)
    build_prove || { echo "BUILD-ERROR: the prover monitors do not build against /repo"; exit 4; }
    SCRATCH="$(mktemp -d /tmp/cmon.XXXXXX)" || exit 4
    trap 'rm -rf "$SCRATCH"' EXIT
    export VMON_SCRATCH="$SCRATCH/s"; mkdir -p "$VMON_SCRATCH"
    "$CMON" "$prop" "$@" >"$SCRATCH/out" 2>"$SCRATCH/err"; rc=$?   # the library logs to both
    grep -aE "^(VIOLATION|KNOWN-FINDING:|INCONCLUSIVE|note|  \[|$prop:)" "$SCRATCH/out"
    [ $rc = 0 ] || [ $rc = 1 ] || tail -c 2000 "$SCRATCH/err"
    exit $rc ;;
esac
build_harness || { echo "BUILD-ERROR: the monitors do not build against /repo"; exit 4; }
[ "$prop" = --build-only ] && { build_prove; exit $?; }
case "$prop" in A09) build_asan || { echo "BUILD-ERROR: sanitizer build"; exit 4; } ;; esac
SCRATCH="$(mktemp -d /tmp/vmon.XXXXXX)" || exit 4
trap 'rm -rf "$SCRATCH"' EXIT
export VMON_SCRATCH="$SCRATCH/s" VMON_SHIM="$SHIM_SO"
mkdir -p "$VMON_SCRATCH"
"$MON" "$prop" "$@"
exit $?
