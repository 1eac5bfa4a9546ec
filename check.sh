#!/bin/bash
# check.sh PROP            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE   run the case of a replay file again
# check.sh --build         build everything
# Exit 0: held on everything explored; 1: VIOLATION printed; anything else: no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export KAMI_VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS MIRIFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/out" "$here/evidence"
seed="${VERIF_SEED:-1}"
tier="${VERIF_TIER:-quick}"

die() { echo "inconclusive: $*"; exit 2; }

# Cargo decides by modification times what to rebuild; decide by content as well.
fresh() {
    local h
    h=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$1/.source-hash" 2>/dev/null)" != "$h" ]; then
        [ -d "$1" ] && find "$1" -type d -path '*/.fingerprint/kami-*' -prune -exec rm -rf {} +
        mkdir -p "$1"
        echo "$h" >"$1/.source-hash"
    fi
}
build_plain() {
    fresh "$here/target/mon"
    (cd "$here/monitor" && CARGO_TARGET_DIR="$here/target/mon" cargo build --release --offline) >"$here/out/build-mon.log" 2>&1 \
        || { tail -30 "$here/out/build-mon.log"; return 1; }
}
build_asan() {
    fresh "$here/target/asan"
    (cd "$here/monitor" && RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$here/target/asan" \
        cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu) >"$here/out/build-asan.log" 2>&1 \
        || { tail -30 "$here/out/build-asan.log"; return 1; }
}
export_miri() {
    export MIRIFLAGS="-Zmiri-disable-validation -Zmiri-disable-isolation"
    export CARGO_TARGET_DIR="$here/target/miri"
}
miri_run() { (cd "$here/monitor" && cargo +nightly miri run --offline -- miri "$@"); }

case "${1:-}" in
--build)
    build_plain || die "the monitors do not build"
    build_asan || die "the AddressSanitizer build failed"
    exit 0
    ;;
--replay)
    build_plain || die "the monitors do not build"
    exec "$here/target/mon/release/kami-monitor" replay "$2"
    ;;
C28) ;;
C[0-9][0-9])
    build_plain || die "the monitors do not build"
    exec "$here/target/mon/release/kami-monitor" check "$1"
    ;;
*)
    echo "usage: check.sh PROP | --replay FILE | --build"
    exit 2
    ;;
esac

# C28: the Miri interpreter on a few cases (processes in parallel), then AddressSanitizer on many.
build_asan || die "the AddressSanitizer build failed"
work="$here/out/miri-$$"
mkdir -p "$work"
trap 'rm -rf "$here/out/miri-$$"' EXIT
seconds=70; rounds=40
[ "$tier" = thorough ] && { seconds=480; rounds=100000; }
(
    export_miri
    fresh "$here/target/miri"
    # build once, running nothing
    miri_run "$seed" 1000000 1 1 "$work/scratch" 1 >/dev/null 2>"$work/build.err" || exit 3
    for k in 0 1 2 3 4 5 6 7; do
        # a case in progress may run long past the budget: cut off, which is no verdict on that case
        (timeout -k 5 $((seconds + 150)) cargo +nightly miri run --manifest-path "$here/monitor/Cargo.toml" --offline -- miri "$seed" $k 8 $rounds "$work/scratch" $seconds >/dev/null 2>"$work/$k.err"; echo $? >"$work/$k.rc") &
    done
    wait
)
[ $? -eq 0 ] || { grep -v "^warning" "$work/build.err" | tail -20; die "the Miri build failed"; }
done=0; cut=0
for k in 0 1 2 3 4 5 6 7; do
    rc=$(cat "$work/$k.rc" 2>/dev/null || echo 255)
    done=$((done + $(grep -c "^MIRI-CASE" "$work/$k.err")))
    if grep -qE "^error: (Undefined Behavior|memory leaked|.*[Dd]ata race)|^MIRI-VIOLATION|^error: .*overflow|unsafe precondition" "$work/$k.err"; then
        mkdir -p "$here/out/replay"
        replay="$here/out/replay/C28-miri-seed$seed-shard$k.log"
        cp "$work/$k.err" "$replay"
        grep -E -A6 "^error|^MIRI-VIOLATION|unsafe precondition" "$work/$k.err" | head -12
        echo "VIOLATION property=C28 replay=$replay"
        verdict=1
        break
    elif [ "$rc" = 124 ] || [ "$rc" = 137 ] || grep -q "^error: unsupported operation" "$work/$k.err"; then
        cut=$((cut + 1))
    elif [ "$rc" != 0 ]; then
        tail -8 "$work/$k.err"
        unclear="Miri shard $k ended with $rc"
    fi
done
echo "Miri: $done cases started in 8 processes, $cut processes cut off (long case or operation Miri does not support)" | tee "$work/summary"
[ "$done" -ge 16 ] || [ -n "${verdict:-}${unclear:-}" ] || die "Miri ran only $done cases"
export KAMI_MIRI_SUMMARY="$work/summary"
KAMI_ASAN=1 ASAN_OPTIONS="exitcode=99:detect_leaks=0:halt_on_error=1" \
    "$here/target/asan/x86_64-unknown-linux-gnu/release/kami-monitor" check C28
rc=$?
[ -n "${verdict:-}" ] && exit 1
[ $rc = 0 ] && [ -n "${unclear:-}" ] && die "$unclear"
exit $rc
