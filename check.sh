#!/bin/bash
# Usage: check.sh <property> [quick|thorough]     decide one property on /repo's current tree
#        check.sh <property> replay <file>        run a recorded violation again
#        check.sh build                           only build
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
property="${1:?property}"
mode="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$seed" in (*[!0-9]*|'') seed=1;; esac
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target"
export CARGO_TERM_COLOR=never
mkdir -p "$here/evidence" "$here/replays"

flags="-A mismatched_lifetime_syntaxes --cap-lints allow"
build() {
    # With the hooks: coroutines under a seeded scheduler
    if RUSTFLAGS="$flags --cfg futures_signals_hooks" cargo build --offline --locked --release --manifest-path "$here/harness/Cargo.toml" >"$here/target/build.log" 2>&1; then
        bin="$here/target/release/fsverif"
        return 0
    fi
    echo "note: the build with the hooks failed, trying without (see $here/target/build.log)"
    build_plain
}
build_plain() {
    # Without: free running threads. Weaker, but it still decides the sequential properties.
    if RUSTFLAGS="$flags" cargo build --offline --locked --release --no-default-features --target-dir "$here/target/plain" --manifest-path "$here/harness/Cargo.toml" >"$here/target/build-plain.log" 2>&1; then
        bin="$here/target/plain/release/fsverif"
        return 0
    fi
    tail -40 "$here/target/build-plain.log"
    return 1
}
mkdir -p "$here/target"
build || { echo "ERROR: the harness does not build"; exit 2; }
[ "$property" = build ] && exit 0

if [ "$mode" = replay ]; then
    exec "$bin" --property "$property" --seed "$seed" --replay "${3:?file}"
fi
extra=()
case "$property" in
    (C09) extra=(--sanitizers "$here/sanitizers.py");;
    # Under weak memory too
    (C01|C02|C05|C06|C07|C08) [ -n "${SECONDS_OVERRIDE:-}" ] || extra=(--sanitizers "$here/sanitizers.py");;
esac
run() {
    "$bin" --property "$property" --tier "$mode" --seed "$seed" --evidence "$here/evidence/$property.json" --replay-dir "$here/replays" ${SECONDS_OVERRIDE:+--seconds $SECONDS_OVERRIDE} "${extra[@]}"
}
run
code=$?
if [ $code = 78 ]; then
    # It waits for a lock which the scheduler doesn't see
    echo "note: running again without the hooks"
    build_plain || { echo "ERROR: the harness does not build"; exit 2; }
    run
    code=$?
fi
exit $code
