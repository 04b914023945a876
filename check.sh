#!/usr/bin/env bash
# Usage: check.sh <property>   (VERIF_SEED, VERIF_TIER in the environment)
# Builds the monitors against /repo's working tree and runs the check of one property.
set -u
cd "$(dirname "$0")" || exit 2
id=${1:?property}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/.target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE CARGO_BUILD_TARGET
[ -n "${CARGO_HOME:-}" ] || [ -d "$HOME/.cargo" ] || export CARGO_HOME=/root/.cargo
case "$VERIF_SEED" in *[!0-9]*|'') echo "bad VERIF_SEED"; exit 2;; esac
mkdir -p evidence replays "$CARGO_TARGET_DIR" || exit 2
rm -f "$PWD/evidence/$id.json" "$PWD/replays/$id.txt"

# Cargo compares modification times; make sure that it sees the tree as it is now.
build() {
    (
        flock 9
        cargo clean -q --offline --manifest-path harness/Cargo.toml -p traffic-sim -p tsmon >/dev/null 2>&1
        cargo build -q --offline --manifest-path harness/Cargo.toml 2>"$CARGO_TARGET_DIR/build.log"
    ) 9>"$CARGO_TARGET_DIR/.lock"
}
if ! build; then
    cat "$CARGO_TARGET_DIR/build.log"
    echo "ERROR: the monitors do not build against /repo"
    exit 2
fi

# The check of memory safety repeats some of its cases under AddressSanitizer and in Miri.
extra=()
if [ "$id" = C01 ]; then
    m=harness/Cargo.toml host=x86_64-unknown-linux-gnu notes=
    asan="$CARGO_TARGET_DIR/asan" miri="$CARGO_TARGET_DIR/nightly"
    export ASAN_OPTIONS=detect_leaks=0
    # Aliasing is judged by tree borrows: a dependency is known to break the stricter experimental model.
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows"
    mkdir -p "$asan" "$miri"
    (
        flock 9
        cargo clean -q --offline --manifest-path $m -p traffic-sim -p tsmon --target-dir "$asan" --target $host >/dev/null 2>&1
        cargo clean -q --offline --manifest-path $m -p traffic-sim -p tsmon --target-dir "$miri/miri" --target $host >/dev/null 2>&1
        RUSTFLAGS=-Zsanitizer=address cargo +nightly build -q --offline --manifest-path $m --target-dir "$asan" \
            --target $host >"$asan/build.log" 2>&1 && touch "$asan/ok" || rm -f "$asan/ok"
        CARGO_TARGET_DIR="$miri" cargo +nightly miri run -q --offline --manifest-path $m -- list \
            >"$miri/build.log" 2>&1 && touch "$miri/ok" || rm -f "$miri/ok"
    ) 9>"$CARGO_TARGET_DIR/.lock"
    # Without these tools the check still decides, on what the checked build shows
    if [ -e "$asan/ok" ]; then extra+=(--asan "$asan/$host/debug/tsmon"); else notes="AddressSanitizer build not available. "; fi
    if [ -e "$miri/ok" ]; then extra+=(--miri "$PWD/harness" --miri-target "$miri"); else notes="${notes}Miri not available."; fi
    [ -z "$notes" ] || extra+=(--stage-note "$notes")
fi

exec "$CARGO_TARGET_DIR/debug/tsmon" check "$id" --tier "$VERIF_TIER" --seed "$VERIF_SEED" \
    --evidence "$PWD/evidence/$id.json" --replay "$PWD/replays/$id.txt" "${extra[@]}"
