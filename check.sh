#!/bin/bash
# usage: check.sh <property> [quick|thorough]     decide one property
#        check.sh replay <replay file>            re-run one recorded case
#        check.sh setup                           build everything once
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: refuted. Anything else: inconclusive.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO=/repo
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true VH_KNOWN="$V/known_findings.txt"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
TARGET="$V/harness/target"
mkdir -p "$TARGET" "$V/evidence"

srchash() { (cd "$REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$V/harness/Cargo.lock") | sha256sum | cut -c1-16; }

# build <dir under target> <cargo args...>: rebuilds from the current tree of /repo.
build() {
    local dir="$TARGET/$1"; shift
    mkdir -p "$dir"
    exec 9>"$dir/.lock"; flock 9
    local h; h=$(srchash)
    if [ -f "$dir/.src" ] && [ "$(cat "$dir/.src")" != "$h" ]; then
        (cd "$V/harness" && CARGO_TARGET_DIR="$dir" cargo clean --offline -p figment $CLEAN_ARGS >/dev/null 2>&1)
    fi
    (cd "$V/harness" && CARGO_TARGET_DIR="$dir" cargo "$@" >"$dir/build.log" 2>&1)
    local rc=$?
    [ $rc -eq 0 ] && echo "$h" >"$dir/.src"
    exec 9>&-
    if [ $rc -ne 0 ]; then echo "build failed:"; tail -40 "$dir/build.log"; fi
    return $rc
}

main_build() { VH="$TARGET/main/release/vh"; CLEAN_ARGS=--release build main build --release --offline --locked; }
deep_build() { VH="$TARGET/deep/deep/vh"; CLEAN_ARGS="--profile deep" build deep build --profile deep --offline --locked; }

if [ "${1:-}" = setup ]; then
    # Warms the builds; every check rebuilds what changed.
    main_build || exit 2
    . "$V/san/lib.sh"
    asan_build & a=$!; tsan_build & t=$!; miri_build & m=$!
    wait $a && wait $t && wait $m || exit 2
    exit 0
fi

if [ "${1:-}" = replay ]; then
    f="${2:?replay file}"
    get() { sed -n "s/^$1=//p" "$f" | head -1; }
    main_build || exit 2
    if grep -q '^command=' "$f"; then bash -c "$(get command)"; exit $?; fi
    exec "$VH" case "$(get property)" --seed "$(get seed)" --idx "$(get idx)" --tier "$(get tier)"
fi

PID="${1:?property}"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
case "$SEED" in ''|*[!0-9]*) SEED=$(printf '%s' "$SEED" | cksum | cut -d' ' -f1);; esac

if [ "$TIER" = thorough ]; then deep_build || exit 2; else main_build || exit 2; fi
EXTRA=()
[ -n "${VH_N:-}" ] && EXTRA+=(--n "$VH_N")
[ -n "${VH_CAP:-}" ] && EXTRA+=(--cap "$VH_CAP")

if [ -f "$V/san/$PID.sh" ]; then . "$V/san/$PID.sh"; exit $?; fi
"$VH" run "$PID" --seed "$SEED" --tier "$TIER" --evidence "$V/evidence" --replays "$V/replays" "${EXTRA[@]}"
