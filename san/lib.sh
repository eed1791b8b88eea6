# Sanitizer builds and runs, shared by san/P19.sh and san/P21.sh. Sourced with V, TARGET, SEED set.
HOSTT=x86_64-unknown-linux-gnu
asan_build() { CLEAN_ARGS="--profile deep --target $HOSTT" RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes -Cdebug-assertions=on -Coverflow-checks=off" build asan +nightly build --target $HOSTT --profile deep --offline --locked; }
tsan_build() { CLEAN_ARGS="--profile deep --target $HOSTT" RUSTFLAGS="-Zsanitizer=thread" build tsan +nightly build -Zbuild-std --target $HOSTT --profile deep --offline --locked; }
msan_build() { CLEAN_ARGS="--profile deep --target $HOSTT" RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" build msan +nightly build -Zbuild-std --target $HOSTT --profile deep --offline --locked; }
miri_build() {
    export MIRI_SYSROOT="$TARGET/miri-sysroot"
    [ -e "$MIRI_SYSROOT/.done" ] || { (cd "$V/harness" && cargo +nightly miri setup --offline >"$TARGET/miri-setup.log" 2>&1) && touch "$MIRI_SYSROOT/.done" || { tail -20 "$TARGET/miri-setup.log"; return 1; }; }
    CLEAN_ARGS="--release --target $HOSTT" MIRIFLAGS="-Zmiri-disable-isolation" build miri +nightly miri run --release --offline --locked --target $HOSTT -- list
}

SAN_DIR="$(mktemp -d "${TMPDIR:-/tmp}/vh-san.XXXXXX")"
trap '/bin/rm -rf "$SAN_DIR"' EXIT
SAN_JOBS=()
# san_run <tool> <property> <shards> <cases per shard> <seconds>: starts the shards in the background.
san_run() {
    local tool=$1 pid=$2 shards=$3 n=$4 cap=$5 i
    for i in $(seq 0 $((shards - 1))); do
        local d="$SAN_DIR/$tool-$pid-$i"; mkdir -p "$d/scratch"
        local args="inproc $pid --seed $SEED --from $((i * n)) --n $n --cap $cap --scratch $d/scratch --ignore 1"
        echo "$tool $args" >"$d/what"
        (
            cd "$d/scratch" || exit 2
            ulimit -s 1000000 2>/dev/null || ulimit -s "$(ulimit -H -s)" 2>/dev/null
            export HOME="$d" TMPDIR="$d/scratch" VH_KNOWN VH_SAN=$tool
            export ASAN_OPTIONS="exitcode=99,detect_leaks=1,abort_on_error=0,handle_abort=1,allocator_may_return_null=1" LSAN_OPTIONS="exitcode=99,use_tls=1" TSAN_OPTIONS="exitcode=99,halt_on_error=1,history_size=4" MSAN_OPTIONS="exitcode=99"
            case $tool in
                miri) cd "$V/harness" && export HOME=/root MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$TARGET/miri" && exec timeout -k 5 $((cap + 120)) cargo +nightly miri run --release --offline --locked --target $HOSTT -- $args ;;
                *) exec timeout -k 5 $((cap + 120)) "$TARGET/$tool/$HOSTT/deep/vh" $args ;;
            esac
        ) >"$d/out" 2>"$d/err" &
        SAN_JOBS+=("$!:$d:$tool:$pid")
    done
}
# san_verdict <property> <what ran>: waits for the shards, judges their reports, adds them to the evidence.
san_verdict() {
    local prop=$1 what=$2 j rc status=0
    : >"$SAN_DIR/summary"
    for j in "${SAN_JOBS[@]}"; do
        IFS=: read -r p d tool pid <<<"$j"
        wait "$p"; rc=$?
        local line; line=$(grep '^INPROC' "$d/out" | tail -1)
        # Only the tool's own words count: exit codes also come from stalls and from the cases themselves.
        local report; report=$(grep -m1 -E 'SUMMARY: (Address|Leak|Thread|Memory)Sanitizer|^error: (Undefined Behavior|memory leaked|.*[Dd]ata race)|unsafe precondition\(s\) violated|^REFUTED.*UTF-8' "$d/err" "$d/out" -h | head -1)
        if [ -n "$report" ] && ! grep -q 'stack-overflow' <<<"$report"; then
            mkdir -p "$V/replays"
            local rp="$V/replays/$prop-$tool-$(basename "$d").txt"
            { echo "property=$prop"; echo "seed=$SEED"; echo "what=$(cat "$d/what")"; echo "command=bash $V/check.sh $prop $TIER"; echo; head -c 20000 "$d/out"; head -c 60000 "$d/err"; } >"$rp"
            echo "$tool ($(cat "$d/what")): $report"
            grep -m1 -A12 -E 'ERROR: |WARNING: ThreadSanitizer|^error: ' "$d/err" | cut -c1-200
            echo "VIOLATION property=$prop replay=$rp"
            status=1
        elif [ -z "$line" ] && grep -q '^error: unsupported operation' "$d/err"; then
            # Miri lacks a system call: the cases before it were watched, the rest of the shard was not.
            echo "$tool $(cat "$d/what"): stopped at an unsupported operation: $(grep -m1 '^error: unsupported operation' "$d/err")"
        elif [ $rc -eq 124 ] || [ $rc -eq 137 ]; then
            # Instrumented code is slow; whether the library hangs is for P24 to say.
            echo "$tool $(cat "$d/what"): out of time after ${line:-no complete batch}"
        elif [ -z "$line" ]; then
            echo "inconclusive: $tool $(cat "$d/what") ended with $rc and no report"; tail -5 "$d/err"
            [ $status -eq 0 ] && status=2
        fi
        echo "$tool $line" >>"$SAN_DIR/summary"
    done
    python3 - "$V/evidence/$prop.json" "$SAN_DIR/summary" "$what" "$status" <<'PY'
import json, sys, re, collections
f, s, what, status = sys.argv[1:]
e = json.load(open(f))
t = collections.defaultdict(lambda: {"shards": 0, "cases": 0, "evaluations": 0})
for l in open(s):
    w = l.split()
    if not w: continue
    d = t[w[0]]; d["shards"] += 1
    for k, v in re.findall(r'(cases|evals)=(\d+)', l): d["evaluations" if k == "evals" else k] += int(v)
e["coverage"]["sanitizers"] = {"ran": what, "tools": t}
if status == "1": e["violations"] = max(1, e.get("violations", 0))
json.dump(e, open(f, "w"), indent=1)
print("; ".join(f"{k}: {v['cases']} cases in {v['shards']} processes" for k, v in t.items()))
PY
    return $status
}
