#!/bin/bash
# catch.sh [id...]: applies each planted bug, runs its property's quick check, prints what happened.
# Works in private mount namespaces over scratch copies, so the real /repo and /verif are never touched.
# J sets how many lanes run at once (default 1).
set -u
if [ "${1:-}" = --lane ]; then
    W=$2; shift 2
    mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 2
    export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
    cd /verif
    for id in "$@"; do
        pid=$(python3 -c "import json;print(json.load(open('$W/../seeded/$id/meta.json'))['property'])")
        git -C /repo apply "$W/../seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
        s=$SECONDS
        o=$(VERIF_SEED=${VERIF_SEED:-1} bash check.sh "$pid" quick 2>&1); rc=$?
        git -C /repo checkout -q -- .
        if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$pid " <<<"$o"; then r=caught; elif [ $rc -eq 0 ]; then r=MISSED; else r="UNCLEAR($rc)"; fi
        echo "$r $id ($((SECONDS - s)) s) $(grep -m1 '^case' <<<"$o" | cut -c1-200)"
    done
    exit
fi
R=$(realpath "$(dirname "$0")/.."); W=$(mktemp -d /tmp/catch.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a "$R/seeded" "$W/seeded"
[ $# -eq 0 ] && set -- $(ls "$R/seeded")
J=${J:-1}; ids=("$@")
for ((j = 0; j < J; j++)); do
    L="$W/l$j"; mkdir -p "$L/verif"
    git clone -q /repo "$L/repo"; cp -a /repo/Cargo.lock "$L/repo/" 2>/dev/null
    (cd "$R" && tar c --exclude=./.git --exclude=./seeded .) | tar x -C "$L/verif"
    lane=(); for ((k = j; k < ${#ids[@]}; k += J)); do lane+=("${ids[k]}"); done
    [ ${#lane[@]} -eq 0 ] && continue
    unshare -rm bash "$(realpath "$0")" --lane "$L" "${lane[@]}" &
done
wait
