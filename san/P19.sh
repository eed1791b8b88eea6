# Native stress first, then the same cases under ThreadSanitizer.
"$VH" run P19 --seed "$SEED" --tier "$TIER" --evidence "$V/evidence" --replays "$V/replays" "${EXTRA[@]}"
rc=$?
[ $rc -ne 0 ] && return $rc
. "$V/san/lib.sh"
tsan_build || return 2
N=400; CAP=60; [ "$TIER" = thorough ] && { N=20000; CAP=900; }
san_run tsan P19 4 $N $CAP
san_verdict P19 "native, then every case again under ThreadSanitizer"
