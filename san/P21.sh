# Native leak monitor first, then the workloads of all properties under each sanitizer and Miri.
"$VH" run P21 --seed "$SEED" --tier "$TIER" --evidence "$V/evidence" --replays "$V/replays" "${EXTRA[@]}"
rc=$?
[ $rc -ne 0 ] && return $rc
. "$V/san/lib.sh"
asan_build & a=$!
tsan_build & t=$!
miri_build & m=$!
wait $a && wait $t && wait $m || return 2
export MIRI_SYSROOT="$TARGET/miri-sysroot"
if [ "$TIER" = thorough ]; then
    msan_build && san_run msan P21 4 100000 900
    san_run asan P21 4 200000 1200
    san_run tsan P21 4 100000 1200
    san_run miri P21 8 3000 2400
else
    san_run asan P21 3 1500 60
    san_run tsan P21 2 1000 60
    san_run miri P21 6 25 120
fi
san_verdict P21 "AddressSanitizer with leak detection and unsafe-precondition checks, ThreadSanitizer and Miri (also MemorySanitizer in the thorough tier) over the same cases"
