#!/bin/bash
# check.sh <property id> [quick|thorough] [--replay FILE]: builds what the property needs from /repo's
# working tree and decides it.  Exit 0: held on everything explored; 1: VIOLATION line printed.
cd "$(dirname "$0")" || exit 3
id=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
group=$(awk -v id="$id" '$1==id{print $2}' groups.txt)
[ -n "$group" ] || { echo "unknown property $id"; exit 3; }
mkdir -p build
flock build/.lock ./sync.sh
targets="build/g_$group"
J=$(nproc)
if ! flock build/.lock make -j"$J" $targets >build/make.$group.log 2>&1; then
    if ! flock build/.lock make -j2 $targets >build/make.$group.log 2>&1; then
        echo "the harness for $id does not build against /repo:"; grep -E 'error|Error' build/make.$group.log | head -20
        exit 2
    fi
fi
export ASAN_OPTIONS=detect_leaks=0:quarantine_size_mb=16:malloc_context_size=8:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1
export UBSAN_OPTIONS=print_stacktrace=1
export OMP_WAIT_POLICY=passive OMP_DYNAMIC=false OMP_NUM_THREADS=2
export TZ=UTC LC_ALL=C.UTF-8 GDAL_CACHEMAX=16 CPL_LOG=/dev/null GDAL_PAM_ENABLED=NO
exec build/g_$group --property "$id" --tier "$tier" --verif "$PWD" "$@"
