#!/bin/bash
# Builds every harness from /repo's working tree (the checks rebuild what changed since).
cd "$(dirname "$0")" || exit 1
mkdir -p build
flock build/.lock ./sync.sh
J=$(nproc)
t=$(awk '{print "build/g_"$2}' groups.txt | sort -u)
make -j"$J" $t >build/make.setup.log 2>&1 || make -j2 $t >>build/make.setup.log 2>&1 || { tail -30 build/make.setup.log; exit 1; }
echo "harnesses built"
