#!/bin/bash
# Mirrors /repo's sources into build/src by content: a file's time stamp changes exactly when its content does,
# so make rebuilds what changed whatever the time stamps in /repo are.
cd "$(dirname "$0")" || exit 3
mkdir -p build/src
for d in src apps; do
    mkdir -p build/src/$d
    for f in /repo/$d/*.cpp /repo/$d/*.h /repo/$d/*.hpp; do
        [ -f "$f" ] || continue
        cmp -s "$f" "build/src/$d/${f##*/}" || cp --no-preserve=all "$f" "build/src/$d/${f##*/}"
    done
    for f in build/src/$d/*; do
        [ -f "/repo/$d/${f##*/}" ] || rm -f "$f"
    done
done
