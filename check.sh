#!/bin/bash
# ./check.sh C01 -- decides one property from /repo's current source
D=$(cd "$(dirname "$0")" && pwd)
cd "$D" || exit 2
[ -x build/extract ] || bash extract/build.sh || exit 2
ulimit -s unlimited 2>/dev/null || ulimit -s 1000000 2>/dev/null
exec python3 engine/check.py "$1"
