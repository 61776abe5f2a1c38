#!/bin/bash
# mutate.sh <PID> <file> <python expr on s>: runs a check against a scratch copy of /repo in which `s` (the file's text)
# was replaced by the value of the expression. Development aid; no check uses it.
set -e
W=$(mktemp -d /tmp/mut-XXXXXX)
mkdir -p "$W/repo"
cp -a /repo/include /repo/src "$W/repo/"
[ -e /repo/resources ] && cp -a /repo/resources "$W/repo/"
F="$W/repo/$2" EXPR="$3" python3 - <<'P'
import os, re
f = os.environ["F"]; s = open(f).read(); o = s
s = eval(os.environ["EXPR"])
assert s != o, "no change"
open(f, "w").write(s)
P
set +e
cd "$(dirname "$0")/.."
B=build/mut${MUTB}; mkdir -p $B
cp -al build/obj $B/ 2>/dev/null
VERIF_OUT="$W" VERIF_REPO="$W/repo" VERIF_BUILD="$PWD/$B" timeout 900 python3 tools/run.py "$1" ${4:+--space "$4"} 2>&1 | cut -c1-300 | tail -${LINES_OUT:-6}
rm -rf "$W"
