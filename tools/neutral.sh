#!/bin/bash
# neutral.sh DIR CMD... -- apply every behaviour-preserving change of /verif/neutral in the scratch copy DIR, run CMD with XK_REPO=DIR
D=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd)
for p in $V/neutral/${N:-*}.diff; do
  git -C $D checkout -q -- . && git -C $D apply $p || { echo "NOAPPLY $p"; continue; }
  XK_REPO=$D "$@" > /tmp/neutral.out 2>&1; rc=$?
  echo "$(basename $p .diff) rc=$rc"; [ $rc = 0 ] || grep -E "^(FAIL|BROKEN|UNREACHED|VIOLATION|ANALYSIS)" /tmp/neutral.out | cut -c1-260 | head -${L:-8}
done
git -C $D checkout -q -- .
