#!/bin/bash
# tools/try.sh PATCH CHECK...: runs checks against a copy of /repo with a patch applied.
set -e
d=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
git -C "$d/repo" apply "$1"
shift
source /opt/vp/env.sh
for c in "$@"; do
  VERIF_REPO="$d/repo" VERIF_BUILD="$d/build" VERIF_OUT="$d" python3 "$(dirname "$0")/../harness/check.py" "$c" ${ARGS} > "$d/out" 2>&1 && rc=0 || rc=$?
  echo "$c rc=$rc $(grep -c ^VIOLATION "$d/out") violations: $(grep ^VIOLATION "$d/out" | head -2 | sed 's/.*replay=//') $( [ $rc = 2 ] && tail -3 "$d/out")"
done
