#!/bin/bash
# check.sh ID [quick|thorough]   or   check.sh replay FILE
# Rebuilds the instrumented tree from /repo's working tree in a scratch folder
# and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! "$here/build.sh" "$tmp" >"$tmp/build.log" 2>&1; then
  echo "BUILD FAILED"; tail -50 "$tmp/build.log"; exit 3
fi
if [ "$1" = replay ]; then "$tmp/mc" replay "$2"; exit $?; fi
tier=${2:-${VERIF_TIER:-quick}}
"$tmp/mc" check "$1" "$tier" "$here"
