#!/bin/bash
# Warms the build cache, so that the first check does not pay for it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
"$here/build.sh" "$tmp" && "$tmp/mc" list
