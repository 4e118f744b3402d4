#!/bin/bash
# tools/mutant.sh PATCH CNN... : runs checks against a scratch copy of /repo with PATCH applied
set -u
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d/repo" 2>/dev/null || { mkdir -p "$d/repo"; cp -a /repo/. "$d/repo/"; }
(cd "$d/repo" && git apply "$patch") || { echo "patch does not apply"; rm -rf "$d"; exit 3; }
for c in "$@"; do
  VERIF_REPO=$d/repo VERIF_EVIDENCE=$d/ev VERIF_REPLAY=$d/rp "$(dirname "$0")/../check" "$c" > "$d/out" 2>&1
  rc=$?
  echo "$c rc=$rc $(grep -m1 '^violation\|^held\|^INCON' "$d/out" | cut -c1-260)"
done
rm -rf "$d"
