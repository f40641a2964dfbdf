#!/bin/bash
# usage: runseed.sh ID [PROP]...   run the checks (default: the seed's property) against a planted bug
# The bug is applied to a scratch copy of /repo; the checks read it through VERIF_REPO.
V="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
props="$*"
[ -n "$props" ] || props=$(/opt/venv/bin/python -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
W="$(mktemp -d /tmp/rs_XXXXXX)"
cp -a /repo "$W/r"
git -C "$W/r" apply "$V/seeded/$id/patch.diff" || exit 9
cp -a "$V/evidence" "$W/ev"
for p in $props; do
  VERIF_REPO="$W/r" bash "$V/check.sh" "$p" > "$W/o" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' "$W/o") $(grep -m3 'kind=' "$W/o" | cut -c1-110 | tr '\n' '|')"
done
cp -a "$W/ev/." "$V/evidence/"
rm -rf "$W"
