#!/bin/bash
# trybug.sh ID...: run the property's check against a scratch copy of /repo with the planted change
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d); cp -a /repo "$w/repo"; git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || echo "does not apply"
  for q in ${PROPS:-$p}; do
    GOVC_REPO="$w/repo" bash check.sh $q > "$w/out" 2>&1; rc=$?
    echo "$id $q rc=$rc $(grep -a '^VIOLATION' "$w/out" || tail -1 "$w/out") :: $(grep -a -m1 'failed:' "$w/out" | cut -c1-150)"
  done
  rm -rf "$w"
done
