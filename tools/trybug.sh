#!/bin/bash
# trybug.sh ID...: runs the property's check against a scratch copy of /repo with each planted bug
for id in "$@"; do
  d=$(mktemp -d /tmp/trybug.XXXX); cp -a /repo "$d/repo"
  git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$d/repo VERIF_SEED=1 timeout 900 python3-vt /verif/check.py "$p" > "$d/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s violations=$(grep -c '^VIOLATION' "$d/out") no-input=$(grep -c 'no-failing-input-found' "$d/out") | $(tail -1 "$d/out" | cut -c1-160)"
  /bin/rm -rf "$d"
done
