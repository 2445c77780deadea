#!/bin/bash
# run each planted bug's check against a scratch copy with the bug applied (development aid): prints MISSED ones
cd /verif
ids=${*:-$(ls seeded)}
one() {
  id=$1; d=/tmp/rs.$id; rm -rf "/tmp/rs.$id"; cp -a /repo "$d"
  git -C "$d" apply /verif/seeded/$id/patch.diff || { echo "$id DOES-NOT-APPLY"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$d VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/rs.$id.out 2>&1; r=$?
  if [ $r = 1 ] && grep -q "VIOLATION property=$p" /tmp/rs.$id.out; then echo "$id caught"; else echo "$id MISSED rc=$r"; fi
  rm -rf "/tmp/rs.$id"
}
export -f one
echo $ids | tr ' ' '\n' | xargs -P 7 -I{} bash -c "one {}" | sort
