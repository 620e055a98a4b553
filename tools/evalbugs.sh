#!/bin/bash
# evalbugs.sh [ID...]: run each planted bug's own check (quick) on a scratch copy; OTHER=1 runs every check.
cd /verif/seeded; ids=${*:-$(ls)}
for id in $ids; do
  w=$(mktemp -d /tmp/ev-XXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || echo "NOAPPLY $id"
  own=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  props=$own; [ -n "$OTHER" ] && props=$(cd /verif; python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
  for p in $props; do
    t=$(date +%s); out=$(cd /verif; DST_REPO=$w/repo VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 dst/check.py $p 2>&1); rc=$?
    echo "$id own=$own $p rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep VIOLATION | cut -c1-120)$([ $rc = 2 ] && echo "$out" | tail -3)"
  done
  rm -rf "$w"
done
