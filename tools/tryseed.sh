#!/bin/bash
# tryseed.sh SEED...: runs each seed's own property check with the seed applied to a copy of /repo
cd /verif
for s in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 d=$(mktemp -d); cp -a /repo "$d/repo"
 git -C "$d/repo" apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
 t0=$(date +%s); out=$(VERIF_REPO=$d/repo timeout 900 ./check.sh $p quick 2>&1); rc=$?; t1=$(date +%s)
 echo "$s $p rc=$rc $((t1-t0))s: $(echo "$out" | grep VIOLATION | cut -c1-200)"
 cp evidence/replay/$p.txt /tmp/replay-$s.txt 2>/dev/null
 rm -r "$d"
done
