#!/bin/sh
# tryseed.sh ID...: applies each planted bug, runs its property check, undoes it
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
 git -C /repo apply /verif/seeded/$id/patch.diff || continue
 s=$(date +%s)
 out=$(/verif/run.sh check ${CHECK:-$p} 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -v "reduced bound" | tail -3 | cut -c1-260 | tr "\n" "|")"
done
