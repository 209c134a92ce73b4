#!/bin/bash
# chk.sh ID... : run the property's quick check against the seeded bug
for i in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
W=/tmp/seed/c.$i; rm -rf /tmp/seed/c.$i; git clone -q /repo $W; git -C $W apply /verif/seeded/$i/patch.diff || echo NOAPPLY
cd /verif; s=$(date +%s); VERIF_REPO=$W timeout 900 python3 run.py $P --tier quick > /tmp/seed/out.$i 2>&1; rc=$?
echo "$i $P rc=$rc $(( $(date +%s)-s ))s $(grep -v '^trace' /tmp/seed/out.$i | head -1 | cut -c1-160)"
rm -rf /tmp/seed/c.$i
done
