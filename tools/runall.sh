#!/bin/bash
# tools/runall.sh "seeds" [args]: all checks for several seeds, one line each
cd ${VD:-/verif}
for i in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do for s in $1; do
 VSA_EVID=/tmp/w/ev VERIF_SEED=$s timeout 1800 python3-vt -m vsa.check $i $2 $3 $4 $5 > /tmp/w/out.$i.$s 2>&1; rc=$?; echo "$i seed $s rc $rc $(tail -1 /tmp/w/out.$i.$s)"; [ $rc = 0 ] || grep -A3 REFUTED /tmp/w/out.$i.$s | head -8; done; done
