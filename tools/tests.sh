#!/bin/bash
# Run the repository's tests (optionally from a copy given as $1) and report stable tests that do not pass
W=${1:-/repo}
D=/tmp/tests.$$
mkdir -p $D
for f in test.sh runtests.py results.py; do sed "s#/opt/vp/report#$D/report#g; s#/opt/vp/\(runtests\|results\)#$D/\1#g; s#/repo\b#$W#g" "/opt/vp/$f" > "$D/$f"; done
bash $D/test.sh $D/out.json > $D/log 2>&1
python3 - $D/report.txt <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=[l.split()[1] for l in open(sys.argv[1]) if l.startswith('PASS')]
print(len(b['stable']), 'stable, not passing:', sorted(set(b['stable'])-set(o)))
P
rm -rf "$D"
