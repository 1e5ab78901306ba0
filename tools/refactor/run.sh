#!/bin/bash
# run.sh script.py [props...]: apply refactoring script to a copy and run the checks
rm -rf /tmp/rf/v /tmp/rf/cr; mkdir -p /tmp/rf/v
cp -a /verif/gosym /verif/harness /verif/*.json* /verif/run.sh /tmp/rf/v/; mkdir /tmp/rf/v/evidence
sed -i 's#=> /repo#=> /tmp/rf/cr#' /tmp/rf/v/harness/go.mod
cp -a /repo /tmp/rf/cr
sc=$1; shift
(cd /tmp/rf/cr && python3 $sc && gofmt -l . ; go build ./... || exit 1; go vet . ./version && go test ./... 2>&1 | tail -5; git diff --stat | tail -8) || exit 1
(cd /tmp/rf/cr && go test -json ./... 2>/dev/null > /tmp/rf/t.json; cd /repo && go test -json ./... 2>/dev/null >/tmp/rf/t0.json; python3 - <<'P'
import json
def r(f):
    s=set()
    for l in open(f):
        j=json.loads(l)
        if j.get('Test') and j['Action']=='pass': s.add((j['Package'],j['Test']))
    return s
d=sorted(x[1] for x in r('/tmp/rf/t0.json')-r('/tmp/rf/t.json')); print("tests lost:", d[:6], len(d))
P
)
ps="$@"; [ -z "$ps" ] && ps=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']: print(c['property'] if 'property' in c else c['id'])")
for p in $ps; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 /tmp/rf/v/run.sh $p > /tmp/rf/log.$p 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/rf/log.$p) $(grep -c REDUCED /tmp/rf/log.$p) $(tail -1 /tmp/rf/log.$p | cut -c1-200)"
done
