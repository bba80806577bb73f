#!/bin/bash
# tools/seedtest.sh ID: checks a planted bug in a scratch copy: applies, builds, passes the stable tests; demo.sh passes
# without it and fails with it. (Not used by any check.)
id=$1; dir=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $w/repo
cd $w/repo && git checkout -q -- . || exit 2
mkdir $w/demo; for f in $dir/*; do case $f in *.diff|*/meta.json) ;; *) cp $f $w/demo/;; esac; done
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=/root/.cache/go-build
bash $w/demo/demo.sh >$w/out1 2>&1; a=$?
git apply $dir/patch.diff || { echo "$id: does not apply"; rm -rf "${w:?}"; exit 1; }
go build ./... || { echo "$id: does not build"; rm -rf "${w:?}"; exit 1; }
bash $w/demo/demo.sh >$w/out2 2>&1; b=$?
flaky='^github.com/inklabs/rangedb/(pkg/broadcast|pkg/rangedbui|pkg/rangedbws|provider/remotestore)$'
t=0
if [ -z "$NOTEST" ]; then
go test -json -vet=off -count=1 -timeout 2m $(go list -e ./... | grep -Ev "$flaky") >$w/log 2>&1
python3 - $w/log <<'P' || t=1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set(); bad=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test') and d.get('Action') in('pass','fail'):
        (ok if d['Action']=='pass' else bad).add(d['Package']+'/'+d['Test'])
miss=sorted(b-ok)
if miss: print('FAILED STABLE:',len(miss),miss[:4])
sys.exit(1 if miss else 0)
P
fi
echo "$id: demo clean=$a patched=$b tests=$t"
[ $a = 0 ] || tail -5 $w/out1
[ $b != 0 ] || tail -5 $w/out2
rm -rf "${w:?}"
[ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ]
