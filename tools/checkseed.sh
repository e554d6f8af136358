#!/bin/bash
# checkseed.sh ID...: confirms that planted bugs count, in a scratch copy of /repo:
# the demo passes on the unchanged tree, the patch applies, builds, passes the
# stable tests and makes the demo fail.
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
for id in "$@"; do
s=/verif/seeded/$id
w=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo $w/repo; cp -a $s $w/demo
cd $w/repo || exit 1
git checkout -q -- .
cp go.mod $w/x.mod; cp go.sum $w/x.sum
export GOFLAGS="-mod=mod -modfile=$w/x.mod"
r=ok
timeout 300 bash $w/demo/demo.sh > $w/clean.log 2>&1 || { r="demo fails on clean tree"; tail -20 $w/clean.log; }
if [ "$r" = ok ]; then
 git apply $s/patch.diff || r="patch does not apply"
fi
if [ "$r" = ok ]; then go build ./... || r="does not build"; fi
if [ "$r" = ok ]; then
 timeout 300 bash $w/demo/demo.sh > $w/bug.log 2>&1 && r="demo passes with the patch"
 grep -m3 -E "zz_demo|panic:|FAIL" $w/bug.log | cut -c1-200
fi
if [ "$r" = ok ] && [ -z "$SKIPTESTS" ]; then
 go test -json -vet=off -count=1 -timeout 10m ./... > $w/t.json 2>$w/t.err
 python3 - $w/t.json <<'P' || r="stable tests fail"
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in ok]
if m: print('not passing:',m[:6]); sys.exit(1)
P
fi
echo "$id: $r"
cd /tmp; rm -rf "$w"
done
