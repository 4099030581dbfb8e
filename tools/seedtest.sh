#!/bin/bash
# Confirms a planted bug: seedtest.sh ID  (uses a scratch copy of /repo in /tmp/s/repo)
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/s/repo
if [ ! -d $W ]; then git clone -q /repo $W; fi
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
mkdir -p /tmp/s/vp; sed 's#/repo#/tmp/s/repo#g' /opt/vp/build.sh > /tmp/s/vp/build.sh
sed 's#/repo#/tmp/s/repo#g; s#/opt/vp/build.sh#/tmp/s/vp/build.sh#g' /opt/vp/test.sh > /tmp/s/vp/test.sh
rm -rf /tmp/s/demo; cp -a $D /tmp/s/demo; rm -f /tmp/s/demo/*.diff /tmp/s/demo/meta.json
(cd $W && timeout 300 bash /tmp/s/demo/demo.sh >/tmp/s/demo.out 2>&1); echo "demo unchanged: $?"
git -C $W apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
(cd $W && timeout 300 bash /tmp/s/demo/demo.sh >/tmp/s/demo.out 2>&1); echo "demo patched: $?"
if [ "${2:-}" != nodemo ]; then
timeout 1500 bash /tmp/s/vp/test.sh /tmp/s/out.json > /tmp/s/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/s/out.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in (True,'pass','passed')])
    return set()
B,O=names(b),names(o)
print('tests: baseline',len(B),'passing now',len(B&O),'lost',sorted(B-O)[:5])
P
fi
git -C $W checkout -q -- .
