#!/bin/bash
# verify.sh ID [nocheck]: validate a seed in a private copy mounted over /repo; then run its check.
ID=$1; S=/tmp/sv/$ID
mkdir -p $S; cp -a /repo $S/repo
unshare -m bash -c '
ID='$ID'; S='$S'; mount --bind $S/repo /repo || exit 9
mkdir -p $S/demo; cp /verif/seeded/$ID/* $S/demo/; rm -f $S/demo/patch.diff $S/demo/meta.json
cd /repo
bash $S/demo/demo.sh > $S/demo0.log 2>&1; d0=$?
git apply /verif/seeded/$ID/patch.diff || { echo "$ID APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh > $S/build.log 2>&1 || { echo "$ID BUILD FAILED"; exit 1; }
bash $S/demo/demo.sh > $S/demo1.log 2>&1; d1=$?
bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1
t=$(python3 - $S/out.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
def names(x,k): return set(x.get(k,[]))
base=names(b,"passed") or names(b,"stable") or names(b,"tests")
print("tests-ok" if base and base<=names(o,"passed") else "TESTS-FAIL %s"%sorted(base-names(o,"passed")))
P
)
P=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$ID/meta.json\"))[\"property\"])")
if [ "'$2'" = nocheck ]; then c=-; else cd /verif; timeout 900 python3 check.py $P > $S/check.log 2>&1; c=$?; fi
echo "$ID demo0=$d0 demo1=$d1 $t check=$c $(grep -m1 VIOLATION $S/check.log 2>/dev/null | head -c 150)"
'
find /tmp/sv/$ID/repo -delete
