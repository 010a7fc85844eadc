#!/bin/bash
# seedtest.sh <seed id> [nodemo]: confirm a planted change in a scratch clone (/tmp/sr, built by /tmp/srbuild.sh)
S=/verif/seeded/$1; R=/tmp/sr
[ -d $R/.git ] || { git clone -q /repo $R; sed 's#/repo#/tmp/sr#g' /opt/vp/build.sh > /tmp/srbuild.sh; sed 's#/repo#/tmp/sr#g; s#/opt/vp/build.sh#/tmp/srbuild.sh#' /opt/vp/test.sh > /tmp/srtest.sh; }
git -C $R checkout -q -- .
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p /tmp/seeddemo && D=$(mktemp -d /tmp/seeddemo/XXXXXX) && cp $S/* $D/ && /bin/rm -f $D/patch.diff $D/meta.json
# the patch must not touch lines a commit of ours added
if [ "$2" != nodemo ]; then
bash /tmp/srbuild.sh > /tmp/seedbuild.log 2>&1 || { echo "BUILD FAILED (clean)"; exit 1; }
(cd $R && timeout 300 bash $D/demo.sh > /tmp/seeddemo.clean 2>&1); A=$?
git -C $R apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /tmp/srbuild.sh > /tmp/seedbuild.log 2>&1 || { echo "BUILD FAILED (patched)"; git -C $R checkout -q -- .; exit 1; }
(cd $R && timeout 300 bash $D/demo.sh > /tmp/seeddemo.bug 2>&1); B=$?
bash /tmp/srtest.sh /tmp/srout.json > /tmp/srtest.log 2>&1
T=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/srout.json'))
def ids(x):
    for k in ('stable','passed','tests'):
        if k in x: return x[k]
    return x
print([t for t in ids(b) if t not in o['passed']])
PY
)
else
git -C $R apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
A=-; B=-; T=-
fi
STEMPY_REPO=$R python3 /verif/run.py $P > /tmp/seedcheck.log 2>&1; C=$?
git -C $R checkout -q -- .
echo "$1 $P demo clean=$A bug=$B stable-tests-failing=$T check=$C"
[ $C = 1 ] && grep -m2 ' at ' /tmp/seedcheck.log | cut -c1-400
/bin/rm -rf "$D"
exit 0
