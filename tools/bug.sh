#!/bin/bash
# usage: tools/bug.sh <bug id> [notest] [check ids...]
# Validate a planted bug in a private mount namespace: demo on clean tree, patch, build, tests, demo, checks.
# Everything happens on a copy of /repo bound over /repo (and a copy of /verif over /verif).
ID=$1; shift
NOTEST=; [ "$1" = notest ] && { NOTEST=1; shift; }
W=$(mktemp -d /tmp/bugXXXXXX)
cp -a /repo $W/repo; cp -a /verif $W/verif; mkdir $W/reports
B=/verif/seeded/$ID
CHECKS=${*:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
mkdir $W/demo; cp $B/* $W/demo/; rm -f $W/demo/meta.json; mv $W/demo/patch.diff $W/p.diff
unshare -m bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/reports /opt/vp/reports
cd /repo
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; echo '$ID demo clean:' \$?
git apply $W/p.diff || { echo '$ID PATCH FAILS'; exit 1; }
bash /opt/vp/build.sh >$W/b 2>&1 || { echo '$ID BUILD FAILS'; cat $W/b; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; echo '$ID demo bug:' \$?
tail -2 $W/d1
if [ -z '$NOTEST' ]; then
 bash /opt/vp/test.sh $W/o.json >$W/t 2>&1
 /opt/venv/bin/python -c \"
import json
o=json.load(open('$W/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
miss=[x for x in s if x not in o['passed']]
print('$ID tests', len(o['passed']), 'failed/missing', miss[:5])\"
fi
cd /verif
for c in $CHECKS; do [ \$c = none ] && continue; timeout 900 ./check \$c --tier quick >$W/c 2>&1; r=\$?; echo \"$ID check \$c exit \$r\"; grep -v KNOWN $W/c | head -\${LINES_OUT:-6}; done
"
rm -rf "$W"
