#!/bin/bash
# trybug.sh ID [PROPERTY...]: confirms a planted bug in a scratch copy of /repo bound over /repo in a private mount namespace
# (demo fails with it and passes without, all stable tests still pass), then runs the checks on it.
ID=$1; shift
S=/verif/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/bug-$ID
mkdir -p $W && cp -a /repo $W/repo && cp -a /verif $W/verif && rm -rf $W/verif/seeded
cp -a $S $W/demo
unshare -m bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
if [ -z \"\$SKIPTEST\" ]; then
(bash /opt/vp/build.sh >/dev/null 2>&1; bash $W/demo/demo.sh >$W/d0 2>&1); r0=\$?
git apply $W/demo/patch.diff || exit 9
bash /opt/vp/test.sh $W/o.json >$W/log 2>&1
python3 - <<'P'
import json
o=json.load(open('$W/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
miss=[t for t in base if t not in o['passed']] if isinstance(base,list) else 'baseline?'
print('$ID tests not passing:', miss)
P
bash $W/demo/demo.sh >$W/d1 2>&1; r1=\$?
echo $ID demo unchanged=\$r0 patched=\$r1
else git apply $W/demo/patch.diff || exit 9; fi
cd /verif
for p in $PROPS; do timeout 900 ./check.py \$p quick 2>&1 | tail -2 | cut -c1-300; done
"
rm -rf "$W"
