#!/bin/bash
# usage: seed.sh ID [check ...]   tries a planted bug: demo, tests, checks; leaves /repo as it was
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $prop
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
tmp=$(mktemp -d /tmp/seed.XXXXXX); cp -r $d/. $tmp; rm -f $tmp/patch.diff $tmp/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $tmp/demo.sh >$tmp/clean.log 2>&1; a=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >$tmp/build.log 2>&1 || { echo "$id BUILD FAILS"; tail -5 $tmp/build.log; }
bash /opt/vp/test.sh $tmp/out.json >/dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$tmp/out.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('tests-ok' if not m else 'TESTS-FAIL %s' % m[:8])
P
)
timeout 300 bash $tmp/demo.sh >$tmp/bug.log 2>&1; b=$?
echo "$id property=$prop demo clean=$a bug=$b $t"
[ $a = 0 ] || tail -3 $tmp/clean.log
for c in "$@"; do
	l=$(echo $c | tr A-Z a-z)
	(cd /verif && python3 checks/$l.py >$tmp/c.log 2>&1); r=$?
	echo "   check $c exit=$r $(grep -c ^VIOLATION $tmp/c.log) $(grep -A1 ^VIOLATION $tmp/c.log | sed -n 2p | cut -c1-150)"
done
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf $tmp
