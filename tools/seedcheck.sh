#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs: the demo passes on /repo's HEAD, and with the patch the tree
# builds, passes its tests, fails the demo and is caught by the property's quick check.
# SKIPTEST=1 leaves the tests out.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	S=$V/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
	[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
	cp -a "$S" /tmp/seed-$id; rm -f /tmp/seed-$id/patch.diff /tmp/seed-$id/meta.json
	(cd /repo && timeout 300 bash /tmp/seed-$id/demo.sh > /tmp/seed-$id.clean 2>&1); clean=$?
	git -C /repo apply "$S/patch.diff" || { echo "$id: does not apply"; rm -rf /tmp/seed-$id; continue; }
	build=1; bash /opt/vp/build.sh > /tmp/seed-$id.build 2>&1 && build=0
	(cd /repo && timeout 300 bash /tmp/seed-$id/demo.sh > /tmp/seed-$id.demo 2>&1); demo=$?
	tests=skipped
	if [ -z "$SKIPTEST" ]; then
		bash /opt/vp/test.sh /tmp/seed-$id.json > /dev/null 2>&1
		tests=$(python3 - /tmp/seed-$id.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def p(x):
    for k in ('passed','stable','tests'):
        if k in x: return x[k]
    return x
bp=p(b); rp=p(r)
bp=set(bp if isinstance(bp,list) else [k for k,v in bp.items() if v in (True,'pass','passed')])
rp=set(rp if isinstance(rp,list) else [k for k,v in rp.items() if v in (True,'pass','passed')])
m=bp-rp
print('pass' if not m else 'FAIL:'+','.join(sorted(m))[:200])
PY
)
	fi
	VERIF_SEED=1 timeout 900 bash $V/check.sh $prop quick > /tmp/seed-$id.check 2>&1; check=$?
	git -C /repo checkout -q -- .
	rm -rf /tmp/seed-$id
	echo "$id $prop: clean demo $clean, build $build, demo $demo, tests $tests, check $check $(grep -c "^VIOLATION property=$prop" /tmp/seed-$id.check)"
done
