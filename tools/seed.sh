#!/bin/bash
# tools/seed.sh [ID...]: confirm planted bugs in a scratch copy (/tmp/seedwork, bind-mounted over /repo in a private mount namespace).
# For each: demo passes on the clean tree; patch applies, builds, baseline tests pass, demo fails, the property's check raises VIOLATION.
if [ -z "$SEED_NS" ]; then
	[ -d /tmp/seedwork/.git ] || { rmdir /tmp/seedwork 2>/dev/null; cp -a /repo /tmp/seedwork; }
	(cd /tmp/seedwork && git fetch -q /repo HEAD && git checkout -q -- . && git reset -q --hard FETCH_HEAD)
	exec env SEED_NS=1 unshare -m bash -c 'mount --bind /tmp/seedwork /repo && exec bash "$0" "$@"' "$0" "$@"
fi
cd /repo; LOG=/tmp/seedlog; mkdir -p $LOG; RES=/tmp/seedlog/results
ids="$*"; [ -n "$ids" ] || ids=$(ls /verif/seeded)
echo "build clean"; git checkout -q -- .; bash /opt/vp/build.sh >$LOG/clean.build 2>&1 || { echo "clean build fails"; exit 1; }
for i in $ids; do (timeout 300 bash /verif/seeded/$i/demo.sh >$LOG/$i.demo0 2>&1; echo "$?" >$LOG/$i.rc0); done
for i in $ids; do
	prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])"); r="$i prop=$prop clean_demo=$(cat $LOG/$i.rc0)"
	git checkout -q -- .
	if ! git apply /verif/seeded/$i/patch.diff; then echo "$r PATCH-FAILS" | tee -a $RES; continue; fi
	if ! bash /opt/vp/build.sh >$LOG/$i.build 2>&1; then echo "$r BUILD-FAILS" | tee -a $RES; git checkout -q -- .; continue; fi
	timeout 300 bash /verif/seeded/$i/demo.sh >$LOG/$i.demo1 2>&1; r="$r demo=$?"
	bash /opt/vp/test.sh $LOG/$i.tests.json >$LOG/$i.tests 2>&1
	r="$r tests=$(python3 - $LOG/$i.tests.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1])); s=set(b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b)
m=s-set(t['passed']); print('ok' if not m else 'MISSING:%d:%s'%(len(m),sorted(m)[:2]))
PY
)"
	s=$(date +%s); (cd /verif && timeout 900 python3 check.py $prop >$LOG/$i.check 2>&1); c=$?; r="$r check=$c($(( $(date +%s)-s ))s)"
	grep -q "VIOLATION property=$prop" $LOG/$i.check && r="$r CAUGHT"
	echo "$r" | tee -a $RES
	git checkout -q -- .
done
