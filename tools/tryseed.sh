#!/bin/bash
# tryseed.sh ID...: in a scratch copy of /repo, apply seeded/ID, build, run the stable tests and the demo on both trees, then the property's check
V=/verif
for id in "$@"; do
	W=/tmp/seed.$id; rm -rf /tmp/seed.$id /tmp/seedwk.$id; cp -a /repo $W; mkdir /tmp/seedwk.$id; cp -a $V/work/tree $V/work/obj $V/work/eng $V/work/*.json /tmp/seedwk.$id/; S=$V/seeded/$id; L=/tmp/seedlog.$id; : > $L
	P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
	(cd $W && bash $S/demo.sh) >>$L 2>&1; clean=$?
	(cd $W && git apply $S/patch.diff) >>$L 2>&1 || { echo "$id: patch does not apply"; continue; }
	sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/b.$id; sed "s#/repo#$W#g" /opt/vp/run_tests.py > /tmp/r.$id.py; sed "s#/repo#$W#g;s#/opt/vp/build.sh#/tmp/b.$id#;s#/opt/vp/run_tests.py#/tmp/r.$id.py#" /opt/vp/test.sh > /tmp/t.$id
	(cd $W && bash /tmp/b.$id) >>$L 2>&1 || { echo "$id: build fails"; tail -5 $L; continue; }
	(cd $W && bash /tmp/t.$id /tmp/o.$id) >>$L 2>&1
	miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.$id')); p=set(o['passed'])
m=[x for x in b['stable'] if x not in p]; print(len(m),m[:4])
P
)
	(cd $W && timeout 300 bash $S/demo.sh) >>$L 2>&1; bug=$?
	(cd $V && VERIF_REPO=$W VERIF_WORK=/tmp/seedwk.$id python3 check.py $P quick) >>$L 2>&1; rc=$?
	echo "$id [$P]: demo clean=$clean bug=$bug; tests missing $miss; check rc=$rc $(grep -c ^VIOLATION $L) violations"
	rm -rf $W /tmp/seedwk.$id /tmp/b.$id /tmp/t.$id /tmp/o.$id /tmp/r.$id.py
done
