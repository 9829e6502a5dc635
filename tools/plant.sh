#!/bin/bash
# tools/plant.sh ID [nocheck]: confirm a seeded change (applies, builds, stable tests pass,
# demo 0 without / nonzero with it) and run its property's quick check against it in /repo.
id=$1; d=/verif/seeded/$id; t=/tmp/plant; mkdir -p $t
cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "dirty /repo"; exit 2; }
python3 - "$d/patch.diff" <<'P'
import subprocess,sys,re
# removed lines must be lines of the base commit
cur=None; old=0; bad=0
blame={}
for l in open(sys.argv[1]).read().split('\n'):
    if l.startswith('--- a/'): cur=l[6:]; blame[cur]=subprocess.run(['git','blame','-s','HEAD','--',cur],capture_output=True,text=True,cwd='/repo').stdout.split('\n')
    elif l.startswith('@@'): old=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        if not blame[cur][old-1].startswith('^b0079da'): print('NOT ORIGINAL LINE:',cur,old,l); bad=1
        old+=1
    elif l.startswith(' '): old+=1
P
rm -rf $t/demo; mkdir $t/demo; cp $d/* $t/demo; rm -f $t/demo/*.diff $t/demo/meta.json
bash $t/demo/demo.sh >$t/demo0.log 2>&1; echo "demo unchanged: $?"
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >$t/build.log 2>&1; echo "build: $?"
bash $t/demo/demo.sh >$t/demo1.log 2>&1; echo "demo patched: $?"; tail -2 $t/demo1.log | cut -c1-200
bash /opt/vp/test.sh $t/out.json >$t/test.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$t/out.json'))
print('stable missing:', [x for x in b['stable'] if x not in o['passed']])"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ "$2" = nocheck ] || { cd /verif; for q in ${2:-$p}; do timeout 900 ./check.py $q 2>&1 | cut -c1-300 | head -6; echo "$q rc ${PIPESTATUS[0]}"; done; }
