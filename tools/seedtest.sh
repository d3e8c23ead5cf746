#!/bin/bash
# seedtest.sh <id> [props...] : in a private mount namespace, on a copy of /repo: demo on the clean tree, apply, build, tests, demo, then the given checks (default: the seed's property). Env NOTEST=1 skips the test suite, NOCLEAN=1 the clean demo.
id=$1; shift
S=/verif/seeded/$id; P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/seedw-$id; rm -rf "/tmp/seedw-$id"; mkdir -p "$W/ev"; cp -a /repo "$W/repo"; cp -a "$S" "$W/s"
unshare -m bash -c "
mount --bind $W/repo /repo; cd /repo
if [ -z '$NOCLEAN' ]; then bash /opt/vp/build.sh >$W/b0.log 2>&1; timeout 300 bash $W/s/demo.sh >$W/d0.log 2>&1; echo \"$id clean-demo \$?\"; fi
git apply $S/patch.diff || { echo '$id APPLY FAILED'; exit 1; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo '$id BUILD FAILED'; tail -20 $W/b1.log; exit 1; }
timeout 300 bash $W/s/demo.sh >$W/d1.log 2>&1; echo \"$id patched-demo \$? (want nonzero)\"
if [ -z '$NOTEST' ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; python3 -c \"
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('$W/t.json'))['passed'];m=[x for x in b if x not in p];print('$id tests', 'pass' if not m else 'MISSING %s'%m)\"; fi
for p in $P; do (cd /verif; VERIF_EVIDENCE=$W/ev python3-vt checks/run.py \$p quick >$W/c-\$p.log 2>&1; echo \"$id check \$p rc=\$? \$(grep -a 'violated keys' $W/c-\$p.log | cut -c1-200)\"); done
"
cp $W/*.log /tmp/ 2>/dev/null; for f in d0 d1; do [ -f $W/$f.log ] && cp $W/$f.log /tmp/seed-$id-$f.log; done; for p in $P; do cp $W/c-$p.log /tmp/seed-$id-$p.log; done
rm -rf "/tmp/seedw-$id"
