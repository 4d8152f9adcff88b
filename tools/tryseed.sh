#!/bin/bash
# tryseed.sh ID [notest]: confirm /verif/seeded/ID in a scratch copy: the demo passes on /repo as it is and fails with
# the patch, the patched copy builds and its stable tests pass.
id=$1; s=/verif/seeded/$id; d=/tmp/bug/$id
rm -rf "$d"; mkdir -p "$d/vp"; cp -a /repo "$d/repo"
cp -r $s $d/demo; rm -f $d/demo/*.diff $d/demo/meta.json
t0=$(date +%s); (cd $d/repo && timeout 300 bash $d/demo/demo.sh > $d/clean.log 2>&1); c=$?; t1=$(date +%s)
git -C $d/repo apply $s/patch.diff || exit 9
(cd $d/repo && timeout 300 bash $d/demo/demo.sh > $d/patched.log 2>&1); p=$?; t2=$(date +%s)
echo "$id: demo clean=$c ($((t1-t0)) s) patched=$p ($((t2-t1)) s): $(tail -1 $d/patched.log | cut -c1-200)"
[ $c = 0 ] && [ $p != 0 ] || { tail -5 $d/clean.log; echo "--"; tail -5 $d/patched.log; exit 1; }
[ "$2" = notest ] && exit 0
for f in build.sh test.sh env.sh; do sed "s#/opt/vp/env.sh#$d/vp/env.sh#; s#/repo#$d/repo#g" /opt/vp/$f > $d/vp/$f; done
bash $d/vp/build.sh > $d/build.log 2>&1 || { echo "$id: build failed"; tail -20 $d/build.log; exit 1; }
bash $d/vp/test.sh $d/out.json > $d/test.log 2>&1
python3 - $d/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
passed=set(o.get('passed') or [k for k,v in o.items() if v in ('passed','pass',True)])
m=[x for x in b if x not in passed]
print("tests: %d stable, missing %d %s"%(len(b),len(m),m[:6]))
sys.exit(1 if m else 0)
P
r=$?
[ $r = 0 ] && rm -rf "$d"
exit $r
