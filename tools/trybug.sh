#!/bin/bash
# tools/trybug.sh ID [nocheck]: confirm a planted bug in a scratch copy of /repo.
id=$1; d=/verif/seeded/$id; W=$(mktemp -d /tmp/bug.XXXX)
git -C /repo worktree prune
cp -a /repo $W/repo && cd $W/repo || exit 2
git checkout -q -- . 
sed 's#/repo/_build#'$W/repo/_build'#; s#-S /opt/vp/arpc#-S /opt/vp/arpc#' /opt/vp/build.sh > $W/build.sh
cp -r $d $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
for i in 1 2; do ( time timeout 300 bash $W/demo/demo.sh ) >$W/o 2>&1; r=$?; echo "clean demo rc=$r $(grep real $W/o)"; [ $r = 0 ] || tail -5 $W/o; done
git apply $d/patch.diff || { echo NOAPPLY; rm -rf $W; exit 2; }
for i in 1 2 3; do ( time timeout 300 bash $W/demo/demo.sh ) >$W/o 2>&1; r=$?; echo "patched demo rc=$r $(grep real $W/o)"; tail -4 $W/o | grep -v '^$'|head -2; done
rm -rf $W
cd /
if [ "$2" != nocheck ]; then
  exec 9>/tmp/repo.lock; flock 9
  git -C /repo diff --quiet || { echo REPO DIRTY; exit 2; }
  git -C /repo apply $d/patch.diff
  bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo BUILD FAILS; tail -5 /tmp/bug.build; }
  bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bug.json'))
def passed(x):
    for k in ('passed','pass','tests','stable'):
        if k in x: return x[k]
    return x
bb=set(passed(b)); oo=passed(o); oo=set(k for k in oo if not isinstance(oo,dict) or oo[k] in (True,'pass','passed'))
print('tests: %d of %d baseline pass; missing %s'%(len(bb&oo),len(bb),sorted(bb-oo)[:5]))
P
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd /verif; time VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop quick ) >/tmp/bug.check 2>&1; echo "check $prop rc=$?"; grep -E 'VIOLATION|real' /tmp/bug.check | head -3; 
  git -C /repo checkout -q -- .
fi
