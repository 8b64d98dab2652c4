#!/bin/bash
# plant.sh <id> <property>: confirms a planted bug (worktree in /tmp/plant_<id> already edited) and stores its diff.
# usage: edit a scratch copy made with  plant.sh new <id>; then plant.sh keep <id>
set +e
W=/tmp/plant_$2
case $1 in
 new) rm -rf "$W"; cp -a /repo "$W";;
 keep) git -C "$W" diff > /verif/seeded/$2/patch.diff; rm -rf "$W";;
 test) # apply to /repo, build, tests, demo, and undo
   D=/verif/seeded/$2
   cd /repo; git diff --quiet || { echo dirty; exit 1; }
   bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo BUILD0 FAIL; exit 1; }
   bash $D/demo.sh >/tmp/pd0.log 2>&1; echo "clean demo exit $?"
   git apply $D/patch.diff
   bash /opt/vp/build.sh >/tmp/pb.log 2>&1 && bash /opt/vp/test.sh /tmp/pt.json >/tmp/ptest.log 2>&1 && python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/pt.json'));s=json.dumps(r);print('tests', {k:len(v) if hasattr(v,'__len__') else v for k,v in r.items()})" || echo BUILD/TEST FAIL
   bash $D/demo.sh >/tmp/pd1.log 2>&1; echo "patched demo exit $?"
   P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
   (cd /verif && python3 check.py $P | grep -v '^  ' | tail -4); echo "check $P done"
   git -C /repo checkout -- . ;;
esac
