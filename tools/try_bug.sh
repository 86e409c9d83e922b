#!/bin/bash
# try_bug.sh ID [--nocheck]: planted bug ID: builds, stable tests, demo with and without the patch, and the property's quick check.
# Applies the patch to /repo and undoes it. For development only.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
st() { bash /opt/vp/build.sh >/tmp/tb_build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/tb_build.log; return 1; }; }
demo() { rm -rf /tmp/tb_demo; cp -a $d /tmp/tb_demo; rm -f /tmp/tb_demo/*.diff /tmp/tb_demo/meta.json; (cd /repo; timeout 300 bash /tmp/tb_demo/demo.sh >/tmp/tb_demo.log 2>&1; echo $?); }
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
if st; then
  bash /opt/vp/test.sh /tmp/tb_o.json >/tmp/tb_test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/tb_o.json'))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print('stable tests failing with patch:',m[:10])
P
  echo "demo with patch: $(demo) (want nonzero)  $(tail -1 /tmp/tb_demo.log)"
  if [ "$2" != --nocheck ]; then (cd /verif; time ./run_check.sh $prop quick 2>&1 | tail -3) ; fi
fi
git -C /repo checkout -- .; st
echo "demo without patch: $(demo) (want 0) $(tail -1 /tmp/tb_demo.log)"
rm -rf /tmp/tb_demo
