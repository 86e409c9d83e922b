#!/bin/bash
# stable.sh: build /repo, run tests, list stable ones not passing
bash /opt/vp/build.sh >/tmp/vpbuild.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/vpbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/vptest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print(len(b['stable']),'stable; not passing:',m[:10])
P
