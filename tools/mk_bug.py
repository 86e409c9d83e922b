#!/usr/bin/env python3
"""mk_bug.py SPEC.py: writes seeded/<id>/ from a spec (dict BUG: id, property, needs, breaks, edits=[(file,old,new)], libs, demo)."""
import sys, os, json, subprocess, runpy
spec = runpy.run_path(sys.argv[1])
for BUG in spec['BUGS']:
    d = '/verif/seeded/' + BUG['id']
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    try:
        for f, old, new in BUG['edits']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (BUG['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': BUG['property'], 'needs': BUG['needs'], 'what_it_breaks': BUG['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'py' in BUG:
        open(d + '/demo.py', 'w').write(BUG['py'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\ncd "$(dirname "$0")"\nexec env PYTHONPATH=/repo/_build/python LD_LIBRARY_PATH=/repo/_build/lib python3 demo.py\n')
    else:
        libs = BUG.get('libs', ['core'])
        inc = ' '.join('-I/repo/lanelet2_%s/include' % l for l in libs)
        lib = ' '.join('-llanelet2_%s' % l for l in libs if l not in ())
        open(d + '/demo.cpp', 'w').write(BUG['demo'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as documented
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -w -O0 %s "$here/demo.cpp" -o "$out/demo" %s -isystem /usr/include/eigen3 -L/repo/_build/lib %s %s -Wl,-rpath,/repo/_build/lib
cd "$out"
./demo
''' % (BUG.get('flags', ''), inc, lib, BUG.get('extra', '-lboost_system -lpthread')))
