#!/usr/bin/env python3
"""mutate.py GROUP N SEED [--scale S] [--workers W]: plants N random small changes, one at a time, in the source files of a group, and lists the
ones that neither the checks of the group nor the stable tests notice (to be judged by hand: equivalent, or a gap). For development only; run it
in a lane (tools/lane.sh), it edits /repo and undoes it."""
import sys, os, re, random, subprocess, json, time, argparse
R = '/repo/'
co, ro, io = 'lanelet2_core/', 'lanelet2_routing/', 'lanelet2_io/'
ci = co + 'include/lanelet2_core/'
GROUPS = {
    'attr': ([co + 'src/Attribute.cpp', ci + 'Attribute.h', ci + 'utility/HybridMap.h'], ['C05']),
    'regelem': ([co + 'src/BasicRegulatoryElements.cpp', co + 'src/RegulatoryElement.cpp', ci + 'primitives/RegulatoryElement.h'], ['C10', 'C11']),
    'prims': ([co + 'src/Lanelet.cpp', co + 'src/LaneletSequence.cpp', ci + 'primitives/Lanelet.h', ci + 'primitives/Area.h', ci + 'primitives/CompoundLineString.h', ci + 'primitives/CompoundPolygon.h', ci + 'primitives/LaneletSequence.h'], ['C04', 'C08', 'C02', 'C31', 'C32']),
    'lines': ([ci + 'primitives/LineString.h', ci + 'primitives/Polygon.h', ci + 'utility/TransformIterator.h', ci + 'utility/ReverseAndForwardIterator.h', ci + 'utility/CompoundIterator.h', ci + 'primitives/Point.h', ci + 'primitives/Primitive.h', ci + 'primitives/BasicRegulatoryElements.h'], ['C03', 'C04', 'C10']),
    'map': ([co + 'src/LaneletMap.cpp', co + 'src/RegulatoryElementGeometry.cpp', ci + 'LaneletMap.h', ci + 'utility/Utilities.h', ci + 'primitives/BoundingBox.h', ci + 'geometry/BoundingBox.h'], ['C31', 'C32', 'C01', 'C02']),
    'linegeo': ([co + 'src/LineStringGeometry.cpp', ci + 'geometry/impl/LineString.h'], ['C06', 'C07', 'C09']),
    'polygeo': ([co + 'src/PolygonTriangulationGeometry.cpp', ci + 'geometry/impl/Polygon.h', ci + 'geometry/impl/Lanelet.h', ci + 'geometry/impl/Area.h', ci + 'geometry/impl/LaneletMap.h', ci + 'geometry/impl/Point.h'], ['C08', 'C31', 'C32', 'C09', 'C06', 'C01']),
    'io': ([io + 'src/' + f for f in ('OsmFile.cpp', 'OsmHandlerLoad.cpp', 'OsmHandlerWrite.cpp', 'Factory.cpp', 'Io.cpp', 'BinHandler.cpp')] + [io + 'include/lanelet2_io/io_handlers/Serialize.h'], ['C30', 'C11', 'C13', 'C14', 'C12']),
    'match': (['lanelet2_matching/src/LaneletMatching.cpp', 'lanelet2_matching/src/Utilities.cpp'], ['C24']),
    'proj': (['lanelet2_projection/src/' + f for f in ('Geocentric.cpp', 'LocalCartesian.cpp', 'UTM.cpp')] + [io + 'include/lanelet2_io/Projection.h'], ['C15']),
    'rules': (['lanelet2_traffic_rules/src/' + f for f in ('GenericTrafficRules.cpp', 'GermanTrafficRules.cpp', 'TrafficRulesFactory.cpp')], ['C16', 'C17', 'C18']),
    'graph': ([ro + 'src/RoutingGraph.cpp', ro + 'src/RoutingGraphBuilder.cpp', ro + 'src/RoutingCost.cpp', ro + 'include/lanelet2_routing/internal/Graph.h', ro + 'include/lanelet2_routing/internal/ShortestPath.h', ro + 'include/lanelet2_routing/internal/RoutingGraphVisualization.h'], ['C29', 'C19', 'C20', 'C21', 'C22']),
    'route': ([ro + 'src/Route.cpp', ro + 'src/RouteBuilder.cpp', ro + 'include/lanelet2_routing/internal/GraphUtils.h'], ['C23', 'C22']),
    'path': ([ro + 'src/LaneletPath.cpp'], ['C28', 'C20', 'C21']),
    'valid': (['lanelet2_validation/src/Validation.cpp', 'lanelet2_validation/src/ValidatorFactory.cpp', 'lanelet2_validation/src/Cli.cpp'] + ['lanelet2_validation/src/validators/' + f for f in ('CheckTags.cpp', 'CurvatureTooBig.cpp', 'DuplicatedPoints.cpp', 'PointsTooClose.cpp', 'RoutingGraphIsValid.cpp')], ['C25']),
    'py': (['lanelet2_python/python_api/' + f for f in ('core.cpp', 'geometry.cpp', 'io.cpp', 'matching.cpp', 'projection.cpp', 'routing.cpp', 'traffic_rules.cpp')] + ['lanelet2_python/include/lanelet2_python/internal/converter.h'], ['C27']),
}
OPS = [  # pattern, replacements
    (r'(?<![<>=!-])<(?![<=])(?= )', ['<=']), (r'<=', ['<']), (r'(?<![>=-])>(?![>=])(?= )', ['>=']), (r'>=', ['>']),
    (r'==', ['!=']), (r'!=', ['==']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\bfront\(\)', ['back()']), (r'\bback\(\)', ['front()']), (r'\bleft(Bound\w*)\(', [r'right\1(']), (r'\bright(Bound\w*)\(', [r'left\1(']),
    (r'\.invert\(\)', ['']), (r'(?<=[ (])!(?=[a-z(*])', ['']), (r'std::min\b', ['std::max']), (r'std::max\b', ['std::min']),
    (r'\b1\b(?!\.)', ['0', '2']), (r'\b0\b(?!\.)', ['1']), (r'\b2\b(?!\.)', ['1', '3']), (r'\banyOf\b', ['all_of_']), (r'\.begin\(\)', ['.begin() + 1']),
    (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r'\+\+(?=\w)', ['--']), (r'\bfirst\b', ['second']), (r'\bsecond\b', ['first']),
    (r'\binverted\(\)', ['inverted() == false']), (r'\bstd::abs\(', ['(']), (r'\b(if|while) \(', [r'\1 (false && ']),
    (r'^(\s+)(?!return|using|auto|const|if|for|while|throw|else|std::vector|double|size_t|bool|int|class|struct|typename|template|static|friend)(\w[\w.\->]*\(.*\);)$', [r'\1']),  # remove a call
    (r'^(\s+)(\w[\w.\->\[\]*]* [+-]?= .*;)$', [r'\1']),  # remove an assignment
    (r'\bLeft\b', ['Right']), (r'\bRight\b', ['Left']), (r'\bfrom\b', ['to']), (r'\bto\b', ['from']), (r'\b(x|y)\(\)', ['z()']), (r'to2D\(', ['(']),
]


def mutants(files, rnd):
    out = []
    for f in files:
        lines = open(R + f).read().split('\n')
        comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('/*'): comment = True
            if comment:
                if '*/' in s: comment = False
                continue
            if '.reserve(' in s or not s or s.startswith(('//', '#', '*', 'using', 'namespace', 'static_assert', 'throw', 'class ', 'struct ', 'template')): continue
            code = l.split(' // ')[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2: continue
                    for r in reps:
                        new = code[:m.start()] + m.expand(r) + code[m.end():]
                        if new != code: out.append((f, i, l, new))
    rnd.shuffle(out)
    return out


def sh(cmd, t=900):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


ap = argparse.ArgumentParser()
ap.add_argument('group'), ap.add_argument('n', type=int), ap.add_argument('seed', type=int)
ap.add_argument('--scale', default='0.3'), ap.add_argument('--workers', default='4')
a = ap.parse_args()
files, checks = GROUPS[a.group]
rnd = random.Random(a.seed)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
done = 0
count = {}
perfile = {}
cap = max(2, a.n * 2 // max(1, len(files)))
for f, i, old, new in mutants(files, rnd):
    if done >= a.n: break
    if perfile.get(f, 0) >= cap: continue
    text = open(R + f).read().split('\n')
    assert text[i] == old
    text[i] = new
    open(R + f, 'w').write('\n'.join(text))
    res, t0 = None, time.time()
    try:
        rc, o = sh('./build.sh ' + ' '.join(c for c in checks), 1500)
        if rc:
            res = 'stillborn'
        else:
            for c in checks:
                rc, o = sh(f'PBT_SHRINK=2 ./run_check.sh {c} quick --scale {a.scale} --workers {a.workers}', 300)
                if rc == 1 and f'VIOLATION property={c}' in o: res = c
                elif rc: res = f'{c}:rc{rc}'
                if res: break
        if not res:
            rc, o = sh('bash /opt/vp/build.sh', 1500)
            if rc: res = 'stillborn'
            else:
                sh('bash /opt/vp/test.sh /tmp/mut_o.json', 300)
                try: passed = set(json.load(open('/tmp/mut_o.json'))['passed'])
                except Exception: passed = set()
                res = 'tests' if stable - passed else 'SURVIVED'
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', f])
    count[res] = count.get(res, 0) + 1
    if res != 'stillborn': done += 1; perfile[f] = perfile.get(f, 0) + 1
    if res == 'SURVIVED' or 'rc' in res or res == 'tests':
        print(f'{res} {f}:{i + 1} ({time.time() - t0:.0f} s)\n  - {old.strip()}\n  + {new.strip()}', flush=True)
    else:
        print(f'{res} {f}:{i + 1} ({time.time() - t0:.0f} s)', flush=True)
print(a.group, count, flush=True)
