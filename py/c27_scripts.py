"""The command line scripts of the Python package."""
import contextlib, io, os, runpy, sys, tempfile
import lanelet2
from lanelet2.core import *
from lanelet2 import io as IO, projection as PR, routing as R, traffic_rules as TR
from pbt import Prop

DIR = os.path.join(os.environ.get("LL2_ROOT", "/repo"), "lanelet2_python", "scripts")
LAYERS = ("pointLayer", "lineStringLayer", "polygonLayer", "laneletLayer", "areaLayer", "regulatoryElementLayer")
TITLES = ("Points", "Line Strings", "Polygons", "Lanelets", "Areas", "Regulatory Elements")


def run(script, *args):
    """runs a script in this process; returns (exit code or exception, printed text)"""
    out, argv = io.StringIO(), sys.argv
    sys.argv = [script] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(DIR, script), run_name="__main__")
        return 0, out.getvalue()
    except SystemExit as e:
        return e.code or 0, out.getvalue()
    except Exception as e:  # a script must not fail with anything else
        return f"{type(e).__name__}: {e}", out.getvalue()
    finally:
        sys.argv = argv


class World:
    """a small valid map. Every primitive is marked with its number, because scripts change ids."""

    def __init__(self, c, negative):
        s = self.s = c.src
        self.m, self.n, self.neg, self.by_mark = LaneletMap(), 0, negative, {}
        lanes, self.steps = s.range(1, 3), s.range(1, 3)
        z = s.grid(-2, 2)
        grid = [[self.mk(Point3d(self.id(), 10. * i, 4. * j, z), None) for i in range(self.steps + 1)] for j in range(lanes + 1)]
        sub = s.pick(["solid", "dashed"])
        rows = [[self.mk(LineString3d(self.id(), [grid[j][i], grid[j][i + 1]]), ("line_thin", sub)) for i in range(self.steps)] for j in range(lanes + 1)]
        self.most = most = s.pick(["road", "road", "walkway"])
        kind = lambda: s.pick([most] * 5 + ["bicycle_lane", "rail"])
        self.lanes = [self.mk(Lanelet(self.id(), rows[j + 1][i], rows[j][i]), (None, kind()))
                      for j in range(lanes) for i in range(self.steps)]
        for l in self.lanes:
            l.attributes["location"] = "urban"
            if s.chance(1, 4):
                l.attributes["one_way"] = "no"
        extra = []
        if s.chance(1, 2):
            p = [self.mk(Point3d(self.id(), x, -4 + y, z), None) for x, y in ((0, -9), (5, -9), (5, 0))]
            extra.append(self.mk(Polygon3d(self.id(), p), ("traffic_sign", "de205")))
        if s.chance(1, 2):
            far = [self.mk(Point3d(self.id(), 10. * x, -8., z), None) for x in (0, 1)]
            a, b = grid[0][0], grid[0][1]
            parts = [rows[0][0], self.mk(LineString3d(self.id(), [b, far[1]]), None), self.mk(LineString3d(self.id(), [far[1], far[0], a]), None)]
            ar = self.mk(Area(self.id(), parts, []), (None, s.pick(["walkway", "parking"])))
            ar.attributes["location"] = "urban"
            self.m.add(ar)
        if s.chance(1, 2):
            light = self.mk(LineString3d(self.id(), [grid[0][0], grid[1][0]]), ("traffic_light", "red_yellow_green"))
            r = self.mk(TrafficLight(self.id(), AttributeMap(), [light]), None)
            s.pick(self.lanes).addRegulatoryElement(r)
        if s.chance(1, 2) and len(self.lanes) > 1:
            r = self.mk(RightOfWay(self.id(), AttributeMap(), [self.lanes[0]], [self.lanes[1]]), None)
            self.lanes[0].addRegulatoryElement(r)
        for l in self.lanes + extra:
            self.m.add(l)

    def id(self):
        self.n += 1
        return -self.n if self.neg and self.s.flip() else self.n + (500 if self.neg else 0)

    def mk(self, o, kind):
        o.attributes["mark"] = str(len(self.by_mark))
        if kind:
            if kind[0]:
                o.attributes["type"] = kind[0]
            o.attributes["subtype"] = kind[1]
        self.by_mark[str(len(self.by_mark))] = o
        return o


def mark(o):
    return o.attributes["mark"] if "mark" in o.attributes else "?"


def shape(layer, o):
    """what an element is, with marks in place of ids"""
    attrs = {k: v for k, v in dict(o.attributes).items() if k != "area"}  # osm files mark polygons with it
    if layer == "pointLayer":
        return attrs, round(o.x, 1), round(o.y, 1)
    if layer in ("lineStringLayer", "polygonLayer"):
        return attrs, [mark(p) for p in o]
    if layer == "laneletLayer":
        attrs.pop("type", None)
        return attrs, mark(o.leftBound), mark(o.rightBound), o.leftBound.inverted(), o.rightBound.inverted(), sorted(mark(r) for r in o.regulatoryElements)
    if layer == "areaLayer":
        attrs.pop("type", None)
        return attrs, sorted(mark(l) for l in o.outerBound)
    return attrs, sorted((k, sorted(mark(x) for x in v)) for k, v in o.parameters.items())


def content(m):
    return {n: {mark(o): (o.id, shape(n, o)) for o in getattr(m, n)} for n in LAYERS}


def tmpdir():
    return os.environ.get("PBT_TMP") or tempfile.mkdtemp(prefix="c27_")


def ids(c):
    """make_ids_positive and print_ids"""
    s = c.src
    W = World(c, True)
    d = tmpdir()
    ext = s.pick([".osm", ".osm", ".bin"])
    fn, out = os.path.join(d, "in" + ext), os.path.join(d, "out" + s.pick([ext, ext, ".bin", ".osm"]))
    proj = PR.MercatorProjector(IO.Origin(49, 8))
    IO.write(fn, W.m, proj)
    before, raw = content(IO.load(fn, proj)), open(fn, "rb").read()
    all_ids = {n: [i for i, _ in before[n].values()] for n in LAYERS}

    def printed(f, have):
        code, text = run("print_ids.py", f)
        want = "".join(f"IDs in {t}\n{sorted(have[n])}\n" for t, n in zip(TITLES, LAYERS))
        c.eq((code, text), (0, want), "print_ids")
        every = sorted({i for n in LAYERS for i in have[n]})
        for q in [s.pick(every), s.pick([0, -1, 1, every[-1] + 1, every[0] - 1, 501])]:
            code, text = run("print_ids.py", f, "--has-id", q)
            where = [t for t, n in zip(TITLES, LAYERS) if q in have[n]]
            want = f"Found ID {q} in layer {where[0]}\n" if where else f"ID {q} not in map\n"
            c.eq((code, text), (0, want), f"print_ids --has-id {q}")

    printed(fn, all_ids)
    inplace = s.chance(1, 3)
    code, text = run("make_ids_positive.py", *([fn, s.pick(["-i", "--inplace"])] if inplace else [fn, out]))
    c.eq((code, text), (0, ""), "make_ids_positive")
    res = fn if inplace else out
    if not inplace:
        c.check(open(fn, "rb").read() == raw, "make_ids_positive changed its input")
    after = content(IO.load(res, proj))
    changed = 0
    for n in LAYERS:
        c.eq(sorted(after[n]), sorted(before[n]), f"elements in {n}")
        for k, (i, sh) in before[n].items():
            j, now = after[n][k]
            c.check(now == sh, lambda: f"{n}: {i} was {sh} and is now {now}")
            c.check(j == i if i >= 0 else j > 0, lambda: f"{n}: id {i} became {j}")
            changed += i < 0
    new = [j for n in LAYERS for j, _ in after[n].values()]
    c.eq(len(set(new)), len(new), "ids are used twice")
    printed(res, {n: [i for i, _ in after[n].values()] for n in LAYERS})
    for f in {fn, out}:
        if os.path.exists(f):
            os.unlink(f)
    c.eq(os.listdir(d), [], "files left over")
    code, text = run("print_ids.py", fn)
    c.check(str(code).startswith("RuntimeError"), lambda: f"print_ids of a missing file: {code}")
    c.eq(run("make_ids_positive.py", fn)[0], 2, "make_ids_positive without output")
    c.label("ids made positive", changed)
    c.nontrivial(changed > 3)


def debug(c):
    """create_debug_routing_graph"""
    s = c.src
    W = World(c, False)
    d = tmpdir()
    fn, out = os.path.join(d, "in.osm"), os.path.join(d, "out.osm")
    who = s.pick(["vehicle", "bicycle", "pedestrian"] + (["pedestrian"] * 3 if W.most == "walkway" else ["vehicle"] * 3))  # there are no rules for trains
    lat, lon = s.pick([(49, 8), (49, 8), (-33.5, 151.2), (0.25, -70.5)])
    proj = PR.UtmProjector(IO.Origin(lat, lon))
    IO.write(fn, W.m, proj)
    args = [fn, out, "--participant", who] + (["--lat", lat, "--lon", lon] if (lat, lon) != (49, 8) or s.flip() else [])
    c.eq(run("create_debug_routing_graph.py", *args), (0, ""), "create_debug_routing_graph")
    rules = TR.create(TR.Locations.Germany, getattr(TR.Participants, who.capitalize()))
    want = R.RoutingGraph(IO.load(fn, proj), rules, [R.RoutingCostDistance(0.)]).getDebugLaneletMap()

    def view(m):
        return (sorted((p.id, round(p.x, 1), round(p.y, 1)) for p in m.pointLayer),
                sorted((sorted(p.id for p in l), l.attributes["relation"]) for l in m.lineStringLayer))
    got, want = view(IO.load(out, proj)), view(want)
    c.check([p[0] for p in got[0]] == [p[0] for p in want[0]] and all(abs(a[1] - b[1]) < 0.2 and abs(a[2] - b[2]) < 0.2 for a, b in zip(got[0], want[0])),
            lambda: f"points {got[0]}, expected {want[0]}")
    c.eq(len(got[1]), len(want[1]), "edges")
    c.eq(sorted(e[0] for e in got[1]), sorted(e[0] for e in want[1]), "edges")
    c.eq({p[0] for p in got[0]}, {l.id for l in W.m.laneletLayer if rules.canPass(l)} | {a.id for a in W.m.areaLayer if rules.canPass(a)}, "vertices")
    os.unlink(fn)
    os.unlink(out)
    c.eq(os.listdir(d), [], "files left over")
    c.label("edges", len(got[1]))
    c.nontrivial(len(got[1]) > 0)


PROPS = [Prop("ids", "scripts print_ids and make_ids_positive; non-trivial: four and more negative ids", 400, 12000, ids),
         Prop("debugscript", "script create_debug_routing_graph; non-trivial: the graph has edges", 300, 8000, debug)]
KNOWN = []
