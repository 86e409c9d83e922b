"""Maps, regulatory elements, traffic rules, files and projections from Python."""
import gc, math, os, re, tempfile
from lanelet2.core import *
from lanelet2 import geometry as G, io as IO, projection as PR, traffic_rules as TR
from pbt import Discard, Prop
import c27_core as K

LAYERS = ("pointLayer", "lineStringLayer", "polygonLayer", "laneletLayer", "areaLayer", "regulatoryElementLayer")


class Content:
    """primitives of a generated map: id -> (layer, handle, ids of the primitives it is made of)"""

    def __init__(self, c, ids=True):
        self.c, self.s, self.next, self.all, self.pos, self.lists = c, c.src, 0, {}, {}, {k: [] for k in LAYERS}
        s = c.src
        P, L = self.lists["pointLayer"], self.lists["lineStringLayer"]
        for _ in range(s.range(3, 12)):
            i = self.id()
            x, y, z = s.grid(-20, 20), s.grid(-20, 20), s.grid(-2, 2)
            self.put("pointLayer", i, Point3d(i, x, y, z, K.draw_attrs(s)), ())
            self.pos[i] = (x, y)
        for _ in range(s.range(2, 7)):
            self.line()
        for _ in range(s.range(0, 2)):
            i, pts = self.id(), self.some_points(3, 5)
            self.put("polygonLayer", i, Polygon3d(i, [self.o(p) for p in pts], K.draw_attrs(s)), pts)
        for _ in range(s.range(0, 4)):
            i, l, r = self.id(), s.pick(L), s.pick(L)
            a, b = self.o(l), self.o(r)
            self.put("laneletLayer", i, Lanelet(i, a.invert() if s.flip() else a, b.invert() if s.flip() else b, K.draw_attrs(s)), (l, r))
        for _ in range(s.range(0, 2)):
            i, outer = self.id(), [s.pick(L) for _ in range(s.range(1, 3))]
            inner = [[s.pick(L)] for _ in range(s.range(0, 1))]
            self.put("areaLayer", i, Area(i, [self.o(l) for l in outer], [[self.o(l) for l in b] for b in inner], K.draw_attrs(s)),
                     outer + [l for b in inner for l in b])
        self.outer = {}
        self.regs()

    def id(self):
        self.next += 1
        return self.next

    def o(self, i):
        return self.all[i][1]

    def put(self, layer, i, o, parts):
        self.all[i] = (layer, o, tuple(parts))
        self.lists[layer].append(i)
        return i

    def some_points(self, lo, hi):
        return [self.s.pick(self.lists["pointLayer"]) for _ in range(self.s.range(lo, hi))]

    def line(self):
        s, i = self.s, self.id()
        pts = self.some_points(2, 4)
        return self.put("lineStringLayer", i, LineString3d(i, [self.o(p) for p in pts], K.draw_attrs(s)), pts)

    def sign(self):
        l = self.lists["lineStringLayer"] + self.lists["polygonLayer"]
        return self.s.pick(l)

    def regs(self):
        s = self.s
        for _ in range(s.range(0, 3)):
            i = self.id()
            form = s.below(3)
            if form == 0:
                lights = [self.sign() for _ in range(s.range(1, 2))]
                stop = s.pick(self.lists["lineStringLayer"]) if s.flip() else None
                r = TrafficLight(i, {}, [self.o(x) for x in lights], *([] if stop is None else [self.o(stop)]))
                parts = lights + ([] if stop is None else [stop])
            elif form == 1:
                signs, ref = [self.sign()], [s.pick(self.lists["lineStringLayer"])]
                r = SpeedLimit(i, {}, TrafficSignsWithType([self.o(x) for x in signs], "de274"), refLines=[self.o(x) for x in ref])
                parts = signs + ref
            else:
                ll = self.lists["laneletLayer"]
                if len(ll) < 2:
                    continue
                row, yi = s.pick(ll), s.pick(ll)
                r, parts = RightOfWay(i, {}, [self.o(row)], [self.o(yi)]), [row, yi]
            self.put("regulatoryElementLayer", i, r, parts)
            for k in self.lists["laneletLayer"] + self.lists["areaLayer"]:
                if s.chance(1, 3):
                    self.o(k).addRegulatoryElement(r)
                    la, o, p = self.all[k]
                    self.all[k] = (la, o, p + (i,))

    def closure(self, ids):
        out, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                todo += self.all[i][2]
        return out

    def points_of(self, i):
        layer, _, parts = self.all[i]
        if layer == "pointLayer":
            return [i]
        if layer == "laneletLayer":
            parts = parts[:2]
        if layer == "areaLayer":
            parts = [p for p in self.o_outer(i)]
        return [q for p in parts for q in (self.points_of(p) if layer != "polygonLayer" else [p])]

    def o_outer(self, i):
        return [l.id for l in self.o(i).outerBound]

    def box(self, i):
        ps = [self.pos[p] for p in self.points_of(i)]
        return min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps)


def check_layers(c, W, m, want, what):
    for name in LAYERS:
        ids = sorted(i for i in want if W.all[i][0] == name)
        layer = getattr(m, name)
        c.eq(len(layer), len(ids), f"len of {name} of {what}")
        c.eq(sorted(e.id for e in layer), ids, f"ids in {name} of {what}")
        for i in ids:
            e, o = layer[i], W.o(i)
            c.check(type(e) is type(o), lambda: f"{name}[{i}] of {what} is a {type(e).__name__} instead of {type(o).__name__}")
            if name != "regulatoryElementLayer":
                c.check(layer.get(i) == e and (e == o or W.all[i][0] == "lineStringLayer" and e.invert() == o), lambda: f"{name}[{i}] of {what} is not the added object")
                c.eq(dict(e.attributes), dict(o.attributes), f"attributes of {name}[{i}]")
            c.eq((i in layer, layer.exists(i), o in layer), (True, True, True), f"{i} in {name} of {what}")
        for i in [x for x in W.all if x not in ids][:4] + [9999]:
            c.eq((i in layer, layer.exists(i)), (False, False), f"{i} in {name} of {what}")
            c.raises(RuntimeError, lambda: layer[i], f"{name}[{i}] of {what}")
            c.raises(RuntimeError, lambda: layer.get(i), f"{name}.get({i}) of {what}")


def check_queries(c, W, m, want, what):
    s = c.src
    x, y = s.grid(-22, 20), s.grid(-22, 20)
    w, h = s.grid(0, 20), s.grid(0, 20)
    bb = BoundingBox2d(BasicPoint2d(x, y), BasicPoint2d(x + w, y + h))
    q = BasicPoint2d(s.grid(-25, 25), s.grid(-25, 25))
    for name in LAYERS[:5]:
        layer = getattr(m, name)
        ids = [i for i in want if W.all[i][0] == name]
        hit = sorted(i for i in ids for b in [W.box(i)] if b[0] <= x + w and b[2] >= x and b[1] <= y + h and b[3] >= y)
        c.eq(sorted(e.id for e in layer.search(bb)), hit, f"{name}.search of {what}")
        c.label("search hits", len(hit))

        def dist(i):
            b = W.box(i)
            return math.hypot(max(b[0] - q.x, 0, q.x - b[2]), max(b[1] - q.y, 0, q.y - b[3]))
        n = s.range(1, 4)
        got = [e.id for e in (layer.nearest(q, n) if n > 1 else layer.nearest(q))]
        ds = sorted(dist(i) for i in ids)
        c.eq(len(set(got)), min(n, len(ids)), f"{name}.nearest({n}) of {what}")
        c.check(all(i in ids for i in got), f"{name}.nearest of {what}: {got}")
        c.check(all(abs(a - b) < 1e-9 for a, b in zip(sorted(dist(i) for i in got), ds)), lambda: f"{name}.nearest({n}) of {what}: {got} at {[dist(i) for i in got]}, best {ds[:n]}")
    some = lambda name: [i for i in W.lists[name]]
    for p in some("pointLayer")[:4]:
        for name in ("lineStringLayer", "polygonLayer"):
            use = sorted(i for i in want if W.all[i][0] == name and p in W.all[i][2])
            c.eq(sorted({e.id for e in getattr(m, name).findUsages(W.o(p))}), use, f"{name}.findUsages of point {p} in {what}")
    for l in some("lineStringLayer")[:4]:
        for name in ("laneletLayer", "areaLayer"):
            use = sorted(i for i in want if W.all[i][0] == name and l in W.all[i][2])
            got = getattr(m, name).findUsages(W.o(l)) + getattr(m, name).findUsages(W.o(l).invert())
            c.eq(sorted({e.id for e in got}), use, f"{name}.findUsages of line {l} in {what}")
            c.label("usages", len(use))
    for r in some("regulatoryElementLayer"):
        for name in ("laneletLayer", "areaLayer"):
            use = sorted(i for i in want if W.all[i][0] == name and r in W.all[i][2])
            c.eq(sorted({e.id for e in getattr(m, name).findUsages(W.o(r))}), use, f"{name}.findUsages of regulatory element {r} in {what}")


def maps(c):
    s = c.src
    W = Content(c)
    made = []  # (map, set of ids, is a map with subobjects, what)
    FM = {"pointLayer": (createMapFromPoints, createSubmapFromPoints), "lineStringLayer": (createMapFromLineStrings, createSubmapFromLineStrings),
          "polygonLayer": (createMapFromPolygons, createSubmapFromPolygons), "laneletLayer": (createMapFromLanelets, createSubmapFromLanelets),
          "areaLayer": (createMapFromAreas, createSubmapFromAreas)}
    for _ in range(s.range(1, 3)):
        sub = s.chance(1, 3)
        if s.flip():
            m, have = (LaneletSubmap() if sub else LaneletMap()), set()
        else:
            name = s.pick(list(FM))
            ids = sorted({s.pick(W.lists[name]) for _ in range(s.range(0, 4))}) if W.lists[name] else []
            m = FM[name][sub]([W.o(i) for i in ids])
            have = set(ids) if sub else W.closure(ids)
            c.label("created from a list")
            c.describe(f"{'submap' if sub else 'map'} {len(made)} from {name[:-5]} {ids}" + "".join(f", {i}: {W.all[i][0][:-5]} of {W.all[i][2]}" for i in sorted(W.closure(ids) | have)))
        c.eq({e.id for n in LAYERS for e in getattr(m, n)}, have, "ids in the new map")
        made.append([m, have, sub, ("submap" if sub else "map") + f" {len(made)}"])
    for _ in range(s.range(1, 8)):
        t = s.pick(made)
        i = s.pick(sorted(W.all))
        t[0].add(W.o(i))
        if t[2]:
            t[1].add(i)
        else:
            t[1] |= W.closure([i])
        c.describe(f"{t[3]}.add({W.all[i][0][:-5]} {i})")
        c.eq(t[1], {e.id for n in LAYERS for e in getattr(t[0], n)}, f"ids in {t[3]} after add({W.all[i][0]} {i})")
    for m, have, sub, what in made:
        check_layers(c, W, m, have, what)
        check_queries(c, W, m, have, what)
        if sub and s.flip():
            full = m.laneletMap()
            want = W.closure(have)
            check_layers(c, W, full, want, what + ".laneletMap()")
            check_queries(c, W, full, want, what + ".laneletMap()")
            c.label("map of a submap")
    # objects without an id get a new one
    m = s.pick(made)[0]
    if isinstance(m, LaneletMap):
        before = {e.id for n in LAYERS for e in getattr(m, n)}
        p = Point3d(0, 1, 2, 3)
        l = LineString3d(0, [p, Point3d(0, 2, 2, 3)])
        ll = Lanelet(0, l, LineString3d(0, [Point3d(0, 1, 1, 1), Point3d(0, 2, 1, 1)]))
        m.add(ll)
        new = [ll.id, l.id, p.id, l[1].id, ll.rightBound.id, ll.rightBound[0].id, ll.rightBound[1].id]
        c.check(0 not in new and len(set(new)) == 7 and not set(new) & before, lambda: f"new ids {new}, in use {sorted(before)}")
        c.check(m.laneletLayer[ll.id] == ll and m.pointLayer[p.id] == p and m.lineStringLayer[l.id] == l, "objects with new ids are not found under them")
        c.label("new ids")
    # a layer keeps working when the map is no longer referenced
    t = made.pop(s.below(len(made)))
    name = s.pick(list(LAYERS))
    layer, ids = getattr(t[0], name), None
    ids = sorted(e.id for e in layer)
    m = None
    del t
    gc.collect()
    c.eq(sorted(e.id for e in layer), ids, f"ids in {name} after the map is gone")
    it = iter(layer)
    del layer
    gc.collect()
    c.eq(sorted(e.id for e in it), ids, f"ids in an iterator of {name} after the layer is gone")
    kinds = {W.all[i][0] for i in W.all}
    c.nontrivial(len(kinds) >= 4)


# ---------------------------------------------------------------------------------------------------------------------------
def ids(seq):
    return [x.id for x in seq]


def regelems(c):
    s = c.src
    n = [0]

    def nid():
        n[0] += 1
        return n[0]
    pt = lambda: Point3d(nid(), s.grid(-5, 5), s.grid(-5, 5), 0)
    line = lambda a={}: LineString3d(nid(), [pt(), pt()], dict(a))
    poly = lambda a={}: Polygon3d(nid(), [pt(), pt(), pt()], dict(a))
    lane = lambda: Lanelet(nid(), line(), line())
    S = [s.pick([line, poly])({"subtype": s.pick(["de274", "de205", "usR1-1"])}) for _ in range(s.range(1, 4))]
    LS = [line() for _ in range(3)]
    LL = [lane() for _ in range(s.range(2, 4))]
    kind = s.pick(["TrafficLight", "RightOfWay", "AllWayStop", "TrafficSign", "SpeedLimit"])
    A = K.draw_attrs(s)
    A.pop("type", 0), A.pop("subtype", 0)
    rid = nid()
    roles = {}  # role -> list of objects
    sub = {"TrafficLight": "traffic_light", "RightOfWay": "right_of_way", "AllWayStop": "all_way_stop", "TrafficSign": "traffic_sign", "SpeedLimit": "speed_limit"}[kind]
    some = lambda pool, lo, hi: [s.pick(pool) for _ in range(s.range(lo, hi))]
    uniq = lambda l: [x for i, x in enumerate(l) if x.id not in [y.id for y in l[:i]]]
    alive = lambda: LL
    expl, ctype = None, None
    if kind == "TrafficLight":
        lights, stop = uniq(some(S, 1, 3)), s.pick([None, None] + LS)
        r = TrafficLight(rid, A, lights, stop) if s.flip() else TrafficLight(id=rid, attributes=AttributeMap(A), trafficLights=lights, stopLine=stop)
        roles = {"refers": lights, "ref_line": [stop] if stop else []}
    elif kind == "RightOfWay":
        row, yi, stop = uniq(some(LL, 1, 2)), uniq(some(LL, 1, 2)), s.pick([None] + LS)
        r = RightOfWay(rid, A, row, yi, stop) if s.flip() else RightOfWay(id=rid, attributes=A, rightOfWayLanelets=row, yieldLanelets=yi, stopLine=stop)
        roles = {"right_of_way": row, "yield": yi, "ref_line": [stop] if stop else []}
    elif kind == "AllWayStop":
        ll = uniq(some(LL, 0, 3))
        lines = [LS[i] for i in range(len(ll))] if s.flip() else []
        signs = uniq(some(S, 0, 2))
        r = AllWayStop(rid, A, [LaneletWithStopLine(l, lines[i] if lines else None) for i, l in enumerate(ll)], signs)
        roles = {"yield": ll, "ref_line": lines, "refers": signs}
    else:
        signs, cancel, ref, cref = uniq(some(S, 1, 2)), uniq(some(S, 0, 2)), uniq(some(LS, 0, 2)), uniq(some(LS, 0, 2))
        expl = s.pick([None, "de274-60"])
        if s.flip():
            signs[0].attributes["subtype"] = "de274"
        cls = TrafficSign if kind == "TrafficSign" else SpeedLimit
        tw = TrafficSignsWithType(signs, expl) if expl else TrafficSignsWithType(signs)
        c.eq(ids(tw.trafficSigns), ids(signs), "TrafficSignsWithType.trafficSigns")
        ctype = s.pick([None, "de278"])
        cw = TrafficSignsWithType(cancel, ctype) if ctype else TrafficSignsWithType(cancel)
        r = cls(rid, A, tw, cw, ref, cref) if s.flip() else cls(id=rid, attributes=A, trafficSigns=tw, cancellingTrafficSigns=cw, refLines=ref, cancelLines=cref)
        roles = {"refers": signs, "cancels": cancel, "ref_line": ref, "cancel_line": cref}
    attrs = dict(A, type="regulatory_element", subtype=sub)
    if kind in ("TrafficSign", "SpeedLimit"):  # an explicit type is written to the signs
        for x in roles["refers"] + roles["cancels"]:
            t = ctype if ctype and x in roles["cancels"] else expl if x in roles["refers"] else None
            if t:
                c.eq((x.attributes["type"], x.attributes["subtype"]), ("traffic_sign", t), f"tags of sign {x.id} with explicit type")
    users = []
    changed = expired = False

    def verify(r, what):
        c.eq(r.id, rid, what + " id")
        c.eq(dict(r.attributes), attrs, what + " attributes")
        p = r.parameters
        want = {k: ids(v) for k, v in roles.items() if v}
        got = {k: ids([x for x in v if x is not None]) for k, v in p.items() if len(v)}
        c.eq(got, want, what + " parameters")
        c.eq(sorted(k for k in r.roles if k in want), sorted(want), what + " roles")
        c.eq(len(r), len(p), "len of " + what)
        for v in want.values():
            for i in v:
                c.eq(r.find(i).id, i, f"{what} find({i})")
        c.check(r.find(77777) is None, what + " find of an unknown id")
        if kind == "TrafficLight":
            c.eq(ids(r.trafficLights), want.get("refers", []), what + " trafficLights")
            c.eq([type(x) for x in r.trafficLights], [type(x) for x in roles["refers"]], what + " trafficLights types")
        if kind in ("TrafficLight", "RightOfWay"):
            c.eq(r.stopLine.id if r.stopLine is not None else None, roles["ref_line"][0].id if roles["ref_line"] else None, what + " stopLine")
        if kind == "RightOfWay":
            c.eq(ids(r.rightOfWayLanelets()), want.get("right_of_way", []), what + " rightOfWayLanelets")
            c.eq(ids(r.yieldLanelets()), want.get("yield", []), what + " yieldLanelets")
            for l in LL:
                m = ManeuverType.RightOfWay if l.id in want.get("right_of_way", []) else ManeuverType.Yield if l.id in want.get("yield", []) else ManeuverType.Unknown
                c.eq(r.getManeuver(l), m, f"{what} getManeuver({l.id})")
        if kind == "AllWayStop":
            c.eq(ids(r.lanelets()), want.get("yield", []), what + " lanelets")
            c.eq(ids(r.stopLines()), want.get("ref_line", []), what + " stopLines")
            c.eq(ids(r.trafficSigns()), want.get("refers", []), what + " trafficSigns")
        if kind in ("TrafficSign", "SpeedLimit"):
            c.eq(ids(r.trafficSigns()), want.get("refers", []), what + " trafficSigns")
            c.eq(ids(r.cancellingTrafficSigns()), want.get("cancels", []), what + " cancellingTrafficSigns")
            c.eq(ids(r.refLines()), want.get("ref_line", []), what + " refLines")
            c.eq(ids(r.cancelLines()), want.get("cancel_line", []), what + " cancelLines")
            if roles["refers"]:
                c.eq(r.type(), roles["refers"][0].attributes["subtype"], what + " type()")
            else:
                c.raises(RuntimeError, r.type, what + " type() without signs")
            c.eq(r.cancelTypes(), sorted({x.attributes["subtype"] for x in roles["cancels"]}), what + " cancelTypes()")
        text = repr(r)
        c.check(text.startswith(f"{kind}({rid}, "), lambda: f"repr of {what}: {text}")

    def change(role, obj, add, remove):
        cur = roles.setdefault(role, [])
        here = [i for i, x in enumerate(cur) if x.id == obj.id]
        if s.flip() and not here:
            add(obj)
            cur.append(obj)
        else:
            c.eq(remove(obj), bool(here), f"{kind}: removing {role} {obj.id}")
            if here:
                del cur[here[0]]

    cls = {"TrafficLight": TrafficLight, "RightOfWay": RightOfWay, "AllWayStop": AllWayStop, "TrafficSign": TrafficSign, "SpeedLimit": SpeedLimit}[kind]
    c.check(type(r) is cls, f"{kind} is a {type(r)}")
    verify(r, kind)
    for _ in range(s.range(0, 6)):
        form = s.below(4)
        changed = changed or form < 2
        if form == 0 and kind in ("TrafficLight", "RightOfWay"):
            x = s.pick(LS)
            if s.flip():
                r.stopLine = x
                roles["ref_line"] = [x]
            else:
                r.removeStopLine()
                roles["ref_line"] = []
        elif form <= 1:
            if kind == "TrafficLight":
                if len(roles["refers"]) > 1:
                    change("refers", s.pick(S), r.addTrafficLight, r.removeTrafficLight)
            elif kind == "RightOfWay":
                if s.flip():
                    change("right_of_way", s.pick(LL), r.addRightOfWayLanelet, r.removeRightOfWayLanelet)
                else:
                    change("yield", s.pick(LL), r.addYieldLanelet, r.removeYieldLanelet)
            elif kind == "AllWayStop":
                if s.flip():
                    change("refers", s.pick(S), r.addTrafficSign, r.removeTrafficSign)
                else:
                    l = s.pick(LL)
                    if s.flip():
                        if l.id not in ids(roles["yield"]) and not roles["ref_line"]:
                            r.addLanelet(LaneletWithStopLine(l, None))
                            roles["yield"].append(l)
                    else:
                        here = [i for i, x in enumerate(roles["yield"]) if x.id == l.id]
                        c.eq(r.removeLanelet(l), bool(here), "AllWayStop.removeLanelet")
                        if here:
                            del roles["yield"][here[0]]
                            if roles["ref_line"]:
                                del roles["ref_line"][here[0]]
            else:
                k = s.below(4)
                if k == 0:
                    change("refers", s.pick(S), r.addTrafficSign, r.removeTrafficSign)
                elif k == 1:
                    change("ref_line", s.pick(LS), r.addRefLine, r.removeRefLine)
                elif k == 2:
                    change("cancel_line", s.pick(LS), r.addCancellingRefLine, r.removeCancellingRefLine)
        elif form == 2:
            l = s.pick(LL)
            if l.id not in users:
                l.addRegulatoryElement(r)
                users.append(l.id)
            else:
                c.eq(l.removeRegulatoryElement(r), True, "removeRegulatoryElement")
                users.remove(l.id)
                c.eq(l.removeRegulatoryElement(r), False, "removeRegulatoryElement again")
        elif form == 3:
            k = s.pick(["a", "x"])
            r.attributes[k] = "v"
            attrs[k] = "v"
        verify(r, kind)
    getter = {"TrafficLight": ["trafficLights"], "RightOfWay": ["rightOfWay"], "AllWayStop": ["allWayStop"], "TrafficSign": ["trafficSigns"],
              "SpeedLimit": ["speedLimits", "trafficSigns"]}[kind]
    for l in LL:
        for h in (l, l.invert(), ConstLanelet(l)):
            want = [rid] if l.id in users else []
            c.eq(ids(h.regulatoryElements), want, "lanelet.regulatoryElements")
            for g in ("trafficLights", "rightOfWay", "allWayStop", "trafficSigns", "speedLimits"):
                c.eq(ids(getattr(h, g)()), want if g in getter else [], f"lanelet.{g}() with a {kind}")
    # the element reached through a lanelet or a map is of its class and survives without other references
    if users:
        l = next(x for x in LL if x.id in users)
        m = LaneletMap()
        m.add(l)
        r = None
        gc.collect()
        r = s.pick([lambda: l.regulatoryElements[0], lambda: m.regulatoryElementLayer[rid], lambda: getattr(l, getter[0])()[0]])()
        del m
        gc.collect()
        c.check(type(r) is cls, f"{kind} obtained from a lanelet or map is a {type(r)}")
        verify(r, kind + " obtained again")
        c.label("obtained again")
    # lanelets that are gone drop out of the lists
    if kind in ("RightOfWay", "AllWayStop") and s.flip():
        expired = True
        k = s.pick(["right_of_way", "yield"])
        gone = set(ids(roles.get(k, [])[:1]))
        del LL[:]
        l = h = x = o = None
        keep = [z for v in roles.values() for z in v if z.id not in gone]
        for k in roles:
            roles[k] = [z for z in roles[k] if z.id not in gone]
        if kind == "AllWayStop":  # only the lanelet list shrinks
            roles["ref_line"] = list(roles["ref_line"])
        z = None
        row = yi = ll = None
        gc.collect()
        if kind == "RightOfWay":
            c.eq(ids(r.rightOfWayLanelets()), ids(roles["right_of_way"]), "rightOfWayLanelets after a lanelet is gone")
            c.eq(ids(r.yieldLanelets()), ids(roles["yield"]), "yieldLanelets after a lanelet is gone")
        else:
            c.eq(ids(r.lanelets()), ids(roles["yield"]), "lanelets after a lanelet is gone")
        c.check(repr(r).startswith(kind), "repr with a lanelet that is gone")
        for p in r.parameters.values():
            for q in p:
                c.check(q is None or q.id not in gone, "a lanelet that is gone is in the parameters")
        c.label("lanelet gone")
    c.label(kind)
    c.nontrivial(changed or bool(users) or expired)


# ---------------------------------------------------------------------------------------------------------------------------
def rules(c):
    """traffic rules objects and speed limits"""
    s = c.src
    v = s.grid(0, 60)
    mand = s.flip()
    i = TR.SpeedLimitInformation(v, mand) if s.flip() else TR.SpeedLimitInformation(speedLimitMPS=v, isMandatory=mand)
    c.check(abs(i.speedLimitMPS - v) < 1e-9 and abs(i.speedLimitKmH - 3.6 * v) < 1e-9 and abs(i.speedLimit - 3.6 * v) < 1e-9, lambda: f"SpeedLimitInformation({v}): {i.speedLimitMPS} m/s {i.speedLimitKmH} km/h")
    c.eq(i.isMandatory, mand, "isMandatory")
    k = s.grid(0, 200)
    f = s.pick(["speedLimit", "speedLimitKmH", "speedLimitMPS"])
    setattr(i, f, k)
    mps = k if f == "speedLimitMPS" else k / 3.6
    c.check(abs(i.speedLimitMPS - mps) < 1e-9 and abs(i.speedLimitKmH - 3.6 * mps) < 1e-9, lambda: f"{f} = {k}: {i.speedLimitMPS} m/s {i.speedLimitKmH} km/h")
    i.isMandatory = not mand
    c.eq(i.isMandatory, not mand, "isMandatory")
    P = TR.Participants
    names = {"Vehicle": "vehicle", "VehicleCar": "vehicle:car", "VehicleBus": "vehicle:bus", "VehicleTruck": "vehicle:truck", "VehicleMotorcycle": "vehicle:motorcycle",
             "VehicleTaxi": "vehicle:taxi", "VehicleEmergency": "vehicle:emergency", "Bicycle": "bicycle", "Pedestrian": "pedestrian", "Train": "train",
             "VehicleCarElectric": "vehicle:car:electric", "VehicleCarCombustion": "vehicle:car:combustion"}
    a = s.pick(sorted(names))
    c.eq(getattr(P, a), names[a], f"Participants.{a}")
    c.eq(TR.Locations.Germany, "de", "Locations.Germany")
    kinds = {"vehicle": lambda p: p.startswith("vehicle"), "vehicle:car": lambda p: p.startswith("vehicle:car"), "bicycle": lambda p: p == "bicycle", "pedestrian": lambda p: p == "pedestrian"}
    part = s.pick(["vehicle", "vehicle:car", "bicycle", "pedestrian"])
    c.raises(RuntimeError, lambda: TR.create("nowhere", part), "rules of an unknown location")
    r = TR.create("de", part) if s.flip() else TR.create(location=TR.Locations.Germany, participant=part)
    c.eq((r.location(), r.participant()), ("de", part), "location and participant")
    c.check(part in str(r) and "de" in str(r), lambda: f"str of the rules: {r}")
    pid = iter(range(1, 1000))

    def line(x, attrs):
        return LineString3d(next(pid), [Point3d(next(pid), x, 0, 0), Point3d(next(pid), x, 5, 0)], attrs)
    subtype, loc = s.pick(["road", "highway", "bicycle_lane", "walkway", "crosswalk", "bus_lane"]), s.pick(["urban", "nonurban"])
    attrs = {"subtype": subtype, "location": loc}
    ov = s.pick([None, "yes", "no"])
    who = s.pick(["participant:vehicle", "participant:pedestrian", "participant:bicycle", "participant:vehicle:car"])
    if ov:
        attrs[who] = ov
    ow = s.pick([None, "yes", "no"])
    if ow:
        attrs["one_way"] = ow
    mid = [("curbstone", "low"), ("line_thin", "dashed"), ("line_thin", "solid"), ("line_thin", "dashed_solid"), ("line_thin", "solid_dashed")][s.below(5)]
    b = [line(x, {"type": mid[0], "subtype": mid[1]} if x == 2 else {"type": "curbstone", "subtype": "high"}) for x in (0, 2, 4)]
    l1, l2 = Lanelet(501, b[0], b[1], dict(attrs)), Lanelet(502, b[1], b[2], dict(attrs))
    default = {"road": ("vehicle", "bicycle"), "highway": ("vehicle",), "bicycle_lane": ("bicycle",), "walkway": ("pedestrian",), "crosswalk": ("pedestrian",),
               "bus_lane": ("vehicle:bus", "vehicle:emergency", "vehicle:taxi")}[subtype]
    if ov:
        # explicit attributes replace the defaults
        who = who[12:]
        can = ov == "yes" and (part == who or part.startswith(who + ":"))
        if ov == "no" and not (part == who or part.startswith(who + ":")):
            can = None
    else:
        can = any(part == d or part.startswith(d + ":") for d in default)
    form = s.pick([lambda l: l, ConstLanelet])
    if can is not None:
        c.eq(r.canPass(form(l1)), can, f"canPass of {part} on {attrs}")
        c.label("may pass" if can else "may not pass")
    oneway = ow != "no"
    if part != "pedestrian":
        c.eq(r.isOneWay(l1), oneway, f"isOneWay for {part} on {attrs}")
        if can is not None:
            c.eq(r.canPass(l1.invert()), can and not oneway, f"canPass of {part} on inverted {attrs}")
    c.eq(r.hasDynamicRules(l1), False, "hasDynamicRules")
    if can and part in ("vehicle", "vehicle:car"):
        side = {"curbstone": (False, False), "line_thindashed": (True, True), "line_thinsolid": (False, False), "line_thindashed_solid": (True, False), "line_thinsolid_dashed": (False, True)}
        left_to_right, right_to_left = side[mid[0] if mid[0] == "curbstone" else "".join(mid)]
        c.eq(r.canChangeLane(l1, l2), left_to_right, f"lane change to the right over {mid}")
        c.eq(r.canChangeLane(l2, l1), right_to_left, f"lane change to the left over {mid}")
        c.label("lane change asked")
        if not ov:
            sp = r.speedLimit(l1)
            want = {"urban": 50, "nonurban": 100}[loc] if subtype == "road" else None
            if want:
                c.check(abs(sp.speedLimitKmH - want) < 1e-6 and abs(sp.speedLimitMPS - want / 3.6) < 1e-6, lambda: f"speed limit {sp.speedLimitKmH} on {attrs}")
                c.eq(sp.isMandatory, True, "isMandatory")
    c.nontrivial(can is not None)


# ---------------------------------------------------------------------------------------------------------------------------
def files(c):
    """writing and loading maps, projectors"""
    s = c.src
    lat, lon = s.pick([49.0, -33.5, 0.25]), s.pick([8.4, 151.2, -70.0])
    origin = s.pick([lambda: IO.Origin(lat, lon), lambda: IO.Origin(lat=lat, lon=lon, alt=0.), lambda: IO.Origin(GPSPoint(lat, lon, 0))])()
    c.eq((origin.position.lat, origin.position.lon, origin.position.alt), (lat, lon, 0.), "Origin.position")
    name = s.pick(["UtmProjector", "MercatorProjector", "LocalCartesianProjector"])
    proj = getattr(PR, name)(origin)
    o = proj.origin().position
    c.eq((o.lat, o.lon), (lat, lon), name + ".origin()")
    x, y = s.grid(-800, 800, 12.5), s.grid(-800, 800, 12.5)
    g = proj.reverse(BasicPoint3d(x, y, 1.5))
    p = proj.forward(g)
    c.check(math.hypot(p.x - x, p.y - y) < 1e-5, lambda: f"{name}: {x} {y} comes back as {p.x} {p.y}")
    z = proj.forward(GPSPoint(lat, lon, 0))
    c.check(name == "MercatorProjector" or math.hypot(z.x, z.y) < 1e-5, lambda: f"{name}: the origin is at {z.x} {z.y}")
    dy = (g.lat - lat) * 111200
    dx = (g.lon - lon) * 111200 * math.cos(math.radians(lat))
    c.check(name == "MercatorProjector" or math.hypot(dx - x, dy - y) < 60, lambda: f"{name}: {x} {y} is at {g.lat} {g.lon}, {dx} m {dy} m from the origin")

    W = Content(c)
    ext = s.pick([".osm", ".osm", ".bin"])
    for i in W.lists["laneletLayer"] + W.lists["areaLayer"]:
        if "type" in W.o(i).attributes:
            del W.o(i).attributes["type"]
    # areas of unconnected line strings are refused by the osm reader (see C11)
    ids_ = [i for i in W.all if s.chance(2, 3) and (ext == ".bin" or W.all[i][0] != "areaLayer")]
    m = LaneletMap()
    for i in ids_:
        m.add(W.o(i))
    want = W.closure(ids_)
    d = os.environ.get("PBT_TMP") or tempfile.mkdtemp(prefix="c27_")
    fn = os.path.join(d, "m" + ext)
    conf = s.pick([None, {}, {"josm_upload": "true"}, {"josm_format_elevation": "true"}])
    form = s.below(4)
    if form == 0:
        IO.write(fn, m, proj) if conf is None else IO.write(fn, m, proj, conf)
    elif form == 1:
        IO.write(fn, m, origin)
        proj = None
    elif form == 2:
        c.eq(list(IO.writeRobust(fn, m, proj) if conf is None else IO.writeRobust(fn, m, proj, conf)), [], "errors of writeRobust")
    else:
        IO.write(filename=fn, map=m, projector=proj)
    conf = conf if form in (0, 2) else None
    if proj is None:
        back = IO.load(fn, origin) if s.flip() else IO.load(filename=fn, origin=origin)
    else:
        k = s.below(3)
        if k == 0:
            back = IO.load(fn, proj)
        elif k == 1:
            back = IO.load(filename=fn, projector=proj)
        else:
            r = IO.loadRobust(fn, proj)
            c.check(type(r) is tuple and len(r) == 2, "loadRobust returns a pair")
            if ext == ".bin":
                c.eq(list(r[1]), [], "errors of loadRobust")
            back = r[0]
    if ext == ".osm":
        text = open(fn, encoding="utf-8").read()
        c.eq('upload="true"' in text or "upload='true'" in text, conf is not None and conf.get("josm_upload") == "true", "upload attribute of the file")
    # everything that a reader can represent is there again (degenerate polygons and areas are refused, see C11)
    for layer in LAYERS:
        a = {i for i in want if W.all[i][0] == layer}
        b = {e.id for e in getattr(back, layer)}
        if ext == ".bin":
            c.eq(b, a, f"ids in {layer} after {ext}")
        elif layer in ("pointLayer", "lineStringLayer"):
            c.check(a <= b, lambda: f"{layer} lost {a - b}")
        else:
            c.check(b <= a | {0}, lambda: f"{layer} has new ids {b - a}")
    tol = 1e-6 if ext == ".bin" else 2e-2
    for e in back.pointLayer:
        if e.id in want:
            q = W.o(e.id)
            c.check(math.hypot(e.x - q.x, e.y - q.y) < tol, lambda: f"point {e.id} moved from {q.x} {q.y} to {e.x} {e.y}")
    os.unlink(fn)
    miss = os.path.join(d, "missing" + ext)
    c.raises(RuntimeError, lambda: IO.load(miss, origin), "loading a missing file")
    c.raises(RuntimeError, lambda: IO.write(os.path.join(d, "m.unknown"), m, origin), "unknown extension")
    c.raises(RuntimeError, lambda: IO.load(os.path.join(d, "m.unknown"), origin), "unknown extension")
    c.eq(os.listdir(d), [], "files left over")
    c.label(ext)
    c.nontrivial(len(want) >= 6)


PROPS = [Prop("maps", "non-trivial: primitives of at least four kinds", 1000, 40000, maps),
         Prop("regelems", "non-trivial: the element was changed, is used by a lanelet, or one of its lanelets is gone", 2000, 60000, regelems),
         Prop("rules", "non-trivial: the expected answer of canPass is determined by the attributes", 2000, 60000, rules),
         Prop("files", "non-trivial: at least six primitives were written", 600, 20000, files)]
KNOWN = []
