"""Primitives, maps and regulatory elements against plain Python models."""
import gc
from lanelet2.core import *
from lanelet2 import geometry as G
from pbt import Fail, Prop

KEYS = ["type", "subtype", "a", "one_way", "ä key", ""]
VALUES = ["", "x", "yes", "1.5", "line_thin", "it's \"q\"", "übel"]


class MP:  # point
    def __init__(s, id, x, y, z, attrs): s.id, s.x, s.y, s.z, s.attrs = id, x, y, z, dict(attrs)


class ML:  # line string or polygon
    def __init__(s, id, pts, attrs): s.id, s.pts, s.attrs = id, list(pts), dict(attrs)


class MLl:
    def __init__(s, id, left, right, attrs): s.id, s.left, s.right, s.attrs, s.regs, s.center = id, left, right, dict(attrs), [], None


class MAr:
    def __init__(s, id, outer, inner, attrs): s.id, s.outer, s.inner, s.attrs, s.regs, s.listed = id, list(outer), [list(i) for i in inner], dict(attrs), [], False


class H:
    """a Python handle and what it should show"""
    def __init__(s, kind, obj, m, inv=False): s.kind, s.o, s.m, s.inv = kind, obj, m, inv


MUTABLE_ATTR = ("P3", "P2", "L3", "PG3", "PG2", "LL", "AR")
LINES = ("L3", "L2", "CL3", "CL2", "HL3", "HL2")
POLYS = ("PG3", "PG2", "CPG3", "CPG2", "HPG3", "HPG2")
CLS = {"P3": Point3d, "P2": Point2d, "L3": LineString3d, "L2": LineString2d, "CL3": ConstLineString3d, "CL2": ConstLineString2d,
       "HL3": ConstHybridLineString3d, "HL2": ConstHybridLineString2d, "PG3": Polygon3d, "PG2": Polygon2d, "CPG3": ConstPolygon3d,
       "CPG2": ConstPolygon2d, "HPG3": ConstHybridPolygon3d, "HPG2": ConstHybridPolygon2d, "LL": Lanelet, "CLL": ConstLanelet,
       "AR": Area, "CAR": ConstArea}
FRESH = {}


def view(h):
    return h.m.pts[::-1] if h.inv else h.m.pts


def lineview(l):
    return l[0].pts[::-1] if l[1] else l[0].pts


def chain(parts):
    """ids of the points of several line strings in a row; a point that directly repeats is shown once"""
    out = []
    for l in parts:
        for q in l:
            if not out or out[-1] is not q:
                out.append(q)
    return [q.id for q in out]


def check_attrs(c, a, want, what):
    c.eq(dict(a), want, what + ".attributes")
    c.eq(len(a), len(want), what + " len(attributes)")
    c.eq(sorted(a.keys()), sorted(want), what + " attributes.keys()")
    c.eq(sorted(a.values()), sorted(want.values()), what + " attributes.values()")
    c.eq(sorted(a.items()), sorted(want.items()), what + " attributes.items()")
    for k in KEYS[:3]:
        c.eq(k in a, k in want, what + f" {k!r} in attributes")


def check_point(c, p, m, what, two=False):
    c.eq((p.id, p.x, p.y), (m.id, m.x, m.y), what)
    if not two:
        c.eq(p.z, m.z, what + ".z")


def verify(c, h, deep=True):
    o, m, k = h.o, h.m, h.kind
    w = f"{k} id {m.id}"
    c.check(type(o) is CLS[k], lambda: f"{w}: the handle is a {type(o).__name__}")
    c.eq(o.id, m.id, w + ".id")
    if deep:
        check_attrs(c, o.attributes, m.attrs, w)
    else:
        c.eq(dict(o.attributes), m.attrs, w + ".attributes")
    if k in ("P3", "P2"):
        check_point(c, o, m, w, k == "P2")
        b = o.basicPoint()
        c.eq((b.x, b.y) + ((b.z,) if k == "P3" else ()), (m.x, m.y) + ((m.z,) if k == "P3" else ()), w + ".basicPoint()")
    elif k in LINES or k in POLYS:
        want = view(h)
        c.eq(len(o), len(want), "len of " + w)
        two = k.endswith("2")
        got = list(o)
        c.eq(len(got), len(want), "iterating " + w)
        for i, (g, q) in enumerate(zip(got, want)):
            if k.startswith("H"):
                c.eq((g.x, g.y) + (() if two else (g.z,)), (q.x, q.y) + (() if two else (q.z,)), f"{w} point {i}")
            else:
                check_point(c, g, q, f"{w} point {i}", two)
        if k in LINES:
            c.eq(o.inverted(), h.inv, w + ".inverted()")
    elif k in ("LL", "CLL"):
        for name, l in (("leftBound", m.left), ("rightBound", m.right)):
            b = getattr(o, name)
            # an inverted lanelet shows its bounds swapped and reversed
            if h.inv:
                other = m.right if name == "leftBound" else m.left
                l = (other[0], not other[1])
            c.check(type(b) is (LineString3d if k == "LL" else ConstLineString3d), lambda: f"{w}.{name} is a {type(b).__name__}")
            c.eq(b.id, l[0].id, f"{w}.{name}.id")
            c.eq(b.inverted(), l[1], f"{w}.{name}.inverted()")
            c.eq([q.id for q in b], [q.id for q in lineview(l)], f"{w}.{name}")
        c.eq(o.inverted(), h.inv, w + ".inverted()")
        L, R = m.left, m.right  # the outline does not depend on the inversion
        ring = chain([lineview(L), lineview(R)[::-1]])
        c.eq([q.id for q in o.polygon3d()], ring, w + ".polygon3d()")
        c.eq([q.id for q in o.polygon2d()], ring, w + ".polygon2d()")
        c.eq(o.polygon3d().ids(), [L[0].id, R[0].id], w + ".polygon3d().ids()")
        if m.center is not None:
            want = lineview(m.center)
            c.eq([q.id for q in o.centerline], [q.id for q in (want[::-1] if h.inv else want)], w + ".centerline")
    elif k in ("AR", "CAR"):
        c.eq([(l.id, l.inverted(), [q.id for q in l]) for l in o.outerBound],
             [(l[0].id, l[1], [q.id for q in lineview(l)]) for l in m.outer], w + ".outerBound")
        ib = o.innerBounds
        c.eq(len(ib), len(m.inner), f"len({w}.innerBounds)")
        c.eq([[(l.id, l.inverted(), len(l)) for l in b] for b in ib],
             [[(l[0].id, l[1], len(l[0].pts)) for l in b] for b in m.inner], w + ".innerBounds")
        c.eq([q.id for q in o.outerBoundPolygon()], chain(map(lineview, m.outer)), w + ".outerBoundPolygon()")
        c.eq(o.outerBoundPolygon().ids(), [l[0].id for l in m.outer], w + ".outerBoundPolygon().ids()")
        if not m.listed:  # known finding inner-bounds-list
            c.eq([[q.id for q in b] for b in o.innerBoundPolygons()], [chain(map(lineview, b)) for b in m.inner],
                 w + ".innerBoundPolygons()")
    if deep:
        c.check(isinstance(repr(o), str) and repr(o).startswith({"CAR": "Area", "CLL": "ConstLanelet"}.get(k, CLS[k].__name__) + "(" + str(m.id)),
                lambda: f"repr of {w} is {repr(o)!r}")
        c.check(isinstance(str(o), str) and str(m.id) in str(o), lambda: f"str of {w} is {str(o)!r}")


def draw_attrs(s):
    return {s.pick(KEYS): s.pick(VALUES) for _ in range(s.size(0, 3))}


def give_attrs(s, d):
    return AttributeMap(d) if s.flip() else d


class World:
    def __init__(self, c):
        self.c, self.s, self.h, self.next = c, c.src, [], 1

    def id(self):
        self.next += 1
        return self.next

    def of(self, *kinds):
        l = [h for h in self.h if h.kind in kinds]
        return self.s.pick(l) if l else None

    def add(self, h):
        if len(self.h) > 26:
            del self.h[self.s.below(len(self.h))]
        self.h.append(h)
        return h

    def coord(self):
        return self.s.grid(-20, 20)

    def point(self):
        s, i = self.s, self.id()
        x, y, z = self.coord(), self.coord(), self.coord()
        a = draw_attrs(s)
        form = s.below(6)
        if form == 0:
            o, a = Point3d(i, x, y, z), {}
        elif form == 1:
            o = Point3d(i, x, y, z, give_attrs(s, a))
        elif form == 2:
            o = Point3d(i, BasicPoint3d(x, y, z), give_attrs(s, a))
        elif form == 3:
            o, z, a = Point3d(i, x, y), 0., {}
        elif form == 4:
            o = Point3d(id=i, x=x, y=y, z=z, attributes=give_attrs(s, a))
        else:
            o, i, x, y, z, a = Point3d(), 0, 0., 0., 0., {}
        return self.add(H("P3", o, MP(i, x, y, z, a)))

    def points(self, lo, hi):
        out = []
        for _ in range(self.s.size(lo, hi)):
            h = self.of("P3") if self.s.chance(2, 3) else None
            out.append(h or self.point())
        return out

    def line(self, lo=0, hi=5, kinds=("L3", "L3", "L3", "L2", "CL3")):
        s = self.s
        pts, i, a = self.points(lo, hi), self.id(), draw_attrs(self.s)
        k = s.pick(kinds)
        ps = [p.o for p in pts]
        seq = s.pick([ps, tuple(ps), (p for p in ps)])
        o = CLS[k](i, seq, give_attrs(s, a))
        return self.add(H(k, o, ML(i, [p.m for p in pts], a)))

    def l3(self, lo=0, hi=5):
        return (self.of("L3") if self.s.chance(2, 3) else None) or self.line(lo, hi, ("L3",))


def op_point(w):
    w.point()


def op_line(w):
    w.line()


def op_poly(w):
    s = w.s
    pts, i, a = w.points(0, 5), w.id(), draw_attrs(s)
    k = s.pick(["PG3", "PG2", "CPG3", "CPG2"])
    w.add(H(k, CLS[k](i, [p.o for p in pts], give_attrs(s, a)), ML(i, [p.m for p in pts], a)))


def op_convert(w):
    """other views on the same data"""
    h = w.of("P3", "P2", *LINES, *POLYS, "LL")
    if h is None:
        return
    k, o = h.kind, h.o
    conv = {"P3": [("P2", lambda: Point2d(o)), ("P2", lambda: G.to2D(o)), ("P3", lambda: G.to3D(o))],
            "P2": [("P3", lambda: Point3d(o)), ("P3", lambda: G.to3D(o)), ("P2", lambda: G.to2D(o))],
            "L3": [("L2", lambda: LineString2d(o)), ("L2", lambda: G.to2D(o)), ("L3", lambda: G.to3D(o)), ("CL2", lambda: ConstLineString2d(o)),
                   ("HL3", lambda: ConstHybridLineString3d(o))],
            "L2": [("L3", lambda: LineString3d(o)), ("L3", lambda: G.to3D(o)), ("CL3", lambda: ConstLineString3d(o)),
                   ("HL2", lambda: ConstHybridLineString2d(o))],
            "CL3": [("CL2", lambda: ConstLineString2d(o)), ("CL2", lambda: G.to2D(o)), ("HL3", lambda: ConstHybridLineString3d(o))],
            "CL2": [("CL3", lambda: ConstLineString3d(o)), ("CL3", lambda: G.to3D(o)), ("HL2", lambda: ConstHybridLineString2d(o))],
            "PG3": [("PG2", lambda: G.to2D(o)), ("HPG3", lambda: ConstHybridPolygon3d(o))],
            "PG2": [("PG3", lambda: G.to3D(o)), ("HPG2", lambda: ConstHybridPolygon2d(o))],
            "CPG3": [("CPG2", lambda: G.to2D(o)), ("HPG3", lambda: ConstHybridPolygon3d(o))],
            "CPG2": [("CPG3", lambda: G.to3D(o)), ("HPG2", lambda: ConstHybridPolygon2d(o))],
            "LL": [("CLL", lambda: ConstLanelet(o))]}.get(k)
    if not conv:
        return
    k2, f = w.s.pick(conv)
    w.c.label("view as " + k2)
    w.add(H(k2, f(), h.m, h.inv))


def op_invert(w):
    h = w.of(*LINES, "LL", "CLL")
    if h:
        w.c.label("invert")
        w.add(H(h.kind, h.o.invert(), h.m, not h.inv))


def op_coord(w):
    h = w.of("P3", "P2")
    if h:
        f = w.s.pick(["x", "y", "z"] if h.kind == "P3" else ["x", "y"])
        v = w.coord()
        setattr(h.o, f, v)
        setattr(h.m, f, v)


def op_id(w):
    h = w.of(*MUTABLE_ATTR)
    if h:
        h.o.id = h.m.id = w.id()


def op_attr(w):
    s, c = w.s, w.c
    h = w.of(*MUTABLE_ATTR)
    if not h:
        return
    k, v = s.pick(KEYS), s.pick(VALUES)
    form = s.below(5)
    if form == 0:
        h.o.attributes[k] = v
        h.m.attrs[k] = v
    elif form == 1:
        d = draw_attrs(s)
        h.o.attributes = give_attrs(s, d)
        h.m.attrs = dict(d)
    elif form == 2 and k in h.m.attrs:
        del h.o.attributes[k]
        del h.m.attrs[k]
    elif form == 3:
        if k in h.m.attrs:
            c.eq(h.o.attributes[k], h.m.attrs[k], f"attributes[{k!r}]")
        else:
            c.raises(KeyError, lambda: h.o.attributes[k], f"attributes[{k!r}] of a missing key")
    else:
        a = h.o.attributes  # keeps referring to the object's attributes
        a[k] = v
        h.m.attrs[k] = v
        c.raises(TypeError, lambda: a.__setitem__(k, 5), "attributes[k] = 5")
        c.eq(a[k], v, "the attribute after a refused assignment")
    c.label("attributes")


def same_point(w, q, m, two):
    """keeps a handle that was obtained from a line string"""
    if not two:
        w.add(H("P3", q, m))
    else:
        w.add(H("P2", q, m))


def op_get(w):
    s, c = w.s, w.c
    h = w.of(*LINES, *POLYS)
    if not h:
        return
    n = len(h.m.pts)
    i = s.range(-n - 2, n + 1)
    if not -n <= i < n:
        c.raises(IndexError, lambda: h.o[i], f"{h.kind} of {n} points [{i}]")
        return
    q, m = h.o[i], view(h)[i]
    if h.kind.startswith("H"):
        c.eq((q.x, q.y), (m.x, m.y), f"{h.kind}[{i}]")
    else:
        check_point(c, q, m, f"{h.kind}[{i}]", h.kind.endswith("2"))
        if not h.kind.startswith("C"):
            same_point(w, q, m, h.kind.endswith("2"))
            c.label("point taken from a line string")


def op_modify(w):
    """list operations through a handle"""
    s, c = w.s, w.c
    h = w.of("L3", "L2", "PG3", "PG2")
    if not h or len(h.m.pts) > 12:
        return
    p = w.of("P3") or w.point()
    q = p.o if h.kind.endswith("3") else Point2d(p.o)
    n, form = len(h.m.pts), s.below(3)
    pts = view(h)[:]
    if form == 0:
        h.o.append(q)
        pts.append(p.m)
    else:
        i = s.range(-n - 2, n + 1)
        if form == 1:
            if -n <= i < n:
                h.o[i] = q
                pts[i] = p.m
            else:
                c.raises(IndexError, lambda: h.o.__setitem__(i, q), f"{h.kind} of {n} points [{i}] = point")
        else:
            if -n <= i < n:
                del h.o[i]
                del pts[i]
            else:
                c.raises(IndexError, lambda: h.o.__delitem__(i), f"del {h.kind} of {n} points [{i}]")
    h.m.pts[:] = pts[::-1] if h.inv else pts
    c.label(("append", "set item", "delete item")[form] + (" inverted" if h.inv else ""))


def op_compound(w):
    """compounds show the points of their parts, also after these changed"""
    s, c = w.s, w.c
    ls = [x for x in (w.of("L3", "CL3") for _ in range(s.size(1, 3))) if x]
    if not ls:
        return
    two = s.flip()
    cls = s.pick([CompoundLineString2d, CompoundPolygon2d] if two else [CompoundLineString3d, CompoundPolygon3d])
    o = cls([G.to2D(l.o) if two else l.o for l in ls])
    c.eq(o.ids(), [l.m.id for l in ls], "compound ids()")
    c.eq([x.id for x in o.lineStrings()], [l.m.id for l in ls], "compound lineStrings()")
    keep = None
    if len(o) and s.flip():
        i = s.below(len(o))
        keep = (o[i], o[i].id)
    if s.flip():  # change a part
        l = next((x for x in ls if x.kind == "L3"), None)
        if l and len(l.m.pts) < 10:
            p = w.of("P3") or w.point()
            for _ in range(3):
                l.o.append(p.o)
                l.m.pts[:] = ([p.m] + l.m.pts) if l.inv else (l.m.pts + [p.m])
            c.label("part of a compound changed")
    want = chain(map(view, ls))
    got = [q.id for q in o]
    c.eq(got, want, cls.__name__ + " points")
    c.eq(len(o), len(want), "len of " + cls.__name__)
    if want:
        i = s.range(-len(want), len(want) - 1)
        c.eq(o[i].id, want[i], f"{cls.__name__}[{i}]")
    c.raises(IndexError, lambda: o[len(want)], "compound index out of range")
    if keep:
        del o
        gc.collect()
        c.eq(keep[0].id, keep[1], "point taken from a compound")


def op_lanelet(w):
    s = w.s
    l, r, i, a = w.l3(), w.l3(), w.id(), draw_attrs(s)
    if s.chance(1, 4):
        o, k = ConstLanelet(i, l.o, r.o, give_attrs(s, a)), "CLL"
    elif s.flip():
        o, k = Lanelet(id=i, leftBound=l.o, rightBound=r.o, attributes=give_attrs(s, a), regelems=[]), "LL"
    else:
        o, k = Lanelet(i, l.o, r.o, give_attrs(s, a)), "LL"
    w.add(H(k, o, MLl(i, (l.m, l.inv), (r.m, r.inv), a)))


def op_bound(w):
    s, c = w.s, w.c
    h = w.of("LL")
    if not h:
        return
    if s.flip():
        l = w.l3()
        left = s.flip()
        if left:
            h.o.leftBound = l.o
        else:
            h.o.rightBound = l.o
        v = (l.m, l.inv)
        if h.inv:
            left, v = not left, (v[0], not v[1])
        if left:
            h.m.left = v
        else:
            h.m.right = v
        c.label("bound replaced")
    else:
        left = s.flip()
        b = h.o.leftBound if left else h.o.rightBound
        l = (h.m.left if left else h.m.right) if not h.inv else (h.m.right if left else h.m.left)
        w.add(H("L3", b, l[0], l[1] != h.inv))


def op_center(w):
    """a custom centerline"""
    s, c = w.s, w.c
    h = w.of("LL")
    if not h:
        return
    l = w.l3(2, 4)
    if len(l.m.pts) < 2:
        return
    h.o.centerline = l.o
    h.m.center = (l.m, l.inv != h.inv)
    c.label("custom centerline")


def op_area(w):
    s = w.s
    i, a = w.id(), draw_attrs(s)
    outer = [w.l3() for _ in range(s.size(0, 3))]
    inner = [[w.l3() for _ in range(s.size(0, 2))] for _ in range(s.size(0, 2))]
    m = MAr(i, [(l.m, l.inv) for l in outer], [[(l.m, l.inv) for l in b] for b in inner], a)
    oo, ii = [l.o for l in outer], [[l.o for l in b] for b in inner]
    if s.chance(1, 4):
        o, k = ConstArea(i, oo, ii, give_attrs(s, a)), "CAR"
    elif s.flip():
        o, k = Area(id=i, outerBound=oo, innerBounds=ii, attributes=give_attrs(s, a)), "AR"
    else:
        o, k = Area(i, oo, ii, give_attrs(s, a)), "AR"
    w.add(H(k, o, m))


def op_area_edit(w):
    s, c = w.s, w.c
    h = w.of("AR")
    if not h:
        return
    form = s.below(5)
    ls = [w.l3() for _ in range(s.size(0, 2))]
    ml, ol = [(l.m, l.inv) for l in ls], [l.o for l in ls]
    n = len(h.m.inner)
    i = s.range(-n - 1, n)
    if form == 0:
        h.o.outerBound = ol
        h.m.outer = ml
    elif form == 1:
        h.o.innerBounds = [ol, []]
        h.m.inner, h.m.listed = [ml, []], False
    elif form == 2:
        ib = h.o.innerBounds
        ib.append(ol)
        h.m.inner.append(ml)
        h.m.listed = True
    elif form == 3:
        if -n <= i < n:
            h.o.innerBounds[i] = ol
            h.m.inner[i] = ml
            h.m.listed = True
        else:
            c.raises(IndexError, lambda: h.o.innerBounds.__setitem__(i, ol), f"innerBounds[{i}] of {n} = ...")
    else:
        if -n <= i < n:
            del h.o.innerBounds[i]
            del h.m.inner[i]
            h.m.listed = True
        else:
            c.raises(IndexError, lambda: h.o.innerBounds[i], f"innerBounds[{i}] of {n}")
    c.label("area edited")


def op_bad(w):
    """wrong arguments raise and change nothing"""
    s, c = w.s, w.c
    p = w.of("P3") or w.point()
    l = w.l3()
    form = s.below(9)
    f = [lambda: Point3d("x", 1., 2., 3.), lambda: LineString3d(1, [p.o, 3]), lambda: LineString3d(1, 5), lambda: Point3d(1, 2., 3., 4., {"a": 5}),
         lambda: Point3d(1, 2., 3., 4., {5: "a"}), lambda: Lanelet(1, l.o, p.o), lambda: l.o.append(l.o), lambda: Area(1, [p.o]),
         lambda: setattr(p.o, "x", "abc")][form]
    c.raises(TypeError, f, f"bad call {form}")  # ArgumentError is a TypeError


def op_drop(w):
    for _ in range(w.s.size(1, 6)):
        if w.h:
            del w.h[w.s.below(len(w.h))]
    gc.collect() if w.s.chance(1, 4) else None
    w.c.label("handles dropped")


def op_equal(w):
    c = w.c
    g = {"P3": ("P3",), "P2": ("P2",), "L3": ("L3", "CL3"), "CL3": ("L3", "CL3"), "PG3": ("PG3", "CPG3"), "CPG3": ("PG3", "CPG3"), "LL": ("LL", "CLL"),
         "CLL": ("LL", "CLL"), "AR": ("AR", "CAR"), "CAR": ("AR", "CAR"), "HL3": ("HL3",), "L2": ("L2", "CL2"), "CL2": ("L2", "CL2")}
    a = w.of(*g)
    if not a:
        return
    b = w.of(*g[a.kind])
    want = a.m is b.m and a.inv == b.inv
    c.eq(a.o == b.o, want, f"{a.kind} {a.m.id} == {b.kind} {b.m.id}")
    c.eq(a.o != b.o, not want, f"{a.kind} {a.m.id} != {b.kind} {b.m.id}")
    if want:
        c.eq(hash(a.o), hash(b.o), "hash of equal objects")
        c.label("equal handles")


def op_rebuild(w):
    """repr of plain objects is an expression for an object with the same content"""
    h = w.of("P3", "P2", "L3", "L2", "PG3", "PG2", "LL", "AR")
    if not h:
        return
    text = repr(h.o)
    env = {k: v for k, v in CLS.items()}
    o = eval(text, {x.__name__: x for x in (Point3d, Point2d, LineString3d, LineString2d, Polygon3d, Polygon2d, Lanelet, Area, AttributeMap)}) \
        if h.kind not in ("L2", "P2", "PG2") else None
    if o is None:
        return
    if h.kind == "P3":
        m2 = h.m
        verify(w.c, H("P3", o, m2))
    elif h.kind in ("L3", "PG3"):
        verify(w.c, H(h.kind, o, ML(h.m.id, view(h), h.m.attrs)))
    elif h.kind == "LL":
        L, R = (h.m.left, h.m.right) if not h.inv else ((h.m.right[0], not h.m.right[1]), (h.m.left[0], not h.m.left[1]))
        fl = lambda l: (ML(l[0].id, [MP(q.id, q.x, q.y, q.z, q.attrs) for q in lineview(l)], l[0].attrs), False)  # every mention is a new point
        verify(w.c, H("LL", o, MLl(h.m.id, fl(L), fl(R), h.m.attrs)))
    else:
        fl = lambda l: (ML(l[0].id, [MP(q.id, q.x, q.y, q.z, q.attrs) for q in lineview(l)], l[0].attrs), False)  # every mention is a new point
        verify(w.c, H("AR", o, MAr(h.m.id, [fl(l) for l in h.m.outer], [[fl(l) for l in b] for b in h.m.inner], h.m.attrs)))
    w.c.label("repr evaluated")


OPS = [(3, op_point), (4, op_line), (2, op_poly), (6, op_convert), (4, op_invert), (5, op_coord), (2, op_id), (5, op_attr), (6, op_get), (10, op_modify),
       (2, op_compound), (4, op_lanelet), (3, op_bound), (1, op_center), (2, op_area), (3, op_area_edit), (1, op_bad), (3, op_drop), (3, op_equal),
       (2, op_rebuild)]


def primitives(c):
    w = World(c)
    n = c.src.range(3, 45)
    names = []
    for _ in range(n):
        op = c.src.weighted(OPS)
        names.append(op.__name__[3:])
        op(w)
        c.describe(" ".join(names[-1:]))
        for h in w.h:
            verify(c, h, False)
    for h in w.h:
        verify(c, h, True)
    shared = len(w.h) - len({id(h.m) for h in w.h})
    c.nontrivial(shared > 0 and n >= 6 and any(k.startswith(("append", "set item", "delete item")) for k in c.labels))


PROPS = [Prop("primitives", "non-trivial: at least 6 steps, one of them a list operation, and an object with several handles", 1600, 60000, primitives)]


def inner_bounds_list():
    ls = lambda i: LineString3d(i, [Point3d(i + 1, 0, 0, 0), Point3d(i + 2, 1, 0, 0), Point3d(i + 3, 1, 1, 0)])
    a = Area(1, [ls(10)], [])
    a.innerBounds.append([ls(20)])
    return [len(p) for p in a.innerBoundPolygons()] != [3]


KNOWN = [("inner-bounds-list", inner_bounds_list)]
