"""Geometry functions from Python against plain formulas."""
import math
from lanelet2.core import *
from lanelet2 import geometry as G
from pbt import Discard, Prop


def dist(a, b):
    return math.dist(a, b)


def seg_point(p, a, b):
    """closest point of a segment"""
    d = [y - x for x, y in zip(a, b)]
    n = sum(v * v for v in d)
    t = 0 if n == 0 else max(0., min(1., sum((q - x) * v for q, x, v in zip(p, a, d)) / n))
    return [x + t * v for x, v in zip(a, d)]


def line_dist(p, l):
    return min(dist(p, seg_point(p, a, b)) for a, b in zip(l, l[1:])) if len(l) > 1 else dist(p, l[0])


def cross2(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def seg_hit(a, b, c, d):
    """closed 2d segments have a point in common (exact for the multiples of 1/2 used here)"""
    def on(p, q, r):
        return cross2(p, q, r) == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    s = lambda v: (v > 0) - (v < 0)
    o = [s(cross2(a, b, c)), s(cross2(a, b, d)), s(cross2(c, d, a)), s(cross2(c, d, b))]
    return (o[0] * o[1] < 0 and o[2] * o[3] < 0) or on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)


def seg_seg3(a, b, c, d):
    """distance of two segments by minimising the convex distance function"""
    f = lambda t: dist(q := [x + t * (y - x) for x, y in zip(a, b)], seg_point(q, c, d))
    lo, hi = 0., 1.
    for _ in range(100):
        m1, m2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if f(m1) <= f(m2):
            hi = m2
        else:
            lo = m1
    return min(f(lo), f(hi), f(0.), f(1.))


def seg_seg2(a, b, c, d):
    if seg_hit(a, b, c, d):
        return 0.
    return min(dist(a, seg_point(a, c, d)), dist(b, seg_point(b, c, d)), dist(c, seg_point(c, a, b)), dist(d, seg_point(d, a, b)))


def lines_dist(l, m, f):
    return min(f(a, b, x, y) for a, b in zip(l, l[1:]) for x, y in zip(m, m[1:]))


def inside(p, ring):
    """2: inside, 1: on the border, 0: outside"""
    n, res = len(ring), False
    for i in range(n):
        a, b = ring[i], ring[(i + 1) % n]
        if cross2(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
            return 1
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
            res = not res
    return 2 if res else 0


class Gen:
    def __init__(self, c):
        self.c, self.s, self.n = c, c.src, 0

    def id(self):
        self.n += 1
        return self.n

    def xyz(self):
        return (self.s.grid(-10, 10), self.s.grid(-10, 10), self.s.grid(-3, 3))

    def raw(self, lo=2, hi=5):
        l = [self.xyz()]
        for _ in range(self.s.range(lo, hi) - 1):
            q = self.xyz()
            if q[:2] == l[-1][:2]:
                q = (q[0] + 1, q[1], q[2])
            l.append(q)
        return l

    def ls(self, l):
        return LineString3d(self.id(), [Point3d(self.id(), *q) for q in l])

    def inv(self, l):
        """an inverted handle that shows l"""
        o = self.ls(l[::-1]).invert()
        return o

    def line3(self, l):
        """some kind of 3d line that shows the points l"""
        s = self.s
        k = s.below(5)
        o = self.ls(l) if s.flip() else self.inv(l)
        if k == 0 or len(l) < 2 and k == 3:
            return o
        if k == 1:
            return ConstLineString3d(ConstLineString2d(o))
        if k == 2:
            return CompoundLineString3d([o])
        if k == 3:
            i = s.range(0, len(l) - 1)
            pts = [Point3d(self.id(), *q) for q in l]
            return CompoundLineString3d([LineString3d(self.id(), pts[:i + 1]), LineString3d(self.id(), pts[i:])])
        return ConstHybridLineString3d(o)

    def line2(self, l):
        o = self.line3(l)
        if type(o) is ConstHybridLineString3d:
            x = self.ls(l)
            return ConstHybridLineString2d(LineString2d(x))
        return G.to2D(o)


def near(c, got, want, what, tol=1e-9):
    if hasattr(got, "x"):
        got = [got.x, got.y] + ([got.z] if len(want) == 3 else [])
    c.check(len(got) == len(want) and all(abs(a - b) < tol for a, b in zip(got, want)) if isinstance(want, (list, tuple)) else abs(got - want) < tol,
            lambda: f"{what}: got {got}, expected {want}")


def metrics(c):
    s, g = c.src, Gen(c)
    A, B, p3 = g.raw(), g.raw(), g.xyz()
    if s.chance(1, 3):
        p3 = s.pick(A)
    A2, B2, p2 = [q[:2] for q in A], [q[:2] for q in B], p3[:2]
    P2, P3 = Point2d(g.id(), *p3), Point3d(g.id(), *p3)
    b2, b3 = BasicPoint2d(*p2), BasicPoint3d(*p3)
    q = g.xyz()
    Q2, Q3, c2, c3 = Point2d(g.id(), *q), Point3d(g.id(), *q), BasicPoint2d(*q[:2]), BasicPoint3d(*q)
    l2, l3, m2, m3 = g.line2(A), g.line3(A), g.line2(B), g.line3(B)
    T = lambda *o: " ".join(type(x).__name__ for x in o)
    c.describe(f"A {A} as {T(l2, l3)}, B {B} as {T(m2, m3)}, p {p3}, q {q}")
    # points
    for a in (P2, b2):
        for b in (Q2, c2):
            near(c, G.distance(a, b), dist(p2, q[:2]), "distance of 2d points")
            c.eq(G.equals(a, b), p2 == q[:2], "equals")
    for a in (P3, b3):
        for b in (Q3, c3):
            near(c, G.distance(a, b), dist(p3, q), "distance of 3d points")
            c.eq(G.equals(a, b), p3 == q, "equals 3d")
    for o, want in ((G.to2D(P3), p2), (G.to2D(b3), p2), (G.to3D(P2), p3), (G.to3D(b2), p2 + (0.,)), (G.to2D(P2), p2), (G.to3D(P3), p3)):
        near(c, o, want, "to2D, to3D")
    c.eq((type(G.to2D(P3)), type(G.to2D(b3)), type(G.to3D(P2)), type(G.to3D(b2))), (Point2d, BasicPoint2d, Point3d, BasicPoint3d), "types of to2D and to3D")
    # point to line
    want = line_dist(p2, A2)
    for a in (P2, b2):
        if a is b2 and "Hybrid" in T(l2):
            continue
        near(c, G.distance(a, l2), want, f"distance {T(a, l2)}")
        near(c, G.distance(l2, a), want, f"distance {T(l2, a)}")
    near(c, G.distance(P3, l3), line_dist(p3, A), f"distance {T(P3, l3)}")
    near(c, G.distance(l3, P3), line_dist(p3, A), f"distance {T(l3, P3)}")
    r2, r3 = g.ls(A), g.ls(B)
    near(c, G.distanceToLines(s.pick([P2, b2]), [G.to2D(r2), G.to2D(r3)]), min(want, line_dist(p2, B2)), "distanceToLines")
    # line to line
    hy = "Hybrid" in T(l2) + T(m2)
    if not hy or T(l2) == T(m2):
        near(c, G.distance(l2, m2), lines_dist(A2, B2, seg_seg2), f"distance {T(l2, m2)}", 1e-6)
    elif T(l2) != T(m2):
        l2h = G.to2D(g.ls(A))
        near(c, G.distance(l2h, G.to2D(g.ls(B))), lines_dist(A2, B2, seg_seg2), "distance of two lines", 1e-6)
    if "Hybrid" not in T(l3) + T(m3) or T(l3) == T(m3):
        want3 = lines_dist(A, B, seg_seg3)
        near(c, G.distance(l3, m3), want3, f"distance {T(l3, m3)}", 1e-6)
    x3, y3 = (l3, m3) if type(l3) is type(m3) else (g.ls(A), g.ls(B))
    a, b = G.projectedPoint3d(x3, y3)
    want3 = lines_dist(A, B, seg_seg3)
    near(c, G.distance(a, b), want3, f"projectedPoint3d of {T(x3, y3)}", 1e-6)
    c.check(line_dist((a.x, a.y, a.z), A) < 1e-6 and line_dist((b.x, b.y, b.z), B) < 1e-6, lambda: f"projectedPoint3d {a} {b} is not on the lines")
    # lengths and positions along a line
    if "Hybrid" in T(l2):
        l2 = G.to2D(g.ls(A))
    if "Hybrid" in T(l3):
        l3 = g.ls(A)
    lens2, lens3 = [dist(x, y) for x, y in zip(A2, A2[1:])], [dist(x, y) for x, y in zip(A, A[1:])]
    near(c, G.length(l2), sum(lens2), f"length of {T(l2)}")
    near(c, G.length(l3), sum(lens3), f"length of {T(l3)}")
    f = s.grid(0, 1, 0.125) if s.chance(4, 5) else s.pick([1.5, -0.25, -2.])

    def along(l, lens, d):
        d = max(0., min(sum(lens), d if d >= 0 else sum(lens) + d))
        for i, n in enumerate(lens):
            if d <= n:
                return [x + d / n * (y - x) for x, y in zip(l[i], l[i + 1])]
            d -= n
        return list(l[-1])
    for l, raw, lens in ((l2, A2, lens2), (l3, A, lens3)):
        d = f * sum(lens)
        want = along(raw, lens, d)
        near(c, G.interpolatedPointAtDistance(l, d), want, f"interpolatedPointAtDistance({T(l)}, {d})", 1e-6)
        n = G.nearestPointAtDistance(l, d)
        pos = max(0., min(sum(lens), d if d >= 0 else sum(lens) + d))
        off = [abs(sum(lens[:i]) - pos) for i in range(len(raw))]
        xyz = (n.x, n.y, n.z) if len(want) == 3 else (n.x, n.y)
        c.check(any(dist(r, xyz) < 1e-9 and o <= min(off) + 1e-6 for r, o in zip(raw, off)), lambda: f"nearestPointAtDistance({T(l)}, {d})")
    pr2, pr3 = G.project(l2, b2), G.project(l3, b3)
    near(c, dist((pr2.x, pr2.y), p2), line_dist(p2, A2), "project 2d")
    near(c, dist((pr3.x, pr3.y, pr3.z), p3), line_dist(p3, A), "project 3d")
    c.check(line_dist((pr2.x, pr2.y), A2) < 1e-9 and line_dist((pr3.x, pr3.y, pr3.z), A) < 1e-9, "project leaves the line")
    arc = G.toArcCoordinates(l2, b2)
    near(c, abs(arc.distance), line_dist(p2, A2), "toArcCoordinates distance", 1e-6)
    ok = False
    for i, n in enumerate(lens2):
        x = seg_point(p2, A2[i], A2[i + 1])
        ok = ok or abs(dist(x, p2) - abs(arc.distance)) < 1e-6 and abs(sum(lens2[:i]) + dist(A2[i], x) - arc.length) < 1e-6
    c.check(ok, lambda: f"toArcCoordinates {arc!r} is no closest position")
    near(c, [arc.length, arc.distance], [G.ArcCoordinates(arc.length, arc.distance).length, arc.distance], "ArcCoordinates")
    c.eq(arc == G.ArcCoordinates(length=arc.length, distance=arc.distance), True, "ArcCoordinates ==")
    w = s.grid(-3, 3)
    i = s.below(len(lens2))
    t = s.pick([0.25, 0.5, 0.75])
    base = [x + t * (y - x) for x, y in zip(A2[i], A2[i + 1])]
    u = [(y - x) / lens2[i] for x, y in zip(A2[i], A2[i + 1])]
    near(c, G.fromArcCoordinates(l2, G.ArcCoordinates(sum(lens2[:i]) + t * lens2[i], w)), [base[0] - w * u[1], base[1] + w * u[0]], "fromArcCoordinates", 1e-6)
    # boxes, intersections
    bb = G.boundingBox2d(l2)
    near(c, [bb.min.x, bb.min.y, bb.max.x, bb.max.y], [min(x for x, _ in A2), min(y for _, y in A2), max(x for x, _ in A2), max(y for _, y in A2)], "boundingBox2d")
    bb = G.boundingBox3d(l3)
    near(c, [bb.min.x, bb.min.y, bb.min.z, bb.max.x, bb.max.y, bb.max.z], [f(v[k] for v in A) for f in (min, max) for k in range(3)], "boundingBox3d")
    hit = any(seg_hit(a, b, x, y) for a, b in zip(A2, A2[1:]) for x, y in zip(B2, B2[1:]))
    x2, y2 = s.pick([lambda: (G.to2D(g.ls(A)), G.to2D(g.ls(B))), lambda: (CompoundLineString2d([G.to2D(g.ls(A))]), CompoundLineString2d([G.to2D(g.ls(B))])),
                     lambda: (ConstHybridLineString2d(G.to2D(g.ls(A))), ConstHybridLineString2d(G.to2D(g.ls(B))))])()
    c.eq(G.intersects2d(x2, y2), hit, f"intersects2d of {T(x2, y2)}")
    if "Hybrid" not in T(x2):
        pts = G.intersection(x2, y2)
        c.eq(len(pts) > 0, hit, f"intersection of {T(x2, y2)}")
        c.check(all(line_dist((q.x, q.y), A2) < 1e-6 and line_dist((q.x, q.y), B2) < 1e-6 for q in pts), "intersection points are not on both lines")
    c.label("lines intersect", hit)
    # curvature of three points
    a, b, d = A2[0], q[:2], p2
    k = [dist(a, b), dist(b, d), dist(d, a)]
    if min(k) > 0:
        want = 2 * abs(cross2(a, b, d)) / (k[0] * k[1] * k[2])
        mk = s.pick([lambda v: BasicPoint2d(*v), lambda v: Point2d(g.id(), v[0], v[1], 0)])
        near(c, G.curvature2d(mk(a), mk(b), mk(d)), want, "curvature2d", 1e-6)
        near(c, G.signedCurvature2d(mk(a), mk(b), mk(d)), math.copysign(want, cross2(a, b, d)) if want else 0., "signedCurvature2d", 1e-6)
    c.nontrivial(len(A) > 2 and len({type(l2), type(l3)}) == 2)


# ---------------------------------------------------------------------------------------------------------------------------
def rectangles(c):
    """lanelets, areas and polygons that are axis parallel rectangles on a grid, and searches in a map of them"""
    s, g = c.src, Gen(c)
    pts = {}

    def pt(x, y, z=0.):
        if (x, y, z) not in pts:
            pts[(x, y, z)] = Point3d(g.id(), x, y, z)
        return pts[(x, y, z)]
    lines = {}

    def ls(*ps):
        k = tuple(ps)
        if k in lines:
            return lines[k]
        if k[::-1] in lines:
            return lines[k[::-1]].invert()
        lines[k] = LineString3d(g.id(), [pt(*p) for p in ps])
        return lines[k]
    n = s.range(2, 5)
    R = []
    for _ in range(n):
        x, y = 4. * s.below(4), 2. * s.below(4)
        w, h = s.pick([4., 4., 8., 2.]), s.pick([2., 2., 4., 1.])
        z = s.pick([0., 0., 0., 10.])
        R.append((x, y, x + w, y + h, z))
    m = LaneletMap()
    LL = []
    for x0, y0, x1, y1, z in R:
        o = Lanelet(g.id(), ls((x0, y1, z), (x1, y1, z)), ls((x0, y0, z), (x1, y0, z)))
        o = o.invert() if s.chance(1, 4) else o
        LL.append(o)
        m.add(o)
    AR = []
    for x0, y0, x1, y1, z in R[:s.range(0, 2)]:
        a = Area(g.id(), [ls((x0, y1, z), (x1, y1, z)), LineString3d(g.id(), [pt(x1, y1, z), pt(x1, y0, z)]), ls((x1, y0, z), (x0, y0, z)),
                          LineString3d(g.id(), [pt(x0, y0, z), pt(x0, y1, z)])])
        AR.append((a, (x0, y0, x1, y1, z)))
        m.add(a)
    PG = []
    for r in R[:s.range(0, 2)]:
        x0, y0, x1, y1, z = r
        p = Polygon3d(g.id(), [pt(x0, y0, z), pt(x0, y1, z), pt(x1, y1, z), pt(x1, y0, z)])
        PG.append((p, r))
        m.add(p)
    c.describe(f"rectangles {R}")

    def rd(a, b):  # distance of two rectangles
        return math.hypot(max(a[0] - b[2], b[0] - a[2], 0), max(a[1] - b[3], b[1] - a[3], 0))

    def ov(a, b):
        return min(a[2], b[2]) > max(a[0], b[0]) and min(a[3], b[3]) > max(a[1], b[1])
    kinds = [lambda o: o, ConstLanelet]
    hits = 0
    for i in range(n):
        a, r = LL[i], R[i]
        k = s.pick(kinds)(a)
        p = (s.grid(-2, 22), s.grid(-2, 12))
        b = BasicPoint2d(*p)
        pr = p + p
        c.eq(G.inside(k, b), rd(r, pr) == 0, f"inside {r} {p}")
        near(c, G.distance(k, b), rd(r, pr), f"distance of lanelet {r} and {p}")
        near(c, G.distance(b, k), rd(r, pr), f"distance of {p} and lanelet {r}")
        near(c, G.length2d(k), r[2] - r[0], "length2d")
        near(c, G.length3d(k), r[2] - r[0], "length3d")
        near(c, G.approximatedLength2d(k), r[2] - r[0], "approximatedLength2d")
        ym = (r[1] + r[3]) / 2
        near(c, G.distanceToCenterline2d(k, b), rd((r[0], ym, r[2], ym), pr), "distanceToCenterline2d")
        near(c, G.distanceToCenterline3d(k, BasicPoint3d(p[0], p[1], 3)), math.hypot(rd((r[0], ym, r[2], ym), pr), r[4] - 3), "distanceToCenterline3d")
        bb = G.boundingBox2d(k)
        near(c, [bb.min.x, bb.min.y, bb.max.x, bb.max.y], list(r[:4]), "boundingBox2d of a lanelet")
        for j in range(n):
            o, q = LL[j], R[j]
            touch = rd(r, q) == 0
            c.eq(G.intersects2d(k, o), touch, f"intersects2d of {r} {q}")
            c.eq(G.overlaps2d(k, o), ov(r, q), f"overlaps2d of {r} {q}")
            if not (r[4] != q[4] and touch):
                c.eq(G.overlaps3d(k, o), ov(r, q), f"overlaps3d of {r} {q}")
                c.eq(G.intersects3d(k, o), touch, f"intersects3d of {r} {q}")
            else:
                c.eq(G.overlaps3d(k, o, 3.), False, f"overlaps3d of {r} {q}")
                c.eq(G.intersects3d(k, o, heightTolerance=3.), False, f"intersects3d of {r} {q}")
            near(c, G.distance(k, o), rd(r, q), f"distance of lanelets {r} {q}")
            hits += i != j and touch
            same = a.inverted() == o.inverted()
            up = lambda u, v: v[0] == u[0] and v[2] == u[2] and v[1] == u[3] and u[4] == v[4]  # v on top of u
            nxt = lambda u, v: v[0] == u[2] and v[1] == u[1] and v[3] == u[3] and u[4] == v[4]
            back = a.inverted()
            c.eq(G.leftOf(o, k), same and (up(q, r) if back else up(r, q)), f"leftOf {q} {r}")
            c.eq(G.rightOf(k, o), same and (up(q, r) if back else up(r, q)), f"rightOf {r} {q}")
            if r[0] != r[2]:
                c.eq(G.follows(k, o), same and (nxt(q, r) if back else nxt(r, q)), f"follows {r} {q}")
    for a, r in AR:
        p = (s.grid(-2, 22), s.grid(-2, 12))
        near(c, G.distance(a, BasicPoint2d(*p)), rd(r, p + p), "distance of an area and a point")
        bb = G.boundingBox3d(a)
        near(c, [bb.min.x, bb.min.y, bb.min.z, bb.max.x, bb.max.y, bb.max.z], [r[0], r[1], r[4], r[2], r[3], r[4]], "boundingBox3d of an area")
        for b, q in AR:
            c.eq(G.intersects2d(a, b), rd(r, q) == 0, "intersects2d of areas")
    for a, r in PG:
        p = (s.grid(-2, 22), s.grid(-2, 12))
        near(c, G.distance(G.to2D(a), BasicPoint2d(*p)), rd(r, p + p), "distance of a polygon and a point")
        near(c, G.area(ConstHybridPolygon2d(G.to2D(a))), (r[2] - r[0]) * (r[3] - r[1]), "area")
        for b, q in PG:
            near(c, G.distance(G.to2D(a), G.to2D(b)), rd(r, q), "distance of polygons")
            c.eq(G.intersects2d(G.to2D(a), G.to2D(b)), rd(r, q) == 0, "intersects2d of polygons")
        l = [(s.grid(-2, 22), s.grid(-2, 12), 0.), (s.grid(-2, 22), s.grid(-2, 12), 0.)]
        if l[0] != l[1]:
            ring = [(r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3])]
            want = 0. if inside(l[0][:2], ring) else min(seg_seg2(l[0][:2], l[1][:2], ring[t], ring[(t + 1) % 4]) for t in range(4))
            near(c, G.distance(G.to2D(a), G.to2D(g.ls(l))), want, "distance of a polygon and a line", 1e-6)
            near(c, G.distance(G.to2D(g.ls(l)), G.to2D(a)), want, "distance of a line and a polygon", 1e-6)
    # searching
    q = (s.grid(-4, 24), s.grid(-4, 14))
    b = BasicPoint2d(*q)
    k = s.range(1, 5)
    sets = [("laneletLayer", {o.id: r for o, r in zip(LL, R)}), ("areaLayer", {o.id: r for o, r in AR}), ("polygonLayer", {o.id: r for o, r in PG}),
            ("pointLayer", {o.id: p[:2] * 2 + p[2:] for p, o in pts.items() if o.id in m.pointLayer})]
    for name, want in sets:
        d = {i: rd(r, q + q) for i, r in want.items()}
        got = G.findNearest(getattr(m, name), b, k)
        c.eq(len(got), min(k, len(d)), f"number of results of findNearest in {name}")
        near(c, [x for x, _ in got], sorted(d.values())[:k], f"distances of findNearest in {name}")
        for x, e in got:
            near(c, x, d[e.id], f"distance of {e.id} in findNearest in {name}")
        md = s.pick([0., 1., 2.5, 5.])
        for geom in (b, Point2d(g.id(), q[0], q[1], 0)):
            got = G.findWithin2d(getattr(m, name), geom, md) if md else G.findWithin2d(getattr(m, name), geom)
            c.eq(sorted(e.id for _, e in got), sorted(i for i, v in d.items() if v <= md), f"findWithin2d({name}, {T(geom)} {q}, {md})")
            for x, e in got:
                near(c, x, d[e.id], f"distance of {e.id} in findWithin2d")
        z = s.pick([0., 10., 5.])
        d3 = {i: math.hypot(d[i], z - r[4]) for i, r in want.items()}
        if not any(v < 1e-6 for v in d.values()):  # straight above or below a surface: see known_findings.txt (C08)
            got = G.findWithin3d(getattr(m, name), s.pick([lambda: BasicPoint3d(q[0], q[1], z), lambda: Point3d(g.id(), q[0], q[1], z)])(), md)
            c.eq(sorted(e.id for _, e in got), sorted(i for i, v in d3.items() if v <= md), f"findWithin3d({name}, {q} {z}, {md})")
        box = (q[0], q[1], q[0] + 3, q[1] + 2)
        d = {i: rd(r, box) for i, r in want.items()}
        poly = Polygon2d(g.id(), [Point3d(g.id(), x, y, 0) for x, y in ((box[0], box[1]), (box[0], box[3]), (box[2], box[3]), (box[2], box[1]))])
        geoms = [BoundingBox2d(BasicPoint2d(box[0], box[1]), BasicPoint2d(box[2], box[3])), poly]
        geoms.append(Lanelet(g.id(), LineString3d(g.id(), [Point3d(poly[1]), Point3d(poly[2])]),
                             LineString3d(g.id(), [Point3d(poly[0]), Point3d(poly[3])])))
        geom = s.pick(geoms)
        got = G.findWithin2d(getattr(m, name), geom, md)
        c.eq(sorted(e.id for _, e in got), sorted(i for i, v in d.items() if v <= md), f"findWithin2d({name}, {T(geom)} {box}, {md})")
        c.label("found", len(got))
    c.label("touching", hits)
    c.nontrivial(hits > 0)


def T(*o):
    return " ".join(type(x).__name__ for x in o)


def plain_point_lists():
    try:
        G.area([BasicPoint2d(0, 0), BasicPoint2d(0, 1), BasicPoint2d(1, 0)])
    except TypeError:
        return True
    return False


PROPS = [Prop("metrics", "non-trivial: a line of more than two points", 1500, 60000, metrics),
         Prop("rectangles", "non-trivial: at least two lanelets touch or overlap", 800, 30000, rectangles)]
KNOWN = []
