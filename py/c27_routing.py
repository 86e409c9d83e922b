"""Routing graphs, routes and matching from Python against a model of a grid of lanes."""
import gc, heapq, math, os, tempfile
from lanelet2.core import *
from lanelet2 import geometry as G, routing as R, traffic_rules as TR, matching as M
from pbt import Discard, Prop

INF = math.inf


class Net:
    """rows of lanes (row 0 is the rightmost) cut into columns; some cells are missing, some are for pedestrians only"""

    def __init__(self, c, gaps=True):
        self.c, self.s, self.next = c, c.src, 0
        s = c.src
        self.rows, self.cols = s.range(1, 4), s.weighted([(1, 1), (1, 2), (2, 3), (3, 5), (2, 7)])
        self.len = [s.pick([2., 4., 5., 10.]) for _ in range(self.cols)]
        self.x = [sum(self.len[:i]) for i in range(self.cols + 1)]
        self.width = 3.
        P = [[Point3d(self.id(), x, r * self.width, 0) for x in self.x] for r in range(self.rows + 1)]
        self.mark, self.bound = {}, {}
        for r in range(self.rows + 1):
            for k in range(self.cols):
                m = s.weighted([(3, "dashed"), (2, "solid")])
                self.mark[r, k] = m
                self.bound[r, k] = LineString3d(self.id(), [P[r][k], P[r][k + 1]], AttributeMap({"type": "line_thin", "subtype": m}))
        self.l, self.at, self.walk = {}, {}, set()
        for r in range(self.rows):
            for k in range(self.cols):
                if gaps and s.chance(1, 9):
                    continue
                i = self.id()
                walk = gaps and s.chance(1, 9)
                a = {"type": "lanelet", "subtype": "walkway" if walk else "road", "location": "urban", "one_way": "yes",
                     "participant:pedestrian" if walk else "participant:vehicle": "yes"}
                self.l[r, k] = Lanelet(i, self.bound[r + 1, k], self.bound[r, k], AttributeMap(a))
                self.at[i] = (r, k)
                if walk:
                    self.walk.add((r, k))
        if not self.l:
            raise Discard()
        self.cells = [x for x in sorted(self.l) if x not in self.walk]
        if not self.cells:
            raise Discard()
        self.map = createMapFromLanelets(list(self.l.values()))
        self.rules = TR.create(TR.Locations.Germany, TR.Participants.Vehicle)
        self.foreign = Lanelet(self.id(), self.bound[0, 0], self.bound[1, 0])
        c.describe(f"{self.rows}x{self.cols} lengths {self.len} cells {[(self.l[x].id,) + x for x in sorted(self.l)]} pedestrians {sorted(self.walk)} "
                   f"marks {[(k, v) for k, v in sorted(self.mark.items())]}")

    def id(self):
        self.next += 1
        return self.next

    def o(self, x):
        """a handle of a cell"""
        return self.s.pick([self.l[x], ConstLanelet(self.l[x])])

    def ids(self, cells):
        return [self.l[x].id for x in cells]

    def idset(self, cells):
        return sorted(self.ids(cells))

    def succ(self, x, d=1):
        y = (x[0], x[1] + d)
        return [y] if y in self.l and y not in self.walk else []

    def side(self, x, d):
        """(neighbour, routable) or None"""
        y = (x[0] + d, x[1])
        if y not in self.l or y in self.walk:
            return None
        return y, self.mark[max(x[0], y[0]), x[1]] == "dashed"

    def beside(self, x, d, routable):
        """all neighbours on one side that are connected like this one after the other"""
        out, n = [], self.side(x, d)
        while n and n[1] == routable:
            out.append(n[0])
            n = self.side(n[0], d)
        return out


class Table(R.RoutingCost):
    """a cost class written in Python"""

    def __init__(self, net):
        super().__init__()
        self.w, self.seen = [net.s.grid(0.5, 4, 0.5) for _ in range(7)], []
        self.types = set()

    def value(self, a, b):
        return self.w[(a * 3 + b) % 7]

    def getCostSucceeding(self, rules, a, b):
        self.types |= {type(rules).__name__, type(a).__name__, type(b).__name__}
        return self.value(a.id, b.id)

    def getCostLaneChange(self, rules, a, b):
        self.types |= {type(rules).__name__, type(a).__name__, type(b).__name__, type(a[0]).__name__}
        self.seen.append((len(a), len(b)))
        return self.value(a[0].id, b[0].id) + 1


class Values:
    """values of a class that overrides methods of a provided one; it differs for (a, b) and (b, a)"""

    def __init__(self, net, v):
        self.w, self.v = [net.s.grid(0.5, 4, 0.5) for _ in range(7)], v

    def value(self, a, b):
        return self.w[(a * 3 + b) % 7]


def overriding(base, which):
    class Over(base):
        def __init__(self, values, v):
            super().__init__(v)
            self.values = values

        if "succ" in which:
            def getCostSucceeding(self, rules, a, b):
                return self.values.value(a.id, b.id)

        if "change" in which:
            def getCostLaneChange(self, rules, a, b):
                return self.values.value(a[0].id, b[0].id) + 1

    return Over


OVER = {(b, w): overriding(B, w) for b, B in (("dist", R.RoutingCostDistance), ("time", R.RoutingCostTravelTime)) for w in ("succ", "change", "succ+change")}


class Cheap(R.RoutingCostDistance):
    """overrides one method of a provided class"""

    def __init__(self, v):
        super().__init__(3.)
        self.v = v

    def getCostLaneChange(self, rules, a, b):
        return self.v


class Broken(R.RoutingCost):
    def getCostSucceeding(self, rules, a, b):
        raise KeyError("succeeding")

    def getCostLaneChange(self, rules, a, b):
        return 1.


class Broken2(R.RoutingCostDistance):
    def getCostLaneChange(self, rules, a, b):
        raise KeyError("lane change")


class Broken3(R.RoutingCostTravelTime):
    def getCostSucceeding(self, rules, a, b):
        return "no number"


class Costs:
    """the cost modules of a graph and how they compute"""

    def __init__(self, net):
        s, self.n = net.s, net
        self.kind, self.mod = [], []
        self.default = s.chance(1, 4)
        if self.default:
            self.kind = [("dist", 10., 0.), ("time", 5., 0.)]  # as documented (checked below)
            return
        for _ in range(s.range(1, 3)):
            k = s.below(5)
            v = s.pick([0.5, 2., 7.])
            if k == 0:
                m = s.pick([0., 0., 6.])
                self.mod.append(R.RoutingCostDistance(v, m) if s.flip() else R.RoutingCostDistance(laneChangeCost=v, minLaneChangeDistance=m))
                self.kind.append(("dist", v, m))
            elif k == 1:
                m = s.pick([0., 0., 0.5])
                self.mod.append(R.RoutingCostTravelTime(v, m) if s.flip() else R.RoutingCostTravelTime(laneChangeCost=v, minLaneChangeTime=m))
                self.kind.append(("time", v, m))
            elif k == 2:
                self.mod.append(Table(net))
                self.kind.append(("table", self.mod[-1], 0.))
            elif k == 3:
                key, val = s.pick(list(OVER)), Values(net, v)
                self.mod.append(OVER[key](val, v))
                self.kind.append((key, val, 0.))
            else:
                self.mod.append(Cheap(v))
                self.kind.append(("dist", v, 0.))

    def succ(self, k, a, b):
        what, v, _ = self.kind[k]
        if what == "table" or isinstance(what, tuple) and "succ" in what[1]:
            return v.value(self.n.l[a].id, self.n.l[b].id)
        if isinstance(what, tuple):
            what = what[0]
        d = (self.n.len[a[1]] + self.n.len[b[1]]) / 2
        return d if what == "dist" else d / (50 / 3.6)

    def change(self, k, a, d):
        """cost of changing from a by d rows, INF where the stretch is too short"""
        what, v, m = self.kind[k]
        if what == "table":
            return v.value(self.n.l[a].id, self.n.l[a[0] + d, a[1]].id) + 1
        if isinstance(what, tuple):
            return v.value(self.n.l[a].id, self.n.l[a[0] + d, a[1]].id) + 1 if "change" in what[1] else v.v
        if m > 0:  # as long as the change stays possible further on
            tot, x = 0., a
            while True:
                tot += self.n.len[x[1]]
                y = self.n.succ(x)
                if not y or not (t := self.n.side(y[0], d)) or not t[1] or not self.n.succ((x[0] + d, x[1])):
                    break
                x = y[0]
            if (tot if what == "dist" else tot / (50 / 3.6)) < m:
                return INF
        return v

    def routable(self, k, a, d):
        t = self.n.side(a, d)
        return t is not None and t[1] and self.change(k, a, d) < INF

    def edges(self, k, lc, back=False):
        n = self.n
        out = {x: {} for x in n.cells}
        for x in n.cells:
            for y in n.succ(x):
                out[x][y] = self.succ(k, x, y)
            if lc:
                for d in (1, -1):
                    if self.routable(k, x, d):
                        out[x][x[0] + d, x[1]] = self.change(k, x, d)
        if back:
            rev = {x: {} for x in n.cells}
            for x in out:
                for y, v in out[x].items():
                    rev[y][x] = v
            return rev
        return out


def dijkstra(adj, a, follow=lambda x: True):
    d, q, out = {a: 0.}, [(0., a)], {}
    while q:
        v, x = heapq.heappop(q)
        if x in out:
            continue
        out[x] = v
        if not follow(x):
            continue
        for y, w in adj[x].items():
            if y not in d or v + w < d[y]:
                d[y] = v + w
                heapq.heappush(q, (v + w, y))
    return out


def path_cost(adj, cells):
    t = 0.
    for a, b in zip(cells, cells[1:]):
        if b not in adj[a]:
            return INF
        t += adj[a][b]
    return t


def make_graph(n, cs):
    s = n.s
    if cs.default:
        return R.RoutingGraph(n.map, n.rules) if s.flip() else R.RoutingGraph(laneletMap=n.map, trafficRules=n.rules)
    m = s.below(4)
    if m == 0:
        return R.RoutingGraph(n.map, n.rules, cs.mod)
    if m == 1:
        return R.RoutingGraph(laneletMap=n.map, trafficRules=n.rules, routingCost=cs.mod)
    if m == 2:
        return R.RoutingGraph(createSubmapFromLanelets(list(n.l.values())), n.rules, tuple(cs.mod))
    return R.RoutingGraph(laneletSubmap=createSubmapFromLanelets(list(n.l.values())), trafficRules=n.rules, routingCost=cs.mod)


def oid(x):
    return None if x is None else x.id


def near(c, a, b, what):
    c.check(abs(a - b) <= 1e-6 * (1 + abs(b)), lambda: f"{what}: got {a!r}, expected {b!r}")


def graph(c):
    """neighbours, relations, paths and searches of a routing graph"""
    s, n = c.src, Net(c)
    cs = Costs(n)
    g = make_graph(n, cs)
    for m in cs.mod:
        if type(m) is Table and m.types:
            c.check(m.types <= {"TrafficRules", "ConstLanelet", "list"}, lambda: f"types passed to a cost class: {m.types}")
            c.check(all(x == y and x > 0 for x, y in m.seen), "lanelets passed to getCostLaneChange")
    if s.flip():  # nothing else refers to the parts
        cs.keep, cs.mod = [v for k, v, _ in cs.kind if k == "table"], []
        n.map = None if s.flip() else n.map
        gc.collect()
    K = len(cs.kind)
    if s.flip():
        c.eq(list(g.checkValidity()), [], "checkValidity")
        c.eq(list(g.checkValidity(throwOnError=False)), [], "checkValidity")
    passable = g.passableLaneletSubmap()
    c.eq(sorted(l.id for l in passable.laneletLayer), n.idset(n.cells), "passableLaneletSubmap")
    far = paths = 0
    asked = [s.pick(n.cells) for _ in range(3)]
    for x in asked:
        L = n.o(x)
        for lc in (False, True):
            f = g.following(L, lc) if s.flip() else g.following(lanelet=L, withLaneChanges=lc)
            p = g.previous(L, lc) if s.flip() else g.previous(lanelet=L, withLaneChanges=lc)
            # lane changes of the cost module 0
            sides = [(x[0] + d, x[1]) for d in (1, -1) if cs.routable(0, x, d)] if lc else []
            from_sides = [(x[0] + d, x[1]) for d in (1, -1) if n.side(x, d) and cs.routable(0, (x[0] + d, x[1]), -d)] if lc else []
            c.eq(sorted(l.id for l in f), n.idset(n.succ(x) + sides), f"following({L.id}, {lc})")
            c.eq(sorted(l.id for l in p), n.idset(n.succ(x, -1) + from_sides), f"previous({L.id}, {lc})")
            c.check(all(type(l) is ConstLanelet for l in f + p), "type of following lanelets")
            fr, pr = g.followingRelations(L, lc), g.previousRelations(L, withLaneChanges=lc)
            c.eq(sorted((r.lanelet.id, str(r.relationType)) for r in fr),
                 sorted([(n.l[y].id, "Successor") for y in n.succ(x)] + [(n.l[y].id, "Left" if y[0] > x[0] else "Right") for y in sides]), f"followingRelations({L.id}, {lc})")
            c.eq(sorted((r.lanelet.id, str(r.relationType)) for r in pr),
                 sorted([(n.l[y].id, "Successor") for y in n.succ(x, -1)] + [(n.l[y].id, "Right" if y[0] > x[0] else "Left") for y in from_sides]), f"previousRelations({L.id}, {lc})")
            for r in fr:
                c.check(repr(r).startswith("LaneletRelation(ConstLanelet("), lambda: f"repr of a relation: {r!r}")
        if not lc:
            continue
        k = s.below(K)
        arg = s.pick([lambda f: f(L, k), lambda f: f(L, routingCostId=k), lambda f: f(lanelet=L, routingCostId=k)] + ([lambda f: f(L)] if k == 0 else []))
        for d, one, adj, ones, adjs, rels, name in ((1, g.left, g.adjacentLeft, g.lefts, g.adjacentLefts, g.leftRelations, "left"),
                                                    (-1, g.right, g.adjacentRight, g.rights, g.adjacentRights, g.rightRelations, "right")):
            t = n.side(x, d)
            rt = cs.routable(k, x, d)
            c.eq(oid(arg(one)), n.l[t[0]].id if t and rt else None, f"{name}({L.id}, {k})")
            c.eq(oid(arg(adj)), n.l[t[0]].id if t and not rt else None, f"adjacent {name} of {L.id} for {k}")
            seq, y = [], x
            while cs.routable(k, y, d):
                y = (y[0] + d, y[1])
                seq.append(y)
            c.eq([l.id for l in arg(ones)], n.ids(seq), f"{name}s({L.id}, {k})")
            aseq, y = [], x
            while (t := n.side(y, d)) and not cs.routable(k, y, d):
                y = t[0]
                aseq.append(y)
            c.eq([l.id for l in arg(adjs)], n.ids(aseq), f"adjacent {name}s of {L.id} for {k}")
            rel, y = [], x
            while (t := n.side(y, d)):
                rel.append((n.l[t[0]].id, ("" if cs.routable(k, y, d) else "Adjacent") + name.capitalize()))
                y = t[0]
            c.eq([(r.lanelet.id, str(r.relationType)) for r in arg(rels)], rel, f"{name}Relations({L.id}, {k})")
        want = []
        y = x
        while cs.routable(k, y, 1):
            y = (y[0] + 1, y[1])
            want.insert(0, y)
        want.append(x)
        y = x
        while cs.routable(k, y, -1):
            y = (y[0] - 1, y[1])
            want.append(y)
        c.eq([l.id for l in arg(g.besides)], n.ids(want), f"besides({L.id}, {k})")
        c.eq([l.id for l in g.conflicting(L)], [], "conflicting")
        y = s.pick(n.cells)
        rel = g.routingRelation(L, n.o(y)) if s.flip() else g.routingRelation(n.o(x), to=n.o(y), includeConflicting=s.flip())
        expect = None
        if y in n.succ(x):
            expect = R.RelationType.Successor
        else:
            for d, nm in ((1, "Left"), (-1, "Right")):
                t = n.side(x, d)
                if t and t[0] == y:
                    # the relation is the one of the first cost module
                    expect = getattr(R.RelationType, nm if cs.routable(0, x, d) else "Adjacent" + nm)
        c.check(rel == expect and (rel is None) == (expect is None), lambda: f"routingRelation({L.id}, {n.l[y].id}): {rel!r}, expected {expect!r}")
        # searches
        lc = s.flip()
        back = s.flip()
        adj = cs.edges(k, lc, back)
        d = dijkstra(adj, x)
        vals = sorted(d.values())
        lim = s.pick(vals) + 1e-3
        fn = g.reachableSetTowards if back else g.reachableSet
        got = fn(L, lim, k, lc) if s.flip() else fn(lanelet=L, maxRoutingCost=lim, RoutingCostId=k, allowLaneChanges=lc)
        c.eq(sorted(l.id for l in got), n.idset([y for y in d if d[y] <= lim]), f"reachable set of {L.id} within {lim} for {k}, lane changes {lc}, back {back}")
        seen = []

        def visit(i):
            seen.append((i.lanelet.id, i.predecessor.id, i.cost, i.length, i.numLaneChanges))
            return True
        fn = g.forEachPredecessor if back else g.forEachSuccessor
        fn(L, visit, lc, k) if s.flip() else fn(lanelet=L, func=visit, allowLaneChanges=lc, routingCostId=k)
        c.eq(sorted(i for i, *_ in seen), n.idset(d), f"lanelets visited from {L.id}")
        if seen:
            c.eq(seen[0][0], L.id, "first lanelet visited")
        for (i, pre, cost, length, nlc), nxt in zip(seen, seen[1:] + [None]):
            at, pat = n.at[i], n.at[pre]
            near(c, cost, d[at], f"cost of {i} from {L.id}")
            c.check(nxt is None or nxt[2] >= cost - 1e-9, "lanelets are visited with increasing cost")
            if i != L.id:
                c.check(at in adj[pat] and abs(d[pat] + adj[pat][at] - d[at]) < 1e-6, lambda: f"{pre} is no optimal predecessor of {i}")
                p = next(q for q in seen if q[0] == pre)
                c.eq(length, p[3] + 1, f"length of the path to {i}")
                c.eq(nlc, p[4] + (pat[1] == at[1]), f"number of lane changes to {i}")
            else:
                c.eq((pre, length, nlc), (i, 1, 0), "values of the start lanelet")
        # stop at some lanelets, with another truth value; leave with an exception
        block = {y for y in n.cells if s.chance(1, 3)}
        yes, no = s.pick([(True, False), (1, 0)])
        vis = []
        cut = dijkstra(adj, x, lambda y: y not in block)
        fn(L, lambda i: (vis.append(i.lanelet.id), no if n.at[i.lanelet.id] in block else yes)[1], lc, k)
        c.eq(sorted(vis), n.idset(cut), f"lanelets visited from {L.id} without going on from {n.ids(sorted(block))}")
        stop, got = s.range(1, len(d)), []

        class Stop(Exception):
            pass

        def visit2(i):
            got.append(i)
            if len(got) == stop:
                raise Stop("enough")
            return True
        c.raises(Stop, lambda: fn(L, visit2, lc, k), "an exception leaves the search")
        c.eq([i.lanelet.id for i in got], [q[0] for q in seen[:stop]], "lanelets visited before the exception")
        inc = g.forEachPredecessorIncludingAreas if back else g.forEachSuccessorIncludingAreas
        vis = []
        inc(L, lambda i: (vis.append((i.laneletOrArea.id, i.predecessor.id, i.length)), True)[1], lc, k)
        c.eq(sorted(v[0] for v in vis), n.idset(d), "lanelets visited including areas")
        c.raises(Exception, lambda: fn(L, lambda: True, lc, k), "a callback with the wrong number of arguments")
        fn(n.foreign, visit2, lc, k)  # nothing is called
        # paths
        adj = cs.edges(k, lc)
        d = dijkstra(adj, x)
        y = s.pick(n.cells) if s.flip() else s.pick(sorted(d, key=d.get)[len(d) // 2:])
        a, b = n.o(x), n.o(y)
        p = s.pick([lambda: g.shortestPath(a, b, k, lc), lambda: g.shortestPath(**{"from": a, "to": b, "routingCostId": k, "withLaneChanges": lc})]
                   + ([lambda: g.shortestPath(a, b)] if k == 0 and lc else []))()
        r = s.pick([lambda: g.getRoute(a, b, k, lc), lambda: g.getRoute(**{"from": a, "to": b, "routingCostId": k, "withLaneChanges": lc})]
                   + ([lambda: g.getRoute(a, b)] if k == 0 and lc else []))()
        c.eq(p is None, y not in d, f"shortestPath({a.id}, {b.id}, {k}, {lc}) is None")
        c.eq(r is None, y not in d, f"getRoute({a.id}, {b.id}, {k}, {lc}) is None")
        if p is not None:
            check_path(c, n, p, adj, x, y, d[y])
            far += len(p) > 2
        via = [s.pick(n.cells) for _ in range(s.below(3))]
        stops = [x] + via + [y]
        legs = [dijkstra(adj, u).get(v) for u, v in zip(stops, stops[1:])]
        hv = [n.o(v) for v in via]
        pv = g.shortestPathWithVia(a, hv, b, k, lc) if s.flip() else g.shortestPathWithVia(start=a, via=hv, end=b, routingCostId=k, withLaneChanges=lc)
        c.eq(pv is None, None in legs, f"shortestPathWithVia({n.ids(stops)}) is None")
        if pv is not None:
            cells = [n.at[l.id] for l in pv]
            near(c, path_cost(adj, cells), sum(legs), f"cost of the path via {n.ids(stops)}")
            i = 0
            for v in stops:
                c.check(v in cells[i:], "the path visits the stops in order")
                i += cells[i:].index(v)
        rv = g.getRouteVia(a, hv, b, k, lc)
        c.eq(rv is None, None in legs, f"getRouteVia({n.ids(stops)}) is None")
        c.eq(g.shortestPath(a, n.foreign, k, lc), None, "path to a lanelet that is not in the graph")
        c.eq(g.getRoute(n.foreign, b, k, lc), None, "route from a lanelet that is not in the graph")
        c.raises(RuntimeError, lambda: g.shortestPath(a, b, K, lc), "unknown cost id")
        c.raises(RuntimeError, lambda: g.getRoute(a, b, K, lc), "unknown cost id")
        paths += 1
        possible(c, n, cs, g, x, k)
    c.label("paths with more than two lanelets", far)
    c.nontrivial(far > 0)


def check_path(c, n, p, adj, x, y, want):
    ids = [l.id for l in p]
    c.eq(len(p), len(ids), "len of a path")
    c.eq([p[i].id for i in range(len(p))], ids, "items of a path")
    c.eq([p[-i - 1].id for i in range(len(p))], ids[::-1], "items of a path from the back")
    for i in (len(p), -len(p) - 1):
        c.raises(IndexError, lambda: p[i], "path item out of range")
    cells = [n.at[i] for i in ids]
    c.check(cells[0] == x and cells[-1] == y, "ends of the path")
    near(c, path_cost(adj, cells), want, f"cost of the path {ids}")
    q = R.LaneletPath([n.o(z) for z in cells])
    c.check(p == q and not p != q, "equal paths")
    if len(cells) > 1:
        o = R.LaneletPath([n.o(z) for z in cells[:-1]])
        c.check(p != o and not p == o, "different paths")
    c.check(repr(p).startswith("LaneletPath([ConstLanelet("), lambda: f"repr of a path: {p!r}")
    z = n.s.below(len(cells))
    rest = [cells[z]]
    for v in cells[z + 1:]:
        if v[1] == rest[-1][1]:
            break
        rest.append(v)
    got = p.getRemainingLane(n.o(cells[z]))
    c.eq([l.id for l in got], n.ids(rest), f"getRemainingLane({ids[z]}) of {ids}")
    it = iter(p)
    del p
    gc.collect()
    c.eq([l.id for l in it], ids, "an iterator of a path outlives the path")


def possible(c, n, cs, g, x, k):
    """possiblePaths in its forms; without lane changes the result is a prefix of the lane"""
    s, L = n.s, n.o(x)
    back, lc, shorter = s.flip(), s.chance(1, 3), s.flip()
    adj = cs.edges(k, False, back)
    chain, cost = [x], [0.]
    while adj[chain[-1]]:
        (y, w), = adj[chain[-1]].items()
        chain.append(y)
        cost.append(cost[-1] + w)
    climit = s.pick(cost) + 1e-3 if s.flip() else None
    elim = s.range(1, 5) if climit is None or s.chance(1, 3) else None
    by = g.possiblePathsTowards if back else g.possiblePaths
    byLen = g.possiblePathsTowardsMinLen if back else g.possiblePathsMinLen
    m = s.below(4)
    if m == 0:
        P = R.PossiblePathsParams(climit, elim, k, lc, shorter)
    elif m == 1:
        P = R.PossiblePathsParams(routingCostLimit=climit, elementLimit=elim, routingCostId=k, includeLaneChanges=lc, includeShorterPaths=shorter)
    elif m == 2:
        P = R.PossiblePathsParams()
        c.check(P.routingCostLimit is None and P.elementLimit is None and P.routingCostId == 0 and P.includeLaneChanges is False and P.includeShorterPaths is False, "defaults")
        c.raises(RuntimeError, lambda: by(L, P), "paths without any limit")
        P.routingCostLimit, P.elementLimit, P.routingCostId, P.includeLaneChanges, P.includeShorterPaths = climit, elim, k, lc, shorter
    else:
        P = R.PossiblePathsParams(7., 3, 0, True, True)
        P.routingCostLimit, P.elementLimit = None, None
        P.routingCostLimit, P.elementLimit, P.routingCostId, P.includeLaneChanges, P.includeShorterPaths = climit, elim, k, lc, shorter
    c.eq((P.routingCostLimit, P.elementLimit, P.routingCostId, P.includeLaneChanges, P.includeShorterPaths), (climit, elim, k, lc, shorter), "PossiblePathsParams")
    got = by(L, P) if s.flip() else by(lanelet=L, parameters=P)
    ids = [[l.id for l in p] for p in got]
    c.check(type(got) is list and all(type(p) is R.LaneletPath for p in got), "type of possiblePaths")
    name = f"possible paths of {L.id} (cost limit {climit}, elements {elim}, cost {k}, lane changes {lc}, shorter {shorter}, back {back})"
    if not lc:
        i = 0
        while i + 1 < len(chain) and (climit is None or cost[i] < climit) and (elim is None or i + 1 < elim):
            i += 1
        full = not ((climit is None or cost[i] < climit) and (elim is None or i + 1 < elim))
        want = n.ids(chain[:i + 1])
        c.eq(ids, [(want[::-1] if back else want)] if full or shorter else [], name)
    else:
        adj2 = cs.edges(k, True)
        for p in ids:
            cells = [n.at[i] for i in p]
            c.check(cells[-1 if back else 0] == x and path_cost(adj2, cells) < INF, lambda: f"{name}: {p}")
        c.check(len({(p[0] if back else p[-1]) for p in ids}) == len(ids), lambda: f"{name}: two paths lead to the same lanelet {ids}")
    if elim is None and not shorter:
        o = s.pick([lambda: by(L, climit, k, lc), lambda: by(lanelet=L, minRoutingCost=climit, routingCostId=k, allowLaneChanges=lc)]
                   + ([lambda: by(L, climit, k)] if not lc else []))()
        c.eq(sorted([l.id for l in p] for p in o), sorted(ids), name + " by cost")
    if climit is None and not shorter:
        o = s.pick([lambda: byLen(L, elim, lc, k), lambda: byLen(lanelet=L, minLanelets=elim, allowLaneChanges=lc, routingCostId=k)]
                   + ([lambda: byLen(L, elim)] if not lc and k == 0 else []))()
        c.eq(sorted([l.id for l in p] for p in o), sorted(ids), name + " by length")
    c.eq(by(n.foreign, P), [], "paths of a lanelet that is not in the graph")


def route(c):
    """routes, also after everything they were made of was dropped"""
    s, n = c.src, Net(c)
    cs = Costs(n)
    g = make_graph(n, cs)
    k, lc = s.below(len(cs.kind)), s.flip()
    x = s.pick(n.cells)
    adj = cs.edges(k, lc)
    d = dijkstra(adj, x)
    y = s.pick(sorted(d, key=d.get)[len(d) // 2:] if s.chance(3, 4) else sorted(d))
    r = g.getRoute(n.o(x), n.o(y), k, lc)
    if r is None:
        c.check(False, "no route")
    same = g.getRoute(n.o(x), n.o(y), k, lc)
    drop = s.flip()
    if drop:
        tables = [v for kk, v, _ in cs.kind if kk == "table"]
        g, cs.mod, n.map, n.rules = None, [], None, None
        gc.collect()
    p = r.shortestPath()
    if s.chance(1, 4):  # the path keeps the route
        keep, r = r, None
        del keep
        gc.collect()
        c.eq([l.id for l in p][0], n.l[x].id, "the path of a dropped route")
        r = same
        p = r.shortestPath()
    check_path(c, n, p, adj, x, y, d[y])
    cells = [n.at[l.id] for l in p]
    near(c, r.length2d(), sum(n.len[z[1]] for z in cells), "length2d")
    sub = r.laneletSubmap()
    c.check(type(sub) is LaneletSubmap, "type of laneletSubmap")
    ids = {l.id for l in sub.laneletLayer}
    c.eq(r.size(), len(ids), "size")
    c.check(set(n.ids(cells)) <= ids, "the shortest path is part of the route")
    c.eq(list(r.checkValidity()), [], "checkValidity")
    for z in n.l:
        h = n.o(z)
        c.eq(h in r, n.l[z].id in ids, f"{h.id} in route")
        if n.l[z].id not in ids:
            c.eq((list(r.fullLane(h)), list(r.remainingLane(h)), list(r.followingRelations(h)), list(r.previousRelations(h)), r.leftRelation(h), r.rightRelation(h)),
                 ([], [], [], [], None, None), f"{h.id} is not in the route")
            continue
        # inside the route the relations are those of the graph between its members
        inn = lambda v: v in n.l and n.l[v].id in ids
        fol = [(n.l[v].id, "Successor") for v in n.succ(z) if inn(v)]
        pre = [(n.l[v].id, "Successor") for v in n.succ(z, -1) if inn(v)]
        gf = [(q.lanelet.id, str(q.relationType)) for q in r.followingRelations(h)]
        gp = [(q.lanelet.id, str(q.relationType)) for q in r.previousRelations(h)]
        c.check(set(gf) <= set(fol) and set(gp) <= set(pre), lambda: f"relations of {h.id} in the route: {gf} {gp}, in the graph {fol} {pre}")
        if z in cells and cells.index(z) + 1 < len(cells):
            v = cells[cells.index(z) + 1]
            if v[1] != z[1]:
                c.check((n.l[v].id, "Successor") in gf, "the shortest path is connected in the route")
        for dd, one, many, nm in ((1, r.leftRelation, r.leftRelations, "Left"), (-1, r.rightRelation, r.rightRelations, "Right")):
            t = n.side(z, dd)
            q = one(h)
            if q is not None:
                c.check(t is not None and q.lanelet.id == n.l[t[0]].id and inn(t[0]), lambda: f"{nm} of {h.id} in the route is {q.lanelet.id}")
                c.check(str(q.relationType) in (nm, "Adjacent" + nm), lambda: f"{nm} relation is {q.relationType}")
            qs = many(h)
            c.eq(oid(qs[0].lanelet) if qs else None, oid(q.lanelet) if q is not None else None, f"{nm} relations of {h.id}")
        full, rem = [l.id for l in r.fullLane(h)], [l.id for l in r.remainingLane(h)]
        c.check(h.id in full and full[full.index(h.id):] == rem and rem[0] == h.id, lambda: f"lanes of {h.id}: {full} {rem}")
        for a, b in zip(full, full[1:]):
            c.check(n.at[b] in n.succ(n.at[a]), "a lane is made of successors")
        rest = [l.id for l in r.remainingShortestPath(h)]
        pid = n.ids(cells)
        c.eq(rest, pid[pid.index(h.id):] if h.id in pid else [], f"remainingShortestPath({h.id})")
        c.eq([l.id for l in r.conflictingInRoute(h)], [], "conflictingInRoute")
        c.eq([l.id for l in r.conflictingInMap(h)], [], "conflictingInMap")
    lanes = {tuple(l.id for l in r.fullLane(n.l[n.at[i]])) for i in ids}
    c.eq(r.numLanes(), len(lanes), "numLanes")
    c.eq([l.id for l in r.allConflictingInMap()], [], "allConflictingInMap")
    seen = []
    r.forEachSuccessor(n.o(x), lambda i: (seen.append(i.lanelet.id), True)[1])
    c.check(seen and seen[0] == n.l[x].id and set(seen) <= ids and len(set(seen)) == len(seen) and n.l[y].id in seen, lambda: f"lanelets visited in the route: {seen}")
    seen = []
    r.forEachPredecessor(lanelet=n.o(y), func=lambda i: (seen.append(i.lanelet.id), True)[1])
    c.check(seen and seen[0] == n.l[y].id and set(seen) <= ids and n.l[x].id in seen, lambda: f"lanelets visited backwards in the route: {seen}")
    dm = r.getDebugLaneletMap()
    c.eq(len(dm.pointLayer), len(ids), "points of the debug map")
    # the submap and path do not need the route
    want = sorted(ids)
    r = same = None
    gc.collect()
    c.eq(sorted(l.id for l in sub.laneletLayer), want, "the submap of a dropped route")
    c.eq([l.id for l in p], n.ids(cells), "the path of a dropped route")
    c.label("parts dropped" if drop else "parts kept")
    c.label("lane change in the path", any(a[1] == b[1] for a, b in zip(cells, cells[1:])))
    c.nontrivial(len(cells) > 2)


def files(c):
    """graph exports and debug maps"""
    s, n = c.src, Net(c)
    cs = Costs(n)
    g = make_graph(n, cs)
    k = s.below(len(cs.kind))
    m = g.getDebugLaneletMap(k, s.flip(), s.flip()) if s.flip() else g.getDebugLaneletMap(routingCostId=k, includeAdjacent=s.flip(), includeConflicting=s.flip())
    c.check(len(m.pointLayer) >= len(n.cells), "points of the debug map")
    d = os.environ.get("PBT_TMP") or tempfile.gettempdir()
    fn = os.path.join(d, f"graph{os.getpid()}")
    for f, ext in ((g.exportGraphML, ".graphml"), (g.exportGraphViz, ".gv")):
        f(fn + ext)
        t = open(fn + ext, encoding="utf-8").read()
        os.unlink(fn + ext)
        for x in n.cells:
            c.check(str(n.l[x].id) in t, f"{n.l[x].id} in the export")
        c.raises(RuntimeError, lambda: f(""), "export without a file name")
        c.raises(RuntimeError, lambda: f(os.path.join(d, "no", "such", "folder", "f")), "export to a folder that does not exist")
    dist0 = R.RoutingCostDistance(2.)
    c.raises(KeyError, lambda: R.RoutingGraph(n.map, n.rules, [Broken()]), "exception in a cost class") if any(n.succ(x) for x in n.cells) else None
    if any(n.succ(x) for x in n.cells):
        c.raises(TypeError, lambda: R.RoutingGraph(n.map, n.rules, [Broken3(1.)]), "a cost class that returns no number")
    if any((t := n.side(x, d)) and t[1] for x in n.cells for d in (1, -1)):
        c.raises(KeyError, lambda: R.RoutingGraph(n.map, n.rules, [dist0, Broken2(1.)]), "exception in getCostLaneChange")
    c.raises(RuntimeError, lambda: R.RoutingCostDistance(-1.), "negative costs")
    c.raises(RuntimeError, lambda: R.RoutingCostTravelTime(-1., 0.), "negative costs")
    for bad in ((n.map, n.rules, 3), (n.map, n.rules, [None, 3]), (None, n.rules), (n.map,), (n.map, "x")):
        c.raises(Exception, lambda: R.RoutingGraph(*bad), f"RoutingGraph{bad}")
    v = s.pick([0.5, 3.])
    dist, time = R.RoutingCostDistance(v), R.RoutingCostTravelTime(laneChangeCost=v)
    a, b = s.pick(n.cells), s.pick(n.cells)
    h, i = n.o(a), n.o(b)
    near(c, dist.getCostSucceeding(n.rules, h, i), (n.len[a[1]] + n.len[b[1]]) / 2, "getCostSucceeding by distance")
    near(c, time.getCostSucceeding(trafficRules=n.rules, **{"from": h, "to": i}), (n.len[a[1]] + n.len[b[1]]) / 2 / (50 / 3.6), "getCostSucceeding by time")
    for q in (dist, time, Cheap(v)):
        near(c, q.getCostLaneChange(n.rules, [h], [i]), v, "getCostLaneChange")
    c.nontrivial(len(n.cells) > 2)


def rect_dist(p, r):
    return math.hypot(max(r[0] - p[0], p[0] - r[2], 0), max(r[1] - p[1], p[1] - r[3], 0))


def matching(c):
    """matching of objects on the grid of lanes, which are axis-parallel rectangles"""
    s, n = c.src, Net(c)
    x, y, yaw = s.grid(-3, n.x[-1] + 3), s.grid(-3, n.rows * 3 + 3), s.pick([0., 1., math.pi / 2, -math.pi / 2, 3., -1.])
    m = s.below(3)
    pose = M.Pose2d(x, y, yaw) if m == 0 else M.Pose2d(x=x, y=y, yaw=yaw)
    txt = str(pose).split()
    c.check(txt[0] == "x:" and abs(float(txt[1]) - x) < 1e-5 * (1 + abs(x)) and abs(float(txt[3]) - y) < 1e-5 * (1 + abs(y)), lambda: f"str of a pose: {pose}")
    oid_ = s.range(0, 9)
    hull = []
    if s.flip():
        w, h = s.pick([0.5, 2., 4.]), s.pick([0.5, 1., 2.])
        hull = [(x - w, y - h), (x - w, y + h), (x + w, y + h), (x + w, y - h)]
    H = [BasicPoint2d(*q) for q in hull]
    cov = M.PositionCovariance2d(s.pick([1., 2.]), s.pick([1., 0.5]), 0.) if s.flip() else M.PositionCovariance2d(varX=2., varY=1., covXY=0.5)
    o = s.pick([lambda: M.Object2d(oid_, pose, H), lambda: M.Object2d(objectId=oid_, pose=pose, absoluteHull=H)])()
    q = s.pick([lambda: M.ObjectWithCovariance2d(oid_, pose, H, cov, 2.),
                lambda: M.ObjectWithCovariance2d(objectId=oid_, pose=pose, absoluteHull=H, positionCovariance=cov, vonMisesKappa=2.)])()
    if s.chance(1, 3):  # set afterwards
        o, q = M.Object2d(), M.ObjectWithCovariance2d()
        c.eq((o.objectId, len(o.absoluteHull), q.vonMisesKappa), (0, 0, 0.), "defaults of an object")
        o.objectId = q.objectId = oid_
        o.pose = q.pose = pose
        o.absoluteHull = q.absoluteHull = H
        q.positionCovariance, q.vonMisesKappa = cov, 2.
    for z in (o, q):
        c.eq(z.objectId, oid_, "objectId")
        c.eq([(p.x, p.y) for p in z.absoluteHull], hull, "absoluteHull")
        c.eq(str(z.pose), str(pose), "pose")
    c.eq(q.vonMisesKappa, 2., "vonMisesKappa")
    c.eq(str(q.positionCovariance), str(cov), "positionCovariance")
    maxd = s.pick([0., 1., 3., 10.])
    rect = {}
    for k, l in n.l.items():
        rect[l.id] = (n.x[k[1]], k[0] * 3., n.x[k[1] + 1], k[0] * 3. + 3)
    box = (min(p[0] for p in hull), min(p[1] for p in hull), max(p[0] for p in hull), max(p[1] for p in hull)) if hull else (x, y, x, y)
    dist = {i: math.hypot(max(r[0] - box[2], box[0] - r[2], 0), max(r[1] - box[3], box[1] - r[3], 0)) for i, r in rect.items()}
    want = {i: d for i, d in dist.items() if d <= maxd}
    got = M.getDeterministicMatches(n.map, o, maxd)
    c.check(type(got) is list and all(type(g) is M.ConstLaneletMatch for g in got), "type of the matches")
    c.eq(sorted(g.lanelet.id for g in got), sorted(list(want) * 2), f"lanelets matched within {maxd} (each in both directions)")
    c.check(all(a.distance <= b.distance for a, b in zip(got, got[1:])), "matches are sorted by distance")
    for g in got:
        near(c, g.distance, want[g.lanelet.id], f"distance of {g.lanelet.id}")
        c.check(type(g.lanelet) is ConstLanelet, "type of a matched lanelet")
    c.eq(sum(g.lanelet.inverted() for g in got), len(want), "inverted matches")
    prob = M.getProbabilisticMatches(n.map, q, maxd)
    c.check(type(prob) is list and all(type(g) is M.ConstLaneletMatchProbabilistic for g in prob), "type of the probabilistic matches")
    c.eq(sorted(g.lanelet.id for g in prob), sorted(list(want) * 2), f"lanelets matched within {maxd} with covariance")
    c.check(all(a.mahalanobisDistSq <= b.mahalanobisDistSq for a, b in zip(prob, prob[1:])), "probabilistic matches are sorted")
    for g in prob:
        near(c, g.distance, want[g.lanelet.id], f"distance of {g.lanelet.id}")
    veh = s.flip()
    rules = TR.create(TR.Locations.Germany, TR.Participants.Vehicle if veh else TR.Participants.Pedestrian)
    for l in (got, prob):
        r = M.removeNonRuleCompliantMatches(l, rules)
        keep = [g for g in l if rules.canPass(g.lanelet)]
        c.eq([(g.lanelet.id, g.lanelet.inverted()) for g in r], [(g.lanelet.id, g.lanelet.inverted()) for g in keep], "rule compliant matches")
        c.check(all(type(g) is type(l[0]) or (l is got and not l) for g in r), "type of the remaining matches")
        c.check(all(g.distance == k.distance for g, k in zip(r, keep)), "distances of the remaining matches")
        walk = {n.l[z].id for z in n.walk}
        if veh:
            c.check(all(not g.lanelet.inverted() and g.lanelet.id not in walk for g in r), "vehicles use lanes in their direction")
    for bad in ([1], [None], [o], ["x"]):
        c.raises(RuntimeError, lambda: M.removeNonRuleCompliantMatches(bad, rules), f"matches {bad}")
    c.raises(Exception, lambda: M.Object2d(1, pose, [1, 2]), "hull that is no list of points")
    c.raises(Exception, lambda: M.getDeterministicMatches(n.map, pose, 1.), "matching of something else")
    c.raises(RuntimeError, lambda: M.getProbabilisticMatches(n.map, M.ObjectWithCovariance2d(1, pose, H), maxd), "covariance without rank") if want else None
    n.map = None
    gc.collect()
    c.eq(sorted(g.lanelet.id for g in got), sorted(list(want) * 2), "matches outlive the map")
    c.label("matched", len(want))
    c.nontrivial(len(want) > 1)


PROPS = [Prop("graph", "non-trivial: a shortest path has more than two lanelets", 2000, 50000, graph),
         Prop("route", "non-trivial: the shortest path has more than two lanelets", 3000, 80000, route),
         Prop("exports", "non-trivial: more than two lanelets", 400, 10000, files),
         Prop("matching", "non-trivial: more than one lanelet matches", 2000, 50000, matching)]
KNOWN = []
