// C01: lookups and spatial queries of the map layers agree with a full scan over what was added.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>

#include "world.h"
using namespace lanelet;
using world::box;

namespace {
template <typename T>
Id idOf(const T& t) {
  return t.id();
}
Id idOf(const RegulatoryElementPtr& t) { return t->id(); }
Id idOf(const RegulatoryElementConstPtr& t) { return t->id(); }
template <typename T>
const void* dataOf(const T& t) {
  return t.constData().get();
}
const void* dataOf(const RegulatoryElementPtr& t) { return t->constData().get(); }
const void* dataOf(const RegulatoryElementConstPtr& t) { return t->constData().get(); }
template <typename R>
std::vector<Id> idsOf(const R& r) {
  std::vector<Id> o;
  for (auto& e : r) o.push_back(idOf(e));
  return o;
}

struct Model {
  std::map<Id, Point3d> pts;
  std::map<Id, LineString3d> ls;
  std::map<Id, Polygon3d> polys;
  std::map<Id, Lanelet> llts;
  std::map<Id, Area> areas;
  std::map<Id, RegulatoryElementPtr> regs;
  bool closure{true};
  void add(const Point3d& p) { pts.insert({p.id(), p}); }
  void add(const LineString3d& l) {
    if (!ls.insert({l.id(), l}).second || !closure) return;
    for (auto p : LineString3d(l)) add(Point3d(p));
  }
  void add(const Polygon3d& l) {
    if (!polys.insert({l.id(), l}).second || !closure) return;
    for (auto p : Polygon3d(l)) add(Point3d(p));
  }
  void add(Lanelet l) {
    if (!llts.insert({l.id(), l}).second || !closure) return;
    add(l.leftBound());
    add(l.rightBound());
    if (l.hasCustomCenterline()) {
      auto ctr = l.centerline();
      add(LineString3d(std::const_pointer_cast<LineStringData>(ctr.constData()), ctr.inverted()));
    }
    for (auto& r : l.regulatoryElements()) add(r);
  }
  void add(Area a) {
    if (!areas.insert({a.id(), a}).second || !closure) return;
    for (auto& l : a.outerBound()) add(l);
    for (auto& i : a.innerBounds())
      for (auto& l : i) add(l);
    for (auto& r : a.regulatoryElements()) add(r);
  }
  struct ParamVisitor : boost::static_visitor<void> {
    Model* m;
    void operator()(const Point3d& p) const { m->add(p); }
    void operator()(const LineString3d& p) const { m->add(p); }
    void operator()(const Polygon3d& p) const { m->add(p); }
    void operator()(const WeakLanelet& p) const {
      if (!p.expired()) m->add(p.lock());
    }
    void operator()(const WeakArea& p) const {
      if (!p.expired()) m->add(p.lock());
    }
  };
  void add(const RegulatoryElementPtr& r) {
    if (!regs.insert({r->id(), r}).second || !closure) return;
    ParamVisitor v;
    v.m = this;
    for (auto& role : std::static_pointer_cast<GenericRegulatoryElement>(r)->parameters())
      for (auto& p : role.second) boost::apply_visitor(v, p);
  }
};

struct Queries {
  std::vector<geo::P2> points;
  std::vector<geo::Box> boxes;
};
BoundingBox2d bb(const geo::Box& b) { return BoundingBox2d(BasicPoint2d(b.x0, b.y0), BasicPoint2d(b.x1, b.y1)); }
bool sameBox(const BoundingBox2d& a, const geo::Box& b) {
  return a.min().x() == b.x0 && a.min().y() == b.y0 && a.max().x() == b.x1 && a.max().y() == b.y1;
}
bool sameBox(const BasicPoint2d& a, const geo::Box& b) { return a.x() == b.x0 && a.y() == b.y0; }

template <typename T>
constexpr bool isReg = std::is_same<T, RegulatoryElementPtr>::value;

// every query of one layer against a scan
template <typename LayerT, typename T>
void checkLayer(Case& c, LayerT& layer, const std::map<Id, T>& model, const Queries& q, const char* name) {
  const LayerT& cl = layer;
  std::vector<Id> ids;
  for (auto& m : model) ids.push_back(m.first);
  PBT_EQ(layer.size(), ids.size(), name);
  PBT_EQ(layer.empty(), ids.empty(), name);
  VEQ(chk::sorted(idsOf(layer)), ids, name << " iteration");
  VEQ(chk::sorted(idsOf(cl)), ids, name << " const iteration");
  for (auto& m : model) {
    PBT_CHECK(layer.exists(m.first), name << " " << m.first);
    PBT_CHECK(dataOf(layer.get(m.first)) == dataOf(m.second), name << " get " << m.first);
    PBT_CHECK(dataOf(cl.get(m.first)) == dataOf(m.second), name << " const get " << m.first);
    PBT_CHECK(layer.find(m.first) != layer.end() && idOf(*layer.find(m.first)) == m.first, name);
    PBT_CHECK(cl.find(m.first) != cl.end() && idOf(*cl.find(m.first)) == m.first, name);
    c.did(5);
  }
  for (Id id : {Id(0), Id(1), Id(3), Id(-2), Id(7777777), Id(100001)}) {
    bool there = id != InvalId && model.count(id) != 0;
    PBT_EQ(layer.exists(id), there, name << " " << id);
    PBT_EQ((layer.find(id) != layer.end()), there, name << " " << id);
    PBT_EQ((cl.find(id) != cl.end()), there, name << " " << id);
    if (!there) {
      PBT_CHECK(chk::throws<NoSuchPrimitiveError>([&] { layer.get(id); }), name << " get " << id);
      PBT_CHECK(chk::throws<NoSuchPrimitiveError>([&] { cl.get(id); }), name << " get " << id);
    }
  }
  std::map<Id, geo::Box> boxes;
  for (auto& m : model) {
    auto b = box(m.second);
    if (!b.empty()) boxes[m.first] = b;
  }
  using CP = typename LayerT::ConstPrimitiveT;
  using P = typename LayerT::PrimitiveT;
  size_t hitTotal = 0;
  for (auto& qb : q.boxes) {
    std::vector<Id> want;
    for (auto& b : boxes)
      if (b.second.hits(qb)) want.push_back(b.first);
    hitTotal += want.size();
    VEQ(chk::sorted(idsOf(layer.search(bb(qb)))), want, name << " search");
    VEQ(chk::sorted(idsOf(cl.search(bb(qb)))), want, name << " const search");
    // searchUntil passes exactly these to the function and stops at the first success
    std::vector<Id> seen;
    auto res = layer.searchUntil(bb(qb), [&](auto& b, const P& p) {
      PBT_CHECK(sameBox(b, boxes.at(idOf(p))), name << " box of " << idOf(p));
      seen.push_back(idOf(p));
      return false;
    });
    PBT_CHECK(!res, name);
    VEQ(chk::sorted(seen), want, name << " searchUntil");
    if (!want.empty()) {
      Id target = want[want.size() / 2];
      size_t calls = 0;
      auto cres = cl.searchUntil(bb(qb), [&](auto& /*b*/, const CP& p) {
        ++calls;
        return idOf(p) == target;
      });
      PBT_CHECK(!!cres && idOf(*cres) == target, name << " const searchUntil");
      PBT_CHECK(calls <= want.size(), name);
    }
    c.did(4);
  }
  for (auto& qp : q.points) {
    BasicPoint2d pt(qp.x, qp.y);
    std::vector<double> dists;
    for (auto& b : boxes) dists.push_back(b.second.distTo(qp));
    std::sort(dists.begin(), dists.end());
    auto near = [&](auto&& result, size_t n, const char* what) {
      PBT_EQ(result.size(), std::min(n, dists.size()), name << what << " n=" << n);
      std::vector<double> got;
      std::set<Id> uniq;
      for (auto& r : result) {
        uniq.insert(idOf(r));
        PBT_CHECK(boxes.count(idOf(r)), name << what);
        got.push_back(boxes.at(idOf(r)).distTo(qp));
      }
      PBT_EQ(uniq.size(), result.size(), name << what << " duplicates");
      std::sort(got.begin(), got.end());
      for (size_t i = 0; i < got.size(); ++i)
        PBT_CHECK(std::abs(got[i] - dists[i]) < 1e-9, name << what << " n=" << n << " at " << i << ": " << got[i] << " vs " << dists[i]);
      c.did();
    };
    for (unsigned n : {1u, 2u, 5u, unsigned(dists.size() + 1)}) {
      near(layer.nearest(pt, n), n, " nearest");
      near(cl.nearest(pt, n), n, " const nearest");
      near(cl.nearest(Point2d(InvalId, qp.x, qp.y), n), n, " nearest Point2d");
    }
    {
      std::vector<Id> seen;
      double last = -1;
      auto res = cl.nearestUntil(pt, [&](auto& b, const CP& p) {
        double d = boxes.at(idOf(p)).distTo(qp);
        PBT_CHECK(sameBox(b, boxes.at(idOf(p))), name << " box of " << idOf(p));
        PBT_CHECK(d >= last - 1e-9, name << " nearestUntil order");
        last = d;
        seen.push_back(idOf(p));
        return false;
      });
      PBT_CHECK(!res, name);
      std::vector<Id> all;
      for (auto& b : boxes) all.push_back(b.first);
      VEQ(chk::sorted(seen), all, name << " nearestUntil visits everything");
      if (!all.empty()) {
        Id target = seen[seen.size() / 2];
        size_t calls = 0;
        auto r2 = layer.nearestUntil(pt, [&](auto& /*b*/, const P& p) {
          ++calls;
          return idOf(p) == target;
        });
        PBT_CHECK(!!r2 && idOf(*r2) == target, name << " nearestUntil result");
        PBT_CHECK(calls <= all.size(), name);
      }
    }
    // exact nearest
    std::map<Id, double> exact;
    std::vector<double> ex;
    for (auto& b : boxes) ex.push_back(exact[b.first] = world::dist(qp, model.at(b.first)));
    std::sort(ex.begin(), ex.end());
    auto nearE = [&](auto&& result, size_t n, const char* what) {
      PBT_EQ(result.size(), std::min(n, ex.size()), name << what << " n=" << n);
      std::set<Id> uniq;
      for (size_t i = 0; i < result.size(); ++i) {
        auto& r = result[i];
        uniq.insert(idOf(r.second));
        PBT_CHECK(std::abs(r.first - exact.at(idOf(r.second))) < 1e-7,
                  name << what << " distance of " << idOf(r.second) << ": " << r.first << " vs " << exact.at(idOf(r.second)));
        PBT_CHECK(std::abs(r.first - ex[i]) < 1e-7, name << what << " rank " << i << ": " << r.first << " vs " << ex[i]);
        PBT_CHECK(i == 0 || result[i - 1].first <= r.first, name << what << " order");
      }
      PBT_EQ(uniq.size(), result.size(), name << what << " duplicates");
      c.did();
    };
    for (unsigned n : {0u, 1u, 3u, unsigned(ex.size() + 2)}) {
      nearE(geometry::findNearest(layer, pt, n), n, " findNearest");
      nearE(geometry::findNearest(cl, pt, n), n, " const findNearest");
    }
  }
  if (hitTotal > 2 && model.size() > 2) c.nontrivial();
}

template <typename LayerT, typename T, typename Q, typename DistFn>
void checkWithin2d(Case& c, LayerT& layer, const std::map<Id, T>& model, const Q& query, double maxDist, DistFn&& distFn,
                   const char* name) {
  const LayerT& cl = layer;
  auto run = [&](auto&& result) {
    std::map<Id, double> got;
    double last = 0;
    for (auto& r : result) {
      PBT_CHECK(got.insert({idOf(r.second), r.first}).second, name << " duplicate " << idOf(r.second));
      PBT_CHECK(r.first >= last, name << " order");
      last = r.first;
    }
    for (auto& m : model) {
      if (box(m.second).empty()) {
        PBT_CHECK(!got.count(m.first), name);
        continue;
      }
      double d = distFn(m.second);
      bool in = got.count(m.first) != 0;
      if (in) {
        PBT_CHECK(std::abs(got[m.first] - d) < 1e-6, name << " distance of " << m.first << " " << got[m.first] << " vs " << d);
        PBT_CHECK(d <= maxDist + 1e-7, name << " element " << m.first << " is " << d << " away, limit " << maxDist);
      } else {
        PBT_CHECK(d >= maxDist - 1e-7, name << " element " << m.first << " missing, distance " << d << " limit " << maxDist);
      }
      c.did();
    }
    for (auto& g : got) PBT_CHECK(model.count(g.first), name);
  };
  run(query(layer));
  run(query(cl));
}

template <typename P, typename R>
void usages(Case& c, const R& result, const std::map<Id, size_t>& want, const char* name, const P& what) {
  std::map<Id, size_t> got;
  for (auto& r : result) ++got[idOf(r)];
  for (auto& w : want) {
    PBT_CHECK(got.count(w.first), name << " misses user " << w.first << " of " << what);
    PBT_CHECK(got[w.first] <= w.second, name << " lists user " << w.first << " of " << what << " " << got[w.first] << " times, it is used " << w.second);
    c.did();
  }
  for (auto& g : got) PBT_CHECK(want.count(g.first), name << " invents user " << g.first << " of " << what);
}
template <typename A, typename B>
bool same(const A& a, const B& b) {
  return a.constData() == b.constData();
}

template <typename L>
std::map<Id, size_t> pointUsers(const std::map<Id, L>& m, const Point3d& p) {
  std::map<Id, size_t> want;
  for (auto& e : m) {
    for (size_t i = 0; i < e.second.size(); ++i) want[e.first] += same(ConstPoint3d(e.second[i]), p);
    if (!want[e.first]) want.erase(e.first);
  }
  return want;
}
bool has(const ConstLineString3d& l, Id id) {
  for (size_t i = 0; i < l.size(); ++i)
    if (l[i].id() == id) return true;
  return false;
}
bool hasL(const ConstLanelet& l, Id id) {
  for (auto& r : l.regulatoryElements())
    if (r->id() == id) return true;
  return has(l.leftBound(), id) || has(l.rightBound(), id);
}
bool hasA(const ConstArea& a, Id id) {
  for (auto& r : a.regulatoryElements())
    if (r->id() == id) return true;
  for (auto& l : a.outerBound())
    if (has(l, id)) return true;
  for (auto& i : a.innerBounds())
    for (auto& l : i)
      if (has(l, id)) return true;
  return false;
}
struct HasVisitor : boost::static_visitor<bool> {
  Id id;
  bool operator()(const ConstPoint3d& p) const { return p.id() == id; }
  bool operator()(const ConstLineString3d& p) const { return p.id() == id || has(p, id); }
  bool operator()(const ConstPolygon3d& p) const {
    if (p.id() == id) return true;
    for (size_t i = 0; i < p.size(); ++i)
      if (p[i].id() == id) return true;
    return false;
  }
  bool operator()(const ConstWeakLanelet& p) const { return !p.expired() && (p.lock().id() == id || hasL(p.lock(), id)); }
  bool operator()(const ConstWeakArea& p) const { return !p.expired() && (p.lock().id() == id || hasA(p.lock(), id)); }
};

void checkUsages(Case& c, LaneletMapLayers& map, const world::World& w, const Model& m) {
  const LaneletMapLayers& cm = map;
  for (auto& p : w.pts) {
    auto wl = pointUsers(m.ls, p);
    usages(c, map.lineStringLayer.findUsages(p), wl, "lineStringLayer.findUsages", p.id());
    usages(c, cm.lineStringLayer.findUsages(p), wl, "const lineStringLayer.findUsages", p.id());
    auto wp = pointUsers(m.polys, p);
    usages(c, map.polygonLayer.findUsages(p), wp, "polygonLayer.findUsages", p.id());
    usages(c, cm.polygonLayer.findUsages(p), wp, "const polygonLayer.findUsages", p.id());
    PBT_CHECK(map.pointLayer.findUsages(p).empty() && cm.pointLayer.findUsages(p).empty(), "points own nothing");
    // users via the line strings of this map
    std::map<Id, size_t> ul, ua;
    for (auto& l : m.llts)
      for (auto& b : {l.second.leftBound(), l.second.rightBound()})
        for (auto& u : wl)
          if (same(m.ls.at(u.first), b)) ul[l.first] = 1;
    for (auto& a : m.areas) {
      auto visit = [&](const ConstLineString3d& b) {
        for (auto& u : wl)
          if (same(m.ls.at(u.first), b)) ua[a.first] = 1;
      };
      ConstArea ca(a.second);
      for (auto& l : ca.outerBound()) visit(l);
      for (auto& i : ca.innerBounds())
        for (auto& l : i) visit(l);
    }
    usages(c, utils::findUsagesInLanelets(map, p), ul, "findUsagesInLanelets", p.id());
    usages(c, utils::findUsagesInAreas(map, p), ua, "findUsagesInAreas", p.id());
  }
  for (auto& base : w.ls) {
    for (auto l : {base, base.invert()}) {
      std::map<Id, size_t> ul, ua;
      for (auto& e : m.llts) {
        size_t n = (e.second.leftBound() == l) + (e.second.rightBound() == l);
        if (n) ul[e.first] = n;
      }
      for (auto& e : m.areas) {
        size_t n = 0;
        Area a = e.second;
        for (auto& b : a.outerBound()) n += b == l;
        for (auto& i : a.innerBounds())
          for (auto& b : i) n += b == l;
        if (n) ua[e.first] = n;
      }
      usages(c, map.laneletLayer.findUsages(l), ul, "laneletLayer.findUsages", l.id());
      usages(c, cm.laneletLayer.findUsages(l), ul, "const laneletLayer.findUsages", l.id());
      usages(c, map.areaLayer.findUsages(l), ua, "areaLayer.findUsages", l.id());
      usages(c, cm.areaLayer.findUsages(l), ua, "const areaLayer.findUsages", l.id());
    }
  }
  auto regUsers = [&](auto pred, const ConstRuleParameter& key, Id id) {
    std::map<Id, size_t> want;
    for (auto& r : m.regs)
      for (auto& role : r.second->getParameters())
        for (auto& p : role.second)
          if (pred(p)) ++want[r.first];
    usages(c, map.regulatoryElementLayer.findUsages(key), want, "regulatoryElementLayer.findUsages", id);
    usages(c, cm.regulatoryElementLayer.findUsages(key), want, "const regulatoryElementLayer.findUsages", id);
  };
  for (auto& p : w.pts)
    regUsers([&](const ConstRuleParameter& r) { auto x = boost::get<ConstPoint3d>(&r); return x && same(*x, p); }, ConstPoint3d(p), p.id());
  for (auto& p : w.ls)
    regUsers([&](const ConstRuleParameter& r) { auto x = boost::get<ConstLineString3d>(&r); return x && *x == p; }, ConstLineString3d(p), p.id());
  for (auto& p : w.polys)
    regUsers([&](const ConstRuleParameter& r) { auto x = boost::get<ConstPolygon3d>(&r); return x && same(*x, p); }, ConstPolygon3d(p), p.id());
  for (auto& p : w.llts)
    regUsers([&](const ConstRuleParameter& r) { auto x = boost::get<ConstWeakLanelet>(&r); return x && !x->expired() && x->lock() == p; }, ConstWeakLanelet(p), p.id());
  for (auto& p : w.areas)
    regUsers([&](const ConstRuleParameter& r) { auto x = boost::get<ConstWeakArea>(&r); return x && !x->expired() && same(x->lock(), p); }, ConstWeakArea(p), p.id());
  for (auto& r : w.regs) {
    std::map<Id, size_t> ul, ua;
    for (auto& l : m.llts)
      for (auto& x : l.second.regulatoryElements())
        if (x->constData() == r->constData()) ++ul[l.first];
    for (auto& l : m.areas)
      for (auto& x : l.second.regulatoryElements())
        if (x->constData() == r->constData()) ++ua[l.first];
    usages(c, map.laneletLayer.findUsages(r), ul, "laneletLayer.findUsages(regelem)", r->id());
    usages(c, cm.laneletLayer.findUsages(r), ul, "const laneletLayer.findUsages(regelem)", r->id());
    usages(c, map.areaLayer.findUsages(r), ua, "areaLayer.findUsages(regelem)", r->id());
    usages(c, cm.areaLayer.findUsages(r), ua, "const areaLayer.findUsages(regelem)", r->id());
  }
  // the scanning variant by id
  std::set<Id> someIds{0, 1, 12345678};
  for (auto& p : w.pts) someIds.insert(p.id());
  for (auto& p : w.regs) someIds.insert(p->id());
  for (auto& p : w.ls) someIds.insert(p.id());
  for (Id id : someIds) {
    std::map<Id, size_t> a, b, l, r;
    for (auto& e : m.ls)
      if (has(e.second, id)) a[e.first] = 1;
    for (auto& e : m.polys) {
      for (size_t i = 0; i < e.second.size(); ++i)
        if (e.second[i].id() == id) b[e.first] = 1;
    }
    for (auto& e : m.llts)
      if (hasL(e.second, id)) l[e.first] = 1;
    HasVisitor hv;
    hv.id = id;
    for (auto& e : m.regs)
      for (auto& role : e.second->getParameters())
        for (auto& p : role.second)
          if (boost::apply_visitor(hv, p)) r[e.first] = 1;
    usages(c, utils::findUsages(cm.lineStringLayer, id), a, "utils::findUsages(lineStrings)", id);
    usages(c, utils::findUsages(cm.polygonLayer, id), b, "utils::findUsages(polygons)", id);
    usages(c, utils::findUsages<Lanelet>(cm.laneletLayer, id), l, "utils::findUsages(lanelets)", id);
    usages(c, utils::findUsages(cm.regulatoryElementLayer, id), r, "utils::findUsages(regelems)", id);
  }
}

template <typename MapT>
void addRandom(Case& c, MapT& map, world::World& w, Model& m) {
  // a random order of a random subset, with repetitions
  std::vector<std::pair<int, size_t>> order;
  auto push = [&](int kind, size_t n) {
    for (size_t i = 0; i < n; ++i)
      if (c.src.chance(3, 5)) order.insert(order.begin() + c.src.below(order.size() + 1), {kind, i});
  };
  push(0, w.pts.size());
  push(1, w.ls.size());
  push(2, w.polys.size());
  push(3, w.llts.size());
  push(4, w.areas.size());
  push(5, w.regs.size());
  size_t extra = order.empty() ? 0 : c.src.below(4);
  for (size_t i = 0; i < extra; ++i) order.push_back(order[c.src.below(order.size())]);
  for (auto& o : order) {
    switch (o.first) {
      case 0: map.add(w.pts[o.second]), m.add(w.pts[o.second]); break;  // ids are known once it was added
      case 1: map.add(w.ls[o.second]), m.add(w.ls[o.second]); break;
      case 2: map.add(w.polys[o.second]), m.add(w.polys[o.second]); break;
      case 3: map.add(w.llts[o.second]), m.add(w.llts[o.second]); break;
      case 4: map.add(w.areas[o.second]), m.add(w.areas[o.second]); break;
      default: map.add(w.regs[o.second]), m.add(w.regs[o.second]);
    }
  }
  c.label("adds", order.size());
}
template <typename V>
V subset(Case& c, const V& v) {
  V o;
  for (auto& e : v)
    if (c.src.chance(3, 4)) o.push_back(e);
  if (!o.empty() && c.src.chance(1, 3)) o.push_back(o.front());
  return o;
}

void run(Case& c) {
  const auto kind = c.src.below(12);
  world::Opts opts;
  if (kind < 5 && c.src.chance(1, 3)) {
    // some elements get their id when they (or what they are part of) are added
    opts.unsetIds = true;
    opts.farBase = utils::getId() + 1000;
    c.label("unset ids");
  }
  world::Gen g(c, opts);
  // the number of extras is mostly small, sometimes large enough to split r-tree nodes (16 per node)
  size_t n = c.src.chance(1, 6) ? c.src.size(20, 60) : c.src.size(1, 14);
  g.fill(n);
  auto& w = g.w;
  Model m;
  std::shared_ptr<LaneletMapLayers> map;
  if (kind < 5) {
    auto p = std::make_unique<LaneletMap>();
    addRandom(c, *p, w, m);
    if (c.src.chance(1, 4)) {
      p = std::make_unique<LaneletMap>(std::move(*p));
      c.label("moved");
    } else if (c.src.chance(1, 4)) {
      LaneletMap q;
      q.add(Point3d(424242, 1, 1));
      q = std::move(*p);
      *p = std::move(q);
      c.label("moved");
    }
    map = std::move(p);
    c.label("LaneletMap");
  } else if (kind < 8) {
    m.closure = false;
    auto p = std::make_unique<LaneletSubmap>();
    addRandom(c, *p, w, m);
    if (c.src.chance(1, 4)) p = std::make_unique<LaneletSubmap>(std::move(*p));
    map = std::move(p);
    c.label("LaneletSubmap");
  } else if (kind == 8) {
    auto l = subset(c, w.llts);
    auto a = subset(c, w.areas);
    auto which = c.src.below(4);
    if (which == 1) a.clear();
    if (which == 2) l.clear();
    for (auto& x : l) m.add(x);
    for (auto& x : a) m.add(x);
    if (which == 3) {
      auto cp = utils::createConstMap(ConstLanelets(l.begin(), l.end()), ConstAreas(a.begin(), a.end()));
      map = std::unique_ptr<LaneletMap>(const_cast<LaneletMap*>(cp.release()));
    } else {
      map = which == 1 ? utils::createMap(l) : which == 2 ? utils::createMap(a) : utils::createMap(l, a);
    }
    c.label("createMap");
  } else if (kind == 9) {
    switch (c.src.below(3)) {
      case 0: {
        auto v = subset(c, w.pts);
        for (auto& x : v) m.add(x);
        map = utils::createMap(v);
        break;
      }
      case 1: {
        auto v = subset(c, w.ls);
        for (auto& x : v) m.add(x);
        map = utils::createMap(v);
        break;
      }
      default: {
        auto v = subset(c, w.polys);
        for (auto& x : v) m.add(x);
        map = utils::createMap(v);
      }
    }
    c.label("createMap basic");
  } else if (kind == 10) {
    m.closure = false;
    switch (c.src.below(4)) {
      case 0: {
        auto v = subset(c, w.pts);
        for (auto& x : v) m.add(x);
        map = utils::createSubmap(v);
        break;
      }
      case 1: {
        auto v = subset(c, w.ls);
        for (auto& x : v) m.add(x);
        map = utils::createSubmap(v);
        break;
      }
      case 2: {
        auto v = subset(c, w.polys);
        for (auto& x : v) m.add(x);
        map = utils::createSubmap(v);
        break;
      }
      default: {
        auto l = subset(c, w.llts);
        auto a = subset(c, w.areas);
        for (auto& x : l) m.add(x);
        for (auto& x : a) m.add(x);
        map = utils::createSubmap(l, a);
      }
    }
    c.label("createSubmap");
  } else {
    LaneletMap src;
    addRandom(c, src, w, m);
    auto p = std::make_unique<LaneletSubmap>(std::move(src));
    // further adds do not pull in parts any more
    m.closure = false;
    addRandom(c, *p, w, m);
    map = std::move(p);
    c.label("LaneletMap moved to submap");
  }
  Queries q;
  size_t nq = 1 + c.src.below(3);
  for (size_t i = 0; i < nq; ++i) {
    q.points.push_back({c.src.grid(-12, 32, 0.25), c.src.grid(-12, 32, 0.25)});
    geo::Box b;
    b.add(geo::P2{c.src.grid(-4, 20, 0.25), c.src.grid(-4, 20, 0.25)});
    double sx = c.src.of<double>({0, 0.5, 4, 10, 50}), sy = c.src.of<double>({0, 0.5, 4, 10, 50});
    b.add(geo::P2{b.x0 + sx, b.y0 + sy});
    q.boxes.push_back(b);
  }
  c.describe([&](auto& o) {
    o << "container kind " << kind << ", " << w.pts.size() << " points, " << w.ls.size() << " line strings, " << w.polys.size()
      << " polygons, " << w.llts.size() << " lanelets, " << w.areas.size() << " areas, " << w.regs.size()
      << " regulatory elements; in map: " << map->size() << "; first query point (" << q.points[0].x << ", " << q.points[0].y << ")";
  });
  PBT_EQ(map->size(), m.pts.size() + m.ls.size() + m.polys.size() + m.llts.size() + m.areas.size() + m.regs.size(), "map size");
  PBT_EQ(map->empty(), map->size() == 0, "map empty");
  checkLayer(c, map->pointLayer, m.pts, q, "points");
  checkLayer(c, map->lineStringLayer, m.ls, q, "line strings");
  checkLayer(c, map->polygonLayer, m.polys, q, "polygons");
  checkLayer(c, map->laneletLayer, m.llts, q, "lanelets");
  checkLayer(c, map->areaLayer, m.areas, q, "areas");
  checkLayer(c, map->regulatoryElementLayer, m.regs, q, "regulatory elements");
  checkUsages(c, *map, w, m);
  // findWithin
  double maxDist = c.src.of<double>({0, 0.5, 1, 2.75, 10});
  auto qp = q.points[0];
  BasicPoint2d bp(qp.x, qp.y);
  auto f2p = [&](auto& layer) { return geometry::findWithin2d(layer, bp, maxDist); };
  auto dp = [&](auto& e) { return world::dist(qp, e); };
  checkWithin2d(c, map->pointLayer, m.pts, f2p, maxDist, dp, "within2d(point) points");
  checkWithin2d(c, map->lineStringLayer, m.ls, f2p, maxDist, dp, "within2d(point) line strings");
  checkWithin2d(c, map->polygonLayer, m.polys, f2p, maxDist, dp, "within2d(point) polygons");
  checkWithin2d(c, map->laneletLayer, m.llts, f2p, maxDist, dp, "within2d(point) lanelets");
  checkWithin2d(c, map->areaLayer, m.areas, f2p, maxDist, dp, "within2d(point) areas");
  // a line string and a polygon as query geometry
  geo::L2 ql{qp, {qp.x + c.src.grid(-6, 6, 0.5), qp.y + c.src.grid(-6, 6, 0.5)}, {qp.x + 1.25, qp.y + c.src.grid(0, 6, 0.5)}};
  BasicLineString2d bl = conv::bl(ql);
  LineString3d ql3(InvalId, {Point3d(InvalId, ql[0].x, ql[0].y, 1), Point3d(InvalId, ql[1].x, ql[1].y, 0), Point3d(InvalId, ql[2].x, ql[2].y, -1)});
  auto f2l = [&](auto& layer) { return geometry::findWithin2d(layer, utils::to2D(ql3), maxDist); };
  checkWithin2d(c, map->pointLayer, m.pts, f2l, maxDist, [&](auto& e) { return geo::pointLine(conv::p2(e), ql); }, "within2d(line) points");
  checkWithin2d(c, map->lineStringLayer, m.ls, f2l, maxDist, [&](auto& e) { return geo::lineLine(world::line(e), ql); }, "within2d(line) line strings");
  geo::Poly qg{{{qp.x, qp.y}, {qp.x, qp.y + 3}, {qp.x + 2, qp.y + 3.5}, {qp.x + 4, qp.y}}, {}};
  BasicPolygon2d bg = conv::bpoly(qg.outer);
  auto f2g = [&](auto& layer) { return geometry::findWithin2d(layer, bg, maxDist); };
  checkWithin2d(c, map->pointLayer, m.pts, f2g, maxDist, [&](auto& e) { return geo::pointPoly(conv::p2(e), qg); }, "within2d(polygon) points");
  checkWithin2d(c, map->lineStringLayer, m.ls, f2g, maxDist, [&](auto& e) { return geo::linePoly(world::line(e), qg); }, "within2d(polygon) line strings");
  checkWithin2d(c, map->polygonLayer, m.polys, f2g, maxDist, [&](auto& e) { return geo::polyPoly(world::poly(e), qg); }, "within2d(polygon) polygons");
  checkWithin2d(c, map->laneletLayer, m.llts, f2g, maxDist, [&](auto& e) { return geo::polyPoly(world::poly(e), qg); }, "within2d(polygon) lanelets");
  checkWithin2d(c, map->areaLayer, m.areas, f2g, maxDist, [&](auto& e) { return geo::polyPoly(world::poly(e), qg); }, "within2d(polygon) areas");
  // 3d
  geo::P3 p3{qp.x, qp.y, c.src.grid(-3, 3, 0.5)};
  auto f3p = [&](auto& layer) { return geometry::findWithin3d(layer, BasicPoint3d(p3.x, p3.y, p3.z), maxDist); };
  checkWithin2d(c, map->pointLayer, m.pts, f3p, maxDist, [&](auto& e) { return geo::dist(conv::p3(e), p3); }, "within3d(point) points");
  checkWithin2d(c, map->lineStringLayer, m.ls, f3p, maxDist, [&](auto& e) { return geo::pointLine(p3, conv::l3(e)); }, "within3d(point) line strings");
  auto f3l = [&](auto& layer) { return geometry::findWithin3d(layer, ql3, maxDist); };
  checkWithin2d(c, map->pointLayer, m.pts, f3l, maxDist, [&](auto& e) { return geo::pointLine(conv::p3(e), conv::l3(ql3)); }, "within3d(line) points");
  checkWithin2d(c, map->lineStringLayer, m.ls, f3l, maxDist, [&](auto& e) { return geo::lineLine(conv::l3(e), conv::l3(ql3)); }, "within3d(line) line strings");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C01";
  s.rule =
      "a random world (jittered lattice, shared and inverted line strings, junk line strings, polygons, lanelet strips, areas with holes, "
      "regulatory elements) is put into a map or submap by a random history of adds; every query of every layer is compared with a scan "
      "of the model. Non-trivial: some layer holds more than two elements and the box queries hit more than two of them.";
  s.assumptions = {"ids set by the user are unique per layer", "lanelet/area/polygon outlines are simple polygons"};
  s.props = {{"queries_vs_scan", "one world, one history, 1-3 query points and boxes", 20000, 600000, run}};
  return pbt::runMain(s, argc, argv);
}
