// C02: adding a primitive adds all its parts; ids are unique.
#include <set>
#include <thread>

#include "world.h"
using namespace lanelet;

namespace {
struct Reach {
  std::set<const void*> pts, ls, polys, llts, areas, regs;
  std::vector<Point3d> vpts;
  std::vector<LineString3d> vls;
  std::vector<Polygon3d> vpolys;
  std::vector<Lanelet> vllts;
  std::vector<Area> vareas;
  std::vector<RegulatoryElementPtr> vregs;
  void add(Point3d p) {
    if (pts.insert(p.constData().get()).second) vpts.push_back(p);
  }
  void add(LineString3d l) {
    if (!ls.insert(l.constData().get()).second) return;
    vls.push_back(l);
    for (auto& p : l) add(p);
  }
  void add(Polygon3d l) {
    if (!polys.insert(l.constData().get()).second) return;
    vpolys.push_back(l);
    for (auto& p : l) add(p);
  }
  void add(Lanelet l) {
    if (!llts.insert(l.constData().get()).second) return;
    vllts.push_back(l);
    add(l.leftBound());
    add(l.rightBound());
    if (l.hasCustomCenterline()) {
      auto ctr = l.centerline();
      add(LineString3d(std::const_pointer_cast<LineStringData>(ctr.constData()), ctr.inverted()));
    }
    for (auto& r : l.regulatoryElements()) add(r);
  }
  void add(Area a) {
    if (!areas.insert(a.constData().get()).second) return;
    vareas.push_back(a);
    for (auto& l : a.outerBound()) add(l);
    for (auto& i : a.innerBounds())
      for (auto& l : i) add(l);
    for (auto& r : a.regulatoryElements()) add(r);
  }
  struct V : boost::static_visitor<void> {
    Reach* m;
    void operator()(const Point3d& p) const { m->add(p); }
    void operator()(const LineString3d& p) const { m->add(p); }
    void operator()(const Polygon3d& p) const { m->add(p); }
    void operator()(const WeakLanelet& p) const {
      if (!p.expired()) m->add(p.lock());
    }
    void operator()(const WeakArea& p) const {
      if (!p.expired()) m->add(p.lock());
    }
  };
  void add(const RegulatoryElementPtr& r) {
    if (!regs.insert(r->constData().get()).second) return;
    vregs.push_back(r);
    V v;
    v.m = this;
    for (auto& role : std::static_pointer_cast<GenericRegulatoryElement>(r)->parameters())
      for (auto& p : role.second) boost::apply_visitor(v, p);
  }
};
template <typename T>
Id idOf(const T& t) {
  return t.id();
}
Id idOf(const RegulatoryElementPtr& t) { return t->id(); }
template <typename T>
const void* dataOf(const T& t) {
  return t.constData().get();
}
const void* dataOf(const RegulatoryElementPtr& t) { return t->constData().get(); }

template <typename LayerT, typename T>
void checkLayer(Case& c, LayerT& layer, const std::vector<T>& want, const char* name) {
  PBT_EQ(layer.size(), want.size(), name);
  std::set<Id> ids;
  for (auto& e : want) {
    PBT_CHECK(idOf(e) != InvalId, name << " without id in the map");
    PBT_CHECK(ids.insert(idOf(e)).second, name << " id " << idOf(e) << " used twice");
    PBT_CHECK(layer.exists(idOf(e)), name << " " << idOf(e) << " not in its layer");
    PBT_CHECK(dataOf(layer.get(idOf(e))) == dataOf(e), name << " " << idOf(e) << " is not shared");
    c.did(3);
  }
}
template <typename R, typename T>
bool contains(const R& r, const T& t) {
  for (auto& e : r)
    if (e.constData() == t.constData()) return true;
  return false;
}
template <typename R>
bool containsReg(const R& r, const RegulatoryElementPtr& t) {
  for (auto& e : r)
    if (e->constData() == t->constData()) return true;
  return false;
}

void checkMap(Case& c, LaneletMapLayers& m, const Reach& r) {
  checkLayer(c, m.pointLayer, r.vpts, "point");
  checkLayer(c, m.lineStringLayer, r.vls, "line string");
  checkLayer(c, m.polygonLayer, r.vpolys, "polygon");
  checkLayer(c, m.laneletLayer, r.vllts, "lanelet");
  checkLayer(c, m.areaLayer, r.vareas, "area");
  checkLayer(c, m.regulatoryElementLayer, r.vregs, "regulatory element");
  PBT_EQ(m.size(), r.vpts.size() + r.vls.size() + r.vpolys.size() + r.vllts.size() + r.vareas.size() + r.vregs.size(), "total");
}
void checkOwnership(Case& c, LaneletMapLayers& m, Reach& r) {
  for (auto& l : r.vls)
    for (auto& p : l) PBT_CHECK(contains(m.lineStringLayer.findUsages(p), l), "owner of point " << p.id());
  for (auto& l : r.vpolys)
    for (auto& p : l) PBT_CHECK(contains(m.polygonLayer.findUsages(p), l), "owner of point " << p.id());
  for (auto& l : r.vllts) {
    bool inv = !(m.laneletLayer.get(l.id()) == l);  // the handle in the map may be the inverted one
    auto h = inv ? l.invert() : l;
    PBT_CHECK(contains(m.laneletLayer.findUsages(h.leftBound()), l), "owner of bound " << h.leftBound().id());
    PBT_CHECK(contains(m.laneletLayer.findUsages(h.rightBound()), l), "owner of bound " << h.rightBound().id());
    for (auto& g : l.regulatoryElements()) PBT_CHECK(contains(m.laneletLayer.findUsages(g), l), "owner of rule " << g->id());
    c.did(3);
  }
  for (auto& a : r.vareas) {
    for (auto& l : a.outerBound()) PBT_CHECK(contains(m.areaLayer.findUsages(l), a), "owner of bound " << l.id());
    for (auto& i : a.innerBounds())
      for (auto& l : i) PBT_CHECK(contains(m.areaLayer.findUsages(l), a), "owner of bound " << l.id());
    for (auto& g : a.regulatoryElements()) PBT_CHECK(contains(m.areaLayer.findUsages(g), a), "owner of rule " << g->id());
    c.did(3);
  }
  for (auto& g : r.vregs)
    for (auto& role : g->getParameters())
      for (auto& p : role.second) {
        PBT_CHECK(containsReg(m.regulatoryElementLayer.findUsages(p), g), "rule " << g->id() << " not found by its parameter in role " << role.first);
        c.did();
      }
}
template <typename F>
void forAll(world::World& w, F&& f) {
  for (auto& e : w.pts) f(e);
  for (auto& e : w.ls) f(e);
  for (auto& e : w.polys) f(e);
  for (auto& e : w.llts) f(e);
  for (auto& e : w.areas) f(e);
  for (auto& e : w.regs) f(e);
}

void closure(Case& c) {
  world::Opts o;
  o.unsetIds = true;
  o.maxCells = 2;
  o.coincidingIds = c.src.flip();
  o.farBase = utils::getId() + 1000;
  world::Gen g(c, o);
  g.fill(c.src.size(1, 10));
  auto& w = g.w;
  std::set<Id> explicitIds;
  std::set<const void*> unset;
  forAll(w, [&](auto& e) {
    if (idOf(e) != InvalId) explicitIds.insert(idOf(e));
    else unset.insert(dataOf(e));
  });
  Reach r;
  LaneletMap map;
  std::vector<std::pair<int, size_t>> order;
  auto push = [&](int kind, size_t n, unsigned num) {
    for (size_t i = 0; i < n; ++i)
      if (c.src.chance(num, 8)) order.insert(order.begin() + c.src.below(order.size() + 1), {kind, i});
  };
  push(0, w.pts.size(), 1);
  push(1, w.ls.size(), 2);
  push(2, w.polys.size(), 3);
  push(3, w.llts.size(), 4);
  push(4, w.areas.size(), 4);
  push(5, w.regs.size(), 5);
  size_t extra = order.empty() ? 0 : c.src.below(4);
  for (size_t i = 0; i < extra; ++i) order.push_back(order[c.src.below(order.size())]);
  std::set<Id> before;
  for (auto& op : order) {
    auto doAdd = [&](auto& e) {
      map.add(e);
      r.add(e);
    };
    switch (op.first) {
      case 0: doAdd(w.pts[op.second]); break;
      case 1: doAdd(w.ls[op.second]); break;
      case 2: doAdd(w.polys[op.second]); break;
      case 3: doAdd(w.llts[op.second]); break;
      case 4: doAdd(w.areas[op.second]); break;
      default: doAdd(w.regs[op.second]);
    }
    checkMap(c, map, r);
  }
  checkOwnership(c, map, r);
  // ids that were handed out are new everywhere
  std::set<Id> fresh;
  auto chkFresh = [&](auto& e) {
    if (!unset.count(dataOf(e)) || idOf(e) == InvalId) return;
    PBT_CHECK(!explicitIds.count(idOf(e)), "the assigned id " << idOf(e) << " is the id of another element");
    PBT_CHECK(fresh.insert(idOf(e)).second, "id " << idOf(e) << " assigned twice");
    c.did();
  };
  forAll(w, chkFresh);
  Id next = utils::getId();
  PBT_CHECK(!fresh.count(next), "getId returned an id in use");
  auto inMap = [&](Id i) {
    return map.pointLayer.exists(i) || map.lineStringLayer.exists(i) || map.polygonLayer.exists(i) || map.laneletLayer.exists(i) ||
           map.areaLayer.exists(i) || map.regulatoryElementLayer.exists(i);
  };
  PBT_CHECK(!inMap(next), "getId returned an id that is in a map: " << next);
  PBT_CHECK(!inMap(map.pointLayer.uniqueId()) && !inMap(map.laneletLayer.uniqueId()), "uniqueId returned an id in use");
  PBT_CHECK(chk::throws<NullptrError>([&] { map.add(RegulatoryElementPtr()); }), "null regulatory element");
  c.describe([&](auto& s) { s << order.size() << " adds; " << map.size() << " elements in the map, " << unset.size() << " of " << (explicitIds.size() + unset.size()) << " without id"; });
  c.nontrivial(!r.vregs.empty() && map.size() > 10 && fresh.size() > 2);
  // conversion of a submap gives the same closure
  LaneletSubmap sub;
  Reach rs;
  size_t n = 0;
  for (auto& l : r.vllts)
    if (c.src.flip()) sub.add(l), rs.add(l), ++n;
  for (auto& l : r.vareas)
    if (c.src.flip()) sub.add(l), rs.add(l), ++n;
  for (auto& l : r.vregs)
    if (c.src.flip()) sub.add(l), rs.add(l), ++n;
  for (auto& l : r.vpolys)
    if (c.src.flip()) sub.add(l), rs.add(l), ++n;
  for (auto& l : r.vls)
    if (c.src.flip()) sub.add(l), rs.add(l), ++n;
  for (auto& l : r.vpts)
    if (c.src.flip()) sub.add(l), rs.add(l), ++n;
  PBT_EQ(sub.size(), n, "a submap holds exactly what was added");
  auto full = sub.laneletMap();
  checkMap(c, *full, rs);
  auto fullC = static_cast<const LaneletSubmap&>(sub).laneletMap();
  PBT_EQ(fullC->size(), full->size(), "const conversion");
}

void submapIds(Case& c) {
  world::Opts o;
  o.unsetIds = true;
  o.maxCells = 1;
  o.farBase = utils::getId() + 1000;
  world::Gen g(c, o);
  g.fill(c.src.size(1, 8));
  auto& w = g.w;
  std::set<const void*> added;
  std::set<Id> explicitIds, fresh;
  std::set<const void*> unset;
  forAll(w, [&](auto& e) {
    if (idOf(e) != InvalId) explicitIds.insert(idOf(e));
    else unset.insert(dataOf(e));
  });
  {
    LaneletSubmap sub;
    const bool create = c.src.chance(1, 3);
    if (create) {  // createSubmap: lanelets and areas with their ids, the regulatory elements may have none
      Lanelets ls;
      Areas as;
      for (auto& l : w.llts)
        if (l.id() != InvalId && c.src.chance(2, 3)) ls.push_back(l), added.insert(dataOf(l));
      for (auto& a : w.areas)
        if (a.id() != InvalId && c.src.chance(2, 3)) as.push_back(a), added.insert(dataOf(a));
      const auto how = c.src.below(3);
      if (how == 1 && as.empty()) {
        sub = std::move(*utils::createSubmap(ls));
      } else if (how == 1 && ls.empty()) {
        sub = std::move(*utils::createSubmap(as));
      } else {
        sub = std::move(*utils::createSubmap(ls, as));
      }
      c.label("createSubmap");
    } else {
      forAll(w, [&](auto& e) {
        if (!c.src.flip()) return;
        sub.add(e);
        added.insert(dataOf(e));
        PBT_CHECK(idOf(e) != InvalId, "no id assigned");
        if (unset.count(dataOf(e))) {
          PBT_CHECK(!explicitIds.count(idOf(e)) && fresh.insert(idOf(e)).second, "id " << idOf(e) << " is taken");
          c.did();
        }
        if (c.src.chance(1, 5)) sub.add(e);
      });
    }
    PBT_EQ(sub.size(), added.size(), "exactly what was added");
    forAll(w, [&](auto& e) {
      if (!added.count(dataOf(e)) && unset.count(dataOf(e))) PBT_CHECK(idOf(e) == InvalId, "element that was not added changed");
    });
    // what the regulatory elements of the submap refer to stays alive when everything else is gone
    std::vector<std::weak_ptr<const LaneletData>> wl;
    std::vector<std::weak_ptr<const AreaData>> wa;
    auto keep = [&](const RegulatoryElementConstPtr& r) {
      for (auto& role : r->getParameters())
        for (auto& p : role.second) {
          if (auto x = boost::get<ConstWeakLanelet>(&p)) wl.push_back(x->lock().constData());
          if (auto x = boost::get<ConstWeakArea>(&p)) wa.push_back(x->lock().constData());
        }
    };
    for (auto& r : sub.regulatoryElementLayer) keep(r);
    for (auto& r : sub.laneletLayer)
      for (auto& x : r.regulatoryElements()) keep(x);
    for (auto& r : sub.areaLayer)
      for (auto& x : r.regulatoryElements()) keep(x);
    c.nontrivial(wl.size() + wa.size() > 0);
    c.describe([&](auto& s) { s << added.size() << " elements in submap, " << wl.size() + wa.size() << " weak parameters"; });
    LaneletSubmap moved(c.src.flip() ? LaneletSubmap(std::move(sub)) : LaneletSubmap());
    LaneletSubmap& alive = moved.empty() ? sub : moved;
    PBT_EQ(alive.size(), added.size(), "moved submap");
    g.w = world::World();
    for (auto& x : wl) PBT_CHECK(!x.expired(), "a lanelet referenced by a regulatory element of the submap died");
    for (auto& x : wa) PBT_CHECK(!x.expired(), "an area referenced by a regulatory element of the submap died");
  }
}

//! model of the id generator: everything handed out or registered is in use
void idGenerator(Case& c) {
  std::set<Id> used;
  Id last = utils::getId();
  used.insert(last);
  LaneletMap map;
  std::vector<std::shared_ptr<LaneletMapLayers>> maps;
  std::ostringstream log;
  auto pickId = [&]() {
    Id x = last + c.src.range(1, 6);
    while (used.count(x)) ++x;
    if (c.src.chance(1, 8)) x = -Id(c.src.range(1, 1000000));
    while (used.count(x)) --x;
    used.insert(x);
    return x;
  };
  auto handed = [&](Id x, const char* what) {
    PBT_CHECK(x != InvalId, what);
    PBT_CHECK(used.insert(x).second, what << " returned the id " << x - last << " above the last one, which is in use; history: " << log.str());
    last = std::max(x, last);
    c.did();
  };
  auto line = [&](Id id) { return LineString3d(id, {Point3d(pickId(), 0, 0), Point3d(pickId(), 1, c.src.below(4))}); };
  size_t n = c.src.size(2, 20);
  size_t regs = 0;
  for (size_t i = 0; i < n; ++i) {
    auto op = c.src.below(14);
    log << op << " ";
    if (op >= 2 && op != 3) ++regs;
    switch (op) {
      case 0:
      case 1: handed(utils::getId(), "getId"); break;
      case 2: {
        auto x = pickId();
        utils::registerId(x);
        break;
      }
      case 3: handed(map.lineStringLayer.uniqueId(), "uniqueId"); break;
      case 4: map.add(Point3d(pickId(), 1, 2)); break;
      case 5: map.add(line(pickId())); break;
      case 6: map.add(Polygon3d(pickId(), {Point3d(pickId(), 0, 0), Point3d(pickId(), 1, 0), Point3d(pickId(), 1, 1)})); break;
      case 7: {
        Lanelet l(pickId(), line(pickId()), line(pickId()));
        if (c.src.flip()) l.setCenterline(line(pickId()));
        if (c.src.flip()) l.addRegulatoryElement(std::make_shared<GenericRegulatoryElement>(pickId()));
        map.add(l);
        break;
      }
      case 8: map.add(Area(pickId(), {line(pickId()), line(pickId())}, {{line(pickId())}})); break;
      case 9: {
        auto r = std::make_shared<GenericRegulatoryElement>(pickId());
        r->addParameter("refers", line(pickId()));
        r->addParameter("x", Point3d(pickId(), 0, 0));
        map.add(r);
        break;
      }
      case 10: {
        auto s = std::make_shared<LaneletSubmap>();
        switch (c.src.below(6)) {
          case 0: s->add(Point3d(pickId(), 0, 0)); break;
          case 1: s->add(LineString3d(pickId())); break;
          case 2: s->add(Polygon3d(pickId())); break;
          case 3: s->add(Lanelet(pickId(), LineString3d(InvalId), LineString3d(InvalId))); break;
          case 4: s->add(Area(pickId(), {})); break;
          default: s->add(std::make_shared<GenericRegulatoryElement>(pickId()));
        }
        maps.push_back(s);
        break;
      }
      case 11:
        switch (c.src.below(4)) {
          case 0: maps.push_back(utils::createMap(Points3d{Point3d(pickId(), 0, 0), Point3d(pickId(), 1, 0)})); break;
          case 1: maps.push_back(utils::createMap(LineStrings3d{line(pickId())})); break;
          case 2: maps.push_back(utils::createMap(Polygons3d{Polygon3d(pickId(), {Point3d(pickId(), 0, 0)})})); break;
          default: {
            Lanelet l(pickId(), line(pickId()), line(pickId()));
            l.addRegulatoryElement(std::make_shared<GenericRegulatoryElement>(pickId()));
            Area a(pickId(), {line(pickId())});
            maps.push_back(utils::createMap({l}, {a}));
          }
        }
        break;
      case 12:
        switch (c.src.below(4)) {
          case 0: maps.push_back(utils::createSubmap(Points3d{Point3d(pickId(), 0, 0)})); break;
          case 1: maps.push_back(utils::createSubmap(LineStrings3d{LineString3d(pickId())})); break;
          case 2: maps.push_back(utils::createSubmap(Polygons3d{Polygon3d(pickId())})); break;
          default:
            maps.push_back(utils::createSubmap({Lanelet(pickId(), LineString3d(InvalId), LineString3d(InvalId))}, {Area(pickId(), {})}));
        }
        break;
      default: {  // from prepared layers
        LineString3d l = line(pickId());
        Lanelet llt(pickId(), l, line(pickId()));
        auto r = std::make_shared<GenericRegulatoryElement>(pickId());
        Polygon3d p(pickId(), Points3d{Point3d(pickId(), 0, 0)});
        LineStringLayer::Map ls{{l.id(), l}, {llt.rightBound().id(), llt.rightBound()}};
        PointLayer::Map pts;
        for (auto x : l) pts.insert({x.id(), x});
        for (auto x : llt.rightBound()) pts.insert({x.id(), x});
        for (auto x : p) pts.insert({x.id(), x});
        maps.push_back(std::make_shared<LaneletMap>(LaneletLayer::Map{{llt.id(), llt}}, AreaLayer::Map{}, RegulatoryElementLayer::Map{{r->id(), r}},
                                                    PolygonLayer::Map{{p.id(), p}}, ls, pts));
      }
    }
    if (c.src.flip()) {  // elements without id always get new ones
      Point3d p(InvalId, 0, 0);
      Lanelet l(InvalId, LineString3d(InvalId), LineString3d(InvalId, {p}));
      map.add(l);
      for (Id x : {l.id(), l.leftBound().id(), l.rightBound().id(), p.id()}) handed(x, "add of a lanelet without id");
      log << "a ";
    }
  }
  c.describe([&](auto& s) { s << "operations " << log.str(); });
  c.nontrivial(regs > 1);
}

void concurrent(Case& c) {
  // several threads register and request ids at the same time; no id may be handed out twice, none after it was registered
  size_t nt = 2 + c.src.below(3), n = 200;
  Id base = utils::getId();
  std::vector<std::vector<Id>> got(nt);
  std::vector<Id> regStep(nt);
  for (auto& s : regStep) s = c.src.range(0, 7);
  std::vector<std::string> errors(nt);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      while (ready < nt) {
      }
      std::set<Id> mine;
      Id last = base;
      for (size_t i = 0; i < n; ++i) {
        if (regStep[t] != 0 && i % 3 == 0) {
          Id r = last + regStep[t];
          utils::registerId(r);
          mine.insert(r);
        }
        Id x = utils::getId();
        if (mine.count(x)) errors[t] = "an id registered by this thread was handed out to it";
        if (x <= last) errors[t] = "ids not increasing";
        got[t].push_back(x);
        last = x;
      }
    });
  for (auto& t : ts) t.join();
  std::set<Id> all;
  for (size_t t = 0; t < nt; ++t) {
    PBT_CHECK(errors[t].empty(), errors[t]);
    for (Id x : got[t]) PBT_CHECK(all.insert(x).second, "id handed out twice");
    c.did(n);
  }
  c.nontrivial();
  c.describe([&](auto& o) { o << nt << " threads, " << n << " requests each, register steps " << chk::show(regStep); });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C02";
  s.rule =
      "closure: a random world with partly unset ids is added to a map in random order and after each add every layer is compared (by "
      "data identity) with the reachability closure. submap: contains exactly what was added and keeps rule parameters alive. "
      "id_generator: histories of id requests, registrations, adds and map constructions against a set model. concurrent_ids: threads.";
  s.assumptions = {"ids set by the user are unique per layer and not ahead of ids handed out meanwhile"};
  s.props = {{"closure", "non-trivial: regulatory elements present, more than 10 elements, more than 2 ids assigned", 80000, 1500000, closure},
             {"submap", "non-trivial: some regulatory element refers to lanelets or areas", 60000, 1000000, submapIds},
             {"id_generator", "non-trivial: more than one registering operation", 100000, 2500000, idGenerator},
             {"concurrent_ids", "2-4 threads", 400, 10000, concurrent}};
  return pbt::runMain(s, argc, argv);
}
