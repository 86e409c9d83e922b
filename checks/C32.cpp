// C32: handles compare, hash, print and wrap by what they refer to.
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineStringOrPolygon.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Types.h>

#include <unordered_map>
#include <unordered_set>

#include "world.h"
using namespace lanelet;

namespace {
world::Opts opts(pbt::Src& s) {
  world::Opts o;
  o.coincidingIds = s.flip();
  o.unsetIds = s.chance(1, 4);
  o.maxCells = 2;
  return o;
}
void fill(world::Gen& g, pbt::Src& s, size_t lo, size_t hi) {
  g.fill(s.size(lo, hi));
  if (g.w.llts.empty()) g.lanelet();
  if (g.w.areas.empty()) g.area();
  if (g.w.polys.empty()) g.polygon();
  if (g.w.ls.empty()) g.newLs({g.w.pts[0], g.w.pts[1]});
}
// what a handle refers to: the object behind it and the direction it is looked at
using Key = std::pair<const void*, bool>;
template <typename T>
using Handles = std::vector<std::pair<T, Key>>;

template <typename A, typename B>
void compare(Case& c, const Handles<A>& as, const Handles<B>& bs, const std::string& what) {
  for (size_t i = 0; i < as.size(); ++i)
    for (size_t k = 0; k < bs.size(); ++k) {
      bool same = as[i].second == bs[k].second;
      PBT_CHECK((as[i].first == bs[k].first) == same, what << ": handles " << i << " and " << k << (same ? " refer to the same but are not equal" : " are equal but refer to different things or directions"));
      PBT_CHECK((as[i].first != bs[k].first) == !same, what << ": != of handles " << i << " and " << k << " is not the negation of ==");
      c.did();
    }
}
template <typename T>
void hashed(Case& c, const Handles<T>& hs, const std::string& what) {
  std::set<Key> distinct;
  std::unordered_set<T> set;
  std::unordered_map<T, Key> first;
  for (auto& h : hs) {
    bool isNew = distinct.insert(h.second).second;
    PBT_EQ(set.insert(h.first).second, isNew, what << ": insertion into an unordered set");
    first.emplace(h.first, h.second);
    c.did();
  }
  PBT_EQ(set.size(), distinct.size(), what << ": number of elements of an unordered set");
  for (auto& a : hs) {
    PBT_CHECK(set.count(a.first) == 1, what << ": element not found in the unordered set");
    PBT_CHECK(first.at(a.first) == a.second, what << ": an unordered map finds another element");
    PBT_CHECK(set.find(a.first)->id() == a.first.id(), what << ": an unordered set finds another id");
    for (auto& b : hs)
      if (a.second == b.second) PBT_CHECK(std::hash<T>()(a.first) == std::hash<T>()(b.first), what << ": equal handles with different hashes");
  }
  // removal by an equal handle
  for (auto& a : hs) {
    bool had = distinct.erase(a.second) == 1;
    PBT_EQ(set.erase(a.first) == 1, had, what << ": removal from an unordered set");
  }
  PBT_CHECK(set.empty(), what << ": elements left");
}
template <typename To, typename From>
Handles<To> as(const Handles<From>& h) {
  Handles<To> r;
  for (auto& x : h) r.emplace_back(To(x.first), x.second);
  return r;
}

void equality(Case& c) {
  auto& s = c.src;
  world::Gen g(c, opts(s));
  fill(g, s, 2, 8);
  auto& w = g.w;
  Handles<Point3d> pts;
  size_t nTwin = 0;
  auto twin = [&] { bool t = s.chance(1, 3); nTwin += t; return t; };
  for (size_t i = 0; i < w.pts.size() && i < 8; ++i) {
    auto& p = w.pts[i];
    pts.push_back({p, {p.constData().get(), false}});
    if (s.flip()) pts.push_back({Point3d(utils::to3D(utils::to2D(p))), {p.constData().get(), false}});
    if (twin()) {
      Point3d t(p.id(), p.basicPoint(), p.attributes());
      pts.push_back({t, {t.constData().get(), false}});
    }
  }
  compare(c, pts, pts, "points");
  hashed(c, pts, "points");
  auto cp = as<ConstPoint3d>(pts);
  compare(c, cp, cp, "const points");
  hashed(c, cp, "const points");
  Handles<Point2d> p2;
  Handles<ConstPoint2d> cp2;
  for (auto& p : pts) p2.push_back({utils::to2D(p.first), p.second}), cp2.push_back({utils::to2D(ConstPoint3d(p.first)), p.second});
  compare(c, p2, p2, "2d points");
  hashed(c, p2, "2d points");
  compare(c, cp2, cp2, "const 2d points");
  hashed(c, cp2, "const 2d points");

  Handles<LineString3d> ls;
  for (size_t i = 0; i < w.ls.size() && i < 6; ++i) {
    auto& l = w.ls[i];
    const void* d = l.constData().get();
    ls.push_back({l, {d, l.inverted()}});
    if (s.chance(2, 3)) ls.push_back({l.invert(), {d, !l.inverted()}});
    if (s.chance(1, 3)) ls.push_back({l.invert().invert(), {d, l.inverted()}});
    if (twin()) {
      LineString3d t(l.id(), Points3d(l.begin(), l.end()), l.attributes());
      ls.push_back({t, {t.constData().get(), false}});
    }
  }
  auto cls = as<ConstLineString3d>(ls);
  Handles<LineString2d> ls2;
  Handles<ConstLineString2d> cls2;
  for (auto& l : ls) ls2.push_back({utils::to2D(l.first), l.second}), cls2.push_back({utils::to2D(ConstLineString3d(l.first)), l.second});
  auto h3 = as<ConstHybridLineString3d>(cls);
  auto h2 = as<ConstHybridLineString2d>(cls2);
  compare(c, ls, ls, "line strings");
  compare(c, ls, cls, "line strings and const line strings");
  compare(c, cls, cls2, "line strings and 2d line strings");
  compare(c, ls2, ls2, "2d line strings");
  compare(c, h3, h3, "hybrid line strings");
  compare(c, h2, h2, "hybrid 2d line strings");
  compare(c, h2, cls, "hybrid 2d line strings and line strings");
  hashed(c, ls, "line strings");
  hashed(c, cls, "const line strings");
  hashed(c, ls2, "2d line strings");
  hashed(c, cls2, "const 2d line strings");
  hashed(c, h3, "hybrid line strings");
  hashed(c, h2, "hybrid 2d line strings");
  // against vectors of points: equal iff the same points in the same order
  for (size_t i = 0; i < ls.size(); ++i)
    for (size_t k = 0; k < ls.size(); ++k) {
      auto& b = ls[k].first;
      Points3d v;
      for (auto it = b.begin(); it != b.end(); ++it) v.push_back(*it);
      if (!v.empty() && s.chance(1, 6)) v.pop_back();
      bool want = v.size() == cls[i].first.size();
      for (size_t j = 0; want && j < v.size(); ++j) want = v[j].constData() == cls[i].first[j].constData();
      PBT_CHECK((cls[i].first == v) == want && (v == cls[i].first) == want && (cls[i].first != v) == !want && (v != cls[i].first) == !want,
                "comparison of line string " << cls[i].first << " with a vector of points");
      c.did();
    }

  Handles<Polygon3d> po;
  for (size_t i = 0; i < w.polys.size() && i < 5; ++i) {
    auto& p = w.polys[i];
    po.push_back({p, {p.constData().get(), false}});
    if (s.flip()) po.push_back({p, {p.constData().get(), false}});
    if (twin()) {
      Polygon3d t(p.id(), Points3d(p.begin(), p.end()));
      po.push_back({t, {t.constData().get(), false}});
    }
  }
  auto cpo = as<ConstPolygon3d>(po);
  Handles<Polygon2d> po2;
  Handles<ConstPolygon2d> cpo2;
  for (auto& p : po) po2.push_back({utils::to2D(p.first), p.second}), cpo2.push_back({utils::to2D(ConstPolygon3d(p.first)), p.second});
  compare(c, po, po, "polygons");
  compare(c, cpo, cpo2, "polygons and 2d polygons");
  hashed(c, po, "polygons");
  hashed(c, cpo, "const polygons");
  hashed(c, po2, "2d polygons");
  hashed(c, cpo2, "const 2d polygons");

  Handles<Lanelet> ll;
  for (size_t i = 0; i < w.llts.size() && i < 5; ++i) {
    auto& l = w.llts[i];
    const void* d = l.constData().get();
    ll.push_back({l, {d, l.inverted()}});
    if (s.chance(2, 3)) ll.push_back({l.invert(), {d, !l.inverted()}});
    if (s.chance(1, 3)) ll.push_back({l.invert().invert(), {d, l.inverted()}});
    if (twin()) {
      Lanelet t(l.id(), l.leftBound(), l.rightBound(), l.attributes());
      ll.push_back({t, {t.constData().get(), false}});
    }
  }
  auto cll = as<ConstLanelet>(ll);
  compare(c, ll, ll, "lanelets");
  compare(c, ll, cll, "lanelets and const lanelets");
  hashed(c, ll, "lanelets");
  hashed(c, cll, "const lanelets");

  Handles<Area> ar;
  for (size_t i = 0; i < w.areas.size() && i < 5; ++i) {
    auto a = w.areas[i];
    ar.push_back({a, {a.constData().get(), false}});
    if (s.flip()) ar.push_back({a, {a.constData().get(), false}});
    if (twin()) {
      Area t(a.id(), a.outerBound(), a.innerBounds(), a.attributes());
      ar.push_back({t, {t.constData().get(), false}});
    }
  }
  auto car = as<ConstArea>(ar);
  compare(c, ar, ar, "areas");
  compare(c, ar, car, "areas and const areas");
  hashed(c, ar, "areas");
  hashed(c, car, "const areas");

  // weak handles: refer to what they were made from; an expired one equals nothing
  Handles<WeakLanelet> wl = as<WeakLanelet>(ll);
  auto cwl = as<ConstWeakLanelet>(wl);
  compare(c, wl, wl, "weak lanelets");
  compare(c, wl, cwl, "weak lanelets and const weak lanelets");
  Handles<WeakArea> wa = as<WeakArea>(ar);
  compare(c, wa, wa, "weak areas");
  WeakLanelet deadL;
  WeakArea deadA;
  if (s.flip()) {
    Lanelet l(1, LineString3d(2), LineString3d(3));
    deadL = l;
    Area a(1, LineStrings3d{});
    deadA = a;
    PBT_CHECK(!deadL.expired() && deadL == WeakLanelet(l) && deadL.lock() == l, "weak lanelet");
    PBT_CHECK(!deadA.expired() && deadA == WeakArea(a) && deadA.lock() == a, "weak area");
  }
  PBT_CHECK(deadL.expired() && deadA.expired(), "weak handles of destroyed primitives are not expired");
  PBT_CHECK(!(deadL == deadL) && deadL != deadL && !(deadA == deadA) && deadA != deadA, "expired weak handles are equal");
  for (auto& x : wl) {
    PBT_CHECK(!x.first.expired() && !(x.first == deadL) && !(deadL == x.first) && deadL != x.first, "expired weak lanelet equals another one");
    PBT_CHECK(x.first.lock().constData().get() == x.second.first && x.first.lock().inverted() == x.second.second, "lock of a weak lanelet");
  }
  for (auto& x : wa) PBT_CHECK(!x.first.expired() && !(x.first == deadA) && !(deadA == x.first) && deadA != x.first, "expired weak area equals another one");
  PBT_CHECK(chk::throws<NullptrError>([&] { deadL.lock(); }), "lock of an expired weak lanelet" << ": no NullptrError");
  PBT_CHECK(chk::throws<NullptrError>([&] { deadA.lock(); }), "lock of an expired weak area" << ": no NullptrError");

  // paths, relations and sequences compare as their elements
  auto pickLls = [&] {
    std::vector<size_t> r;
    if (!cll.empty())
      for (size_t n = s.below(3); r.size() < n;) r.push_back(s.below(cll.size()));
    return r;
  };
  for (int rep = 0; rep < 4; ++rep) {
    auto a = pickLls(), b = s.flip() ? a : pickLls();
    ConstLanelets la, lb;
    std::vector<Key> ka, kb;
    for (auto i : a) la.push_back(cll[i].first), ka.push_back(cll[i].second);
    for (auto i : b) lb.push_back(cll[i].first), kb.push_back(cll[i].second);
    bool want = ka == kb;
    routing::LaneletPath pa(la), pb(lb);
    PBT_CHECK((pa == pb) == want && (pa != pb) == !want, "comparison of lanelet paths");
    routing::LaneletOrAreaPath oa(ConstLaneletOrAreas(la.begin(), la.end())), ob(ConstLaneletOrAreas(lb.begin(), lb.end()));
    PBT_CHECK((oa == ob) == want && (oa != ob) == !want, "comparison of lanelet or area paths");
    LaneletSequence sa(la), sb(lb);
    PBT_CHECK((sa == sb) == want && (sa != sb) == !want, "comparison of lanelet sequences");
    PBT_CHECK(sa.invert().invert() == sa && !(sa.invert().invert() != sa), "a sequence inverted twice differs from itself");
    if (!la.empty() && !lb.empty()) {
      auto ra = s.flip() ? routing::RelationType::Left : routing::RelationType::Successor, rb = s.flip() ? ra : routing::RelationType::Right;
      routing::LaneletRelation x{la[0], ra}, y{lb[0], rb};
      bool eq = ka[0] == kb[0] && ra == rb;
      PBT_CHECK((x == y) == eq && (x != y) == !eq, "comparison of lanelet relations");
    }
    c.did();
  }
  c.nontrivial(nTwin > 0 && ll.size() > 1 && ar.size() > 0 && po.size() > 0);
  c.label("twins", nTwin);
  c.describe([&](auto& o) { o << pts.size() << " points, " << ls.size() << " line strings, " << po.size() << " polygons, " << ll.size() << " lanelets, " << ar.size() << " areas"; });
}

// ---- wrappers -------------------------------------------------------------------------------------------------
struct KindOf : RuleParameterVisitor {
  void operator()(const ConstPoint3d& p) override { set('p', p.id(), p.constData().get(), false); }
  void operator()(const ConstLineString3d& l) override { set('l', l.id(), l.constData().get(), l.inverted()); }
  void operator()(const ConstPolygon3d& p) override { set('g', p.id(), p.constData().get(), false); }
  void operator()(const ConstWeakLanelet& l) override { set('L', l.lock().id(), l.lock().constData().get(), false); }
  void operator()(const ConstWeakArea& a) override { set('A', a.lock().id(), a.lock().constData().get(), false); }
  void set(char k, Id i, const void* d, bool v) { kind = k, id = i, data = d, inv = v; }
  char kind{'?'};
  Id id{0};
  const void* data{nullptr};
  bool inv{false};
};

void wrappers(Case& c) {
  auto& s = c.src;
  std::ostringstream told;
  c.describe([&told](auto& o) { o << told.str(); });
  world::Gen g(c, opts(s));
  fill(g, s, 4, 10);
  auto& w = g.w;
  for (auto& l : w.ls)
    if (s.chance(1, 3)) l.attributes()["type"] = "t" + std::to_string(s.below(3));
  // a lanelet and an area that share an id, always
  w.llts.push_back(Lanelet(w.areas[0].id(), w.ls[0], w.ls[0].invert()));

  struct Ref {
    bool area{false};
    size_t i{0};
    bool inv{false};
  };
  std::vector<ConstLaneletOrArea> hs;
  std::vector<Ref> ms;
  auto llt = [&](const Ref& r) { return r.inv ? ConstLanelet(w.llts[r.i].invert()) : ConstLanelet(w.llts[r.i]); };
  auto draw = [&] {
    Ref r;
    r.area = s.flip();
    r.i = s.below(r.area ? w.areas.size() : w.llts.size());
    r.inv = !r.area && s.chance(1, 3);
    return r;
  };
  auto make = [&](const Ref& r) { return r.area ? ConstLaneletOrArea(w.areas[r.i]) : ConstLaneletOrArea(llt(r)); };
  size_t n = 3 + s.below(4);
  for (size_t i = 0; i < n; ++i) ms.push_back(draw()), hs.push_back(make(ms.back()));
  size_t steps = s.size(1, 12), changes = 0;
  for (size_t t = 0; t < steps; ++t) {
    size_t i = s.below(n), k = s.below(n);
    switch (s.below(5)) {
      case 0: {  // assignment of a primitive
        Ref r = draw();
        told << i << " = " << (r.area ? "area " : "lanelet ") << r.i << (r.inv ? " inverted" : "") << "; ";
        changes += r.area != ms[i].area;
        if (r.area) hs[i] = ConstArea(w.areas[r.i]);
        else hs[i] = llt(r);
        ms[i] = r;
        break;
      }
      case 1:
        told << i << " = " << k << "; ";
        changes += ms[i].area != ms[k].area;
        hs[i] = hs[k];
        ms[i] = ms[k];
        break;
      case 2: {
        told << i << " moved via a temporary; ";
        ConstLaneletOrArea tmp(std::move(hs[i]));
        hs[i] = std::move(tmp);
        break;
      }
      case 3:
        told << "swap " << i << " " << k << "; ";
        changes += ms[i].area != ms[k].area;
        std::swap(hs[i], hs[k]);
        std::swap(ms[i], ms[k]);
        break;
      default: {  // another regulatory element on the primitive
        RegulatoryElementPtr r = std::make_shared<GenericRegulatoryElement>(Id(700000 + t));
        told << "regulatory element on " << i << "; ";
        if (ms[i].area) w.areas[ms[i].i].addRegulatoryElement(r);
        else w.llts[ms[i].i].addRegulatoryElement(r);
      }
    }
    for (size_t q = 0; q < n; ++q) {
      auto& h = hs[q];
      auto& m = ms[q];
      PBT_EQ(h.isArea(), m.area, "isArea of " << q);
      PBT_EQ(h.isLanelet(), !m.area, "isLanelet of " << q);
      PBT_EQ(!!h.area(), m.area, "area() of " << q);
      PBT_EQ(!!h.lanelet(), !m.area, "lanelet() of " << q);
      RegulatoryElementConstPtrs regs;
      if (m.area) {
        ConstArea a = w.areas[m.i];
        PBT_CHECK(*h.area() == a && static_cast<const ConstArea&>(h) == a, "area held by " << q);
        PBT_EQ(h.id(), a.id(), "id of " << q);
        PBT_CHECK(&h.attributes() == &a.attributes(), "attributes of " << q << " are not those of the area");
        regs = a.regulatoryElements();
        PBT_CHECK(h.boundingPolygon() == a.outerBoundPolygon(), "boundingPolygon of " << q);
      } else {
        ConstLanelet l = llt(m);
        PBT_CHECK(*h.lanelet() == l && static_cast<const ConstLanelet&>(h) == l, "lanelet held by " << q);
        PBT_EQ(h.id(), l.id(), "id of " << q);
        PBT_CHECK(&h.attributes() == &l.attributes(), "attributes of " << q << " are not those of the lanelet");
        regs = l.regulatoryElements();
        PBT_CHECK(h.boundingPolygon() == l.polygon3d(), "boundingPolygon of " << q);
      }
      PBT_CHECK(h.regulatoryElements() == regs, "regulatory elements of " << q);
      PBT_EQ(h.regulatoryElementsAs<GenericRegulatoryElement>().size(), regs.size(), "regulatoryElementsAs of " << q);
      c.did();
    }
  }
  Handles<ConstLaneletOrArea> table;
  ConstLanelets lls;
  ConstAreas ars;
  for (size_t q = 0; q < n; ++q) {
    auto& m = ms[q];
    if (m.area) ars.push_back(w.areas[m.i]), table.push_back({hs[q], {w.areas[m.i].constData().get(), false}});
    else lls.push_back(llt(m)), table.push_back({hs[q], {w.llts[m.i].constData().get(), llt(m).inverted()}});
  }
  Lanelet sharedL = w.llts.back();
  table.push_back({sharedL, {sharedL.constData().get(), sharedL.inverted()}});
  table.push_back({w.areas[0], {w.areas[0].constData().get(), false}});
  compare(c, table, table, "lanelets or areas");
  hashed(c, table, "lanelets or areas");
  PBT_CHECK(utils::getAllLanelets(hs) == lls, "getAllLanelets");
  PBT_CHECK(utils::getAllAreas(hs) == ars, "getAllAreas");

  // line strings or polygons
  auto drawP = [&] {
    Ref r;
    r.area = s.flip();
    r.i = s.below(r.area ? w.polys.size() : w.ls.size());
    r.inv = !r.area && s.flip();
    return r;
  };
  auto line = [&](const Ref& r) { return r.inv ? w.ls[r.i].invert() : w.ls[r.i]; };
  std::vector<LineStringOrPolygon3d> ps;
  std::vector<Ref> pm;
  auto makeP = [&](const Ref& r) { return r.area ? LineStringOrPolygon3d(w.polys[r.i]) : LineStringOrPolygon3d(line(r)); };
  for (size_t i = 0; i < n; ++i) pm.push_back(drawP()), ps.push_back(makeP(pm.back()));
  for (size_t t = 0; t < steps; ++t) {
    size_t i = s.below(n), k = s.below(n);
    Ref r = drawP();
    switch (s.below(4)) {
      case 0:
        changes += pm[i].area != r.area;
        if (r.area) ps[i] = w.polys[r.i];
        else ps[i] = line(r);
        pm[i] = r;
        break;
      case 1: ps[i] = ps[k], pm[i] = pm[k]; break;
      case 2: std::swap(ps[i], ps[k]), std::swap(pm[i], pm[k]); break;
      default: {
        LineStringOrPolygon3d tmp(std::move(ps[i]));
        ps[i] = std::move(tmp);
      }
    }
  }
  Handles<LineStringOrPolygon3d> pt;
  Handles<ConstLineStringOrPolygon3d> cpt;
  for (size_t q = 0; q < n; ++q) {
    auto& h = ps[q];
    auto& m = pm[q];
    ConstLineStringOrPolygon3d ch(h);
    PBT_CHECK(h.isPolygon() == m.area && h.isLineString() == !m.area && !!h.polygon() == m.area && !!h.lineString() == !m.area, "kind of line string or polygon " << q);
    PBT_CHECK(ch.isPolygon() == m.area && ch.isLineString() == !m.area && !!ch.polygon() == m.area && !!ch.lineString() == !m.area, "kind of const line string or polygon " << q);
    KindOf v, cv;
    RuleParameter rp = h.operator RuleParameter();
    ConstRuleParameter crp = ch.operator ConstRuleParameter();
    PBT_CHECK(rp == h.asRuleParameter() && crp == ch.asRuleParameter(), "conversion and asRuleParameter differ");
    boost::apply_visitor([&](auto& x) { v(x); }, rp);
    boost::apply_visitor([&](auto& x) { cv(x); }, crp);
    const void* d;
    if (m.area) {
      auto& p = w.polys[m.i];
      d = p.constData().get();
      PBT_CHECK(*h.polygon() == p && static_cast<const Polygon3d&>(h) == p && *ch.polygon() == p, "polygon held by " << q);
      PBT_CHECK(&h.attributes() == &p.attributes() && &ch.attributes() == &p.attributes(), "attributes of polygon " << q);
      PBT_EQ(h.id(), p.id(), "id of polygon " << q);
      PBT_EQ(ch.id(), p.id(), "id of polygon " << q);
    } else {
      auto l = line(m);
      d = l.constData().get();
      PBT_CHECK(*h.lineString() == l && static_cast<const LineString3d&>(h) == l && *ch.lineString() == l, "line string held by " << q);
      PBT_CHECK(&h.attributes() == &l.attributes() && &ch.attributes() == &l.attributes(), "attributes of line string " << q);
      PBT_EQ(h.id(), l.id(), "id of line string " << q);
      PBT_EQ(ch.id(), l.id(), "id of line string " << q);
    }
    bool inv = !m.area && line(m).inverted();
    PBT_CHECK(v.kind == (m.area ? 'g' : 'l') && v.data == d && v.inv == inv, "rule parameter made from " << q);
    PBT_CHECK(cv.kind == (m.area ? 'g' : 'l') && cv.data == d && cv.inv == inv, "const rule parameter made from " << q);
    pt.push_back({h, {d, inv}});
    cpt.push_back({ch, {d, inv}});
    c.did();
  }
  compare(c, pt, pt, "line strings or polygons");
  compare(c, cpt, cpt, "const line strings or polygons");

  // regulatory elements of areas and lanelets: a list without its owner's direction
  auto elements = [&](auto prim, auto other, const std::string& what) {
    RegulatoryElementPtrs m = prim.regulatoryElements();
    std::vector<RegulatoryElementPtr> pool(m);
    for (int i = 0; i < 3; ++i) pool.push_back(std::make_shared<GenericRegulatoryElement>(Id(800000 + i)));
    for (size_t t = 0; t < steps; ++t) {
      auto r = s.pick(pool);
      auto& on = s.flip() ? prim : other;
      if (s.flip()) {
        on.addRegulatoryElement(r);
        m.push_back(r);
      } else {
        auto it = std::find(m.begin(), m.end(), r);
        PBT_EQ(on.removeRegulatoryElement(r), it != m.end(), what << "removeRegulatoryElement");
        if (it != m.end()) m.erase(it);
      }
      PBT_CHECK(prim.regulatoryElements() == m && other.regulatoryElements() == m, what << "list of regulatory elements");
      PBT_EQ(prim.template regulatoryElementsAs<GenericRegulatoryElement>().size(), m.size(), what << "regulatoryElementsAs");
      ConstLaneletOrArea x(prim);
      PBT_CHECK(x.regulatoryElements() == RegulatoryElementConstPtrs(m.begin(), m.end()), what << "regulatory elements of the wrapper");
      c.did();
    }
    PBT_CHECK(chk::throws<NullptrError>([&] { prim.addRegulatoryElement(nullptr); }), what << "adding a nullptr" << ": no NullptrError");
    PBT_CHECK(prim.regulatoryElements() == m, what << "changed by a refused call");
  };
  auto a = s.pick(w.areas);
  elements(a, Area(a), "area: ");
  auto l = s.pick(w.llts);
  elements(l, l.invert(), "lanelet: ");
  c.nontrivial(changes > 0 && steps > 1);
}

// ---- text -----------------------------------------------------------------------------------------------------
std::vector<Id> idsIn(const std::string& t) {
  std::vector<Id> r;
  for (size_t i = 0; i < t.size();) {
    size_t k = i + (t[i] == '-');
    if (k < t.size() && isdigit(t[k])) {
      size_t e = k;
      while (e < t.size() && isdigit(t[e])) ++e;
      r.push_back(std::stoll(t.substr(i, e - i)));
      i = e;
    } else {
      ++i;
    }
  }
  return r;
}
size_t countOf(const std::string& t, const std::string& what) {
  size_t n = 0;
  for (size_t p = t.find(what); p != std::string::npos; p = t.find(what, p + 1)) ++n;
  return n;
}
template <typename T>
std::string print(const T& x) {
  std::ostringstream o;
  o << x;
  return o.str();
}
void says(Case& c, const std::string& t, const std::vector<Id>& ids, size_t inverted, const std::string& what) {
  PBT_CHECK(idsIn(t) == ids, what << " is printed as '" << t << "', expected the ids " << chk::show(ids));
  PBT_CHECK(countOf(t, "inverted") == inverted, what << " is printed as '" << t << "', expected 'inverted' " << inverted << " times");
  PBT_CHECK(!t.empty() && t.front() == '[' && t.back() == ']' && countOf(t, "[") == countOf(t, "]"), what << " is printed as '" << t << "'");
  c.did();
}
template <typename LsT>
std::vector<Id> chain(const LsT& l) {
  std::vector<Id> r{l.id()};
  for (size_t i = 0; i < l.size(); ++i) r.push_back(l[i].id());
  return r;
}
std::vector<Id> cat(std::vector<Id> a, const std::vector<Id>& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}

void text(Case& c) {
  auto& s = c.src;
  world::Gen g(c, opts(s));
  fill(g, s, 3, 10);
  auto& w = g.w;
  auto coords = [&](const std::string& t, Id id, std::vector<double> xyz, const std::string& what) {
    long long gotId = 0;
    double v[3]{0, 0, 0};
    int n = xyz.size() == 2 ? sscanf(t.c_str(), "[id: %lld x: %lf y: %lf]", &gotId, v, v + 1) : sscanf(t.c_str(), "[id: %lld x: %lf y: %lf z: %lf]", &gotId, v, v + 1, v + 2);
    PBT_CHECK(n == int(xyz.size()) + 1 && gotId == id, what << " is printed as '" << t << "'");
    for (size_t i = 0; i < xyz.size(); ++i) PBT_CHECK(std::abs(v[i] - xyz[i]) <= 1e-5 * std::max(1., std::abs(xyz[i])), what << " is printed as '" << t << "'");
    c.did();
  };
  for (size_t i = 0; i < w.pts.size() && i < 6; ++i) {
    auto& p = w.pts[i];
    coords(print(p), p.id(), {p.x(), p.y(), p.z()}, "point");
    coords(print(ConstPoint3d(p)), p.id(), {p.x(), p.y(), p.z()}, "const point");
    coords(print(utils::to2D(p)), p.id(), {p.x(), p.y()}, "2d point");
    coords(print(utils::to2D(ConstPoint3d(p))), p.id(), {p.x(), p.y()}, "const 2d point");
  }
  for (auto& l0 : w.ls)
    for (auto& l : {l0, l0.invert()}) {
      says(c, print(l), chain(l), l.inverted(), "line string");
      says(c, print(ConstLineString3d(l)), chain(l), l.inverted(), "const line string");
      says(c, print(utils::to2D(l)), chain(l), l.inverted(), "2d line string");
      says(c, print(LineStringOrPolygon3d(l)), chain(l), l.inverted(), "line string or polygon");
      says(c, print(ConstLineStringOrPolygon3d(l)), chain(l), l.inverted(), "const line string or polygon");
    }
  for (auto& p : w.polys) {
    says(c, print(p), chain(p), 0, "polygon");
    says(c, print(utils::to2D(ConstPolygon3d(p))), chain(p), 0, "2d polygon");
    says(c, print(LineStringOrPolygon3d(p)), chain(p), 0, "line string or polygon");
  }
  for (auto& l0 : w.llts)
    for (auto& l : {l0, l0.invert()}) {
      std::vector<Id> ids{l.id(), l.leftBound().id(), l.rightBound().id()};
      size_t inv = l.inverted() + l.leftBound().inverted() + l.rightBound().inverted();
      says(c, print(l), ids, inv, "lanelet");
      says(c, print(ConstLaneletOrArea(l)), ids, inv, "lanelet or area");
    }
  bool inner = false;
  for (auto& a : w.areas) {
    std::vector<Id> ids{a.id()};
    for (auto& l : a.outerBound()) ids.push_back(l.id());
    for (auto& ib : a.innerBounds())
      for (auto& l : ib) ids.push_back(l.id()), inner = true;
    says(c, print(a), ids, 0, "area");
    says(c, print(ConstLaneletOrArea(a)), ids, 0, "lanelet or area");
  }
  for (int rep = 0; rep < 3; ++rep) {
    ConstLanelets v;
    ConstLineStrings3d lv;
    std::vector<Id> ids, lids;
    for (size_t n = w.llts.empty() ? 0 : s.below(4); v.size() < n;) v.push_back(s.flip() ? s.pick(w.llts) : s.pick(w.llts).invert()), ids.push_back(v.back().id());
    for (size_t n = s.below(4); lv.size() < n;) lv.push_back(s.flip() ? s.pick(w.ls) : s.pick(w.ls).invert()), lids.push_back(lv.back().id());
    LaneletSequence seq(v);
    says(c, print(seq), ids, 0, "lanelet sequence");
    CompoundLineString3d comp(lv);
    says(c, print(comp), lids, 0, "compound line string");
    auto rev = [](std::vector<Id> x) { return std::reverse(x.begin(), x.end()), x; };
    says(c, print(seq.invert()), rev(ids), 1, "inverted lanelet sequence");
    says(c, print(comp.invert()), rev(lids), 1, "inverted compound line string");
  }
  for (auto& r : w.regs) {
    // every parameter, role by role in the order of the names
    std::vector<Id> ids{r->id()};
    for (auto& role : r->getParameters())
      for (auto& p : role.second) {
        KindOf v;
        boost::apply_visitor([&](auto& x) { v(x); }, p);
        ids.push_back(v.id);
      }
    auto t = print(*r);
    says(c, t, ids, 0, "regulatory element");
    for (auto& role : r->getParameters()) PBT_CHECK(t.find("{" + role.first + ":") != std::string::npos, "regulatory element printed as '" << t << "' lacks role " << role.first);
  }
  // attributes print all their entries
  AttributeMap m;
  size_t n = s.below(5);
  for (size_t i = 0; i < n; ++i) m[s.of<std::string>({"type", "subtype", "foo", "bar", "x"})] = s.of<std::string>({"a", "b c", "", "7"});
  auto t = print(m);
  size_t len = 0;
  for (auto& e : m) {
    PBT_CHECK(t.find(e.first + ": " + e.second.value()) != std::string::npos, "attributes printed as '" << t << "' lack " << e.first);
    PBT_EQ(print(e.second), e.second.value(), "printed attribute");
    len += e.first.size() + e.second.value().size();
  }
  PBT_CHECK(t.size() >= len, "attributes printed as '" << t << "'");
  c.nontrivial(inner || w.regs.size() > 0);
  c.describe([&](auto& o) {
    for (auto& a : w.areas) o << a << "\n";
    for (auto& l : w.llts) o << l << "\n";
    for (auto& r : w.regs) o << *r << "\n";
  });
}

// ---- compounds ------------------------------------------------------------------------------------------------
template <typename A, typename B>
void sameChain(Case& c, const A& got, const B& want, const std::string& what) {
  PBT_EQ(got.size(), want.size(), what << ": size");
  for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(got[i] == want[i], what << ": point " << i);
  PBT_CHECK(got.ids() == want.ids(), what << ": ids");
  PBT_CHECK(got.lineStrings() == want.lineStrings() && got == want && !(got != want), what << ": line strings");
  c.did();
}
BasicPoint3d basic(const ConstPoint3d& p) { return p.basicPoint(); }
BasicPoint2d basic(const ConstPoint2d& p) { return p.basicPoint(); }
BasicPoint3d basic(const BasicPoint3d& p) { return p; }
BasicPoint2d basic(const BasicPoint2d& p) { return p; }
template <typename Poly, typename Line>
void family(Case& c, const std::vector<ConstLineStrings3d>& groups, const std::vector<bool>& inv, const std::string& what) {
  std::vector<Poly> polys;
  std::vector<Line> lines;
  ConstLineStrings3d all;
  for (size_t i = 0; i < groups.size(); ++i) {
    Line l(groups[i]);
    if (inv[i]) l = l.invert();
    lines.push_back(l);
    polys.push_back(Poly(l));
    sameChain(c, polys.back(), l, what + " polygon made of a line string");
    PBT_EQ(polys.back().inverted(), l.inverted(), what << " direction of a polygon made of a line string");
    sameChain(c, Line(polys.back()), l, what + " line string made of a polygon");
    PBT_EQ(Line(polys.back()).inverted(), l.inverted(), what << " direction of a line string made of a polygon");
    if (l.size() > 1) PBT_EQ(polys.back().numSegments(), l.size(), what << " numSegments of a polygon");
    auto parts = groups[i];
    if (inv[i]) {
      std::reverse(parts.begin(), parts.end());
      for (auto& p : parts) p = p.invert();
    }
    PBT_CHECK(l.lineStrings() == parts, what << " parts");
    all.insert(all.end(), parts.begin(), parts.end());
    // the points: those of the parts in order, once where a part continues with the point it ended with
    auto b = polys.back().basicPolygon();
    PBT_EQ(b.size(), l.size(), what << " basicPolygon: size");
    for (size_t k = 0; k < l.size(); ++k) PBT_CHECK(b[k] == basic(l[k]), what << " basicPolygon: point " << k);
  }
  Line want(all);
  sameChain(c, Line(lines), want, what + " line string of line strings");
  sameChain(c, Poly(lines), want, what + " polygon of line strings");
  sameChain(c, Poly(polys), want, what + " polygon of polygons");
  PBT_CHECK(!Poly(polys).inverted() && !Line(lines).inverted() && !Poly(lines).inverted(), what << " direction of a compound of compounds");
  // inequality
  if (!all.empty()) {
    auto fewer = all;
    fewer.pop_back();
    PBT_CHECK(Line(fewer) != want && !(Line(fewer) == want), what << " compounds of different parts are equal");
    auto turned = all;
    turned.front() = turned.front().invert();
    PBT_CHECK(Line(turned) != want && !(Line(turned) == want), what << " compounds of parts of different direction are equal");
  }
}
void compounds(Case& c) {
  auto& s = c.src;
  world::Gen g(c, opts(s));
  fill(g, s, 2, 6);
  auto& w = g.w;
  // extend: line strings that continue each other
  for (int i = 0; i < 3; ++i) {
    auto l = s.pick(w.ls);
    Points3d p;
    if (!l.empty()) p.push_back(l[l.size() - 1]);
    for (size_t n = s.below(3), k = 0; k < n; ++k) p.push_back(s.pick(w.pts));
    w.ls.push_back(LineString3d(Id(600000 + i), p));
  }
  std::vector<ConstLineStrings3d> groups(s.below(4));
  std::vector<bool> inv;
  size_t joints = 0, parts = 0;
  for (auto& grp : groups) {
    inv.push_back(s.chance(1, 3));
    size_t n = s.below(4);
    for (size_t i = 0; i < n; ++i) {
      ConstLineString3d l = s.pick(w.ls);
      if (!grp.empty() && !grp.back().empty() && s.chance(1, 2)) {  // one that starts where the last ended
        auto end = grp.back().back();
        for (auto& x : w.ls)
          for (auto& y : {x, x.invert()})
            if (!y.empty() && y.front() == end) l = y;
        ++joints;
      }
      grp.push_back(s.chance(1, 4) ? l.invert() : l);
      ++parts;
    }
  }
  family<CompoundPolygon3d, CompoundLineString3d>(c, groups, inv, "3d");
  family<CompoundPolygon2d, CompoundLineString2d>(c, groups, inv, "2d");
  family<CompoundHybridPolygon3d, CompoundHybridLineString3d>(c, groups, inv, "hybrid 3d");
  family<CompoundHybridPolygon2d, CompoundHybridLineString2d>(c, groups, inv, "hybrid 2d");
  c.nontrivial(joints > 0 && groups.size() > 1);
  c.describe([&](auto& o) {
    for (size_t i = 0; i < groups.size(); ++i) {
      o << (inv[i] ? "inverted: " : "group: ");
      for (auto& l : groups[i]) o << l << " ";
      o << "\n";
    }
  });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C32";
  s.rule =
      "equality: the world holds at least two lanelet handles, an area, a polygon and a twin with the same id and data; wrappers: a wrapper changed its kind; text: an area with holes or a "
      "regulatory element was printed; compounds: two or more groups, one with parts that continue each other";
  s.props = {
      {"equality", "tables of handles, 2d, const, hybrid, weak and inverted ones and twins with the same id, against identity of what they refer to", 60000, 1500000, equality},
      {"wrappers", "histories of assignments to LaneletOrArea and LineStringOrPolygon; regulatory elements of lanelets and areas", 100000, 3000000, wrappers},
      {"text", "ids, coordinates and directions in the text of every kind of primitive", 30000, 800000, text},
      {"compounds", "compounds of compounds, conversions, points", 60000, 2000000, compounds},
  };
  return pbt::runMain(s, argc, argv);
}
