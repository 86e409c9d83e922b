// C03: every view of a line string / polygon is a window on one shared list of points.
#include "common.h"
using namespace lanelet;
using chk::show;

namespace {
struct ModelPt {
  Id id;
  double x, y, z;
};
bool same(const Eigen::Vector2d& p, const ModelPt& m) { return p.x() == m.x && p.y() == m.y; }
bool same(const BasicPoint2d& p, const ModelPt& m) { return p.x() == m.x && p.y() == m.y; }
bool same(const BasicPoint3d& p, const ModelPt& m) { return p.x() == m.x && p.y() == m.y && p.z() == m.z; }

struct World {
  std::vector<Point3d> pool;
  std::map<Id, ModelPt> coords;  // model of point coordinates
  std::vector<Id> list;          // model of the shared list, forward direction (0 = InvalId point made by resize)
  LineString3d base;
  std::vector<const void*> dataPtr;  // data pointers of the list (identity, not only id)
};

template <typename View>
std::vector<Id> modelOf(const World& w, const View& v) {
  auto l = w.list;
  if (v.inverted()) std::reverse(l.begin(), l.end());
  return l;
}
ModelPt coordOf(const World& w, Id id) {
  auto it = w.coords.find(id);
  return it == w.coords.end() ? ModelPt{0, 0, 0, 0} : it->second;
}
std::vector<const void*> ptrs(const World& w, bool inv) {
  auto l = w.dataPtr;
  if (inv) std::reverse(l.begin(), l.end());
  return l;
}

// checks everything a (non hybrid) view shows against the model
template <typename View>
void checkView(Case& c, World& w, View v, const char* name, bool polygon) {
  const auto m = modelOf(w, v);
  const auto n = m.size();
  PBT_EQ(v.id(), w.base.id(), name);
  PBT_EQ(v.attributes().size(), w.base.attributes().size(), name);
  PBT_EQ(v.size(), n, name);
  PBT_EQ(v.empty(), n == 0, name);
  PBT_EQ(v.numSegments(), (polygon ? (n < 2 ? 0 : n) : (n < 2 ? 0 : n - 1)), name);
  const auto& cv = v;
  VEQ(chk::ids(cv), m, name);
  VEQ(chk::ids(v), m, name);
  const auto pt = ptrs(w, v.inverted());
  PBT_EQ(size_t(std::distance(cv.begin(), cv.end())), n, name);
  PBT_EQ(size_t(cv.end() - cv.begin()), n, name);
  auto basic = v.basicLineString();
  PBT_EQ(basic.size(), n, name);
  auto bit = v.basicBegin();
  for (size_t i = 0; i < n; ++i, ++bit) {
    const auto mp = coordOf(w, m[i]);
    PBT_EQ(cv[i].id(), m[i], name);
    PBT_EQ(v[i].id(), m[i], name);
    PBT_CHECK(cv[i].constData().get() == pt[i], name << " not the shared point at " << i);
    PBT_EQ((cv.begin() + i)->id(), m[i], name);
    PBT_EQ((cv.end() - (n - i))->id(), m[i], name);
    PBT_EQ(size_t((cv.begin() + i) - cv.begin()), i, name);
    PBT_CHECK(same(utils::toBasicPoint(cv[i]), mp), name);
    PBT_CHECK(same(BasicPoint2d(utils::to2D(cv[i]).basicPoint()), mp), name);
    PBT_CHECK(cv[i].x() == mp.x && cv[i].y() == mp.y, name);
    PBT_CHECK(same(basic[i], mp), name << " basicLineString");
    PBT_CHECK(same(*bit, mp), name << " basicBegin");
    auto s = cv.segment(i);
    PBT_EQ(s.first.id(), m[i], name);
    PBT_EQ(s.second.id(), m[(i + 1) % n], name);
    auto s2 = v.segment(i);
    PBT_EQ(s2.first.id(), m[i], name);
    PBT_EQ(s2.second.id(), m[(i + 1) % n], name);
    auto bs = utils::toBasicSegment(s);
    PBT_CHECK(same(bs.first, mp) && same(bs.second, coordOf(w, m[(i + 1) % n])), name << " basic segment");
    c.did(12);
  }
  PBT_CHECK(bit == v.basicEnd(), name);
  if (n > 0) {
    PBT_EQ(cv.front().id(), m.front(), name);
    PBT_EQ(cv.back().id(), m.back(), name);
    PBT_EQ(v.front().id(), m.front(), name);
    PBT_EQ(v.back().id(), m.back(), name);
    auto last = cv.end();
    --last;
    PBT_EQ(last->id(), m.back(), name);
    auto rev = cv.end();
    std::vector<Id> back;
    while (rev != cv.begin()) back.push_back((--rev)->id());
    std::reverse(back.begin(), back.end());
    VEQ(back, m, name << " backwards iteration");
    auto it = cv.begin();
    auto old = it++;
    PBT_CHECK(old == cv.begin() && it == cv.begin() + 1 && old != it && old < it, name);
  }
  for (auto& p : w.pool) {
    bool has = std::find(m.begin(), m.end(), p.id()) != m.end();
    PBT_EQ(utils::has(v, p.id()), has, name);
  }
}
template <typename Hybrid>
void checkHybrid(Case& c, World& w, Hybrid v, const char* name) {
  const auto m = modelOf(w, v);
  const auto n = m.size();
  PBT_EQ(v.size(), n, name);
  size_t i = 0;
  for (auto it = v.begin(); it != v.end(); ++it, ++i) {
    PBT_CHECK(i < n && same(*it, coordOf(w, m[i])), name << " at " << i);
    PBT_CHECK(same(v[i], coordOf(w, m[i])), name << " at " << i);
    c.did(2);
  }
  PBT_EQ(i, n, name);
  if (n > 0) {
    PBT_CHECK(same(v.front(), coordOf(w, m.front())), name);
    PBT_CHECK(same(v.back(), coordOf(w, m.back())), name);
  }
}
template <typename Hybrid>
void checkHybridSeg(World& w, Hybrid v, const char* name) {
  const auto m = modelOf(w, v);
  for (size_t i = 0; i < m.size(); ++i) {
    auto s = v.segment(i);
    PBT_CHECK(same(s.first, coordOf(w, m[i])) && same(s.second, coordOf(w, m[(i + 1) % m.size()])), name << " seg " << i);
  }
}
template <typename V>
std::string streamed(const V& v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
std::string expectStream(const World& w, bool inv) {
  auto l = w.list;
  if (inv) std::reverse(l.begin(), l.end());
  std::string s = "[id: " + std::to_string(w.base.id()) + (inv ? ", inverted" : "") + " point ids: ";
  for (size_t i = 0; i < l.size(); ++i) s += (i ? ", " : "") + std::to_string(l[i]);
  return s + "]";
}

void checkAll(Case& c, World& w) {
  LineString3d l3 = w.base;
  LineString2d l2 = utils::to2D(l3);
  Polygon3d p3(l3);
  Polygon2d p2(l2);
  PBT_CHECK(!l3.inverted() && l3.invert().inverted() && l3.invert().invert() == l3 && l3.invert() != l3, "");
  PBT_CHECK(l2.invert().invert() == l2 && l2.invert() != l2 && utils::to3D(l2.invert()) == l3.invert(), "");
  PBT_CHECK(utils::toConst(l3).invert().invert() == utils::toConst(l3), "");
  PBT_CHECK(std::hash<LineString3d>()(l3) == std::hash<LineString3d>()(l3.invert().invert()), "");
  checkView(c, w, l3, "LineString3d", false);
  checkView(c, w, l3.invert(), "LineString3d inv", false);
  checkView(c, w, l2, "LineString2d", false);
  checkView(c, w, l2.invert(), "LineString2d inv", false);
  checkView(c, w, ConstLineString3d(l3), "ConstLineString3d", false);
  checkView(c, w, ConstLineString3d(l3.invert()), "ConstLineString3d inv", false);
  checkView(c, w, ConstLineString3d(l3).invert(), "ConstLineString3d inv2", false);
  checkView(c, w, ConstLineString2d(l2), "ConstLineString2d", false);
  checkView(c, w, ConstLineString2d(l2).invert(), "ConstLineString2d inv", false);
  checkView(c, w, p3, "Polygon3d", true);
  checkView(c, w, Polygon3d(l3.invert()), "Polygon3d of inverted", true);
  checkView(c, w, p2, "Polygon2d", true);
  checkView(c, w, ConstPolygon3d(p3), "ConstPolygon3d", true);
  checkView(c, w, ConstPolygon2d(p2), "ConstPolygon2d", true);
  checkView(c, w, ConstPolygon2d(ConstLineString2d(l2).invert()), "ConstPolygon2d of inverted", true);
  checkView(c, w, LineString3d(p3), "LineString3d of polygon", false);
  checkHybrid(c, w, utils::toHybrid(l3), "hybrid3d");
  checkHybrid(c, w, utils::toHybrid(l3).invert(), "hybrid3d inv");
  checkHybrid(c, w, utils::toHybrid(l3.invert()), "hybrid3d inv2");
  checkHybrid(c, w, utils::toHybrid(l2), "hybrid2d");
  checkHybrid(c, w, utils::toHybrid(l2).invert(), "hybrid2d inv");
  checkHybrid(c, w, utils::to2D(utils::toHybrid(l3.invert())), "hybrid2d of hybrid3d");
  checkHybrid(c, w, utils::toHybrid(p3), "hybrid polygon3d");
  checkHybrid(c, w, utils::toHybrid(p2), "hybrid polygon2d");
  checkHybridSeg(w, utils::toHybrid(l3), "hybrid3d");
  checkHybridSeg(w, utils::toHybrid(l3).invert(), "hybrid3d inv");
  checkHybridSeg(w, utils::toHybrid(l2), "hybrid2d");
  checkHybridSeg(w, utils::toHybrid(l2).invert(), "hybrid2d inv");
  {
    auto b3 = p3.basicPolygon();
    auto b2 = p2.basicPolygon();
    PBT_EQ(b3.size(), w.list.size(), "");
    PBT_EQ(b2.size(), w.list.size(), "");
    for (size_t i = 0; i < b3.size(); ++i)
      PBT_CHECK(same(b3[i], coordOf(w, w.list[i])) && same(b2[i], coordOf(w, w.list[i])), "basicPolygon " << i);
    BasicPolygon2d conv = ConstPolygon2d(p2);
    PBT_CHECK(conv == b2, "implicit conversion");
    auto t2 = traits::to2D(b3);
    PBT_CHECK(t2.size() == b2.size() && std::equal(t2.begin(), t2.end(), b2.begin()), "to2D of basic polygon");
  }
  PBT_EQ(streamed(ConstLineString3d(l3)), expectStream(w, false), "");
  PBT_EQ(streamed(ConstLineString3d(l3.invert())), expectStream(w, true), "");
  PBT_EQ(streamed(ConstLineString2d(l2.invert())), expectStream(w, true), "");
  PBT_EQ(streamed(ConstPolygon3d(p3)), expectStream(w, false), "");
  // comparison with plain vectors
  std::vector<Point3d> plain(l3.begin(), l3.end());
  PBT_CHECK(l3 == plain && plain == l3 && !(l3 != plain), "");
  std::vector<Point3d> rplain(plain.rbegin(), plain.rend());
  PBT_CHECK(l3.invert() == rplain, "");
  if (!plain.empty()) {
    auto other = plain;
    other.pop_back();
    PBT_CHECK(l3 != other && other != l3, "shorter vector");
    other.push_back(Point3d(777777, 1, 2, 3));
    PBT_CHECK(l3 != other, "different last");
  }
}

// model operation in view direction
template <typename F>
void onModel(World& w, bool inverted, F&& f) {
  auto l = w.list;
  auto p = w.dataPtr;
  if (inverted) {
    std::reverse(l.begin(), l.end());
    std::reverse(p.begin(), p.end());
  }
  f(l, p);
  if (inverted) {
    std::reverse(l.begin(), l.end());
    std::reverse(p.begin(), p.end());
  }
  w.list = l;
  w.dataPtr = p;
}
const void* dptr(const ConstPoint2d& p) { return p.constData().get(); }

// for 3d views the two assignment operators are ambiguous on rvalues, so only lvalues compile there
template <typename Impl>
void assignRvalue(Impl& i, std::vector<Point3d> v, std::true_type) { i = v; }
template <typename Impl>
void assignRvalue(Impl& i, std::vector<Point3d> v, std::false_type) { i = std::move(v); }

template <typename View, typename PointT>
void mutate(Case& c, World& w, View v, bool is3d) {
  auto& s = c.src;
  const auto n = w.list.size();
  const bool inv = v.inverted();
  auto anyPt = [&] { return s.pick(w.pool); };
  const size_t op = s.below(14);
  std::ostringstream d;
  switch (op) {
    case 0: case 1: {
      Point3d p = anyPt();
      v.push_back(PointT(p));
      d << "push_back " << p.id();
      onModel(w, inv, [&](auto& l, auto& q) { l.push_back(p.id()); q.push_back(dptr(p)); });
      c.label("push_back");
      break;
    }
    case 2: case 3: {
      Point3d p = anyPt();
      size_t k = s.below(n + 1);
      auto it = v.insert(v.begin() + k, PointT(p));
      d << "insert at " << k << " " << p.id();
      onModel(w, inv, [&](auto& l, auto& q) { l.insert(l.begin() + k, p.id()); q.insert(q.begin() + k, dptr(p)); });
      PBT_EQ(size_t(it - v.begin()), k, "iterator returned by insert");
      PBT_EQ(it->id(), p.id(), "iterator returned by insert");
      c.label("insert");
      break;
    }
    case 4: {
      if (n == 0) return;
      size_t k = s.below(n);
      auto it = v.erase(v.begin() + k);
      d << "erase " << k;
      onModel(w, inv, [&](auto& l, auto& q) { l.erase(l.begin() + k); q.erase(q.begin() + k); });
      PBT_EQ(size_t(it - v.begin()), k, "iterator returned by erase");
      c.label("erase");
      break;
    }
    case 5: {
      if (n == 0) return;
      v.pop_back();
      d << "pop_back";
      onModel(w, inv, [&](auto& l, auto& q) { l.pop_back(); q.pop_back(); });
      c.label("pop_back");
      break;
    }
    case 6: {
      size_t k = s.below(n + 4);
      v.resize(k);
      d << "resize " << k;
      onModel(w, inv, [&](auto& l, auto& q) {
        l.resize(k, InvalId);
        q.resize(k, nullptr);
        for (size_t i = n; i < k; ++i) {
          PBT_EQ(v[i].id(), InvalId, "point added by resize");
          q[i] = dptr(v[i]);
        }
      });
      c.label("resize");
      break;
    }
    case 7: {
      if (!s.chance(1, 4)) return;
      v.clear();
      d << "clear";
      w.list.clear();
      w.dataPtr.clear();
      c.label("clear");
      break;
    }
    case 8: {
      if (n == 0) return;
      size_t k = s.below(n);
      Point3d p = anyPt();
      size_t how = s.below(4);
      d << "set [" << k << "] how " << how << " " << p.id();
      if (how == 0) v[k] = PointT(p);
      else if (how == 1) { k = 0; v.front() = PointT(p); }
      else if (how == 2) { k = n - 1; v.back() = PointT(p); }
      else *(v.begin() + k) = PointT(p);
      onModel(w, inv, [&](auto& l, auto& q) { l[k] = p.id(); q[k] = dptr(p); });
      c.label("set");
      break;
    }
    case 9: {  // move one point through the view
      if (n == 0) return;
      size_t k = s.below(n);
      Id id = modelOf(w, v)[k];
      if (id == InvalId) return;
      double x = s.grid(-8, 8, 0.5), y = s.grid(-8, 8, 0.5);
      auto& m = w.coords.at(id);
      size_t how = s.below(4);
      d << "move [" << k << "] " << id << " to " << x << "," << y << " how " << how;
      if (how == 0) { v[k].x() = x; m.x = x; }
      if (how == 1) { v[k].y() = y; m.y = y; }
      if (how == 2) { v[k].basicPoint().x() = x; m.x = x; }
      if (how == 3) { (v.begin() + k)->basicPoint()[1] = y; m.y = y; }
      c.label("move");
      break;
    }
    case 10: {  // whole assignment
      std::vector<PointT> np;
      size_t k = s.below(5);
      for (size_t i = 0; i < k; ++i) np.push_back(PointT(anyPt()));
      d << "assign " << show(chk::ids(np));
      onModel(w, inv, [&](auto& l, auto& q) {
        l.clear();
        q.clear();
        for (auto& p : np) { l.push_back(p.id()); q.push_back(dptr(p)); }
      });
      auto& impl = static_cast<LineStringImpl<typename View::ConstType>&>(v);
      impl = np;
      c.label("assign");
      break;
    }
    case 11: {  // assign rvalue of 3d points
      std::vector<Point3d> np;
      size_t k = s.below(5);
      for (size_t i = 0; i < k; ++i) np.push_back(anyPt());
      d << "assign&& " << show(chk::ids(np));
      onModel(w, inv, [&](auto& l, auto& q) {
        l.clear();
        q.clear();
        for (auto& p : np) { l.push_back(p.id()); q.push_back(dptr(p)); }
      });
      auto& impl = static_cast<LineStringImpl<typename View::ConstType>&>(v);
      assignRvalue(impl, std::vector<Point3d>(np), std::is_same<PointT, Point3d>());
      c.label("assign");
      break;
    }
    case 12: {  // standard algorithm through the iterators
      std::vector<PointT> cp(v.begin(), v.end());
      size_t how = s.below(3);
      size_t k = n == 0 ? 0 : s.below(n);
      d << "algorithm " << how << " " << k;
      if (how == 0) {
        std::reverse(v.begin(), v.end());
        onModel(w, inv, [&](auto& l, auto& q) { std::reverse(l.begin(), l.end()); std::reverse(q.begin(), q.end()); });
      } else if (how == 1) {
        std::rotate(v.begin(), v.begin() + k, v.end());
        onModel(w, inv, [&](auto& l, auto& q) {
          std::rotate(l.begin(), l.begin() + k, l.end());
          std::rotate(q.begin(), q.begin() + k, q.end());
        });
      } else if (n > 0) {
        std::iter_swap(v.begin() + k, v.end() - 1);
        onModel(w, inv, [&](auto& l, auto& q) { std::swap(l[k], l[n - 1]); std::swap(q[k], q[n - 1]); });
      }
      c.label("algorithm");
      break;
    }
    default: {  // ranged insert, of a vector, a reversed vector or another view
      size_t k = s.below(n + 1);
      std::vector<PointT> np;
      std::vector<Point3d> np3;
      size_t cnt = s.below(4);
      for (size_t i = 0; i < cnt; ++i) {
        np3.push_back(anyPt());
        np.push_back(PointT(np3.back()));
      }
      size_t how = s.below(3);
      auto exp = np3;
      d << "insert range at " << k << " " << show(chk::ids(np)) << " how " << how;
      using It = decltype(v.begin());
      if (how == 0) {
        It it = v.insert(v.begin() + k, np3.begin(), np3.end());
        if (cnt > 0) PBT_EQ(size_t(it - v.begin()), inv ? k + cnt - 1 : k, "iterator of ranged insert");
        (void)it;
      } else if (how == 1) {
        LineString3d other(4711, np3);
        v.insert(v.begin() + k, other.begin(), other.end());
      } else {
        LineString3d other(4711, np3);
        auto oi = other.invert();
        v.insert(v.begin() + k, oi.begin(), oi.end());
        std::reverse(exp.begin(), exp.end());
      }
      onModel(w, inv, [&](auto& l, auto& q) {
        std::vector<Id> li;
        std::vector<const void*> pi;
        for (auto& p : exp) { li.push_back(p.id()); pi.push_back(dptr(p)); }
        l.insert(l.begin() + k, li.begin(), li.end());
        q.insert(q.begin() + k, pi.begin(), pi.end());
      });
      c.label("insert range");
    }
  }
  if (inv) c.label("through inverted view");
  (void)is3d;
  c.describe([&](auto& o) { o << (is3d ? "3d" : "2d") << (inv ? "inv " : " ") << d.str() << "; "; });
}

void history(Case& c) {
  auto& s = c.src;
  World w;
  size_t np = 2 + s.below(5);
  for (size_t i = 0; i < np; ++i) {
    ModelPt m{Id(i + 1), s.grid(-8, 8, 0.5), s.grid(-8, 8, 0.5), s.grid(-2, 2, 0.5)};
    w.pool.push_back(Point3d(m.id, m.x, m.y, m.z));
    w.coords[m.id] = m;
  }
  size_t n = s.size(0, 6);
  Points3d init;
  for (size_t i = 0; i < n; ++i) init.push_back(s.pick(w.pool));
  for (auto& p : init) {
    w.list.push_back(p.id());
    w.dataPtr.push_back(dptr(p));
  }
  w.base = LineString3d(100, init, AttributeMap{{"a", "b"}});
  c.describe([&](auto& o) { o << "start " << show(w.list) << "; "; });
  // handles created up front must see later changes
  LineString3d early = w.base;
  ConstLineString3d earlyInv = w.base.invert();
  ConstHybridLineString2d earlyHyb = utils::toHybrid(utils::to2D(w.base));
  checkAll(c, w);
  size_t ops = 1 + s.size(0, 14);
  size_t invOps = 0;
  for (size_t i = 0; i < ops; ++i) {
    switch (s.below(8)) {
      case 0: mutate<LineString3d, Point3d>(c, w, w.base, true); break;
      case 1: case 2: ++invOps; mutate<LineString3d, Point3d>(c, w, w.base.invert(), true); break;
      case 3: mutate<LineString2d, Point2d>(c, w, utils::to2D(w.base), false); break;
      case 4: ++invOps; mutate<LineString2d, Point2d>(c, w, utils::to2D(w.base).invert(), false); break;
      case 5: mutate<Polygon3d, Point3d>(c, w, Polygon3d(w.base), true); break;
      case 6: mutate<Polygon2d, Point2d>(c, w, Polygon2d(utils::to2D(w.base.invert())), false); break;
      default: {  // change a pool point directly
        auto& p = w.pool[s.below(w.pool.size())];
        auto& m = w.coords.at(p.id());
        m.x = s.grid(-8, 8, 0.5);
        m.z = s.grid(-2, 2, 0.5);
        p.x() = m.x;
        p.z() = m.z;
        if (s.flip()) w.base.setId(100 + Id(s.below(5)));
        if (s.flip()) w.base.setAttribute("k" + std::to_string(s.below(3)), "v");
        c.describe([&](auto& o) { o << "point " << p.id() << " x=" << m.x << "; "; });
      }
    }
    checkAll(c, w);
    checkView(c, w, early, "early copy", false);
    checkView(c, w, earlyInv, "early inverted const copy", false);
    checkHybrid(c, w, earlyHyb, "early hybrid copy");
  }
  c.nontrivial(ops >= 3 && invOps >= 1 && w.list.size() >= 2);
  c.label(w.list.empty() ? "ends empty" : w.list.size() == 1 ? "ends with one point" : "ends with several points");
}

// 2D/3D and const/mutable handles of one point
void points(Case& c) {
  auto& s = c.src;
  double x = s.grid(-50, 50, 0.25), y = s.grid(-50, 50, 0.25), z = s.grid(-5, 5, 0.25);
  Point3d p(5, x, y, z);
  Point2d p2 = utils::to2D(p);
  ConstPoint2d c2(p);
  ConstPoint3d c3(p);
  Point3d back(p2);
  size_t ops = 1 + s.below(10);
  for (size_t i = 0; i < ops; ++i) {
    double v = s.grid(-50, 50, 0.25);
    switch (s.below(10)) {
      case 0: p.x() = v; x = v; break;
      case 1: p.y() = v; y = v; break;
      case 2: p.z() = v; z = v; break;
      case 3: p2.x() = v; x = v; break;
      case 4: p2.y() = v; y = v; break;
      case 5: p.basicPoint() = BasicPoint3d(v, v + 1, v + 2); x = v; y = v + 1; z = v + 2; break;
      case 6: p2.basicPoint() = BasicPoint2d(v, -v); x = v; y = -v; break;
      case 7: static_cast<BasicPoint3d&>(back) = BasicPoint3d(-v, v, 3); x = -v; y = v; z = 3; break;
      case 8: back.basicPoint()(2) = v; z = v; break;
      default: p.setId(Id(s.below(100))); p.setAttribute("t", std::to_string(i)); break;
    }
    auto is2 = [&](const BasicPoint2d& b) { return b.x() == x && b.y() == y; };
    auto is3 = [&](const BasicPoint3d& b) { return b.x() == x && b.y() == y && b.z() == z; };
    PBT_CHECK(p.x() == x && p.y() == y && p.z() == z, "");
    PBT_CHECK(back.x() == x && back.y() == y && back.z() == z, "");
    PBT_CHECK(c2.x() == x && c2.y() == y && c3.x() == x && c3.y() == y && c3.z() == z && p2.x() == x && p2.y() == y, "");
    PBT_CHECK(is3(c3.basicPoint()) && is3(utils::toBasicPoint(p)) && is3(utils::toBasicPoint(back)) && is3(c3), "");
    PBT_CHECK(is2(c2.basicPoint()) && is2(c3.basicPoint2d()) && is2(p.basicPoint2d()) && is2(BasicPoint2d(c2)) &&
                  is2(BasicPoint2d(p2)) && is2(utils::toBasicPoint(c2)) && is2(utils::toBasicPoint(utils::toConst(p2))) &&
                  is2(traits::to2D(BasicPoint3d(p.basicPoint()))), "stale 2d coordinates");
    PBT_CHECK(p == back && c3 == p && utils::toConst(p) == c3 && utils::to3D(p2) == p, "");
    PBT_CHECK(p2.id() == p.id() && c2.id() == p.id() && c2.attributes() == p.attributes(), "");
    Point3d other(p.id(), x, y, z, p.attributes());
    PBT_CHECK(other != p, "identity is not value equality");
    c.did(12);
  }
  c.nontrivial(ops > 2);
  c.describe([&](auto& o) { o << ops << " coordinate changes, final " << x << "," << y << "," << z; });
}

void lsOrPoly(Case& c) {
  auto& s = c.src;
  std::vector<Point3d> pts;
  size_t n = s.below(4);
  for (size_t i = 0; i < n; ++i) pts.push_back(Point3d(Id(i + 1), double(i), s.grid(-3, 3, 1)));
  LineString3d ls(Id(50 + s.below(3)), pts);
  Polygon3d poly(Id(50 + s.below(3)), pts);
  if (s.flip()) ls = ls.invert();
  bool asPoly = s.flip();
  LineStringOrPolygon3d a = asPoly ? LineStringOrPolygon3d(poly) : LineStringOrPolygon3d(ls);
  ConstLineStringOrPolygon3d ca(a);
  if (s.flip()) {
    if (asPoly) poly.setAttribute("x", "y");
    else ls.setAttribute("x", "y");
  }
  auto check = [&](const auto& v) {
    PBT_EQ(v.isPolygon(), asPoly, "");
    PBT_EQ(v.isLineString(), !asPoly, "");
    PBT_EQ(v.id(), asPoly ? poly.id() : ls.id(), "");
    PBT_EQ(v.attributes().size(), (asPoly ? poly.attributes() : ls.attributes()).size(), "");
    PBT_EQ(!!v.polygon(), asPoly, "");
    PBT_EQ(!!v.lineString(), !asPoly, "");
    if (asPoly) PBT_CHECK(*v.polygon() == poly, "");
    else PBT_CHECK(*v.lineString() == ls, "");
    c.did(5);
  };
  check(a);
  check(ca);
  PBT_CHECK(a == (asPoly ? LineStringOrPolygon3d(poly) : LineStringOrPolygon3d(ls)), "");
  PBT_CHECK(a != (!asPoly ? LineStringOrPolygon3d(poly) : LineStringOrPolygon3d(ls)), "");
  RuleParameter rp = a.asRuleParameter();
  if (asPoly) PBT_CHECK(boost::get<Polygon3d>(&rp) != nullptr && *boost::get<Polygon3d>(&rp) == poly, "");
  else PBT_CHECK(boost::get<LineString3d>(&rp) != nullptr && *boost::get<LineString3d>(&rp) == ls, "");
  c.nontrivial();
  c.describe([&](auto& o) { o << (asPoly ? "polygon " : "line string ") << a; });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C03";
  s.rule = "a history is non-trivial if it has at least 3 operations, at least one through an inverted view, and ends with 2 or more points";
  s.assumptions = {"histories of up to 15 operations on lists of up to about 20 points drawn from a pool of 2 to 6 points",
                   "the model is a std::vector of point ids (and data pointers) operated on in view direction"};
  s.props = {{"history", "random operation history through random views; all views compared with a plain list after every step", 60000, 2000000, history},
             {"points", "coordinate changes through 2D/3D handles of one point", 100000, 2000000, points},
             {"ls_or_polygon", "LineStringOrPolygon wrappers report what was put in", 20000, 50000, lsOrPoly}};
  return pbt::runMain(s, argc, argv);
}
