// Generator of random map content shared by the map checks: a jittered lattice of points, line strings along and
// across it, simple polygons, lanelet strips, areas (with holes) and generic regulatory elements over all of these.
#pragma once
#include <lanelet2_core/geometry/Polygon.h>

#include "conv.h"

namespace world {
using namespace lanelet;

struct Opts {
  bool coincidingIds{true};  // per layer id counters instead of one for all
  bool unsetIds{false};      // some primitives keep InvalId
  Id farBase{0};             // if set: explicit ids are below 1000 or farBase + 1000 * k, so that ids handed out meanwhile cannot hit them legally
  size_t maxCells{4};
  bool junk{true};           // degenerate line strings, empty lanelets and areas
  bool regelems{true};
  bool allowOrphanParams{false};  // regulatory element parameters may be primitives that are used nowhere else
};

struct World {
  std::vector<Point3d> pts;
  std::vector<LineString3d> ls;
  std::vector<Polygon3d> polys;
  std::vector<Lanelet> llts;
  std::vector<Area> areas;
  std::vector<RegulatoryElementPtr> regs;
  std::vector<std::vector<Point3d>> grid;  // [row][col]
};

class Gen {
 public:
  Gen(Case& c, Opts o) : c_{c}, s_{c.src}, o_{o} {
    mode_ = s_.below(3);
    shift_ = s_.of<Id>({0, 0, 100000, -50000});
  }
  World w;

  Id nextId(int layer) {
    if (o_.unsetIds && s_.chance(1, 3)) return InvalId;
    Id& n = cnt_[o_.coincidingIds ? layer : 0];
    ++n;
    if (o_.farBase) return s_.flip() ? n : o_.farBase + 1000 * n;
    Id id = mode_ == 0 ? n : mode_ == 1 ? 1 + (n * 7919) % 100003 : -n;
    if (mode_ == 2 && n % 3 == 0) id = n;
    id += shift_;
    return id == InvalId ? Id(900000 + n) : id;
  }
  Point3d newPoint(double x, double y) {
    Point3d p(nextId(0), x, y, s_.chance(1, 2) ? s_.grid(-2, 2, 0.5) : 0.);
    w.pts.push_back(p);
    return p;
  }
  LineString3d newLs(const Points3d& p) {
    // stored in random direction, handed out in the requested one
    bool rev = s_.flip();
    Points3d q(p);
    if (rev) std::reverse(q.begin(), q.end());
    LineString3d l(nextId(1), q);
    w.ls.push_back(l);
    return rev ? l.invert() : l;
  }
  LineString3d rowLs(size_t r, size_t a, size_t b) {
    auto& v = rows_[{r, {a, b}}];
    if (!v.empty() && s_.chance(3, 4)) return v[s_.below(v.size())];
    Points3d p(w.grid[r].begin() + a, w.grid[r].begin() + b + 1);
    v.push_back(newLs(p));
    return v.back();
  }
  LineString3d colLs(size_t col, size_t a, size_t b) {
    auto& v = cols_[{col, {a, b}}];
    if (!v.empty() && s_.chance(3, 4)) return v[s_.below(v.size())];
    Points3d p;
    for (size_t r = a; r <= b; ++r) p.push_back(w.grid[r][col]);
    v.push_back(newLs(p));
    return v.back();
  }
  void lattice() {
    size_t R = 2 + s_.below(o_.maxCells), C = 2 + s_.below(o_.maxCells);
    for (size_t r = 0; r < R; ++r) {
      w.grid.emplace_back();
      for (size_t k = 0; k < C; ++k)
        w.grid.back().push_back(newPoint(4. * k + s_.grid(-1, 1, 0.25), 4. * r + s_.grid(-1, 1, 0.25)));
    }
  }
  void range(size_t n, size_t& a, size_t& b) {
    a = s_.below(n - 1);
    b = a + 1 + s_.below(n - a - 1);
  }
  void lanelet() {
    size_t r = s_.below(w.grid.size() - 1), a, b;
    range(w.grid[0].size(), a, b);
    auto right = rowLs(r, a, b), left = rowLs(r + 1, a, b);
    if (s_.chance(1, 4)) {  // opposite driving direction
      auto t = left.invert();
      left = right.invert();
      right = t;
    }
    Lanelet l(nextId(3), left, right);
    if (s_.chance(1, 5)) {
      Points3d p{newPoint(s_.grid(-2, 18, 0.5), s_.grid(-2, 18, 0.5)), newPoint(s_.grid(-2, 18, 0.5), s_.grid(-2, 18, 0.5))};
      LineString3d ctr(nextId(1), p);
      w.ls.push_back(ctr);
      l.setCenterline(ctr);
    }
    w.llts.push_back(s_.chance(1, 8) ? l.invert() : l);
  }
  void area() {
    size_t a, b, r0, r1;
    range(w.grid[0].size(), a, b);
    range(w.grid.size(), r0, r1);
    // clockwise: up the left side, right along the top, down, back left
    LineStrings3d outer{colLs(a, r0, r1), rowLs(r1, a, b), colLs(b, r0, r1).invert(), rowLs(r0, a, b).invert()};
    if (s_.chance(1, 3)) {
      Points3d p;
      for (auto& l : outer)
        for (size_t i = 0; i + 1 < l.size(); ++i) p.push_back(l[i]);
      auto ring = newLs(p);
      outer = {ring};
    } else {
      std::rotate(outer.begin(), outer.begin() + s_.below(4), outer.end());
    }
    InnerBounds inner;
    size_t holes = s_.chance(1, 3) ? 1 + s_.below(2) : 0;
    std::set<std::pair<size_t, size_t>> used;
    for (size_t h = 0; h < holes; ++h) {
      size_t hc = a + s_.below(b - a), hr = r0 + s_.below(r1 - r0);
      if (!used.insert({hc, hr}).second) continue;
      double x = 4. * hc + 2, y = 4. * hr + 2;
      Points3d p{newPoint(x - .5, y - .5), newPoint(x + .5, y - .5), newPoint(x + .5, y + .25), newPoint(x - .25, y + .5)};
      if (s_.chance(1, 2)) {
        inner.push_back({newLs(p)});
      } else {
        inner.push_back({newLs({p[0], p[1], p[2]}), newLs({p[2], p[3], p[0]})});
      }
    }
    w.areas.push_back(Area(nextId(4), outer, inner));
  }
  void polygon() {
    double x = s_.grid(-4, 20, 0.5), y = s_.grid(-4, 20, 0.5), a = 0.5 + s_.grid(0, 4, 0.5), b = 0.5 + s_.grid(0, 4, 0.5);
    Points3d p;
    if (s_.chance(1, 3) && w.grid.size() > 1) {  // made of lattice points
      size_t r = s_.below(w.grid.size() - 1), k = s_.below(w.grid[0].size() - 1);
      p = {w.grid[r][k], w.grid[r + 1][k], w.grid[r + 1][k + 1], w.grid[r][k + 1]};
    } else if (s_.flip()) {
      p = {newPoint(x, y), newPoint(x, y + b), newPoint(x + a, y)};
    } else {  // concave
      p = {newPoint(x, y), newPoint(x, y + 2 * b), newPoint(x + a, y + b), newPoint(x + 2 * a, y + 2 * b),
           newPoint(x + 2 * a, y)};
    }
    w.polys.push_back(Polygon3d(nextId(2), p));
  }
  void junkLs() {
    Points3d p;
    size_t n = s_.of<size_t>({0, 1, 2, 2, 3, 5});
    for (size_t i = 0; i < n; ++i) {
      if (s_.chance(1, 2) && !w.pts.empty()) {
        p.push_back(s_.pick(w.pts));  // may repeat a point
      } else {
        p.push_back(newPoint(s_.grid(-10, 30, 0.5), s_.grid(-10, 30, 0.5)));
      }
    }
    newLs(p);
  }
  RuleParameter param() {
    while (true) {
      switch (s_.below(5)) {
        case 0:
          if (!w.pts.empty()) return s_.pick(w.pts);
          break;
        case 1:
          if (!w.ls.empty()) return s_.flip() ? s_.pick(w.ls) : s_.pick(w.ls).invert();
          break;
        case 2:
          if (!w.polys.empty()) return s_.pick(w.polys);
          break;
        case 3:
          if (!w.llts.empty()) return WeakLanelet(s_.pick(w.llts));
          break;
        default:
          if (!w.areas.empty()) return WeakArea(s_.pick(w.areas));
      }
    }
  }
  void regelem() {
    RuleParameterMap m;
    size_t n = s_.below(5);
    for (size_t i = 0; i < n; ++i) {
      m[s_.of<std::string>({"refers", "ref_line", "yield", "right_of_way", "other", "x y"})].push_back(param());
    }
    auto r = std::make_shared<GenericRegulatoryElement>(nextId(5), m);
    w.regs.push_back(r);
    size_t users = s_.below(3);
    for (size_t i = 0; i < users; ++i) {
      if (!w.llts.empty() && s_.flip()) {
        w.llts[s_.below(w.llts.size())].addRegulatoryElement(r);
      } else if (!w.areas.empty()) {
        w.areas[s_.below(w.areas.size())].addRegulatoryElement(r);
      }
    }
  }
  //! fills the world with n extra primitives
  void fill(size_t n) {
    lattice();
    for (size_t i = 0; i < n; ++i) {
      switch (s_.weighted({4, 3, 2, 2, o_.junk ? 2u : 0u, o_.regelems ? 3u : 0u, o_.junk ? 1u : 0u})) {
        case 0: lanelet(); break;
        case 1: area(); break;
        case 2: polygon(); break;
        case 3: newPoint(s_.grid(-10, 30, 0.5), s_.grid(-10, 30, 0.5)); break;
        case 4: junkLs(); break;
        case 5: regelem(); break;
        default:
          if (s_.flip()) {
            w.llts.push_back(Lanelet(nextId(3), LineString3d(nextId(1)), LineString3d(nextId(1))));
          } else {
            w.areas.push_back(Area(nextId(4), LineStrings3d{}));
          }
      }
    }
  }

 private:
  Case& c_;
  pbt::Src& s_;
  Opts o_;
  int mode_;
  Id shift_;
  std::map<int, Id> cnt_;
  std::map<std::pair<size_t, std::pair<size_t, size_t>>, LineStrings3d> rows_, cols_;
};

// ---- oracle views of primitives -------------------------------------------------------------------------------
inline geo::L2 line(const ConstLineString3d& l) { return conv::l2(l); }
inline geo::L2 ring(const ConstLineStrings3d& parts) {
  // concatenation without repeated consecutive points, closed or not
  geo::L2 r;
  std::vector<const void*> seen;
  for (auto& l : parts)
    for (size_t i = 0; i < l.size(); ++i) {
      const void* d = l[i].constData().get();
      if (!seen.empty() && seen.back() == d) continue;
      seen.push_back(d);
      r.push_back({l[i].x(), l[i].y()});
    }
  while (seen.size() > 1 && seen.front() == seen.back()) seen.pop_back(), r.pop_back();
  return r;
}
inline geo::Poly poly(const ConstLanelet& l) {
  geo::Poly g;
  g.outer = conv::l2(l.leftBound());
  auto rb = conv::l2(l.rightBound());
  g.outer.insert(g.outer.end(), rb.rbegin(), rb.rend());
  return g;
}
inline geo::Poly poly(const ConstArea& a) {
  geo::Poly g;
  g.outer = ring(a.outerBound());
  for (auto& i : a.innerBounds()) g.holes.push_back(ring(i));
  return g;
}
inline geo::Poly poly(const ConstPolygon3d& p) { return {conv::l2(p), {}}; }
inline geo::Box box(const ConstPoint3d& p) {
  geo::Box b;
  b.add(conv::p2(p));
  return b;
}
inline geo::Box box(const ConstLineString3d& l) {
  geo::Box b;
  b.add(line(l));
  return b;
}
inline geo::Box box(const ConstPolygon3d& l) {
  geo::Box b;
  b.add(poly(l).outer);
  return b;
}
inline geo::Box box(const ConstLanelet& l) {
  geo::Box b;
  b.add(poly(l).outer);
  return b;
}
inline geo::Box box(const ConstArea& l) {
  geo::Box b;
  b.add(poly(l).outer);
  return b;
}
struct BoxVisitor : RuleParameterVisitor {
  geo::Box b;
  void operator()(const ConstPoint3d& p) override { b.add(box(p)); }
  void operator()(const ConstLineString3d& p) override { b.add(box(p)); }
  void operator()(const ConstPolygon3d& p) override { b.add(box(p)); }
  void operator()(const ConstWeakLanelet& p) override {
    if (!p.expired()) b.add(box(p.lock()));
  }
  void operator()(const ConstWeakArea& p) override {
    if (!p.expired()) b.add(box(p.lock()));
  }
};
inline geo::Box box(const RegulatoryElementConstPtr& r) {
  BoxVisitor v;
  for (auto& role : r->getParameters())
    for (auto& p : role.second) boost::apply_visitor(v, p);
  return v.b;
}
inline double dist(geo::P2 q, const ConstPoint3d& p) { return geo::dist(q, conv::p2(p)); }
inline double dist(geo::P2 q, const ConstLineString3d& p) { return geo::pointLine(q, line(p)); }
inline double dist(geo::P2 q, const ConstPolygon3d& p) { return geo::pointPoly(q, poly(p)); }
inline double dist(geo::P2 q, const ConstLanelet& p) { return geo::pointPoly(q, poly(p)); }
inline double dist(geo::P2 q, const ConstArea& p) { return geo::pointPoly(q, poly(p)); }
struct DistVisitor : RuleParameterVisitor {
  geo::P2 q;
  double d{geo::INF};
  void operator()(const ConstPoint3d& p) override { d = std::min(d, dist(q, p)); }
  void operator()(const ConstLineString3d& p) override { d = std::min(d, dist(q, p)); }
  void operator()(const ConstPolygon3d& p) override { d = std::min(d, dist(q, p)); }
  void operator()(const ConstWeakLanelet& p) override {
    if (!p.expired() && !box(p.lock()).empty()) d = std::min(d, dist(q, p.lock()));
  }
  void operator()(const ConstWeakArea& p) override {
    if (!p.expired() && !box(p.lock()).empty()) d = std::min(d, dist(q, p.lock()));
  }
};
inline double dist(geo::P2 q, const RegulatoryElementConstPtr& r) {
  DistVisitor v;
  v.q = q;
  for (auto& role : r->getParameters())
    for (auto& p : role.second) boost::apply_visitor(v, p);
  return v.d;
}
}  // namespace world
