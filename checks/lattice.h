// Lanelets and areas on a lattice of shared borders, with an index model of their bounds.
#pragma once
#include "corridor.h"

namespace lattice {
using namespace lanelet;
using geo::L2;
using geo::P2;
using geo::P3;
using pbt::Case;

struct LsH {
  int ls{-1};
  bool inv{false};
  LsH flip() const { return {ls, !inv}; }
  bool operator==(const LsH& o) const { return ls == o.ls && inv == o.inv; }
};
struct LltM {
  LsH left, right;  // as stored
};
struct ArM {
  std::vector<LsH> outer;
  std::vector<std::vector<LsH>> inner;
};
struct World {
  Case& c;
  pbt::Src& s;
  std::vector<Point3d> pts;
  std::vector<std::vector<int>> lsPts;
  std::vector<LineString3d> ls;
  std::vector<LltM> lltM;
  std::vector<Lanelet> llts;
  std::vector<ArM> arM;
  std::vector<Area> ars;
  bool flatZ{true};
  explicit World(Case& cc) : c{cc}, s{cc.src} {}

  int addPt(P2 p, double z) {
    pts.emplace_back(Id(pts.size() + 1), p.x, p.y, z);
    return int(pts.size()) - 1;
  }
  LsH addLs(std::vector<int> ids) {  // returns the handle that runs in the order of ids; stored direction is random
    bool inv = s.flip();
    if (inv) std::reverse(ids.begin(), ids.end());
    LineString3d l(10000 + Id(ls.size()));
    for (int i : ids) l.push_back(pts[size_t(i)]);
    ls.push_back(l);
    lsPts.push_back(ids);
    return {int(ls.size()) - 1, inv};
  }
  LineString3d real(LsH h) const { return h.inv ? ls[size_t(h.ls)].invert() : ls[size_t(h.ls)]; }
  std::vector<int> list(LsH h) const {
    auto l = lsPts[size_t(h.ls)];
    if (h.inv) std::reverse(l.begin(), l.end());
    return l;
  }
  P2 at(int i) const { return conv::p2(pts[size_t(i)]); }
  P3 at3(int i) const { return conv::p3(pts[size_t(i)]); }
  L2 pos(LsH h) const {
    L2 r;
    for (int i : list(h)) r.push_back(at(i));
    return r;
  }
  static std::vector<int> uniq(std::vector<int> v) {
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() > 1 && v.front() == v.back()) v.pop_back();
    return v;
  }
  std::vector<int> ring(const std::vector<LsH>& hs) const {
    std::vector<int> r;
    for (auto& h : hs)
      for (int i : list(h)) r.push_back(i);
    return uniq(r);
  }
  std::vector<int> ring(const LltM& m) const { return ring(std::vector<LsH>{m.left, m.right.flip()}); }
  L2 ringPos(const std::vector<int>& r) const {
    L2 o;
    for (int i : r) o.push_back(at(i));
    return o;
  }
  geo::Poly poly(const LltM& m) const { return {ringPos(ring(m)), {}}; }
  geo::Poly poly(const ArM& m, bool holes = true) const {
    geo::Poly g{ringPos(ring(m.outer)), {}};
    if (holes)
      for (auto& i : m.inner) g.holes.push_back(ringPos(ring(i)));
    return g;
  }
  void addLlt(LsH left, LsH right) {
    if (!geo::simpleRing(ringPos(ring(LltM{left, right})))) return;
    if (geo::ringArea(ringPos(ring(LltM{left, right}))) > 0) {  // wrong way round: make it a proper lanelet
      LsH l = left;
      left = right, right = l;
      if (geo::ringArea(ringPos(ring(LltM{left, right}))) > 0) left = left.flip(), right = right.flip();
      if (!geo::simpleRing(ringPos(ring(LltM{left, right}))) || geo::ringArea(ringPos(ring(LltM{left, right}))) > 0) return;
    }
    lltM.push_back({left, right});
    llts.emplace_back(20000 + Id(llts.size()), real(left), real(right));
  }
  void addArea(std::vector<LsH> outer, std::vector<std::vector<LsH>> inner = {}) {
    if (!geo::simpleRing(ringPos(ring(outer)))) return;
    if (geo::ringArea(ringPos(ring(outer))) > 0) return;
    ArM m{outer, inner};
    LineStrings3d o;
    for (auto& h : outer) o.push_back(real(h));
    InnerBounds in;
    for (auto& i : inner) {
      LineStrings3d l;
      for (auto& h : i) l.push_back(real(h));
      in.push_back(l);
    }
    arM.push_back(m);
    ars.emplace_back(30000 + Id(ars.size()), o, in);
  }
  LsH edge(int a, int b, double z, double wiggle) {
    std::vector<int> ids{a};
    size_t n = s.weighted({5, 2, 1, 1});
    for (size_t i = 1; i <= n; ++i) {
      double t = double(i) / double(n + 1);
      P2 p = at(a) + t * (at(b) - at(a));
      auto r = [&](double v) { return std::round((v + wiggle * s.real(-1, 1)) * 64) / 64; };
      ids.push_back(addPt({r(p.x), r(p.y)}, z));
    }
    ids.push_back(b);
    return addLs(ids);
  }
  //! lattice of cells; rows and columns become lanelets or areas that share borders
  void lattice(double z, P2 org, double w, double h, int rows, int cols) {
    std::vector<std::vector<int>> p(size_t(rows) + 1, std::vector<int>(size_t(cols) + 1));
    double jit = s.of({0., 0.2});
    auto snap = [](double v) { return std::round(v * 64) / 64; };
    for (int r = 0; r <= rows; ++r)
      for (int q = 0; q <= cols; ++q)
        p[r][q] = addPt({snap(org.x + w * q + jit * w * s.real(-1, 1)), snap(org.y + h * r + jit * h * s.real(-1, 1))},
                        flatZ ? z : z + s.grid(-1, 1, 0.25));
    double wig = s.of({0., 0.08}) * std::min(w, h);
    std::map<std::pair<int, int>, LsH> edges;
    auto e = [&](int a, int b) {
      auto it = edges.find({a, b});
      if (it != edges.end()) return it->second;
      it = edges.find({b, a});
      if (it != edges.end()) return it->second.flip();
      return edges[{a, b}] = edge(a, b, z, wig);
    };
    for (int r = 0; r < rows; ++r)
      for (int q = 0; q < cols; ++q) {
        int sw = p[r][q], se = p[r][q + 1], nw = p[r + 1][q], ne = p[r + 1][q + 1];
        for (size_t t = 0, n = s.weighted({1, 6, 3}); t < n; ++t) switch (s.below(5)) {
            case 0: addLlt(e(nw, ne), e(sw, se)); break;  // eastwards
            case 1: addLlt(e(se, sw), e(ne, nw)); break;  // westwards
            case 2: addLlt(e(sw, nw), e(se, ne)); break;  // northwards
            case 3: addLlt(e(ne, se), e(nw, sw)); break;  // southwards
            default: {
              std::vector<LsH> o{e(sw, nw), e(nw, ne), e(ne, se), e(se, sw)};
              std::rotate(o.begin(), o.begin() + long(s.below(4)), o.end());
              std::vector<std::vector<LsH>> in;
              if (s.chance(1, 2)) {  // hole, counter clockwise
                P2 m = 0.25 * (at(sw) + at(se) + at(nw) + at(ne));
                double hx = snap(w * 0.1), hy = snap(h * 0.1);
                m = {snap(m.x), snap(m.y)};
                int a = addPt({m.x - hx, m.y - hy}, z), b = addPt({m.x + hx, m.y - hy}, z), d = addPt({m.x + hx, m.y + hy}, z),
                    f = addPt({m.x - hx, m.y + hy}, z);
                if (s.flip()) in.push_back({addLs({a, b, d}), addLs({d, f, a})});
                else in.push_back({addLs({a, b, d, f, a})});
              }
              addArea(o, in);
            }
          }
        // two cells at once
        if (q + 1 < cols && s.chance(1, 4)) {
          int see = p[r][q + 2], nee = p[r + 1][q + 2];
          addArea({e(sw, nw), e(nw, ne), e(ne, nee), e(nee, see), e(see, se), e(se, sw)});
        }
        // turning and diagonal lanelets inside or across cells
        if (s.chance(1, 4)) addLlt(e(nw, ne), e(sw, se));
        if (q + 1 < cols && r + 1 < rows && s.chance(1, 4)) {
          int n2 = p[r + 2][q + 2], n1 = p[r + 1][q + 2];
          addLlt(e(nw, n2), e(sw, n1));  // one lane to the left
        }
        if (r + 1 < rows && q + 1 < cols && s.chance(1, 6)) {  // left turn: from the west, to the north
          int t0 = p[r + 2][q], t1 = p[r + 2][q + 1];
          addLlt(e(nw, t0), addLs({sw, ne, t1}));
        }
        if (s.chance(1, 10)) addLlt(e(nw, ne), addLs({sw, se}));  // same left bound, other right bound
      }
  }
  void free() {
    auto cor = corridor::make(c);
    P2 d = cor.mid[s.below(cor.mid.size())];
    double ox = s.grid(-10, 25, 0.5), oy = s.grid(-10, 25, 0.5), z = s.of({0., 0., 2., 10.});
    auto mk = [&](const L2& l) {
      std::vector<int> ids;
      for (auto& p : l) ids.push_back(addPt({std::round((p.x - d.x + ox) * 64) / 64, std::round((p.y - d.y + oy) * 64) / 64}, z));
      return addLs(ids);
    };
    addLlt(mk(cor.left), mk(cor.right));
  }
  void fill() {
    flatZ = !s.chance(1, 5);
    lattice(0, {0, 0}, s.of({4., 8., 16.}), s.of({3., 4., 8.}), int(s.range(1, 3)), int(s.range(1, 4)));
    if (s.chance(1, 2)) lattice(s.of({0., 2., 4., -6.}), {s.grid(-8, 12, 0.5), s.grid(-8, 12, 0.5)}, s.of({4., 8.}), s.of({3., 4.}), 1, int(s.range(1, 3)));
    size_t n = s.below(3);
    for (size_t i = 0; i < n; ++i) free();
  }
  void describe() {
    c.describe([this](auto& o) {
      o << llts.size() << " lanelets, " << ars.size() << " areas, " << pts.size() << " points;";
      for (size_t i = 0; i < lltM.size() && i < 4; ++i) {
        o << " L" << i << "[";
        for (auto& p : ringPos(ring(lltM[i]))) o << p.x << "," << p.y << " ";
        o << "]";
      }
    });
  }
};
struct V {  // a lanelet handle
  Lanelet l;
  LsH left, right;
  int m;
  bool inv;
};
inline V pickL(World& w) {
  int m = int(w.s.below(w.llts.size()));
  bool inv = w.s.flip();
  auto& q = w.lltM[size_t(m)];
  if (inv) return {w.llts[size_t(m)].invert(), q.right.flip(), q.left.flip(), m, inv};
  return {w.llts[size_t(m)], q.left, q.right, m, inv};
}
}  // namespace lattice
