// C06: distances, projections and closest segments against the minimum over all pairs of segments.
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>

#include "conv.h"
using namespace lanelet;
using geo::L2;
using geo::L3;
using geo::P2;
using geo::P3;
namespace lg = lanelet::geometry;

namespace {
constexpr double G = 1. / 64;  // everything lies on this grid: cross products are exact, nothing is almost parallel
constexpr double TOL = 1e-7;
double snap(double v) { return std::round(v / G) * G; }
size_t lineSize(pbt::Src& s, size_t maxN) {
  switch (s.weighted({6, 3, 2, 2})) {
    case 0: return size_t(s.range(2, 6));
    case 1: return size_t(s.range(7, 30));
    case 2: return std::min<size_t>(maxN, size_t(s.range(46, 54)));
    default: return std::min<size_t>(maxN, size_t(s.range(50, 300)));
  }
}
double pickZ(pbt::Src& s, int kind, double last) {
  switch (kind) {
    case 0: return 0;
    case 1: return last;
    case 2: return last + s.grid(-1, 1, 0.25);
    default: return s.grid(-8, 8, 0.5);
  }
}
L3 genLine(Case& c, size_t n, P3 start) {
  auto& s = c.src;
  int kind = int(s.below(6)), zk = int(s.below(4));
  L3 r;
  P3 p = start;
  if (zk == 0) p.z = 0;
  double phi = s.real(0, 2 * M_PI), turn = s.real(-0.3, 0.3), step = s.of({0.5, 1., 3.});
  for (size_t i = 0; i < n; ++i) {
    if (i) {
      double z = pickZ(s, zk, p.z);
      switch (kind) {
        case 0:  // random walk
          p.x += s.grid(-4, 4, 0.25), p.y += s.grid(-4, 4, 0.25);
          break;
        case 1:  // axis parallel, folds back onto itself
          (s.flip() ? p.x : p.y) += s.grid(-2, 2, 1);
          break;
        case 2:  // straight, uneven
          p.x += s.grid(0.25, 3, 0.25);
          break;
        case 3:  // smooth
          phi += turn;
          p.x = snap(p.x + step * std::cos(phi)), p.y = snap(p.y + step * std::sin(phi));
          break;
        case 4:  // zigzag with acute corners
          p.x += 0.5, p.y += (i % 2 ? 1 : -1) * s.grid(1, 6, 0.5);
          break;
        default:  // off the coarse grid
          p.x = snap(p.x + s.real(-3, 3)), p.y = snap(p.y + s.real(-3, 3));
      }
      p.z = z;
      if (s.chance(1, 25)) p = r.back();  // repeated point
    }
    r.push_back(p);
  }
  return r;
}
P3 genPoint(Case& c, const L3& l) {
  auto& s = c.src;
  const P3& b = l[s.below(l.size())];
  switch (s.below(5)) {
    case 0: return b;
    case 1: {
      auto& a = l[s.below(l.size())];
      return {snap((a.x + b.x) / 2), snap((a.y + b.y) / 2), snap((a.z + b.z) / 2)};
    }
    case 2: return {b.x + s.grid(-1, 1, 0.25), b.y + s.grid(-1, 1, 0.25), b.z};
    case 3: return {b.x + s.grid(-10, 10, 0.5), b.y + s.grid(-10, 10, 0.5), b.z + s.grid(-5, 5, 0.5)};
    default: return {b.x + s.grid(-300, 300, 1), b.y + s.grid(-300, 300, 1), s.grid(-20, 20, 1)};
  }
}
P3 origin(Case& c) {
  return c.src.of<P3>({{0, 0, 0}, {0, 0, 0}, {-1000.5, 2000.25, 100}, {458000, 5430000, 115}});
}
struct Reps {  // one geometric line in every representation
  L3 pts;
  LineString3d ls;
  LineString3d inv;  // inverted handle of reversed storage: same direction
  CompoundLineString3d comp;
  BasicLineString3d basic;
};
Reps reps(Case& c, const L3& l, Id base) {
  Reps r;
  r.pts = l;
  r.ls = LineString3d(base);
  LineString3d back(base + 1);
  std::vector<Point3d> pts;
  for (size_t i = 0; i < l.size(); ++i) pts.emplace_back(base + 10 + Id(i), l[i].x, l[i].y, l[i].z);
  for (auto& p : pts) r.ls.push_back(p);
  for (size_t i = pts.size(); i-- > 0;) back.push_back(pts[i]);
  r.inv = back.invert();
  // compound: cut at random positions; neighbouring parts share the joint point; some parts stored inverted
  std::vector<ConstLineString3d> parts;
  size_t i = 0;
  Id pid = base + 5000;
  while (i + 1 < pts.size()) {
    size_t j = c.src.chance(1, 3) ? pts.size() - 1 : std::min(pts.size() - 1, i + 1 + c.src.below(12));
    Points3d pp(pts.begin() + i, pts.begin() + j + 1);
    if (c.src.flip()) {
      std::reverse(pp.begin(), pp.end());
      parts.push_back(ConstLineString3d(LineString3d(pid++, pp).invert()));
    } else {
      parts.push_back(LineString3d(pid++, pp));
    }
    i = j;
  }
  r.comp = CompoundLineString3d(parts);
  r.basic = r.ls.basicLineString();
  return r;
}
template <typename B>
auto oraclePoint(const B& b);
template <>
auto oraclePoint(const BasicPoint2d& b) {
  return conv::p2(b);
}
template <>
auto oraclePoint(const BasicPoint3d& b) {
  return conv::p3(b);
}
template <typename Seg, typename P>
void checkSegment(const Seg& seg, const std::vector<P>& l, P p, double d, const std::string& what) {
  auto a = oraclePoint(utils::toBasicPoint(seg.first)), b = oraclePoint(utils::toBasicPoint(seg.second));
  double ds = geo::pointSeg(p, a, b);
  PBT_CHECK(std::abs(ds - d) <= TOL, what << " closestSegment is " << ds << " away, minimum is " << d);
  bool found = false;
  for (size_t i = 0; i + 1 < l.size() && !found; ++i) found = geo::dist(l[i], a) == 0 && geo::dist(l[i + 1], b) == 0;
  PBT_CHECK(found, what << " closestSegment is not a segment of the line in its direction");
}
template <typename P, typename B>
void checkProjected(B q, const std::vector<P>& l, P p, double d, const std::string& what) {
  auto o = oraclePoint(q);
  PBT_CHECK(geo::pointLine(o, l) <= TOL, what << " projected point is off the line by " << geo::pointLine(o, l));
  PBT_CHECK(std::abs(geo::dist(o, p) - d) <= TOL, what << " projection at distance " << geo::dist(o, p) << ", minimum " << d);
}
void near(double got, double exp, const std::string& what) {
  PBT_CHECK(std::abs(got - exp) <= TOL, what << " got " << std::setprecision(12) << got << " expected " << exp);
}

void pointLine(Case& c) {
  auto& s = c.src;
  L3 l = genLine(c, lineSize(s, 300), origin(c));
  Reps r = reps(c, l, 1000);
  L2 l2 = geo::to2(l);
  L3 lr(l.rbegin(), l.rend());
  L2 l2r(l2.rbegin(), l2.rend());
  bool interior = false;
  size_t k = 1 + s.below(4);
  for (size_t i = 0; i < k; ++i) {
    P3 p = genPoint(c, l);
    P2 q = geo::to2(p);
    double d3 = geo::pointLine(p, l), d2 = geo::pointLine(q, l2);
    interior |= d2 > 0;
    auto b3 = conv::bp(p);
    auto b2 = conv::bp(q);
    Point3d pt(1, p.x, p.y, p.z);
    auto two = [&](const auto& ls, const L2& pts, const std::string& w) {
      near(lg::distance(ls, b2), d2, w + " distance(2d)");
      near(lg::distance(b2, ls), d2, w + " distance(2d) swapped");
      near(lg::distance2d(ls, b2), d2, w + " distance2d");
      near(lg::distance2d(pt, ls), d2, w + " distance2d of a primitive point");
      checkProjected(lg::project(ls, b2), pts, q, d2, w + " 2d");
      checkSegment(lg::closestSegment(ls, b2), pts, q, d2, w + " 2d");
    };
    auto three = [&](const auto& ls, const L3& pts, const std::string& w) {
      near(lg::distance(ls, b3), d3, w + " distance(3d)");
      near(lg::distance(b3, ls), d3, w + " distance(3d) swapped");
      near(lg::distance3d(ls, b3), d3, w + " distance3d");
      near(lg::distance3d(pt, ls), d3, w + " distance3d of a primitive point");
      checkProjected(lg::project(ls, b3), pts, p, d3, w + " 3d");
      checkSegment(lg::closestSegment(ls, b3), pts, p, d3, w + " 3d");
    };
    switch (s.below(6)) {
      case 0:
        three(ConstLineString3d(r.ls), l, "plain");
        two(ConstLineString2d(utils::to2D(ConstLineString3d(r.ls))), l2, "plain");
        checkProjected(lg::project(r.ls, b3), l, p, d3, "mutable 3d");
        checkProjected(lg::project(utils::to2D(r.ls), b2), l2, q, d2, "mutable 2d");
        near(lg::distance2d(r.ls, pt), d2, "distance2d(LineString3d, Point3d)");
        near(lg::distance2d(r.ls, utils::to2D(pt)), d2, "distance2d(LineString3d, Point2d)");
        near(lg::distance3d(r.ls, pt), d3, "distance3d(LineString3d, Point3d)");
        break;
      case 1:
        three(ConstLineString3d(r.inv), l, "inverted storage");
        two(utils::to2D(ConstLineString3d(r.inv)), l2, "inverted storage");
        three(ConstLineString3d(r.ls.invert()), lr, "inverted");
        two(utils::to2D(ConstLineString3d(r.ls.invert())), l2r, "inverted");
        break;
      case 2:
        three(ConstHybridLineString3d(r.ls), l, "hybrid");
        two(ConstHybridLineString2d(utils::to2D(r.ls)), l2, "hybrid");
        three(ConstHybridLineString3d(r.ls.invert()), lr, "inverted hybrid");
        break;
      case 3:
        three(r.comp, l, "compound");
        two(utils::to2D(r.comp), l2, "compound");
        break;
      case 4:
        three(r.comp.invert(), lr, "inverted compound");
        three(CompoundHybridLineString3d(r.comp), l, "compound hybrid");
        two(CompoundHybridLineString2d(utils::to2D(r.comp)), l2, "compound hybrid");
        two(CompoundHybridLineString2d(utils::to2D(r.comp.invert())), l2r, "inverted compound hybrid");
        break;
      default: {
        BasicLineString2d b = conv::bl(l2);
        near(lg::distance(r.basic, b3), d3, "basic distance(3d)");
        near(lg::distance(b, b2), d2, "basic distance(2d)");
        near(lg::distance2d(b, b2), d2, "basic distance2d");
        checkProjected(lg::project(r.basic, b3), l, p, d3, "basic 3d");
        checkProjected(lg::project(b, b2), l2, q, d2, "basic 2d");
        checkSegment(lg::closestSegment(r.basic, b3), l, p, d3, "basic 3d");
        checkSegment(lg::closestSegment(b, b2), l2, q, d2, "basic 2d");
        // single segments
        size_t j = s.below(l.size() - 1);
        checkProjected(lg::project(BasicSegment3d{conv::bp(l[j]), conv::bp(l[j + 1])}, b3), {l[j], l[j + 1]}, p,
                       geo::pointSeg(p, l[j], l[j + 1]), "segment 3d");
        checkProjected(lg::project(BasicSegment2d{conv::bp(l2[j]), conv::bp(l2[j + 1])}, b2), {l2[j], l2[j + 1]}, q,
                       geo::pointSeg(q, l2[j], l2[j + 1]), "segment 2d");
      }
    }
    // point to point
    P3 o = genPoint(c, l);
    Point3d po(2, o.x, o.y, o.z);
    near(lg::distance2d(pt, po), geo::dist(q, geo::to2(o)), "distance2d of points");
    near(lg::distance3d(pt, po), geo::dist(p, o), "distance3d of points");
    near(lg::distance(pt, po), geo::dist(p, o), "distance of points");
    near(lg::distance(utils::to2D(pt), utils::to2D(po)), geo::dist(q, geo::to2(o)), "distance of 2d points");
    near(lg::distance2d(b3, po), geo::dist(q, geo::to2(o)), "distance2d of a basic point and a point");
    c.did();
  }
  if (l.size() >= 50) c.label("at least 50 points");
  c.nontrivial(interior && l.size() > 2);
  c.describe([&](auto& o) { o << l.size() << " points, " << k << " queries, first (" << l[0].x << "," << l[0].y << "," << l[0].z << ")"; });
}

void lineLine(Case& c) {
  auto& s = c.src;
  P3 o = origin(c);
  size_t n = lineSize(s, 90), m = lineSize(s, 90);
  L3 a = genLine(c, n, o);
  L3 b;
  switch (s.below(4)) {
    case 0: b = genLine(c, m, genPoint(c, a)); break;  // close by
    case 1: {                                         // shifted copy: parallel segments
      b = a;
      P3 d{s.grid(-3, 3, 0.5), s.grid(-3, 3, 0.5), s.grid(-2, 2, 0.5)};
      for (auto& p : b) p = p + d;
      if (s.flip()) std::reverse(b.begin(), b.end());
      if (b.size() > 3 && s.flip()) b.resize(2 + s.below(b.size() - 2));
      break;
    }
    case 2: b = genLine(c, m, {o.x + s.grid(-200, 200, 5), o.y + s.grid(-200, 200, 5), o.z}); break;
    default: b = genLine(c, m, a[s.below(a.size())]);  // shares a point
  }
  bool single = s.chance(1, 20);
  if (single) b.resize(1);
  Reps ra = reps(c, a, 1000), rb = reps(c, b, 10000);
  L2 a2 = geo::to2(a), b2 = geo::to2(b);
  double d3 = geo::lineLine(a, b), d2 = geo::lineLine(a2, b2);
  auto pair = [&](const auto& pr, const auto& x, const auto& y, double d, const std::string& w) {
    auto p = oraclePoint(pr.first), q = oraclePoint(pr.second);
    PBT_CHECK(geo::pointLine(p, x) <= TOL, w << " first point is off the first line by " << geo::pointLine(p, x));
    PBT_CHECK(geo::pointLine(q, y) <= TOL, w << " second point is off the second line by " << geo::pointLine(q, y));
    near(geo::dist(p, q), d, w + " projected points");
    c.did();
  };
  auto two = [&](const auto& x, const auto& y, const std::string& w) {
    near(lg::distance2d(x, y), d2, w + " distance2d");
    near(lg::distance2d(y, x), d2, w + " distance2d swapped");
  };
  auto proj2 = [&](const auto& x, const auto& y, const std::string& w) {
    pair(lg::projectedPoint2d(x, y), a2, b2, d2, w + " 2d");
    pair(lg::projectedPoint2d(y, x), b2, a2, d2, w + " 2d swapped");
  };
  auto proj3 = [&](const auto& x, const auto& y, const std::string& w) {
    pair(lg::projectedPoint3d(x, y), a, b, d3, w + " 3d");
    pair(lg::projectedPoint3d(y, x), b, a, d3, w + " 3d swapped");
  };
  auto three = [&](const auto& x, const auto& y, const std::string& w) {
    near(lg::distance3d(x, y), d3, w + " distance3d");
    near(lg::distance3d(y, x), d3, w + " distance3d swapped");
  };
  bool ia = s.flip(), ib = s.flip();
  ConstLineString3d ca = ia ? ConstLineString3d(ra.inv) : ConstLineString3d(s.flip() ? ra.ls : ra.ls.invert());
  ConstLineString3d cb = ib ? ConstLineString3d(rb.inv) : ConstLineString3d(s.flip() ? rb.ls : rb.ls.invert());
  if (single) {
    three(ca, cb, "single point");
    proj3(ca, cb, "single point");
    proj2(utils::to2D(ca), utils::to2D(cb), "single point");
    proj3(ra.basic, rb.basic, "basic single point");
    c.label("single point line");
    c.nontrivial(a.size() > 2);
    return;
  }
  switch (s.below(5)) {
    case 0:
      three(ca, cb, "plain");
      proj3(ca, cb, "plain");
      two(utils::to2D(ca), utils::to2D(cb), "plain");
      proj2(utils::to2D(ca), utils::to2D(cb), "plain");
      near(lg::distance(utils::toHybrid(utils::to2D(ca)), utils::toHybrid(utils::to2D(cb))), d2, "distance of hybrid 2d lines");
      near(lg::distance3d(ra.ls, rb.ls), d3, "distance3d of mutable lines");
      break;
    case 1:
      three(ConstHybridLineString3d(ca), ConstHybridLineString3d(cb), "hybrid");
      proj3(ConstHybridLineString3d(ca), ConstHybridLineString3d(cb), "hybrid");
      two(ConstHybridLineString2d(utils::to2D(ca)), ConstHybridLineString2d(utils::to2D(cb)), "hybrid");
      proj2(ConstHybridLineString2d(utils::to2D(ca)), ConstHybridLineString2d(utils::to2D(cb)), "hybrid");
      break;
    case 2:
      three(ra.comp, rb.comp, "compound");
      proj3(ra.comp, rb.comp.invert(), "compound");
      two(utils::to2D(ra.comp), utils::to2D(rb.comp), "compound");
      proj2(utils::to2D(ra.comp), utils::to2D(rb.comp), "compound");
      proj3(CompoundHybridLineString3d(ra.comp), CompoundHybridLineString3d(rb.comp), "compound hybrid");
      break;
    case 3:
      three(ra.basic, rb.basic, "basic");
      proj3(ra.basic, rb.basic, "basic");
      near(lg::distance2d(conv::bl(a2), conv::bl(b2)), d2, "basic distance2d");
      proj2(conv::bl(a2), conv::bl(b2), "basic");
      break;
    default:  // mixed representations
      three(ca, rb.comp, "plain/compound");
      three(rb.basic, ca, "basic/plain");
      two(utils::to2D(ca), utils::to2D(rb.comp), "plain/compound");
  }
  c.label(d2 == 0 ? "touching or crossing in 2d" : "apart in 2d");
  if (std::max(a.size(), b.size()) >= 50) c.label("at least 50 points");
  c.nontrivial(a.size() > 2 && b.size() > 2);
  c.describe([&](auto& st) { st << a.size() << " x " << b.size() << " points, d2=" << d2 << " d3=" << d3; });
}

// star shaped ring on the grid, always simple
L2 genRing(Case& c, P2 ctr, size_t n, double rMin, double rMax) {
  auto& s = c.src;
  for (int t = 0; t < 4; ++t) {
    L2 r;
    bool even = s.chance(1, 4);
    double rr = s.real(rMin, rMax);
    for (size_t i = 0; i < n; ++i) {
      double phi = 2 * M_PI * (double(i) + (even ? 0 : s.real(-0.3, 0.3))) / double(n), q = even ? rr : s.real(rMin, rMax);
      P2 p{snap(ctr.x + q * std::cos(phi)), snap(ctr.y + q * std::sin(phi))};
      r.push_back(p);
    }
    if (geo::simpleRing(r)) {
      if (s.flip()) std::reverse(r.begin(), r.end());
      return r;
    }
  }
  throw pbt::Discard{};
}
size_t ringSize(pbt::Src& s) {
  switch (s.weighted({6, 3, 2})) {
    case 0: return size_t(s.range(3, 8));
    case 1: return size_t(s.range(9, 30));
    default: return size_t(s.range(47, 60));
  }
}
Polygon3d toPoly(Id id, const L3& r, bool inverted = false) {
  Polygon3d p(id);
  for (size_t i = 0; i < r.size(); ++i) {
    auto& q = r[inverted ? r.size() - 1 - i : i];
    p.push_back(Point3d(id * 1000 + Id(i), q.x, q.y, q.z));
  }
  return p;
}
CompoundPolygon3d toCompound(Case& c, Id id, const L3& r) {
  // pieces share their joints; the last one ends at the last point of the ring (open) or the first one (closed)
  auto& s = c.src;
  std::vector<ConstLineString3d> parts;
  std::vector<Point3d> pts;
  for (size_t i = 0; i < r.size(); ++i) pts.emplace_back(id * 1000 + Id(i), r[i].x, r[i].y, r[i].z);
  size_t i = 0;
  while (i + 1 < pts.size()) {
    size_t j = std::min(pts.size() - 1, i + 1 + s.below(20));
    parts.push_back(LineString3d(id * 1000 + 500 + Id(parts.size()), Points3d(pts.begin() + i, pts.begin() + j + 1)));
    i = j;
  }
  return CompoundPolygon3d(parts);
}
void polygons(Case& c) {
  auto& s = c.src;
  P2 ctr = s.of<P2>({{0, 0}, {0, 0}, {1000, -500}, {458000, 5430000}});
  L2 a = genRing(c, ctr, ringSize(s), 3, 10);
  P2 ctr2{ctr.x + s.grid(-25, 25, 0.5), ctr.y + s.grid(-25, 25, 0.5)};
  double f = s.of({0.2, 1., 1., 3.});
  L2 b = genRing(c, s.chance(1, 4) ? ctr : ctr2, ringSize(s), 3 * f, 10 * f);
  int zk = int(s.below(3));
  double za = zk ? s.grid(-5, 5, 0.5) : 0, zb = zk ? s.grid(-5, 5, 0.5) : 0;
  auto lift = [&](const L2& r, double z) {
    L3 o;
    for (auto& p : r) o.push_back({p.x, p.y, zk == 2 ? z + s.grid(-2, 2, 0.25) : z});
    return o;
  };
  L3 a3 = lift(a, za), b3 = lift(b, zb);
  double border = geo::lineLine(geo::closed(a3), geo::closed(b3));
  Polygon3d pa = toPoly(1, a3), pb = toPoly(2, b3);
  auto pair = [&](const auto& pr, const L3& x, const L3& y, const std::string& w) {
    auto p = conv::p3(pr.first), q = conv::p3(pr.second);
    PBT_CHECK(geo::pointLine(p, geo::closed(x)) <= TOL, w << " first point is not on the first border");
    PBT_CHECK(geo::pointLine(q, geo::closed(y)) <= TOL, w << " second point is not on the second border");
    near(geo::dist(p, q), border, w);
  };
  near(lg::distanceToBorder3d(ConstPolygon3d(pa), ConstPolygon3d(pb)), border, "distanceToBorder3d");
  near(lg::distanceToBorder3d(pb, pa), border, "distanceToBorder3d swapped");
  pair(lg::projectedBorderPoint3d(ConstPolygon3d(pa), ConstPolygon3d(pb)), a3, b3, "projectedBorderPoint3d");
  pair(lg::projectedBorderPoint3d(pb, pa), b3, a3, "projectedBorderPoint3d swapped");
  CompoundPolygon3d ca = toCompound(c, 3, a3), cb = toCompound(c, 4, b3);
  near(lg::distanceToBorder3d(ca, cb), border, "compound distanceToBorder3d");
  pair(lg::projectedBorderPoint3d(ca, cb), a3, b3, "compound projectedBorderPoint3d");
  // 2d distances to the filled polygon
  geo::Poly ga{a, {}}, gb{b, {}};
  double pp = geo::polyPoly(ga, gb);
  auto p2a = utils::to2D(pa);
  auto p2b = utils::to2D(pb);
  near(lg::distance2d(pa, pb), pp, "distance2d of polygons");
  near(lg::distance2d(p2b, p2a), pp, "distance2d of 2d polygons");
  near(lg::distance2d(ca, utils::to2D(cb)), pp, "distance2d of compound polygons");
  near(lg::distance(utils::toHybrid(p2a), utils::toHybrid(p2b)), pp, "distance of hybrid polygons");
  for (int i = 0; i < 3; ++i) {
    P3 q = genPoint(c, s.flip() ? a3 : b3);
    double d = geo::pointPoly(geo::to2(q), ga);
    Point3d pt(9, q.x, q.y, q.z);
    near(lg::distance2d(pa, pt), d, "distance2d(polygon, point)");
    near(lg::distance2d(utils::to2D(pt), p2a), d, "distance2d(point, polygon)");
    near(lg::distance(p2a, conv::bp(geo::to2(q))), d, "distance(polygon, point)");
    near(lg::distance(p2a.basicPolygon(), conv::bp(geo::to2(q))), d, "distance(basic polygon, point)");
    near(lg::distance2d(ca, pt), d, "distance2d(compound polygon, point)");
    bool in = geo::inPoly(geo::to2(q), ga);
    if (geo::pointBoundary(geo::to2(q), ga) > TOL)
      PBT_EQ(lg::within(conv::bp(geo::to2(q)), p2a), in, "within at distance " << d);
  }
  L3 l = genLine(c, size_t(s.range(2, 12)), {snap(ctr2.x), snap(ctr2.y), 0});
  LineString3d ls = reps(c, l, 100000).ls;
  double dl = geo::linePoly(geo::to2(l), ga);
  near(lg::distance2d(pa, ls), dl, "distance2d(polygon, line)");
  near(lg::distance2d(utils::to2D(ls), p2a), dl, "distance2d(line, polygon)");
  // area and boxes
  L2 rel;
  for (auto& p : a) rel.push_back(p - ctr);
  PBT_CHECK(std::abs(lg::area(p2a) + geo::ringArea(rel)) <= 1e-6 + 1e-15 * (ctr.x * ctr.x + ctr.y * ctr.y),
            "area (positive if clockwise) " << lg::area(p2a) << " vs " << -geo::ringArea(rel));
  auto box = [&](const L3& r, const auto& poly, const auto& poly2) {
    P3 lo = r[0], hi = r[0];
    for (auto& p : r)
      lo = {std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)}, hi = {std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)};
    auto b = lg::boundingBox3d(poly);
    PBT_CHECK(geo::dist(conv::p3(b.min()), lo) == 0 && geo::dist(conv::p3(b.max()), hi) == 0, "boundingBox3d");
    auto bb = lg::boundingBox2d(poly2);
    PBT_CHECK(geo::dist(conv::p2(bb.min()), geo::to2(lo)) == 0 && geo::dist(conv::p2(bb.max()), geo::to2(hi)) == 0, "boundingBox2d");
  };
  box(a3, pa, p2a);
  box(b3, cb, utils::to2D(cb));
  box(l, ls, utils::to2D(ls));
  box(l, ls.invert(), utils::to2D(ls.invert()));
  if (std::max(a.size(), b.size()) >= 50) c.label("at least 50 points");
  c.label(pp == 0 ? "intersecting" : "apart");
  c.nontrivial(a.size() > 3 && b.size() > 3);
  c.describe([&](auto& o) { o << a.size() << "-gon, " << b.size() << "-gon, border distance " << border << ", distance2d " << pp; });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C06";
  s.rule =
      "pointLine: lines of 2 to 300 points in every representation, queries on, near and far from the line; oracle: minimum over all segments, "
      "points must lie on the lines and attain it. lineLine: two lines (near, shifted copies, crossing, sharing points), both argument orders. "
      "polygons: star shaped rings, border and filled distances, boxes.";
  s.assumptions = {"coordinates lie on a 1/64 m grid, so segments are exactly parallel or clearly not", "tolerance 1e-7 m",
                   "empty line strings are not queried; lines have at least two points"};
  s.props = {{"pointLine", "non-trivial: more than two points and a query off the line", 60000, 1200000, pointLine},
             {"lineLine", "non-trivial: both lines have more than two points", 40000, 800000, lineLine},
             {"polygons", "non-trivial: both rings have more than three points", 20000, 400000, polygons}};
  return pbt::runMain(s, argc, argv);
}
