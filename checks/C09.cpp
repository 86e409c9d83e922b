// C09: convex partition, triangulation, offset lines.
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/Lanelet.h>

#include "corridor.h"
using namespace lanelet;
using geo::L2;
using geo::P2;
namespace lg = lanelet::geometry;

namespace {
double round25(double v) { return std::round(v * 4) / 4; }
//! is every edge of the ring a Delaunay edge of its (centimetre) vertices? Then the ring is exactly a union of triangles.
bool edgesAreDelaunay(const L2& ring) {
  std::vector<P2> v;
  for (auto& p : ring) v.push_back({double(int64_t(p.x * 100)), double(int64_t(p.y * 100))});
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = i + 1; j < v.size(); ++j)
      if (geo::dist(v[i], v[j]) < 2) return false;
  for (size_t i = 0; i < v.size(); ++i) {
    size_t k = (i + 1) % v.size();
    P2 a = v[i], b = v[k], m = 0.5 * (a + b), d = b - a;
    double len = geo::norm(d);
    P2 n{-d.y / len, d.x / len};
    double lo = -1e12, hi = 1e12, r = len / 2;
    for (size_t j = 0; j < v.size(); ++j) {
      if (j == i || j == k) continue;
      double h = geo::dot(v[j] - m, n), q = geo::dot(v[j] - m, v[j] - m) - r * r;
      if (std::abs(h) < 1e-9) {
        if (q <= 0) return false;
        continue;
      }
      if (h > 0) hi = std::min(hi, q / (2 * h));
      else lo = std::max(lo, q / (2 * h));
    }
    if (!(hi - lo > 1e-3 * r)) return false;
  }
  return true;
}
L2 convexHull(std::vector<P2> p, bool keepCollinear) {
  std::sort(p.begin(), p.end(), [](P2 a, P2 b) { return std::make_pair(a.x, a.y) < std::make_pair(b.x, b.y); });
  p.erase(std::unique(p.begin(), p.end(), [](P2 a, P2 b) { return a.x == b.x && a.y == b.y; }), p.end());
  if (p.size() < 3) return p;
  auto half = [&](auto b, auto e) {
    L2 h;
    for (; b != e; ++b) {
      while (h.size() >= 2) {
        double cr = geo::cross(h[h.size() - 1] - h[h.size() - 2], *b - h[h.size() - 1]);
        if (cr < 0 || (cr == 0 && !keepCollinear)) h.pop_back();
        else break;
      }
      h.push_back(*b);
    }
    return h;
  };
  L2 l = half(p.begin(), p.end()), u = half(p.rbegin(), p.rend());
  l.pop_back(), u.pop_back();
  l.insert(l.end(), u.begin(), u.end());
  std::reverse(l.begin(), l.end());  // clockwise
  return l;
}
double perimeter(const L2& r) {
  double d = 0;
  for (size_t i = 0; i < r.size(); ++i) d += geo::dist(r[i], r[(i + 1) % r.size()]);
  return d;
}
//! largest distance of a vertex from the convex hull of the ring
double concavity(const L2& r) {
  auto h = convexHull(r, false);
  double d = 0;
  for (auto& p : r) d = std::max(d, geo::pointLine(p, geo::closed(h)));
  return d;
}
struct Input {
  L2 ring;
  bool exact{false}, convex{false};
};
Input genConvex(Case& c) {
  auto& s = c.src;
  Input in;
  in.convex = true;
  in.exact = !s.chance(1, 3);
  double x0 = s.of({0., -100., 4500.5}), y0 = s.of({0., 33.25, -800.});
  std::vector<P2> pts;
  size_t n = s.size(3, 24);
  bool circle = s.chance(1, 3);
  double R = s.grid(5, 60, 0.25);
  for (size_t i = 0; i < n; ++i) {
    double x, y;
    if (circle) {
      double a = s.real(0, 2 * M_PI);
      x = x0 + R * std::cos(a), y = y0 + R * std::sin(a);
    } else {
      x = x0 + s.grid(-20, 20, s.of({0.25, 1., 5.})), y = y0 + s.grid(-20, 20, s.of({0.25, 1., 5.}));
    }
    if (in.exact) x = round25(x), y = round25(y);
    else if (!circle) x += s.real(-0.1, 0.1), y += s.real(-0.1, 0.1);
    pts.push_back({x, y});
  }
  in.ring = convexHull(pts, in.exact && s.flip());
  return in;
}
Input genCorridor(Case& c) {
  auto& s = c.src;
  Input in;
  in.exact = s.chance(2, 3);
  corridor::Opt o;
  if (s.flip()) o.minStepFactor = 0.5, o.maxStepFactor = 1.2;
  auto k = corridor::make(c, o);
  in.ring = corridor::ring(k);
  for (auto& p : in.ring) {
    p = 4. * p;
    if (in.exact) p = {round25(p.x), round25(p.y)};
  }
  return in;
}
Input gen(Case& c) {
  auto in = c.src.chance(1, 3) ? genConvex(c) : genCorridor(c);
  if (in.ring.size() < 3 || !geo::simpleRing(in.ring, 1e-3) || geo::ringArea(in.ring) >= -0.5 || !edgesAreDelaunay(in.ring)) throw pbt::Discard{};
  std::rotate(in.ring.begin(), in.ring.begin() + long(c.src.below(in.ring.size())), in.ring.end());
  return in;
}
template <typename F>
auto viaRepresentation(Case& c, const L2& ring, F&& f) {
  Id pid = 100;
  auto pts = [&](size_t a, size_t b) {
    Points3d v;
    for (size_t i = a; i < b; ++i) v.emplace_back(pid++, ring[i].x, ring[i].y, c.src.grid(-3, 3, 1));
    return v;
  };
  switch (c.src.below(4)) {
    case 0: c.label("basic polygon"); return f(conv::bpoly(ring));
    case 1: {
      c.label("polygon");
      Polygon2d p(utils::to2D(Polygon3d(1, pts(0, ring.size()))));
      return f(p);
    }
    case 2: {
      c.label("hybrid polygon");
      Polygon3d p(1, pts(0, ring.size()));
      return f(utils::toHybrid(utils::to2D(ConstPolygon3d(p))));
    }
    default: {
      c.label("compound polygon");
      if (ring.size() < 4) return f(conv::bpoly(ring));
      size_t m = 2 + c.src.below(ring.size() - 3);
      LineString3d l(1, pts(0, m)), r0(2, pts(m, ring.size()));
      return f(CompoundPolygon2d(ConstLineStrings2d{utils::to2D(ConstLineString3d(l)), utils::to2D(ConstLineString3d(r0))}));
    }
  }
}
std::string showRing(const L2& r) {
  std::ostringstream o;
  o.precision(17);
  for (auto& p : r) o << "(" << p.x << " " << p.y << ") ";
  return o.str();
}

void checkPartition(Case& c) {
  auto in = gen(c);
  auto& ring = in.ring;
  auto parts = viaRepresentation(c, ring, [](auto&& p) { return lg::convexPartition(p); });
  c.describe([&](auto& o) {
    o << (in.exact ? "exact " : "") << (in.convex ? "convex " : "corridor ") << showRing(ring);
    for (auto& p : parts) o << "\n part " << showRing(conv::l2(p));
  });
  double tol = in.exact ? 1e-6 : 0.02 * perimeter(ring) + 0.01;
  double sum = 0;
  size_t reflex = 0;
  for (size_t i = 0; i < ring.size(); ++i) {
    P2 a = ring[i], b = ring[(i + 1) % ring.size()], d = ring[(i + 2) % ring.size()];
    if (geo::cross(b - a, d - b) > 0) ++reflex;
  }
  std::vector<L2> rings;
  for (auto& p : parts) {
    L2 r = conv::l2(p);
    PBT_CHECK(r.size() >= 3, "part with " << r.size() << " vertices");
    for (auto& v : r)
      PBT_CHECK(std::any_of(ring.begin(), ring.end(), [&](auto& q) { return q.x == v.x && q.y == v.y; }),
                "part has a vertex that is not a vertex of the polygon: " << v.x << " " << v.y);
    PBT_CHECK(concavity(r) <= (in.exact ? 1e-6 : 0.02), "part is not convex: " << showRing(r));
    if (in.exact) PBT_CHECK(geo::simpleRing(r, 0) || std::abs(geo::ringArea(r)) < 1e-9, "part is not a simple ring: " << showRing(r));
    sum += std::abs(geo::ringArea(r));
    double inside = geo::interArea(geo::Poly{r, {}}, geo::Poly{ring, {}});
    PBT_CHECK(std::abs(inside - std::abs(geo::ringArea(r))) <= tol, "part leaves the polygon: area " << std::abs(geo::ringArea(r)) << " inside " << inside);
    rings.push_back(r);
  }
  PBT_CHECK(std::abs(sum - std::abs(geo::ringArea(ring))) <= tol,
            "parts cover an area of " << sum << " of " << std::abs(geo::ringArea(ring)));
  for (size_t i = 0; i < rings.size(); ++i)
    for (size_t j = i + 1; j < rings.size(); ++j) {
      double a = geo::interArea(geo::Poly{rings[i], {}}, geo::Poly{rings[j], {}});
      PBT_CHECK(a <= tol, "parts " << i << " and " << j << " overlap by " << a);
    }
  if (in.exact) PBT_CHECK(parts.size() <= 2 * (reflex + 1) + 1, parts.size() << " parts for a polygon with " << reflex << " reflex vertices");
  c.did(parts.size());
  c.nontrivial(ring.size() >= 5);
  c.label(in.convex ? "convex" : (parts.size() > 1 ? "corridor with several parts" : "corridor with one part"));
  c.label(in.exact ? "exact" : "centimetre accuracy");
}

void checkTriangulate(Case& c) {
  auto in = genConvex(c);
  auto& ring = in.ring;
  if (ring.size() < 3 || !geo::simpleRing(ring, 1e-3) || !edgesAreDelaunay(ring)) throw pbt::Discard{};
  if (c.src.flip()) std::reverse(ring.begin(), ring.end());
  std::rotate(ring.begin(), ring.begin() + long(c.src.below(ring.size())), ring.end());
  auto tris = viaRepresentation(c, ring, [](auto&& p) { return lg::triangulate(p); });
  c.describe([&](auto& o) {
    o << (in.exact ? "exact " : "") << showRing(ring) << "\n triangles";
    for (auto& t : tris) o << " " << t[0] << "," << t[1] << "," << t[2];
  });
  double tol = in.exact ? 1e-6 : 0.02 * perimeter(ring) + 0.01, sum = 0;
  std::vector<L2> rings;
  for (auto& t : tris) {
    for (auto i : t) PBT_CHECK(i < ring.size(), "index " << i << " of " << ring.size());
    PBT_CHECK(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "degenerate triangle");
    L2 r{ring[t[0]], ring[t[1]], ring[t[2]]};
    sum += std::abs(geo::ringArea(r));
    rings.push_back(r);
  }
  if (in.exact) PBT_EQ(tris.size(), ring.size() - 2, "number of triangles");
  PBT_CHECK(std::abs(sum - std::abs(geo::ringArea(ring))) <= tol, "triangles cover " << sum << " of " << std::abs(geo::ringArea(ring)));
  for (size_t i = 0; i < rings.size(); ++i)
    for (size_t j = i + 1; j < rings.size(); ++j) {
      double a = geo::interArea(geo::Poly{rings[i], {}}, geo::Poly{rings[j], {}});
      PBT_CHECK(a <= tol, "triangles " << i << " and " << j << " overlap by " << a);
    }
  c.did(tris.size());
  c.nontrivial(ring.size() >= 5);
  c.label(in.exact ? "exact" : "centimetre accuracy");
}

void checkTooFew(Case& c) {
  size_t n = c.src.below(3);
  L2 r;
  for (size_t i = 0; i < n; ++i) r.push_back({c.src.grid(-5, 5, 0.5), c.src.grid(-5, 5, 0.5)});
  c.describe([&](auto& o) { o << showRing(r); });
  bool a = viaRepresentation(c, r, [](auto&& p) { return chk::throws<GeometryError>([&] { lg::convexPartition(p); }); });
  bool b = viaRepresentation(c, r, [](auto&& p) { return chk::throws<GeometryError>([&] { lg::triangulate(p); }); });
  PBT_CHECK(a && b, n << " points: convexPartition throws GeometryError " << a << ", triangulate " << b);
  BasicLineString2d l = conv::bl(r);
  if (n < 2) {
    double d = c.src.grid(-3, 3, 0.5);
    PBT_CHECK(chk::throws<InvalidInputError>([&] { lg::offset(l, d); }), "offset of " << n << " points did not throw InvalidInputError");
  }
  c.nontrivial(n > 0);
}

// ---- offset
struct Bend {
  L2 line;
  double d{0};
  bool sharp{false}, concave{false}, convexBend{false};
  double maxConcave{0};
};
//! the offset line as described: bends away from it get mitred (or cut if sharp), bends towards it meet in one point
bool idealOffset(const L2& l, double d, L2& out) {
  out.clear();
  for (size_t i = 0; i < l.size(); ++i) {
    P2 u = i ? l[i] - l[i - 1] : l[1] - l[0], v = i + 1 < l.size() ? l[i + 1] - l[i] : u;
    u = (1 / geo::norm(u)) * u, v = (1 / geo::norm(v)) * v;
    P2 nu{-u.y, u.x}, nv{-v.y, v.x};
    double c = geo::dot(u, v), x = geo::cross(u, v);
    bool away = (x < 0) == (d > 0);
    if (c < 0 && away) {
      double theta = std::acos(std::max(-1., std::min(1., c)));
      double over = std::abs(d) * std::tan(theta / 4);
      out.push_back(l[i] + d * nu + over * u);
      out.push_back(l[i] + d * nv - over * v);
    } else {
      P2 b = nu + nv;
      double k = 1 + c;  // |b|^2 = 2 (1 + c)
      if (k < 0.05) return false;
      out.push_back(l[i] + (d / k) * b);
    }
  }
  return true;
}
bool simpleLine(const L2& l, double tol) {
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    if (geo::dist(l[i], l[i + 1]) <= tol) return false;
    for (size_t j = i + 2; j + 1 < l.size(); ++j)
      if (geo::segSeg(l[i], l[i + 1], l[j], l[j + 1]) <= tol) return false;
  }
  return true;
}
double lineDist(P2 p, const L2& l) { return geo::pointLine(p, l); }

void checkOffset(Case& c) {
  auto& s = c.src;
  Bend b;
  size_t n = s.size(2, 16);
  P2 p{s.of({0., 500., -1234.5}), s.of({0., 77.25})};
  double phi = s.of({0., 0.5, 1., 1.5, 0.1234, 0.777}) * M_PI;
  b.line.push_back(p);
  int mode = int(s.below(3));
  for (size_t i = 1; i < n; ++i) {
    if (i > 1) {
      double t = mode == 0 ? s.real(-0.4, 0.4) : mode == 1 ? s.real(-1.2, 1.2) : s.real(-2.2, 2.2);
      if (s.chance(1, 5)) t = 0;
      if (s.chance(1, 10)) t = s.of({M_PI / 2, -M_PI / 2});
      if (mode == 2 && s.chance(1, 5)) t = s.real(2.2, 3.0) * (s.flip() ? 1 : -1);  // nearly a turn back
      phi += t;
    }
    double len = s.grid(0.5, 8, 0.25);
    p = p + P2{len * std::cos(phi), len * std::sin(phi)};
    b.line.push_back(p);
  }
  double d = s.grid(0.05, 6, 0.05) * (s.flip() ? 1 : -1);
  // the requested distance has to be below the curvature radius: shrink it until the (slightly larger) offset exists
  bool ok = false;
  for (int k = 0; k < 12 && !ok; ++k) {
    b.d = d;
    L2 o;
    ok = simpleLine(b.line, 1e-6);
    if (!ok) break;
    for (double f : {1.15, 1.}) {
      ok = ok && idealOffset(b.line, f * d, o) && simpleLine(o, 1e-4);
      for (size_t i = 0; ok && i + 1 < o.size(); ++i)
        for (int q = 0; q <= 20 && ok; ++q) ok = lineDist(o[i] + (q / 20.) * (o[i + 1] - o[i]), b.line) >= std::abs(f * d) * (1 - 1e-9) - 1e-9;
      // no segment of the offset line may have changed its direction, and it must keep a rest of its length
      for (size_t i = 0, j = 0; ok && i + 1 < b.line.size(); ++i) {
        P2 u = b.line[i + 1] - b.line[i];
        while (j + 1 < o.size() && std::abs(geo::cross(u, o[j + 1] - o[j])) > 1e-9 * geo::norm(u) * geo::norm(o[j + 1] - o[j])) ++j;
        ok = j + 1 < o.size() && geo::dot(u, o[j + 1] - o[j]) > 0.02 * geo::norm(u) * geo::norm(u);
        ++j;
      }
    }
    if (!ok) d *= 0.6;
  }
  if (!ok) throw pbt::Discard{};
  for (size_t i = 1; i + 1 < n; ++i) {
    P2 u = b.line[i] - b.line[i - 1], v = b.line[i + 1] - b.line[i];
    double th = std::atan2(geo::cross(u, v), geo::dot(u, v));
    if (std::abs(th) < 1e-9) continue;
    bool away = (th < 0) == (b.d > 0);
    if (away) b.convexBend = true, b.sharp |= std::abs(th) > M_PI / 2;
    else b.concave = true, b.maxConcave = std::max(b.maxConcave, std::abs(th));
  }
  auto run = [&](auto f) -> BasicLineString2d {
    switch (s.below(3)) {
      case 0: return f(conv::bl(b.line));
      case 1: {
        Id id = 100;
        LineString3d l = corridor::toLs(1, b.line, id, s.grid(-2, 2, 1));
        if (s.flip()) {  // an inverted handle of the reversed line
          Points3d pts(l.begin(), l.end());
          std::reverse(pts.begin(), pts.end());
          l = LineString3d(2, pts).invert();
        }
        return f(utils::to2D(ConstLineString3d(l)));
      }
      default: {
        Id id = 100;
        LineString3d l = corridor::toLs(1, b.line, id, 0);
        return f(utils::toHybrid(utils::to2D(ConstLineString3d(l))));
      }
    }
  };
  BasicLineString2d res;
  c.describe([&](auto& o) { o << "d " << b.d << " line " << showRing(b.line); });
  res = run([&](auto&& l) { return lg::offset(l, b.d); });
  auto res2 = run([&](auto&& l) { return lg::offsetNoThrow(l, b.d); });
  L2 r = conv::l2(res), r2 = conv::l2(res2);
  c.describe([&](auto& o) { o << "d " << b.d << " line " << showRing(b.line) << "\n result " << showRing(r); });
  for (auto* l : {&r, &r2})
    for (size_t i = 0; i + 1 < l->size();)  // repeated points are harmless
      if (geo::dist((*l)[i], (*l)[i + 1]) < 1e-9) l->erase(l->begin() + long(i));
      else ++i;
  double ad = std::abs(b.d), tol = 1e-6;
  PBT_EQ(r.size(), r2.size(), "offset and offsetNoThrow differ in size");
  for (size_t i = 0; i < r.size(); ++i) PBT_CHECK(geo::dist(r[i], r2[i]) < 1e-9, "offset and offsetNoThrow differ at " << i);
  PBT_CHECK(r.size() >= 2, "offset line has " << r.size() << " points");
  auto perp = [&](P2 at, P2 from, P2 to) {
    P2 u = to - from;
    return at + (b.d / geo::norm(u)) * P2{-u.y, u.x};
  };
  P2 first = perp(b.line.front(), b.line[0], b.line[1]), last = perp(b.line.back(), b.line[n - 2], b.line[n - 1]);
  PBT_CHECK(geo::dist(r.front(), first) < tol, "starts at " << r.front().x << " " << r.front().y << " instead of " << first.x << " " << first.y);
  PBT_CHECK(geo::dist(r.back(), last) < tol, "ends at " << r.back().x << " " << r.back().y << " instead of " << last.x << " " << last.y);
  double hiDist = ad * std::max(std::sqrt(2.), 1 / std::cos(b.maxConcave / 2)) + tol;
  for (size_t i = 0; i + 1 < r.size(); ++i) {
    for (int q = 0; q <= 20; ++q) {
      P2 x = r[i] + (q / 20.) * (r[i + 1] - r[i]);
      double dd = lineDist(x, b.line);
      PBT_CHECK(dd >= ad - tol, "offset line is at distance " << dd << " < " << ad << " at " << x.x << " " << x.y);
      PBT_CHECK(dd <= std::sqrt(2.) * ad + tol, "offset line is at distance " << dd << " > sqrt(2) * " << ad << " at " << x.x << " " << x.y);
    }
    PBT_CHECK(lineDist(r[i], b.line) >= ad - tol, "point " << i);
  }
  PBT_CHECK(simpleLine(r, 0), "offset line intersects itself");
  // side: the closest segment has the point on the requested side
  for (auto& x : r) {
    double best = geo::INF;
    int side = 0;
    for (size_t i = 0; i + 1 < n; ++i) {
      P2 u = b.line[i + 1] - b.line[i];
      double t = geo::dot(x - b.line[i], u) / geo::dot(u, u), dd = geo::pointSeg(x, b.line[i], b.line[i + 1]);
      if (dd < best - 1e-9) best = dd, side = (t > 1e-9 && t < 1 - 1e-9) ? geo::sgn(geo::cross(u, x - b.line[i])) : 0;
    }
    if (side != 0) PBT_CHECK(side == geo::sgn(b.d), "point " << x.x << " " << x.y << " is on the wrong side");
  }
  // nothing is cut off: every point of the line has the offset line next to it
  for (size_t i = 0; i + 1 < n; ++i)
    for (int q = 0; q <= 10; ++q) {
      P2 x = b.line[i] + (q / 10.) * (b.line[i + 1] - b.line[i]);
      double dd = lineDist(x, r);
      PBT_CHECK(dd <= hiDist, "point " << x.x << " " << x.y << " of the line has no offset line closer than " << dd);
    }
  c.did(r.size());
  c.nontrivial(b.concave || b.convexBend);
  c.label("bend towards", b.concave);
  c.label("bend away", b.convexBend);
  c.label("sharp bend away", b.sharp);
  c.label(b.d > 0 ? "left" : "right");
}

// arbitrary lines: either GeometryError or the guaranteed distance
void checkOffsetAny(Case& c) {
  auto& s = c.src;
  size_t n = s.size(2, 10);
  L2 line;
  bool walk = s.flip();
  P2 p{0, 0};
  for (size_t i = 0; i < n; ++i) {
    if (walk) p = p + P2{s.grid(-2, 6, 0.25), s.grid(-4, 4, 0.25)};
    else p = {s.grid(-10, 10, 0.5), s.grid(-10, 10, 0.5)};
    if (i && geo::dist(line.back(), p) < 0.1) p = p + P2{1, 0.5};
    line.push_back(p);
  }
  if (!simpleLine(line, 0.05)) throw pbt::Discard{};
  for (size_t i = 0; i + 2 < n; ++i) {
    P2 u = line[i + 1] - line[i], v = line[i + 2] - line[i + 1];
    if (std::abs(geo::cross(u, v)) < 1e-6 * geo::norm(u) * geo::norm(v) && geo::dot(u, v) < 0) throw pbt::Discard{};
  }
  double d = s.grid(0.25, 5, 0.25) * (s.flip() ? 1 : -1);
  c.describe([&](auto& o) { o << "d " << d << " line " << showRing(line); });
  auto run = [&](const L2& l, double dist) -> Optional<L2> {
    try {
      return conv::l2(lg::offset(conv::bl(l), dist));
    } catch (GeometryError&) {
      return {};
    }
  };
  auto r = run(line, d);
  c.label(r ? "result" : "GeometryError");
  if (r) {
    for (auto& x : *r) {
      double dd = lineDist(x, line);
      PBT_CHECK(dd >= std::abs(d) - 1e-6, "point " << x.x << " " << x.y << " of the offset line is at distance " << dd);
    }
    auto nt = conv::l2(lg::offsetNoThrow(conv::bl(line), d));
    PBT_EQ(nt.size(), r->size(), "offsetNoThrow");
    for (size_t i = 0; i < nt.size(); ++i) PBT_CHECK(geo::dist(nt[i], (*r)[i]) < 1e-9, "offsetNoThrow point " << i);
  }
  c.nontrivial(n > 2);
  c.label(d > 0 ? "left" : "right");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C09";
  s.rule = "partition/triangulate: polygon with at least 5 vertices; offset: line with at least one bend; too_few: not empty";
  s.assumptions = {"convexPartition is claimed for clockwise rings all of whose edges are Delaunay edges of their vertices (corridors sampled in steps "
                   "of about their width, convex polygons): for others the documented triangulation can not contain the polygon",
                   "the triangulation works on centimetre coordinates: exact claims for coordinates that are multiples of 0.25 m, 2 cm elsewhere",
                   "offset is claimed where the offset line by 1.15 times the distance still exists"};
  s.props = {
      {"partition", "convexPartition tiles the polygon with convex parts of its own vertices", 12000, 120000, checkPartition},
      {"triangulate", "triangulate of a convex polygon tiles it with triangles over its indices", 12000, 120000, checkTriangulate},
      {"too_few", "fewer than three (polygons) or two (lines) points raise the documented errors", 400, 2000, checkTooFew},
      {"offset", "offset lines keep distance and side, start and end perpendicular, do not intersect themselves", 20000, 200000, checkOffset},
      {"offset_any", "offset of any simple line either throws GeometryError or keeps the distance", 20000, 200000, checkOffsetAny},
  };
  return pbt::runMain(s, argc, argv);
}
