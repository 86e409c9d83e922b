// C07: arc coordinates, signed distance, interpolation, ratios, curvature, align.
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>

#include "corridor.h"
using namespace lanelet;
using geo::L2;
using geo::L3;
using geo::P2;
using geo::P3;
namespace lg = lanelet::geometry;

namespace {
constexpr double TOL = 1e-7;
size_t lineSize(pbt::Src& s) {
  switch (s.weighted({6, 3, 2, 1})) {
    case 0: return size_t(s.range(2, 6));
    case 1: return size_t(s.range(7, 30));
    case 2: return size_t(s.range(47, 54));
    default: return size_t(s.range(50, 200));
  }
}
bool simpleLine(const L2& l) {
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    if (geo::dist(l[i], l[i + 1]) < 1e-3) return false;
    if (i + 2 < l.size()) {
      P2 u = l[i + 1] - l[i], v = l[i + 2] - l[i + 1];
      if (std::abs(geo::cross(u, v)) < 1e-9 && geo::dot(u, v) < 0) return false;
      if (geo::pointSeg(l[i + 2], l[i], l[i + 1]) < 1e-3 || geo::pointSeg(l[i], l[i + 1], l[i + 2]) < 1e-3) return false;
    }
    for (size_t j = i + 2; j + 1 < l.size(); ++j)
      if (geo::segSeg(l[i], l[i + 1], l[j], l[j + 1]) < 1e-3) return false;
  }
  return true;
}
//! simple by construction where possible; otherwise cut at the first conflict
L2 genLine(Case& c) {
  auto& s = c.src;
  size_t n = lineSize(s);
  int kind = int(s.below(6));
  double x0 = s.of({0., 0., -1000.5, 458000.}), y0 = s.of({0., 0., 77.25, 5430000.});
  L2 l;
  double phi = s.of({0., M_PI / 2, 0.3, 2.5, 4.}), k = s.real(-0.2, 0.2);
  double amp = s.of({0.5, 2., 10.}), dx = s.of({0.3, 1., 3.});
  P2 p{x0, y0};
  for (size_t i = 0; i < n; ++i) {
    switch (kind) {
      case 0:  // zigzag with acute corners along x
        p = {x0 + dx * double(i), y0 + (i % 2 ? amp : -amp) * s.real(0.2, 1)};
        break;
      case 1:  // monotone random
        if (i) p = {p.x + s.grid(0.25, 3, 0.25), p.y + s.grid(-4, 4, 0.25)};
        break;
      case 2:  // straight, uneven
        if (i) p = {p.x + dx * s.of({1., 0.5, 4.}) * std::cos(phi), p.y + dx * std::sin(phi)};
        break;
      case 3:  // smooth with changing curvature
        if (i) {
          phi += k;
          if (s.chance(1, 10)) k = s.real(-0.3, 0.3);
          p = {p.x + dx * std::cos(phi), p.y + dx * std::sin(phi)};
        }
        break;
      case 4: {  // spiral
        double r = 3 + 0.4 * double(i) * dx, a = 0.5 * double(i) * (k < 0 ? -1 : 1);
        r = 3 + 1.2 * std::abs(a) * dx;
        p = {x0 + r * std::cos(a), y0 + r * std::sin(a)};
        break;
      }
      default:  // self avoiding random walk
        for (int t = 0; t < 6 && i; ++t) {
          P2 q{p.x + s.grid(-4, 4, 0.5), p.y + s.grid(-4, 4, 0.5)};
          L2 tail = l;
          bool ok = geo::dist(p, q) > 0.1;
          for (size_t j = 0; ok && j + 2 < l.size(); ++j) ok = geo::segSeg(l[j], l[j + 1], p, q) > 1e-3;
          if (ok && l.size() > 1) ok = geo::pointSeg(q, l[l.size() - 2], p) > 1e-3 && geo::pointSeg(l[l.size() - 2], p, q) > 1e-3;
          if (ok) {
            p = q;
            break;
          }
        }
        if (i && p.x == l.back().x && p.y == l.back().y) continue;
    }
    l.push_back(p);
  }
  if (l.size() < 2) throw pbt::Discard{};
  if (kind > 1 && kind != 2 && !simpleLine(l)) {
    while (l.size() > 2 && !simpleLine(l)) l.resize(l.size() / 2 + (l.size() == 3 ? 1 : 0) > 2 ? l.size() / 2 : 2);
  }
  if (s.flip()) std::reverse(l.begin(), l.end());
  return l;
}
struct Foot {
  double dist{geo::INF}, s{0};
  P2 p;
  size_t seg{0};
  double t{0};        // parameter on seg
  bool vertex{false};  // closest point is a vertex
  bool ambiguous{false};
  int side{0};  // 1 left, -1 right
};
std::vector<double> cumulate(const L2& l) {
  std::vector<double> cum{0};
  for (size_t i = 0; i + 1 < l.size(); ++i) cum.push_back(cum.back() + geo::dist(l[i], l[i + 1]));
  return cum;
}
Foot foot(const L2& l, P2 q) {
  Foot f;
  auto cum = cumulate(l);
  std::vector<std::pair<double, P2>> all;
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    P2 c = geo::closestOnSeg(q, l[i], l[i + 1]);
    double d = geo::dist(c, q);
    all.push_back({d, c});
    if (d < f.dist) {
      f.dist = d, f.p = c, f.seg = i;
      f.s = cum[i] + geo::dist(l[i], c);
    }
  }
  for (auto& a : all)
    if (a.first < f.dist + 1e-6 && geo::dist(a.second, f.p) > 1e-6) f.ambiguous = true;
  double len = cum[f.seg + 1] - cum[f.seg];
  double u = geo::dist(l[f.seg], f.p);
  f.t = u / len;
  auto sideOf = [&](size_t i) {  // of segment i; 0 if too close to its line to tell
    P2 d = l[i + 1] - l[i];
    double v = geo::cross(d, q - l[i]) / geo::norm(d);
    return std::abs(v) < 1e-6 ? 0 : geo::sgn(v);
  };
  size_t v = u < 1e-9 ? f.seg : (len - u < 1e-9 ? f.seg + 1 : size_t(-1));
  f.vertex = v != size_t(-1);
  if (!f.vertex) {
    f.side = sideOf(f.seg);
  } else if (v == 0) {
    f.side = sideOf(0);
  } else if (v + 1 == l.size()) {
    f.side = sideOf(v - 1);
  } else {
    // the point sees the outside of the corner at v: right of a left turn and left of a right turn
    P2 a = l[v] - l[v - 1], b = l[v + 1] - l[v];
    double x = geo::cross(a, b) / geo::norm(a) / geo::norm(b);
    if (std::abs(x) < 1e-9) f.side = sideOf(v);
    else f.side = x > 0 ? -1 : 1;
    if (f.dist < 1e-6) f.side = 0;
  }
  return f;
}
P2 genPoint(Case& c, const L2& l) {
  auto& s = c.src;
  size_t i = s.below(l.size());
  switch (s.below(6)) {
    case 0: return {l[i].x + s.grid(-1, 1, 0.25), l[i].y + s.grid(-1, 1, 0.25)};
    case 1: return {l[i].x + s.real(-0.3, 0.3), l[i].y + s.real(-0.3, 0.3)};
    case 2: {  // next to a segment
      size_t j = std::min(i, l.size() - 2);
      P2 d = l[j + 1] - l[j];
      double t = s.real(0, 1), o = s.real(-2, 2);
      P2 m = l[j] + t * d;
      return {m.x - d.y / geo::norm(d) * o, m.y + d.x / geo::norm(d) * o};
    }
    case 3: return {l[i].x + s.real(-100, 100), l[i].y + s.real(-100, 100)};
    case 4: {  // straight ahead of the end or the start
      P2 d = s.flip() ? l.back() - l[l.size() - 2] : l[0] - l[1];
      P2 e = geo::dist(l.back() + d, l[0]) > geo::dist(l[0] + d, l[0]) ? l.back() : l[0];
      return {e.x + d.x * s.real(0, 2) + s.real(-1, 1), e.y + d.y * s.real(0, 2) + s.real(-1, 1)};
    }
    default: return {l[i].x + s.real(-5, 5), l[i].y + s.real(-5, 5)};
  }
}
struct Reps {
  BasicLineString3d basic() const { return ls.basicLineString(); }
  LineString3d ls;
  LineString3d inv;
  CompoundLineString3d comp;
};
Reps reps(Case& c, const L3& l, Id base) {
  Reps r;
  r.ls = LineString3d(base);
  LineString3d back(base + 1);
  std::vector<Point3d> pts;
  for (size_t i = 0; i < l.size(); ++i) pts.emplace_back(base + 10 + Id(i), l[i].x, l[i].y, l[i].z);
  for (auto& p : pts) r.ls.push_back(p);
  for (size_t i = pts.size(); i-- > 0;) back.push_back(pts[i]);
  r.inv = back.invert();
  std::vector<ConstLineString3d> parts;
  size_t i = 0;
  Id pid = base + 5000;
  while (i + 1 < pts.size()) {
    size_t j = std::min(pts.size() - 1, i + 1 + c.src.below(12));
    parts.push_back(LineString3d(pid++, Points3d(pts.begin() + i, pts.begin() + j + 1)));
    i = j;
  }
  r.comp = CompoundLineString3d(parts);
  return r;
}
L3 lift(Case& c, const L2& l, bool flat) {
  L3 o;
  double z = c.src.of({0., 3., -20.});
  for (auto& p : l) o.push_back({p.x, p.y, z += flat ? 0 : c.src.grid(-1, 1, 0.25)});
  return o;
}
void near(double got, double exp, double tol, const std::string& what) {
  PBT_CHECK(std::abs(got - exp) <= tol, what << " got " << std::setprecision(12) << got << " expected " << exp);
}
double tolFor(const L2& l) { return 1e-7 + 1e-14 * (std::abs(l[0].x) + std::abs(l[0].y)) * double(l.size()); }

void arc(Case& c) {
  auto& s = c.src;
  L2 l = genLine(c);
  bool flat = s.flip();
  L3 l3 = lift(c, l, flat);
  Reps r = reps(c, l3, 1000);
  L2 lr(l.rbegin(), l.rend());
  double total = cumulate(l).back(), tol = tolFor(l) * 10;
  size_t k = 2 + s.below(5), clear = 0, corner = 0;
  for (size_t i = 0; i < k; ++i) {
    P2 q = genPoint(c, l);
    Foot f = foot(l, q);
    auto b2 = conv::bp(q);
    auto check = [&](const auto& ls, bool inverted, const std::string& w) {
      double sd = lg::signedDistance(ls, b2);
      near(std::abs(sd), f.dist, tol, w + " |signedDistance|");
      ArcCoordinates a = lg::toArcCoordinates(ls, b2);
      near(a.distance, sd, 1e-12, w + " toArcCoordinates distance equals signedDistance");
      c.did();
      if (f.ambiguous) return;
      double es = inverted ? total - f.s : f.s;
      near(a.length, es, tol + (f.vertex ? 1e-5 : 0), w + " arc length");
      if (f.side == 0) return;
      int es2 = inverted ? -f.side : f.side;
      PBT_CHECK(geo::sgn(sd) == es2, w << " signedDistance " << sd << " should be " << (es2 > 0 ? "left" : "right") << " of the line (closest "
                                       << (f.vertex ? "vertex" : "segment") << " " << f.seg << " of " << l.size() << " points)");
      // inverse
      if (!f.vertex && f.t > 1e-4 && f.t < 1 - 1e-4) {
        BasicPoint2d back = lg::fromArcCoordinates(ls, a);
        PBT_CHECK((back - b2).norm() <= tol + 1e-6, w << " fromArcCoordinates(toArcCoordinates(p)) is " << (back - b2).norm() << " away");
      }
    };
    auto ls2 = utils::to2D(r.ls);
    switch (s.below(6)) {
      case 0:
        check(ConstLineString2d(ls2), false, "plain");
        check(ls2.invert(), true, "inverted");
        break;
      case 1: check(utils::to2D(ConstLineString3d(r.inv)), false, "inverted storage"); break;
      case 2:
        check(ConstHybridLineString2d(ls2), false, "hybrid");
        check(ConstHybridLineString2d(ls2).invert(), true, "inverted hybrid");
        break;
      case 3:
        check(utils::to2D(r.comp), false, "compound");
        check(utils::to2D(r.comp).invert(), true, "inverted compound");
        break;
      case 4:
        check(conv::bl(l), false, "basic");
        check(conv::bl(lr), true, "reversed basic");
        break;
      default: {
        check(CompoundHybridLineString2d(utils::to2D(r.comp)), false, "compound hybrid");
        // 3d: the same height everywhere behaves like 2d
        if (flat) {
          BasicPoint3d b3(q.x, q.y, l3[0].z);
          double sd = lg::signedDistance(ConstLineString3d(r.ls), b3);
          near(std::abs(sd), f.dist, tol, "3d |signedDistance|");
          if (!f.ambiguous && f.side) PBT_EQ(geo::sgn(sd), f.side, "3d signedDistance side");
          double sdi = lg::signedDistance(r.ls.invert(), b3);
          if (!f.ambiguous && f.side) PBT_EQ(geo::sgn(sdi), -f.side, "3d signedDistance side of the inverted line");
        } else {
          P3 q3{q.x, q.y, s.grid(-5, 5, 0.5)};
          double d = geo::pointLine(q3, l3);
          near(std::abs(lg::signedDistance(ConstLineString3d(r.ls), conv::bp(q3))), d, tol, "3d |signedDistance|");
          near(std::abs(lg::signedDistance(r.basic(), conv::bp(q3))), d, tol, "3d basic |signedDistance|");
        }
      }
    }
    clear += !f.ambiguous && f.side;
    corner += !f.ambiguous && f.side && f.vertex;
  }
  if (l.size() >= 50) c.label("at least 50 points");
  if (corner) c.label("closest point is a vertex");
  c.nontrivial(clear > 0 && l.size() > 2);
  c.describe([&](auto& o) { o << l.size() << " points from (" << l[0].x << "," << l[0].y << "), " << k << " queries"; });
}

// line strings that come back to places they already passed: the arc length is that of a closest position
void revisit(Case& c) {
  auto& s = c.src;
  size_t n = s.chance(1, 6) ? 50 + s.below(30) : 2 + s.below(9);
  int w = 1 + int(s.below(3));
  L2 l;
  for (size_t i = 0; i < n; ++i) {
    P2 p{double(s.range(0, w)) * 1.5 - 10, double(s.range(0, w)) * 1.5 + 3};
    if (!l.empty() && geo::dist(p, l.back()) == 0) p.x += p.x > -10 ? -1.5 : 1.5;
    l.push_back(p);
  }
  L3 l3 = lift(c, l, true);
  Reps r = reps(c, l3, 1000);
  L2 lr(l.rbegin(), l.rend());
  size_t again = 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j) again += geo::dist(l[i], l[j]) == 0;
  size_t k = 2 + s.below(4);
  for (size_t i = 0; i < k; ++i) {
    P2 q = s.flip() ? P2{l[s.below(n)].x, l[s.below(n)].y} : P2{s.real(-12, -4), s.real(1, 9)};
    auto check = [&](const auto& ls, const L2& pts, const std::string& what) {
      auto cum = cumulate(pts);
      double best = 1e300;
      for (size_t j = 0; j + 1 < pts.size(); ++j) best = std::min(best, geo::pointSeg(q, pts[j], pts[j + 1]));
      ArcCoordinates a = lg::toArcCoordinates(ls, conv::bp(q));
      near(std::abs(a.distance), best, 1e-7, what + " |distance|");
      bool ok = false;
      std::ostringstream o;
      for (size_t j = 0; j + 1 < pts.size(); ++j) {
        if (geo::pointSeg(q, pts[j], pts[j + 1]) > best + 1e-9) continue;
        double at = cum[j] + geo::dist(pts[j], geo::closestOnSeg(q, pts[j], pts[j + 1]));
        ok |= std::abs(at - a.length) < 1e-6;
        o << " " << at;
      }
      PBT_CHECK(ok, what << " toArcCoordinates(" << q.x << "," << q.y << ").length is " << a.length << ", the closest positions are at" << o.str());
      c.did();
    };
    auto ls2 = utils::to2D(r.ls);
    check(ConstLineString2d(ls2), l, "plain");
    check(ls2.invert(), lr, "inverted");
    check(ConstHybridLineString2d(ls2), l, "hybrid");
    check(conv::bl(l), l, "basic");
    check(utils::to2D(r.comp), l, "compound");
    check(utils::to2D(r.comp).invert(), lr, "inverted compound");
  }
  c.nontrivial(again > 0);
  c.describe([&](auto& o) {
    for (auto& p : l) o << "(" << p.x << "," << p.y << ")";
  });
}

P3 walk(const L3& l, double d) {  // position after walking d >= 0, clamped
  for (size_t i = 0; i + 1 < l.size(); ++i) {
    double len = geo::dist(l[i], l[i + 1]);
    if (d <= len && len > 0) return l[i] + (d / len) * (l[i + 1] - l[i]);
    d -= len;
  }
  return l.back();
}
std::vector<double> cum3(const L3& l) {
  std::vector<double> r{0};
  for (size_t i = 0; i + 1 < l.size(); ++i) r.push_back(r.back() + geo::dist(l[i], l[i + 1]));
  return r;
}
void interpolate(Case& c) {
  auto& s = c.src;
  // any line, also self intersecting and with repeated points
  size_t n = s.chance(1, 15) ? 1 : lineSize(s);
  L3 l;
  bool flat = s.flip();
  P3 p{s.of({0., 1000.25}), s.of({0., -33.5}), 0};
  for (size_t i = 0; i < n; ++i) {
    if (i && !s.chance(1, 12)) p = p + P3{s.grid(-3, 3, 0.25), s.grid(-3, 3, 0.25), flat ? 0 : s.grid(-1, 1, 0.25)};
    l.push_back(p);
  }
  Reps r = reps(c, l, 1000);
  if (n == 1) r.comp = CompoundLineString3d({r.ls});
  L3 lf = l, lb(l.rbegin(), l.rend());
  for (auto& q : lf) q.z = 0;
  L3 lfb(lf.rbegin(), lf.rend());
  double t3 = cum3(l).back(), t2 = cum3(lf).back(), tol = 1e-7;
  auto ls2 = utils::to2D(r.ls);
  auto at3 = [](const auto& b) { return conv::p3(b); };
  auto at2 = [](const auto& b) { return P3{b.x(), b.y(), 0}; };
  auto checkWalk = [&](const auto& ls, const L3& pts, double d, auto at, const std::string& w) {
    L3 rev(pts.rbegin(), pts.rend());
    P3 e = d >= 0 ? walk(pts, d) : walk(rev, -d);
    P3 got = at(lg::interpolatedPointAtDistance(ls, d));
    PBT_CHECK(geo::dist(got, e) <= tol, w << " interpolatedPointAtDistance(" << d << ") is " << geo::dist(got, e) << " from the walked point, length " << cum3(pts).back());
    auto nearest = lg::nearestPointAtDistance(ls, d);
    P3 np = at(utils::toBasicPoint(nearest));
    auto& dir = d >= 0 ? pts : rev;
    auto cum = cum3(dir);
    double ad = std::min(std::abs(d), cum.back()), best = geo::INF, mine = geo::INF;
    for (size_t i = 0; i < dir.size(); ++i) {
      best = std::min(best, std::abs(cum[i] - ad));
      if (geo::dist(dir[i], np) == 0) mine = std::min(mine, std::abs(cum[i] - ad));
    }
    PBT_CHECK(mine <= best + tol, w << " nearestPointAtDistance(" << d << ") is " << mine << " along the line from it, best " << best);
    c.did();
  };
  size_t k = 1 + s.below(3);
  double lastD = 0;
  auto cums = cum3(l);
  for (size_t i = 0; i < k; ++i) {
    double d;
    switch (s.below(4)) {
      case 0: d = s.real(-1.3, 1.3) * t3; break;
      case 1: d = cums[s.below(cums.size())] * (s.flip() ? 1 : -1); break;
      case 2: d = s.grid(-5, 5, 0.25); break;
      default: d = s.of({0., 1., -1.}) * t3;
    }
    lastD = d;
    switch (s.below(5)) {
      case 0:
        checkWalk(ConstLineString3d(r.ls), l, d, at3, "3d");
        checkWalk(r.ls.invert(), lb, d, at3, "inverted 3d");
        break;
      case 1:
        checkWalk(ConstLineString2d(ls2), lf, d, at2, "2d");
        checkWalk(ConstLineString2d(ls2).invert(), lfb, d, at2, "inverted 2d");
        break;
      case 2:
        checkWalk(ConstHybridLineString3d(r.ls), l, d, at3, "hybrid 3d");
        checkWalk(ConstHybridLineString2d(ls2), lf, d, at2, "hybrid 2d");
        break;
      case 3:
        checkWalk(r.comp, l, d, at3, "compound 3d");
        checkWalk(utils::to2D(r.comp), lf, d, at2, "compound 2d");
        checkWalk(r.comp.invert(), lb, d, at3, "inverted compound 3d");
        break;
      default:
        checkWalk(r.ls.basicLineString(), l, d, at3, "basic 3d");
        checkWalk(utils::to2D(r.inv).basicLineString(), lf, d, at2, "basic 2d");
    }
  }
  // lengths and ratios
  auto ratios = [&](const auto& ls, const L3& pts, const std::string& w) {
    auto cum = cum3(pts);
    double total = cum.back();
    near(lg::length(ls), total, tol, w + " length");
    size_t a = s.below(n), b = a + s.below(n - a) + 1;
    near(lg::rangedLength(ls.begin() + long(a), ls.begin() + long(b)), cum[b - 1] - cum[a], tol, w + " rangedLength");
    near(lg::rangedLength(ls.begin() + long(a), ls.begin() + long(a)), 0, 0, w + " rangedLength of nothing");
    auto lr = lg::lengthRatios(ls);
    auto ar = lg::accumulatedLengthRatios(ls);
    PBT_EQ(lr.size(), n - 1, w + " number of ratios");
    PBT_EQ(ar.size(), n - 1, w + " number of accumulated ratios");
    if (total > 0.1)
      for (size_t i = 0; i + 1 < n; ++i) {
        near(lr[i], (cum[i + 1] - cum[i]) / total, tol, w + " ratio");
        near(ar[i], cum[i + 1] / total, tol, w + " accumulated ratio");
      }
    c.did();
  };
  switch (s.below(5)) {
    case 0: ratios(ConstLineString3d(r.ls), l, "3d"); break;
    case 1: ratios(ls2.invert(), lfb, "inverted 2d"); break;
    case 2:
      if (n > 1) ratios(utils::to2D(r.comp), [&] {
        L3 u;  // compounds drop repeated points
        for (auto& q : utils::to2D(r.comp)) u.push_back({q.x(), q.y(), 0});
        PBT_EQ(u.size(), n, "compound size");
        return u;
      }(), "compound 2d");
      break;
    case 3: ratios(r.ls.basicLineString(), l, "basic 3d"); break;
    default: ratios(ConstHybridLineString3d(r.inv), l, "hybrid 3d");
  }
  (void)t2;
  if (n >= 50) c.label("at least 50 points");
  if (n == 1) c.label("single point");
  c.nontrivial(n > 2 && t3 > 0);
  c.describe([&](auto& o) { o << n << " points, length " << t3 << ", last distance " << lastD; });
}

void fromArc(Case& c) {
  auto& s = c.src;
  L2 l = genLine(c);
  Reps r = reps(c, lift(c, l, true), 1000);
  auto cum = cumulate(l);
  double total = cum.back(), tol = tolFor(l) * 10 + 1e-6;
  auto ls2 = utils::to2D(r.ls);
  size_t k = 1 + s.below(4);
  for (size_t i = 0; i < k; ++i) {
    double q = s.chance(1, 6) ? total * s.real(1.001, 1.5) : total * s.real(0, 1), d = s.of({0., 1., -1., s.real(-10, 10)});
    auto expect = [&](const L2& pts) {
      auto cu = cumulate(pts);
      size_t seg = 0;
      while (seg + 2 < pts.size() && cu[seg + 1] <= q) ++seg;
      P2 u = pts[seg + 1] - pts[seg];
      u = (1 / geo::norm(u)) * u;
      P2 f = q >= total ? pts.back() : pts[seg] + (q - cu[seg]) * u;
      return P2{f.x - u.y * d, f.y + u.x * d};
    };
    bool atVertex = false;
    for (double v : cum) atVertex |= (std::abs(v - q) < 1e-4 && q < total) || std::abs(total - v - q) < 1e-4;
    if (atVertex) continue;
    L2 rev(l.rbegin(), l.rend());
    auto check = [&](const auto& ls, const L2& pts, const std::string& w) {
      BasicPoint2d p = lg::fromArcCoordinates(ls, ArcCoordinates{q, d});
      PBT_CHECK(geo::dist(conv::p2(p), expect(pts)) <= tol,
                w << " fromArcCoordinates(" << q << ", " << d << ") is " << geo::dist(conv::p2(p), expect(pts)) << " off, length " << total);
      c.did();
    };
    switch (s.below(4)) {
      case 0:
        check(ConstLineString2d(ls2), l, "plain");
        check(ls2.invert(), rev, "inverted");
        break;
      case 1: check(ConstHybridLineString2d(ls2), l, "hybrid"); break;
      case 2:
        check(utils::to2D(r.comp), l, "compound");
        check(utils::to2D(r.comp.invert()), rev, "inverted compound");
        break;
      default: check(conv::bl(l), l, "basic");
    }
  }
  c.nontrivial(l.size() > 2);
  c.describe([&](auto& o) { o << l.size() << " points, length " << total; });
}

void curvature(Case& c) {
  auto& s = c.src;
  P2 a, b, d;
  double exp = 0;
  bool exact = true;
  int kind = int(s.below(4));
  P2 o{s.of({0., 1000.5, -458000.}), s.of({0., 7.25})};
  if (kind == 0) {  // on a circle
    double R = s.grid(0.5, 50, 0.5), a0 = s.real(0, 6.28), s1 = s.real(0.05, 2), s2 = s.real(0.05, 2);
    bool left = s.flip();
    auto at = [&](double t) { return P2{o.x + R * std::cos(t), o.y + R * std::sin(t)}; };
    double sg = left ? 1 : -1;
    a = at(a0), b = at(a0 + sg * s1), d = at(a0 + sg * (s1 + s2));
    exp = sg / R;
  } else if (kind == 1) {  // collinear on the grid, in any order
    P2 u{s.grid(-4, 4, 1), s.grid(-4, 4, 1)};
    if (u.x == 0 && u.y == 0) u.x = 1;
    a = o, b = o + double(s.range(1, 5)) * u, d = b + double(s.range(1, 5)) * u;
    if (s.flip()) std::swap(b, d);
  } else if (kind == 2) {  // random triangle
    a = {o.x + s.grid(-10, 10, 0.25), o.y + s.grid(-10, 10, 0.25)};
    b = {o.x + s.grid(-10, 10, 0.25), o.y + s.grid(-10, 10, 0.25)};
    d = {o.x + s.grid(-10, 10, 0.25), o.y + s.grid(-10, 10, 0.25)};
    double la = geo::dist(a, b), lb = geo::dist(b, d), lc = geo::dist(a, d);
    if (la == 0 || lb == 0 || lc == 0) exact = false;
    else {
      // circumradius through the law of sines: R = lc / (2 sin(angle at b))
      P2 u = a - b, v = d - b;
      double sine = std::abs(geo::cross(u, v)) / (la * lb);
      exp = 2 * sine / lc * (geo::cross(b - a, d - b) > 0 ? 1 : -1);
    }
  } else {  // repeated points
    a = o, b = o, d = o;
    int w = int(s.below(4));
    P2 e{o.x + s.grid(0.25, 5, 0.25), o.y};
    if (w == 0) a = e;
    else if (w == 1) b = e;
    else if (w == 2) d = e;
    exact = false;
  }
  auto check = [&](auto p, auto q, auto r2, const std::string& w) {
    double sc = lg::signedCurvature2d(p, q, r2), cu = lg::curvature2d(p, q, r2);
    if (exact) {
      near(sc, exp, 1e-6 * (1 + std::abs(exp)) * (std::abs(o.x) > 1e5 ? 100 : 1), w + " signedCurvature2d");
      near(lg::signedCurvature2d(r2, q, p), -sc, 1e-9 * (1 + std::abs(sc)), w + " reversed");
    } else {
      PBT_CHECK(std::isinf(cu), w << " curvature of repeated points is " << cu);
    }
    PBT_CHECK(cu == std::abs(sc), w << " curvature2d is the magnitude");
    c.did();
  };
  Point3d pa(1, a.x, a.y, 3), pb(2, b.x, b.y, -3), pd(3, d.x, d.y, 0);
  check(conv::bp(a), conv::bp(b), conv::bp(d), "basic");
  check(utils::to2D(pa), utils::to2D(pb), utils::to2D(pd), "Point2d");
  check(utils::to2D(ConstPoint3d(pa)), utils::to2D(ConstPoint3d(pb)), utils::to2D(ConstPoint3d(pd)), "ConstPoint2d");
  c.nontrivial(exact && exp != 0);
  c.describe([&](auto& st) { st << "kind " << kind << " curvature " << exp; });
}

void alignLines(Case& c) {
  auto& s = c.src;
  auto cor = corridor::make(c);
  if (cor.left.size() < 2 || cor.right.size() < 2) throw pbt::Discard{};
  Id id = 1;
  bool drop = s.chance(1, 4) && cor.straight;  // bounds of two points
  if (drop) cor.left = {cor.left.front(), cor.left.back()};
  LineString3d left = corridor::toLs(1, cor.left, id), right = corridor::toLs(2, cor.right, id);
  bool il = s.flip(), ir = s.flip();
  auto expL = chk::ids(left), expR = chk::ids(right);
  auto li = il ? left.invert() : left, ri = ir ? right.invert() : right;
  auto ids = [](const auto& ls) { return chk::ids(ls); };
  if (s.flip()) {
    auto r = lg::align(utils::to2D(li), utils::to2D(ri));
    VEQ(ids(r.first), expL, "aligned left 2d, inverted " << il << ir);
    VEQ(ids(r.second), expR, "aligned right 2d, inverted " << il << ir);
    auto q = lg::align(utils::to2D(ConstLineString3d(ri)), utils::to2D(ConstLineString3d(li)));  // swapped roles: everything turned around
    std::reverse(expL.begin(), expL.end());
    std::reverse(expR.begin(), expR.end());
    VEQ(ids(q.first), expR, "aligned left 2d, roles swapped, inverted " << il << ir);
    VEQ(ids(q.second), expL, "aligned right 2d, roles swapped, inverted " << il << ir);
  } else {
    auto r = lg::align(li, ri);
    VEQ(ids(r.first), expL, "aligned left 3d, inverted " << il << ir);
    VEQ(ids(r.second), expR, "aligned right 3d, inverted " << il << ir);
    auto q = lg::align(ConstLineString3d(ri), ConstLineString3d(li));
    std::reverse(expL.begin(), expL.end());
    std::reverse(expR.begin(), expR.end());
    VEQ(ids(q.first), expR, "aligned left 3d, roles swapped, inverted " << il << ir);
    VEQ(ids(q.second), expL, "aligned right 3d, roles swapped, inverted " << il << ir);
  }
  c.did();
  if (!cor.straight) c.label("curved");
  c.nontrivial(expL.size() > 2 && expR.size() > 2);
  c.describe([&](auto& o) { o << expL.size() << "/" << expR.size() << " points, width " << cor.width << " length " << cor.length; });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C07";
  s.rule =
      "arc: simple lines of 2 to 200 points in every representation and direction; oracle: closest point by full scan, side by the corner's outer "
      "sector; fromArcCoordinates must invert. revisit: walks on a small grid that pass places repeatedly; the arc length is that of a closest "
      "position. interpolate: any line, walking by accumulated segment lengths. fromArc: expected point by walking. "
      "curvature: circles, collinear and random triples. align: curved corridors with inverted bounds.";
  s.assumptions = {"signs are compared only where the side is unambiguous (1e-6 m margin, unique closest point)", "lines are simple for signs and arc lengths",
                   "align is heuristic by documentation; corridors turn at most 2.2 rad"};
  s.props = {{"arc", "non-trivial: a query with an unambiguous side and more than two points", 60000, 5000000, arc},
             {"revisit", "non-trivial: the line string passes a point twice", 30000, 3000000, revisit},
             {"interpolate", "non-trivial: more than two points", 40000, 4000000, interpolate},
             {"fromArc", "non-trivial: more than two points", 30000, 3000000, fromArc},
             {"curvature", "non-trivial: curvature is not zero", 60000, 5000000, curvature},
             {"align", "non-trivial: more than two points on both sides", 20000, 2000000, alignLines}};
  return pbt::runMain(s, argc, argv);
}
