// C31: bounding boxes are tight, and their algebra is that of intervals.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>

#include "world.h"
using namespace lanelet;
namespace lg = lanelet::geometry;

namespace {
constexpr double INF = std::numeric_limits<double>::infinity();
struct Box {  // model: one interval per axis
  double lo[3]{INF, INF, INF}, hi[3]{-INF, -INF, -INF};
  void add(double x, double y, double z = 0) {
    double v[3]{x, y, z};
    for (int i = 0; i < 3; ++i) lo[i] = std::min(lo[i], v[i]), hi[i] = std::max(hi[i], v[i]);
  }
  bool empty() const { return lo[0] > hi[0] || lo[1] > hi[1]; }
};
std::string str(const Box& b, int dims = 2) {
  std::ostringstream o;
  o.precision(17);
  for (int i = 0; i < dims; ++i) o << "[" << b.lo[i] << ", " << b.hi[i] << "] ";
  return o.str();
}
void is(Case& c, const BoundingBox2d& got, const Box& want, const std::string& what) {
  c.did();
  if (want.empty()) {
    PBT_CHECK(got.isEmpty(), what << " is not empty: (" << got.min().transpose() << ") (" << got.max().transpose() << ")");
    return;
  }
  PBT_CHECK(!got.isEmpty(), what << " is empty, expected " << str(want));
  for (int i = 0; i < 2; ++i)
    PBT_CHECK(got.min()[i] == want.lo[i] && got.max()[i] == want.hi[i], what << " is (" << got.min().transpose() << ") (" << got.max().transpose() << "), expected " << str(want));
}
void is(Case& c, const BoundingBox3d& got, const Box& want, const std::string& what) {
  c.did();
  if (want.empty()) {
    PBT_CHECK(got.isEmpty(), what << " is not empty");
    return;
  }
  PBT_CHECK(!got.isEmpty(), what << " is empty, expected " << str(want, 3));
  for (int i = 0; i < 3; ++i)
    PBT_CHECK(got.min()[i] == want.lo[i] && got.max()[i] == want.hi[i], what << " is (" << got.min().transpose() << ") (" << got.max().transpose() << "), expected " << str(want, 3));
}
bool hits(const Box& a, const Box& b) {
  for (int i = 0; i < 2; ++i)
    if (a.lo[i] > b.hi[i] || b.lo[i] > a.hi[i]) return false;
  return true;
}
double gap(const Box& a, const Box& b) {
  double d = 0;
  for (int i = 0; i < 2; ++i) {
    double g = std::max({0., a.lo[i] - b.hi[i], b.lo[i] - a.hi[i]});
    d += g * g;
  }
  return d;
}
Box cut(const Box& a, const Box& b) {
  Box r;
  for (int i = 0; i < 2; ++i) r.lo[i] = std::max(a.lo[i], b.lo[i]), r.hi[i] = std::min(a.hi[i], b.hi[i]);
  return r;
}

void algebra(Case& c) {
  auto& s = c.src;
  std::ostringstream told;
  c.describe([&told](auto& o) { o << told.str(); });
  double step = s.of({1., 0.25, 1. / 3});
  auto pt = [&] { return BasicPoint2d(s.grid(-4, 4, 1) * step, s.grid(-4, 4, 1) * step); };
  auto make = [&](Box& m) {
    m = Box();
    BoundingBox2d b;
    PBT_CHECK(b.isEmpty(), "a new box is not empty");
    if (s.chance(1, 10)) return b;
    auto p = pt();
    m.add(p.x(), p.y());
    switch (s.below(4)) {
      case 0: b = BoundingBox2d(p, p); break;
      case 1: b = BoundingBox2d(p); break;
      case 2: b.extend(p); break;
      default: {
        auto q = pt();
        m.add(q.x(), q.y());
        b = BoundingBox2d(BasicPoint2d(m.lo[0], m.lo[1]), BasicPoint2d(m.hi[0], m.hi[1]));
      }
    }
    return b;
  };
  Box m;
  auto b = make(m);
  size_t work = 0;
  for (size_t t = s.size(1, 12); t > 0; --t) {
    Box n;
    auto o = make(n);
    auto p = pt();
    size_t op = s.below(8);
    told << "op " << op << " on " << str(m) << "with " << str(n) << "and (" << p.transpose() << ")\n";
    switch (op) {
      case 0:
        is(c, b.extend(p), (m.add(p.x(), p.y()), m), "extend(point)");
        break;
      case 1:
        if (!n.empty()) m.add(n.lo[0], n.lo[1]), m.add(n.hi[0], n.hi[1]);
        is(c, b.extend(o), m, "extend(box)");
        break;
      case 2: {
        auto x = cut(m, n);
        auto got = b.intersection(o);
        is(c, got, x, "intersection");
        if (x.empty()) break;  // an empty box that is made of other intervals can not be extended
        m = x;
        is(c, b.clamp(o), m, "clamp");
        break;
      }
      case 3: {
        Box x = m;
        if (!n.empty()) x.add(n.lo[0], n.lo[1]), x.add(n.hi[0], n.hi[1]);
        is(c, b.merged(o), x, "merged");
        break;
      }
      case 4: {
        if (m.empty()) break;
        BasicPoint2d d(s.grid(-8, 8, 1) * 0.5, s.grid(-8, 8, 1) * 0.5);
        for (int i = 0; i < 2; ++i) m.lo[i] += d[i], m.hi[i] += d[i];
        is(c, b.translate(d), m, "translate");
        break;
      }
      case 5:
        s.flip() ? b.setEmpty() : b.setNull();
        m = Box();
        break;
      case 6: {
        if (m.empty()) break;
        BoundingBox3d three = traits::to3D(b);
        Box z = m;
        z.lo[2] = z.hi[2] = 0;
        is(c, three, z, "to3D");
        is(c, traits::to2D(three), m, "to2D");
        is(c, lg::boundingBox2d(three), m, "boundingBox2d of a 3d box");
        is(c, lg::boundingBox3d(b), z, "boundingBox3d of a 2d box");
        is(c, lg::boundingBox2d(b), m, "boundingBox2d of a 2d box");
        b = BoundingBox2d(Eigen::AlignedBox<double, 2>(b.min(), b.max()));
        break;
      }
      default: {
        BoundingBox2d copy(b);
        b = o;
        is(c, copy, m, "a copy");
        m = n;
      }
    }
    is(c, b, m, "the box");
    PBT_EQ(b.isEmpty(), m.empty(), "isEmpty");
    PBT_EQ(b.isNull(), m.empty(), "isNull");
    if (m.empty()) continue;
    ++work;
    bool in = p.x() >= m.lo[0] && p.x() <= m.hi[0] && p.y() >= m.lo[1] && p.y() <= m.hi[1];
    PBT_EQ(b.contains(p), in, "contains(point)");
    Box q;
    q.add(p.x(), p.y());
    double d2 = gap(m, q);
    auto near = [](double a, double e) { return std::fabs(a - e) <= 1e-12 * std::max(1., e); };
    PBT_CHECK(near(b.squaredExteriorDistance(p), d2) && near(b.exteriorDistance(p), std::sqrt(d2)), "distance to a point: " << b.exteriorDistance(p) << " expected " << std::sqrt(d2));
    for (int k = 0; k < 4; ++k) {
      auto v = b.corner(BoundingBox2d::CornerType(k));
      PBT_CHECK(v.x() == (k & 1 ? m.hi[0] : m.lo[0]) && v.y() == (k & 2 ? m.hi[1] : m.lo[1]), "corner " << k);
    }
    for (int i = 0; i < 2; ++i) {
      PBT_CHECK(near(b.center()[i], (m.lo[i] + m.hi[i]) / 2), "center");
      PBT_CHECK(near(b.sizes()[i], m.hi[i] - m.lo[i]) && near(b.diagonal()[i], m.hi[i] - m.lo[i]), "sizes");
    }
    PBT_CHECK(near(b.volume(), (m.hi[0] - m.lo[0]) * (m.hi[1] - m.lo[1])), "volume");
    PBT_CHECK(b.contains(b.sample()), "a sample is outside");
    c.did(10);
    if (n.empty()) continue;
    bool inside = n.lo[0] >= m.lo[0] && n.hi[0] <= m.hi[0] && n.lo[1] >= m.lo[1] && n.hi[1] <= m.hi[1];
    PBT_EQ(b.contains(o), inside, "contains(box) " << str(m) << str(n));
    PBT_EQ(b.intersects(o), hits(m, n), "intersects " << str(m) << str(n));
    PBT_EQ(o.intersects(b), hits(m, n), "intersects (other way) " << str(m) << str(n));
    PBT_EQ(lg::intersects(b, o), hits(m, n), "geometry::intersects " << str(m) << str(n));
    double g2 = gap(m, n);
    PBT_CHECK(near(b.squaredExteriorDistance(o), g2) && near(b.exteriorDistance(o), std::sqrt(g2)), "distance to a box: " << b.exteriorDistance(o) << " expected " << std::sqrt(g2));
    PBT_CHECK(near(lg::distance(b, p), std::sqrt(d2)), "geometry::distance to a point: " << lg::distance(b, p) << " expected " << std::sqrt(d2));
    double off = 0;
    for (int i = 0; i < 2; ++i) off = std::max({off, std::fabs(m.lo[i] - n.lo[i]), std::fabs(m.hi[i] - n.hi[i])});
    if (off < 1e-14 || off > 1e-3) PBT_EQ(b.isApprox(o), off < 1e-3, "isApprox " << str(m) << str(n));
    c.did(6);
  }
  c.nontrivial(work > 1);
}

template <typename R>
Box hullOf(const R& pts) {
  Box b;
  for (auto& p : pts) b.add(p.x(), p.y(), p.z());
  return b;
}
Box hull(const ConstLanelet& l) {
  Box b;
  for (auto& s : {l.leftBound(), l.rightBound()})
    for (auto& p : s) b.add(p.x(), p.y(), p.z());
  return b;
}
Box hull(const ConstArea& a) {
  Box b;
  for (auto& s : a.outerBound())
    for (auto& p : s) b.add(p.x(), p.y(), p.z());
  return b;
}
struct Hull : public RuleParameterVisitor {
  Box b;
  void put(const Box& x) {
    if (!x.empty()) b.add(x.lo[0], x.lo[1], x.lo[2]), b.add(x.hi[0], x.hi[1], x.hi[2]);
  }
  void operator()(const ConstPoint3d& p) override { b.add(p.x(), p.y(), p.z()); }
  void operator()(const ConstLineString3d& l) override { put(hullOf(l)); }
  void operator()(const ConstPolygon3d& p) override { put(hullOf(p)); }
  void operator()(const ConstWeakLanelet& l) override {
    if (!l.expired()) put(hull(l.lock()));
  }
  void operator()(const ConstWeakArea& a) override {
    if (!a.expired()) put(hull(a.lock()));
  }
};

void primitives(Case& c) {
  auto& s = c.src;
  world::Opts o;
  world::Gen g(c, o);
  g.fill(s.size(2, 12));
  auto& w = g.w;
  double far = s.of({0., 0., 5e5, -3e6});
  for (auto& p : w.pts) p.x() += far, p.z() += s.grid(-3, 3, 0.5);
  if (s.flip())
    for (size_t i = s.size(1, 3); i > 0 && !w.llts.empty(); --i) {  // lanelets that regulatory elements refer to go away
      size_t k = s.below(w.llts.size());
      w.llts.erase(w.llts.begin() + long(k));
    }
  c.describe([&w](auto& os) { os << w.pts.size() << " points " << w.ls.size() << " line strings " << w.polys.size() << " polygons " << w.llts.size() << " lanelets " << w.areas.size() << " areas " << w.regs.size() << " regulatory elements"; });
  for (auto& p : w.pts) {
    Box b;
    b.add(p.x(), p.y(), p.z());
    Box flat = b;
    flat.lo[2] = flat.hi[2] = 0;
    is(c, lg::boundingBox2d(p), b, "point"), is(c, lg::boundingBox3d(p), b, "point"), is(c, lg::boundingBox2d(utils::to2D(p)), b, "2d point"), is(c, lg::boundingBox3d(utils::to2D(p)), b, "2d point");
    is(c, lg::boundingBox2d(p.basicPoint()), b, "basic point"), is(c, lg::boundingBox3d(p.basicPoint()), b, "basic point"), is(c, lg::boundingBox2d(p.basicPoint2d()), b, "basic 2d point"), is(c, lg::boundingBox3d(BasicPoint2d(p.basicPoint2d())), flat, "basic 2d point");
  }
  for (auto& l : w.ls) {
    auto b = hullOf(l);
    std::string n = "line string " + std::to_string(l.id()) + " of " + std::to_string(l.size()) + " points";
    is(c, lg::boundingBox2d(utils::to2D(l)), b, n), is(c, lg::boundingBox3d(l), b, n), is(c, lg::boundingBox3d(l.invert()), b, n + " inverted"), is(c, lg::boundingBox2d(utils::to2D(l.invert())), b, n + " inverted");
    is(c, lg::boundingBox2d(utils::toHybrid(utils::to2D(l))), b, n + " hybrid"), is(c, lg::boundingBox3d(utils::toHybrid(l)), b, n + " hybrid");
    is(c, lg::boundingBox2d(utils::to2D(l).basicLineString()), b, n + " basic"), is(c, lg::boundingBox3d(l.basicLineString()), b, n + " basic");
  }
  for (auto& p : w.polys) {
    auto b = hullOf(p);
    is(c, lg::boundingBox2d(utils::to2D(p)), b, "polygon"), is(c, lg::boundingBox3d(p), b, "polygon");
    is(c, lg::boundingBox2d(utils::to2D(p).basicPolygon()), b, "basic polygon"), is(c, lg::boundingBox3d(p.basicPolygon()), b, "basic polygon");
  }
  for (auto& l : w.llts) {
    auto b = hull(l);
    std::string n = "lanelet " + std::to_string(l.id());
    is(c, lg::boundingBox2d(l), b, n), is(c, lg::boundingBox3d(l), b, n), is(c, lg::boundingBox2d(l.invert()), b, n + " inverted"), is(c, lg::boundingBox3d(ConstLanelet(l.invert())), b, n + " inverted");
    is(c, lg::boundingBox2d(l.polygon2d()), b, n + " polygon2d"), is(c, lg::boundingBox3d(l.polygon3d()), b, n + " polygon3d");
  }
  for (auto& a : w.areas) {
    auto b = hull(a);
    std::string n = "area " + std::to_string(a.id());
    is(c, lg::boundingBox2d(a), b, n), is(c, lg::boundingBox3d(a), b, n), is(c, lg::boundingBox2d(utils::to2D(a.outerBoundPolygon())), b, n + " polygon");
  }
  ConstLineStrings3d parts;
  Box all;
  for (auto& l : w.ls)
    if (s.flip()) {
      parts.push_back(l);
      for (auto& p : l) all.add(p.x(), p.y(), p.z());
    }
  is(c, lg::boundingBox3d(CompoundLineString3d(parts)), all, "compound line string"), is(c, lg::boundingBox2d(utils::to2D(CompoundLineString3d(parts))), all, "compound line string");
  size_t full = 0;
  for (auto& r : w.regs) {
    Hull h;
    std::static_pointer_cast<GenericRegulatoryElement>(r)->applyVisitor(h);
    std::string n = "regulatory element " + std::to_string(r->id());
    is(c, lg::boundingBox2d(*r), h.b, n), is(c, lg::boundingBox3d(*r), h.b, n), is(c, lg::boundingBox2d(RegulatoryElementConstPtr(r)), h.b, n), is(c, lg::boundingBox3d(RegulatoryElementConstPtr(r)), h.b, n);
    full += !h.b.empty();
  }
  c.label("regulatory elements with an extent", full);
  c.nontrivial(w.llts.size() + w.areas.size() + w.polys.size() > 1);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C31";
  s.rule = "algebra: two and more states that are not empty; primitives: more than one lanelet, area or polygon";
  s.assumptions = {"an empty box that is the intersection of others is not extended any further"};
  s.props = {
      {"algebra", "histories of operations on a box against intervals", 250000, 6000000, algebra},
      {"primitives", "boxes of all kinds of primitives against the extremes of their points", 80000, 2500000, primitives},
  };
  return pbt::runMain(s, argc, argv);
}
