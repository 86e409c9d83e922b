// C08: lanelet and area relations against exact polygons and shared borders.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/Polygon.h>

#include "lattice.h"
using namespace lanelet;
using geo::L2;
using geo::L3;
using geo::P2;
using geo::P3;
namespace lg = lanelet::geometry;

namespace {
constexpr double TOL = 1e-7;
using namespace lattice;
using OptLs = Optional<ConstLineString3d>;
template <typename F>
void expectLine(World& w, const OptLs& got, bool expect, F ok, const std::string& what) {
  PBT_EQ(!!got, expect, what << " found a line");
  if (got) PBT_CHECK(ok(*got), what << " returned line string " << got->id() << (got->inverted() ? " inverted" : ""));
  w.c.did();
}
bool sameLine(World& w, const ConstLineString3d& l, LsH h) { return l == ConstLineString3d(w.real(h)); }

void relations(Case& c) {
  World w{c};
  w.fill();
  auto& s = c.src;
  if (w.llts.empty()) throw pbt::Discard{};
  size_t related = 0;
  for (int t = 0; t < 14; ++t) {
    V a = pickL(w), b = pickL(w);
    auto first = [&](LsH h) { return w.list(h).front(); };
    auto last = [&](LsH h) { return w.list(h).back(); };
    // lanelet - lanelet
    bool lo = a.right == b.left, fo = last(a.left) == first(b.left) && last(a.right) == first(b.right);
    PBT_EQ(lg::leftOf(a.l, b.l), lo, "leftOf");
    PBT_EQ(lg::rightOf(b.l, a.l), lo, "rightOf");
    PBT_EQ(lg::follows(a.l, b.l), fo, "follows");
    PBT_EQ(lg::follows(ConstLanelet(b.l.invert()), ConstLanelet(a.l.invert())), fo, "follows of the inverted pair");
    related += lo || fo;
    c.did(4);
    for (bool allow : {false, true}) {
      bool l = a.left == b.right || (allow && a.left == b.left.flip());
      bool r = a.right == b.left || (allow && a.right == b.right.flip());
      expectLine(w, lg::determineCommonLine(a.l, b.l, allow), l || r,
                 [&](auto& ln) { return (l && sameLine(w, ln, a.left)) || (r && sameLine(w, ln, a.right)); },
                 std::string("determineCommonLine of lanelets, allowInverted=") + (allow ? "true" : "false"));
    }
    if (w.ars.empty()) continue;
    size_t ai = s.below(w.ars.size()), bi = s.below(w.ars.size());
    const ConstArea ar(w.ars[ai]), ar2(w.ars[bi]);
    auto& am = w.arM[ai];
    auto& bm = w.arM[bi];
    auto has = [&](LsH h) { return std::find(am.outer.begin(), am.outer.end(), h) != am.outer.end(); };
    bool left = has(a.left.flip()), right = has(a.right);
    ConstLanelet al(a.l);
    PBT_EQ(lg::leftOf(al, ar), left, "leftOf(lanelet, area)");
    PBT_EQ(lg::rightOf(al, ar), right, "rightOf(lanelet, area)");
    bool ahead = false, behind = false;
    std::vector<LsH> aheadLs, behindLs;  // the area's bound at the end of the lanelet, in area direction (clockwise)
    for (auto& h : am.outer) {
      int f = first(h), l = last(h);
      int eL = last(a.left), eR = last(a.right), sL = first(a.left), sR = first(a.right);
      ahead |= (f == eL && l == eR) || (f == eR && l == eL);
      behind |= (f == sL && l == sR) || (f == sR && l == sL);
      if (f == eR && l == eL) aheadLs.push_back(h);
      if (f == sL && l == sR) behindLs.push_back(h);
    }
    PBT_EQ(lg::follows(al, ar), ahead, "follows(lanelet, area)");
    PBT_EQ(lg::follows(ar, al), behind, "follows(area, lanelet)");
    auto in = [&](const std::vector<LsH>& v) {
      return [&w, &v](auto& ln) { return std::any_of(v.begin(), v.end(), [&](LsH h) { return sameLine(w, ln, h); }); };
    };
    expectLine(w, lg::determineCommonLinePreceding(al, ar), !aheadLs.empty(), in(aheadLs), "determineCommonLinePreceding");
    expectLine(w, lg::determineCommonLineFollowing(ar, al), !behindLs.empty(), in(behindLs), "determineCommonLineFollowing");
    std::vector<LsH> either = aheadLs;
    either.insert(either.end(), behindLs.begin(), behindLs.end());
    expectLine(w, lg::determineCommonLineFollowingOrPreceding(ar, al), !either.empty(), in(either), "determineCommonLineFollowingOrPreceding");
    std::vector<LsH> sideLl, sideAr;
    if (left) sideLl.push_back(a.left), sideAr.push_back(a.left.flip());
    if (right) sideLl.push_back(a.right), sideAr.push_back(a.right);
    expectLine(w, lg::determineCommonLineLeft(al, ar), left, [&](auto& ln) { return sameLine(w, ln, a.left); }, "determineCommonLineLeft");
    expectLine(w, lg::determineCommonLineRight(al, ar), right, [&](auto& ln) { return sameLine(w, ln, a.right); }, "determineCommonLineRight");
    expectLine(w, lg::determineCommonLineSideways(al, ar), left || right, in(sideLl), "determineCommonLineSideways(lanelet, area)");
    expectLine(w, lg::determineCommonLineSideways(ar, al), left || right, in(sideAr), "determineCommonLineSideways(area, lanelet)");
    std::vector<LsH> any = either;
    any.insert(any.end(), sideAr.begin(), sideAr.end());
    expectLine(w, lg::determineCommonLine(ar, al), !any.empty(), in(any), "determineCommonLine(area, lanelet)");
    related += !any.empty();
    // area - area
    auto ra = w.ring(am.outer), rb = w.ring(bm.outer);
    bool adj = false;
    for (size_t i = 0; i < ra.size(); ++i)
      for (size_t j = 0; j < rb.size(); ++j)
        adj |= ra[i] == rb[(j + 1) % rb.size()] && ra[(i + 1) % ra.size()] == rb[j];
    PBT_EQ(lg::adjacent(ar, ar2), adj, "adjacent");
    PBT_EQ(lg::adjacent(ar2, ar), adj, "adjacent swapped");
    std::vector<LsH> com;
    for (auto& h : am.outer)
      if (std::find(bm.outer.begin(), bm.outer.end(), h.flip()) != bm.outer.end()) com.push_back(h);
    expectLine(w, lg::determineCommonLine(ar, ar2), !com.empty(), in(com), "determineCommonLine of areas");
    related += adj;
  }
  c.label("related pairs", related);
  c.nontrivial(related > 0);
  w.describe();
}

bool shares(const std::vector<int>& ra, const std::vector<int>& rb) {  // an oppositely directed common segment
  for (size_t i = 0; i < ra.size(); ++i)
    for (size_t j = 0; j < rb.size(); ++j)
      if (ra[i] == rb[(j + 1) % rb.size()] && ra[(i + 1) % ra.size()] == rb[j]) return true;
  return false;
}
enum class Tri { No, Yes, Unclear };
Tri overlapOf(const geo::Poly& a, const geo::Poly& b) {
  double ia = geo::interArea(a, b);
  if (ia > 1e-4) return Tri::Yes;
  if (ia < 1e-9) return Tri::No;
  return Tri::Unclear;
}
void shapes(Case& c) {
  World w{c};
  w.fill();
  auto& s = c.src;
  if (w.llts.empty()) throw pbt::Discard{};
  size_t over = 0, touch = 0, apart = 0;
  auto tri = [&](bool got, Tri exp, const std::string& what) {
    if (exp != Tri::Unclear) PBT_EQ(got, exp == Tri::Yes, what);
    c.did();
  };
  for (int t = 0; t < 5; ++t) {
    V a = pickL(w), b = pickL(w);
    auto pa = w.poly(w.lltM[size_t(a.m)]), pb = w.poly(w.lltM[size_t(b.m)]);
    double d = geo::polyPoly(pa, pb);
    Tri inter = d == 0 ? Tri::Yes : d > 1e-6 ? Tri::Yes : Tri::Unclear;
    if (d > 1e-6) inter = Tri::No;
    else if (d == 0 && overlapOf(pa, pb) == Tri::No) {
      // touching: exact only if they share a point or a vertex lies on the grid line of the other; demand it for shared points
      auto ra = w.ring(w.lltM[size_t(a.m)]), rb = w.ring(w.lltM[size_t(b.m)]);
      bool sharePt = std::any_of(ra.begin(), ra.end(), [&](int i) { return std::count(rb.begin(), rb.end(), i) > 0; });
      if (!sharePt) inter = Tri::Unclear;
    }
    std::string nm = " of lanelets " + std::to_string(a.m) + (a.inv ? "'" : "") + " and " + std::to_string(b.m) + (b.inv ? "'" : "");
    tri(lg::intersects2d(a.l, b.l), inter, "intersects2d" + nm);
    tri(lg::intersects2d(ConstLanelet(b.l), ConstLanelet(a.l)), inter, "intersects2d swapped" + nm);
    Tri ov = a.m == b.m ? Tri::Yes : overlapOf(pa, pb);
    bool neighbours = a.m != b.m && shares(w.ring(w.lltM[size_t(a.m)]), w.ring(w.lltM[size_t(b.m)]));
    // lanelets joined at a complete border or end are no overlap by convention
    auto& ma = w.lltM[size_t(a.m)];
    auto& mb = w.lltM[size_t(b.m)];
    auto ends = [&](LsH l, LsH r) { return std::make_pair(w.list(l).front(), w.list(r).front()); };
    std::vector<std::pair<int, int>> ea{ends(ma.left, ma.right), ends(ma.right.flip(), ma.left.flip())},
        eb{ends(mb.left, mb.right), ends(mb.right.flip(), mb.left.flip())};
    for (auto& x : ea)
      for (auto& y : eb) neighbours |= a.m != b.m && x.first == y.second && x.second == y.first;
    for (LsH x : {ma.left.flip(), ma.right})
      for (LsH y : {mb.left, mb.right.flip()}) neighbours |= a.m != b.m && x == y;
    if (neighbours && ov == Tri::Yes) ov = Tri::Unclear;
    tri(lg::overlaps2d(a.l, b.l), ov, "overlaps2d" + nm);
    tri(lg::overlaps2d(ConstLanelet(b.l), ConstLanelet(a.l)), ov, "overlaps2d swapped" + nm);
    (ov == Tri::Yes ? over : d == 0 ? touch : apart)++;
    if (w.flatZ && a.m != b.m) {
      double dz = std::abs(w.at3(w.list(ma.left)[0]).z - w.at3(w.list(mb.left)[0]).z), h = s.of({1., 3., 5., dz + 0.5, dz + 1e-3});
      auto and3 = [&](Tri v) { return std::abs(dz - h) < 1e-6 ? Tri::Unclear : dz < h ? v : Tri::No; };
      tri(lg::intersects3d(a.l, b.l, h), and3(inter), "intersects3d with height " + std::to_string(h) + nm);
      tri(lg::overlaps3d(a.l, b.l, h), and3(ov), "overlaps3d with height " + std::to_string(h) + nm);
      tri(lg::overlaps3d(b.l, a.l, h), and3(ov), "overlaps3d swapped with height " + std::to_string(h) + nm);
    }
    auto near = [&](double got, double exp, const std::string& what, double tol = TOL) {
      PBT_CHECK(std::abs(got - exp) <= tol, what << nm << " got " << got << " expected " << exp);
      c.did();
    };
    near(lg::distance2d(a.l, b.l), d, "distance2d");
    // inside, distances to a point
    P2 q{s.grid(-8, 40, 0.5), s.grid(-8, 30, 0.5)};
    if (s.flip()) {
      auto& r = pa.outer;
      q = 0.5 * (r[s.below(r.size())] + r[s.below(r.size())]);
    }
    double dq = geo::pointPoly(q, pa), bq = geo::pointBoundary(q, pa);
    if (bq > 1e-6) PBT_EQ(lg::inside(a.l, conv::bp(q)), dq == 0, "inside at " << q.x << "," << q.y << nm);
    P2 vtx = pa.outer[s.below(pa.outer.size())];
    PBT_CHECK(lg::inside(ConstLanelet(a.l), conv::bp(vtx)), "a vertex is inside (border included)" << nm);
    Point3d qp(1, q.x, q.y, 1);
    near(lg::distance2d(a.l, qp), dq, "distance2d(lanelet, point)");
    near(lg::distance2d(utils::to2D(qp), a.l), dq, "distance2d(point, lanelet)");
    if (w.flatZ && dq > 1e-6) {  // points straight above or below the surface: see known_findings.txt
      double zl = w.at3(w.list(ma.left)[0]).z, zq = s.of({zl, zl + 3, zl - 40, 0.});
      BasicPoint3d q3(q.x, q.y, zq);
      near(lg::distance3d(a.l, q3), std::hypot(dq, zq - zl), "distance3d(lanelet, point)");
      near(lg::distance3d(q3, a.l), std::hypot(dq, zq - zl), "distance3d(point, lanelet)");
      near(lg::distance3d(a.l.invert(), Point3d(1, q.x, q.y, zq)), std::hypot(dq, zq - zl), "distance3d(inverted lanelet, point)");
      near(lg::distance3d(a.l.polygon3d(), q3), std::hypot(dq, zq - zl), "distance3d(polygon, point)");
    }
    near(lg::distance2d(a.l, w.real(b.left)), geo::linePoly(w.pos(b.left), pa), "distance2d(lanelet, line string)");
    // centerline based
    L3 ctr = conv::l3(a.l.centerline3d());
    L2 ctr2 = geo::to2(ctr);
    double len2 = 0, len3 = 0;
    for (size_t i = 0; i + 1 < ctr.size(); ++i) len2 += geo::dist(ctr2[i], ctr2[i + 1]), len3 += geo::dist(ctr[i], ctr[i + 1]);
    near(lg::distanceToCenterline2d(a.l, conv::bp(q)), geo::pointLine(q, ctr2), "distanceToCenterline2d");
    near(lg::distanceToCenterline3d(a.l, BasicPoint3d(q.x, q.y, 2)), geo::pointLine(P3{q.x, q.y, 2}, ctr), "distanceToCenterline3d");
    near(lg::length2d(a.l), len2, "length2d");
    near(lg::length3d(a.l), len3, "length3d");
    L2 lb = w.pos(a.left);
    double ll = 0, direct = geo::dist(lb.front(), lb.back());
    for (size_t i = 0; i + 1 < lb.size(); ++i) ll += geo::dist(lb[i], lb[i + 1]);
    double al = lg::approximatedLength2d(a.l);
    PBT_CHECK(al <= ll + TOL && al >= direct - TOL, "approximatedLength2d " << al << " not between " << direct << " and " << ll);
    if (lb.size() < 20) near(al, ll, "approximatedLength2d of a short bound");
    // bounding boxes
    auto box = [&](const L2& r, double z0, double z1, const BoundingBox2d& b2, const BoundingBox3d& b3, const std::string& what) {
      geo::Box g;
      g.add(r);
      PBT_CHECK(b2.min().x() == g.x0 && b2.min().y() == g.y0 && b2.max().x() == g.x1 && b2.max().y() == g.y1, what << " boundingBox2d");
      PBT_CHECK(b3.min().x() == g.x0 && b3.min().y() == g.y0 && b3.max().x() == g.x1 && b3.max().y() == g.y1, what << " boundingBox3d");
      PBT_CHECK(b3.min().z() == z0 && b3.max().z() == z1, what << " boundingBox3d z");
    };
    auto zs = [&](const std::vector<int>& r) {
      double lo = geo::INF, hi = -geo::INF;
      for (int i : r) lo = std::min(lo, w.at3(i).z), hi = std::max(hi, w.at3(i).z);
      return std::make_pair(lo, hi);
    };
    auto z = zs(w.ring(ma));
    box(pa.outer, z.first, z.second, lg::boundingBox2d(a.l), lg::boundingBox3d(a.l), "lanelet");
    // crossing centerlines
    if (a.m != b.m) {
      std::vector<double> dThis, dOther;
      auto xs = lg::intersectCenterlines2d(a.l, b.l, &dThis, &dOther);
      auto xs2 = lg::intersectCenterlines2d(ConstLanelet(a.l), ConstLanelet(b.l));
      PBT_EQ(xs.size(), xs2.size(), "intersectCenterlines2d with and without distances");
      PBT_EQ(xs.size(), dThis.size(), "number of distances");
      PBT_EQ(xs.size(), dOther.size(), "number of distances");
      L2 o = conv::l2(b.l.centerline2d());
      auto walk = [](const L2& l, double d) {
        for (size_t i = 0; i + 1 < l.size(); ++i) {
          double len = geo::dist(l[i], l[i + 1]);
          if (d <= len && len > 0) return l[i] + (d / len) * (l[i + 1] - l[i]);
          d -= len;
        }
        return l.back();
      };
      for (size_t i = 0; i < xs.size(); ++i) {
        P2 x = conv::p2(xs[i]);
        PBT_CHECK(geo::pointLine(x, ctr2) < 1e-6 && geo::pointLine(x, o) < 1e-6, "crossing lies on both centerlines" << nm);
        PBT_CHECK(geo::dist(walk(ctr2, dThis[i]), x) < 1e-5, "distance " << dThis[i] << " along the first centerline does not lead to the crossing" << nm);
        PBT_CHECK(geo::dist(walk(o, dOther[i]), x) < 1e-5, "distance " << dOther[i] << " along the second centerline does not lead to the crossing" << nm);
      }
      // every clear crossing is found
      for (size_t i = 0; i + 1 < ctr2.size(); ++i)
        for (size_t j = 0; j + 1 < o.size(); ++j) {
          P2 u = ctr2[i + 1] - ctr2[i], v = o[j + 1] - o[j];
          double det = geo::cross(u, v);
          if (std::abs(det) < 1e-2 * geo::norm(u) * geo::norm(v) || std::abs(det) < 1e-6) continue;
          double tt = geo::cross(o[j] - ctr2[i], v) / det, uu = geo::cross(o[j] - ctr2[i], u) / det;
          if (tt < 1e-3 || tt > 1 - 1e-3 || uu < 1e-3 || uu > 1 - 1e-3) continue;
          P2 x = ctr2[i] + tt * u;
          PBT_CHECK(std::any_of(xs.begin(), xs.end(), [&](auto& e) { return geo::dist(conv::p2(e), x) < 1e-5; }),
                    "crossing at " << x.x << "," << x.y << " is missing" << nm);
          c.label("crossing centerlines");
        }
    }
    if (w.ars.empty()) continue;
    size_t ai = s.below(w.ars.size()), bi = s.below(w.ars.size());
    auto &am = w.arM[ai], &bm = w.arM[bi];
    Area &ar = w.ars[ai], &ar2 = w.ars[bi];
    auto ga = w.poly(am), gb = w.poly(bm), goa = w.poly(am, false), gob = w.poly(bm, false);
    auto ra = w.ring(am.outer), rb = w.ring(bm.outer), rl = w.ring(ma);
    std::string an = " of area " + std::to_string(ai) + " and area " + std::to_string(bi) + " / lanelet " + std::to_string(a.m);
    double daq = geo::pointPoly(q, ga);
    if (geo::pointBoundary(q, ga) > 1e-6) PBT_EQ(lg::inside(ar, conv::bp(q)), daq == 0, "area inside at " << q.x << "," << q.y << an);
    near(lg::distance2d(ar, qp), daq, "distance2d(area, point)");
    near(lg::distance2d(qp, ar), daq, "distance2d(point, area)");
    if (w.flatZ && daq > 1e-6 && am.inner.empty()) {
      double za0 = zs(ra).first, zq = s.of({za0, za0 + 3, za0 - 40, 0.});
      near(lg::distance3d(ar, BasicPoint3d(q.x, q.y, zq)), std::hypot(daq, zq - za0), "distance3d(area, point)" + an);
      near(lg::distance3d(Point3d(1, q.x, q.y, zq), ar), std::hypot(daq, zq - za0), "distance3d(point, area)" + an);
    }
    near(lg::distance2d(ar, a.l), geo::polyPoly(ga, pa), "distance2d(area, lanelet)" + an);
    near(lg::distance2d(ar, ar2), geo::polyPoly(ga, gb), "distance2d(area, area)" + an);
    auto za = zs(ra);
    box(goa.outer, za.first, za.second, lg::boundingBox2d(ar), lg::boundingBox3d(ar), "area");
    double daa = geo::polyPoly(ga, gb);
    bool shared = std::any_of(ra.begin(), ra.end(), [&](int i) { return std::count(rb.begin(), rb.end(), i) > 0; });
    Tri ia = daa > 1e-6 ? Tri::No : daa > 0 ? Tri::Unclear : (geo::interArea(ga, gb) > 1e-4 || shared) ? Tri::Yes : Tri::Unclear;
    tri(lg::intersects2d(ar, ar2), ia, "area intersects2d" + an);
    tri(lg::intersects2d(ar2, ar), ia, "area intersects2d swapped" + an);
    auto excl = [](Tri v, bool nb) { return nb && v == Tri::Yes ? Tri::Unclear : v; };
    Tri oa = excl(overlapOf(goa, gob), shares(ra, rb)), ol = excl(overlapOf(goa, pa), shares(ra, rl));
    tri(lg::overlaps2d(ar, ar2), oa, "area overlaps2d" + an);
    tri(lg::overlaps2d(ar2, ar), oa, "area overlaps2d swapped" + an);
    tri(lg::overlaps2d(ar, a.l), ol, "area/lanelet overlaps2d" + an);
    if (w.flatZ) {
      double dz = std::abs(za.first - zs(rb).first), dl = std::abs(za.first - z.first), h = s.of({1., 3., 5., dl + 0.5, dz + 0.5});
      auto and3 = [&](Tri v, double d3) { return std::abs(d3 - h) < 1e-6 ? Tri::Unclear : d3 < h ? v : Tri::No; };
      tri(lg::overlaps3d(ar, ar2, h), and3(oa, dz), "area overlaps3d" + an);
      tri(lg::overlaps3d(ar, a.l, h), and3(ol, dl), "area/lanelet overlaps3d" + an);
    }
  }
  c.label("overlapping pairs", over), c.label("touching pairs", touch), c.label("separate pairs", apart);
  c.nontrivial(over + touch > 0 && w.llts.size() > 1);
  w.describe();
}

// line strings crossing at a known place, in 3d with slopes
void lines3d(Case& c) {
  auto& s = c.src;
  double alt = s.of({0., 0., 3., 115., 500.});
  size_t n = 2 + s.below(5), m = 2 + s.below(5);
  double slope = s.of({0., 0.05, 0.1, 0.3});
  L3 a, b;
  double z = alt;
  for (size_t i = 0; i < n; ++i) {
    if (i) z += slope * s.grid(-4, 4, 0.5);
    a.push_back({4. * double(i), s.grid(-3, 3, 0.25), z});
  }
  double x0 = s.grid(-4, 4. * double(n), 0.25), y0 = s.grid(-16, -2, 0.5);
  z = alt + s.grid(-6, 6, 0.5);
  for (size_t i = 0; i < m; ++i) {
    if (i) z += slope * s.grid(-4, 4, 0.5);
    b.push_back({x0 + s.grid(-2, 2, 0.25), y0 + 5. * double(i), z});
  }
  if (s.flip()) std::reverse(b.begin(), b.end());
  double best = geo::INF;
  bool clear = true;
  double h = s.of({3., 1., 2., 5.});
  for (size_t i = 0; i + 1 < n; ++i)
    for (size_t j = 0; j + 1 < m; ++j) {
      P2 p = geo::to2(a[i]), q = geo::to2(b[j]), u = geo::to2(a[i + 1]) - p, v = geo::to2(b[j + 1]) - q;
      double d = geo::segSeg(p, p + u, q, q + v);
      if (d > 1e-6) continue;
      double det = geo::cross(u, v);
      double t = geo::cross(q - p, v) / det, r = geo::cross(q - p, u) / det;
      if (!(std::abs(det) > 1e-3) || t < -1e-6 || t > 1 + 1e-6 || r < -1e-6 || r > 1 + 1e-6 || d > 0) {
        clear = false;
        continue;
      }
      double dz = std::abs(a[i].z + t * (a[i + 1].z - a[i].z) - b[j].z - r * (b[j + 1].z - b[j].z));
      if (std::abs(dz - h) < 1e-3) clear = false;
      best = std::min(best, dz);
    }
  if (!clear) throw pbt::Discard{};
  LineString3d la(1), lb(2);
  for (size_t i = 0; i < n; ++i) la.push_back(Point3d(Id(10 + i), a[i].x, a[i].y, a[i].z));
  for (size_t i = 0; i < m; ++i) lb.push_back(Point3d(Id(100 + i), b[i].x, b[i].y, b[i].z));
  bool exp = best < h;
  std::string w = "at height difference " + std::to_string(best) + " with tolerance " + std::to_string(h);
  PBT_EQ(lg::intersects3d(la, lb, h), exp, "intersects3d of line strings " << w);
  PBT_EQ(lg::intersects3d(ConstLineString3d(lb.invert()), ConstLineString3d(la), h), exp, "intersects3d swapped and inverted " << w);
  PBT_EQ(lg::intersects3d(ConstHybridLineString3d(la), ConstHybridLineString3d(lb), h), exp, "intersects3d of hybrid line strings " << w);
  PBT_EQ(lg::intersects3d(CompoundLineString3d({la}), CompoundLineString3d({lb}), h), exp, "intersects3d of compound line strings " << w);
  PBT_EQ(lg::intersects(utils::toHybrid(utils::to2D(la)), utils::toHybrid(utils::to2D(lb))), best < geo::INF, "intersects");
  c.did(5);
  c.label(best == geo::INF ? "no crossing" : exp ? "crossing" : "above each other");
  if (slope > 0) c.label("sloped");
  c.nontrivial(best < geo::INF);
  c.describe([&](auto& o) { o << n << " and " << m << " points, altitude " << alt << ", slope " << slope << " " << w; });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C08";
  s.rule =
      "worlds of lanelets and areas on one or two lattices (shared borders in random stored directions, lane shifts, turns, holes, stacked in z) plus "
      "free curved lanelets. relations: leftOf, rightOf, follows, adjacent and the determineCommonLine family against the model of shared line strings and "
      "points. geometry: intersects, overlaps, inside, distances, boxes, lengths and centerline crossings against exact polygons (slab sweep area).";
  s.assumptions = {"polygons are simple and clockwise as documented", "primitives joined at a border or end are not required to be reported as overlapping",
                   "height checks use primitives of constant height"};
  s.props = {{"relations", "non-trivial: at least one related pair", 18000, 1000000, relations},
             {"geometry", "non-trivial: at least one overlapping or touching pair", 9000, 500000, shapes},
             {"lines3d", "non-trivial: the lines cross in 2d", 30000, 3000000, lines3d}};
  s.known = {{"distance3d-above", "distance3d of a lanelet, area or polygon and a point straight above or below its surface is 0", [] {
                Points3d p{Point3d(1, 0, 0, 0), Point3d(2, 0, 4, 0), Point3d(3, 4, 4, 0), Point3d(4, 4, 0, 0)};
                Lanelet l(5, LineString3d(6, {p[1], p[2]}), LineString3d(7, {p[0], p[3]}));
                return lg::distance3d(l, BasicPoint3d(2, 2, 10)) == 0 && lg::distance3d(ConstPolygon3d(Polygon3d(8, p)), BasicPoint3d(2, 2, 10)) == 0;
              }}};
  return pbt::runMain(s, argc, argv);
}
