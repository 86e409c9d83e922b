// C24: matching of objects to lanelets against brute force geometry, a Mahalanobis model and the traffic rule model.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_matching/Utilities.h>

#include "rules.h"

namespace {
using namespace lanelet;
using geo::P2;
using rules::Tags;
namespace lm = lanelet::matching;

struct Obj {
  lm::ObjectWithCovariance2d o;
  geo::L2 ring;  // empty: the position is matched
  P2 at;
  double yaw{0};
};

Obj object(lattice::World& w) {
  auto& s = w.s;
  Obj r;
  if (s.chance(1, 4) && !w.pts.empty()) {
    auto& p = w.pts[s.below(w.pts.size())];
    r.at = {p.x() + s.grid(-2, 2, 0.25), p.y() + s.grid(-2, 2, 0.25)};
  } else {
    r.at = {s.grid(-15, 45, 0.25), s.grid(-15, 30, 0.25)};
  }
  r.yaw = s.chance(1, 3) ? s.of({0., M_PI / 2, -M_PI / 2, M_PI, 3.0, -3.1}) : s.real(-3.2, 3.2);
  r.o.objectId = Id(s.range(0, 5));
  r.o.pose = lm::Pose2d::Identity();
  r.o.pose.translate(BasicPoint2d(r.at.x, r.at.y));
  r.o.pose.rotate(r.yaw);
  size_t kind = s.weighted({3, 5, 2});
  if (kind) {
    double l = s.of({0.5, 4., 8., 30.}), b = s.of({0.5, 2., 4.});
    geo::L2 loc;
    if (kind == 1) {
      loc = {{-l / 2, -b / 2}, {-l / 2, b / 2}, {l / 2, b / 2}, {l / 2, -b / 2}};  // clockwise
    } else {
      loc = {{-l / 2, 0}, {-l / 4, b / 2}, {l / 2, b / 3}, {l / 4, -b / 4}, {0, -b}};
      if (s.flip()) loc.erase(loc.begin() + 1);
    }
    P2 off = s.chance(1, 4) ? P2{s.grid(-4, 4, 0.5), s.grid(-4, 4, 0.5)} : P2{0, 0};  // the pose need not be in the center
    for (auto& p : loc) {
      double cs = std::cos(r.yaw), sn = std::sin(r.yaw);
      r.ring.push_back({r.at.x + off.x + cs * p.x - sn * p.y, r.at.y + off.y + sn * p.x + cs * p.y});
    }
    for (auto& p : r.ring) r.o.absoluteHull.push_back(BasicPoint2d(p.x, p.y));
    if (s.flip()) r.o.absoluteHull.push_back(r.o.absoluteHull.front());  // "is suggested"
  }
  return r;
}
double distTo(const Obj& o, const geo::Poly& g) { return o.ring.empty() ? geo::pointPoly(o.at, g) : geo::polyPoly(geo::Poly{o.ring, {}}, g); }
double distTo(const Obj& o, const geo::L2& l) {
  if (o.ring.empty()) return geo::pointLine(o.at, l);
  return geo::linePoly(l, geo::Poly{o.ring, {}});
}

//! values the squared Mahalanobis distance may have; more than one if several points of the centerline are closest
std::vector<double> mahalanobis(const geo::L2& c, const Obj& o) {
  geo::L2 line;
  for (auto& p : c)
    if (line.empty() || geo::dist(line.back(), p) > 0) line.push_back(p);
  std::vector<double> at;
  std::vector<std::pair<double, double>> all;  // distance, position
  double len = 0, best = geo::INF;
  for (size_t i = 0; i + 1 < line.size(); ++i) {
    P2 q = geo::closestOnSeg(o.at, line[i], line[i + 1]);
    all.push_back({geo::dist(o.at, q), len + geo::dist(line[i], q)});
    best = std::min(best, all.back().first);
    len += geo::dist(line[i], line[i + 1]);
  }
  auto point = [&](double x) {
    if (x <= 0) return line.front();
    double l = 0;
    for (size_t i = 0; i + 1 < line.size(); ++i) {
      double d = geo::dist(line[i], line[i + 1]);
      if (l + d >= x) return line[i] + ((x - l) / d) * (line[i + 1] - line[i]);
      l += d;
    }
    return line.back();
  };
  double a = o.o.positionCovariance(0, 0), b = o.o.positionCovariance(0, 1), d = o.o.positionCovariance(1, 1), e = o.o.positionCovariance(1, 0), det = a * d - b * e;
  for (auto& p : all) {
    if (p.first > best + 1e-7) continue;
    P2 dir = point(p.second + 0.5) - point(std::max(0., p.second - 0.5)), v = o.at - point(p.second);
    double yaw = std::atan2(dir.y, dir.x) - o.yaw;
    yaw = std::atan2(std::sin(yaw), std::cos(yaw));
    double k = o.o.vonMisesKappa;
    at.push_back(yaw * yaw * k * k + (v.x * (d * v.x - b * v.y) + v.y * (a * v.y - e * v.x)) / det);
  }
  return at;
}
geo::L2 lineOf(const ConstLineString3d& l) {
  geo::L2 r;
  for (const auto& p : l) r.push_back({p.x(), p.y()});
  return r;
}

struct Scene {
  lattice::World w;
  LaneletMapUPtr map;
  std::vector<Tags> tags;
  explicit Scene(Case& c) : w{c} {
    w.fill();
    for (auto& l : w.llts) {
      Tags t = w.s.chance(1, 3) ? Tags{} : rules::passTags(w.s, true);
      tags.push_back(t);
      for (auto& e : t) l.attributes()[e.first] = e.second;
    }
    for (auto& a : w.ars) a.attributes()["subtype"] = "parking";
    map = lanelet::utils::createMap(Lanelets(w.llts), Areas(w.ars));
  }
};

double radius(pbt::Src& s, const std::vector<double>& ds) {
  switch (s.below(4)) {
    case 0: return 0.;
    case 1: return s.of({0.5, 1., 2., 100.});
    case 2:
      if (!ds.empty()) {
        double d = ds[s.below(ds.size())];
        return std::max(0., d + s.of({-0.01, 0.01}));
      }
      return 1;
    default: return s.grid(0, 12, 0.25);
  }
}
template <typename Vec>
std::vector<std::pair<Id, bool>> handles(const Vec& v) {
  std::vector<std::pair<Id, bool>> r;
  for (auto& m : v) r.push_back({m.lanelet.id(), m.lanelet.inverted()});
  return r;
}
std::string show(const std::vector<std::pair<Id, bool>>& v) {
  std::ostringstream o;
  for (auto& e : v) o << (e.second ? "-" : "") << e.first << " ";
  return o.str();
}
std::vector<std::pair<Id, bool>> sorted(std::vector<std::pair<Id, bool>> v) {
  std::sort(v.begin(), v.end());
  return v;
}

//! every lanelet within the radius twice, with the right distance
template <typename Vec>
void judgeSet(const Vec& got, Scene& sc, const std::vector<double>& ds, double r, const char* what) {
  std::map<std::pair<Id, bool>, size_t> seen;
  for (auto& m : got) {
    size_t i = size_t(m.lanelet.id() - 20000);
    PBT_CHECK(i < sc.w.llts.size(), what << ": unknown lanelet " << m.lanelet.id());
    PBT_CHECK(ConstLanelet(m.lanelet).constData() == sc.w.llts[i].constData(), what << ": not a lanelet of the map");
    PBT_CHECK(++seen[std::make_pair(m.lanelet.id(), m.lanelet.inverted())] == 1, what << ": " << m.lanelet.id() << " reported twice");
    PBT_CHECK(std::abs(m.distance - ds[i]) <= 1e-7, what << ": distance " << m.distance << " of " << m.lanelet.id() << " instead of " << ds[i]);
    PBT_CHECK(ds[i] <= r + 1e-7, what << ": " << m.lanelet.id() << " is " << ds[i] << " away, but only " << r << " requested");
  }
  for (size_t i = 0; i < ds.size(); ++i) {
    if (ds[i] > r - 1e-7 && !(r == 0 && ds[i] == 0)) continue;
    for (bool inv : {false, true}) PBT_CHECK(seen.count(std::make_pair(sc.w.llts[i].id(), inv)), what << ": " << (inv ? "inverted " : "") << sc.w.llts[i].id() << " at " << ds[i] << " is missing");
  }
}
//! deepest penetration is needed to tell a touching contact from an overlap
bool clearlyIn(const Obj& o, const geo::Poly& g) {
  if (o.ring.empty()) return geo::pointPoly(o.at, g) == 0 && geo::pointBoundary(o.at, g) > 1e-6;
  return geo::interArea(geo::Poly{o.ring, {}}, g) > 1e-4;
}

void match(Case& c) {
  Scene sc(c);
  auto& w = sc.w;
  auto& s = c.src;
  if (w.llts.empty()) throw pbt::Discard{};
  Obj o = object(w);
  std::vector<double> ds;
  for (auto& m : w.lltM) {
    auto g = w.poly(m);
    double d = distTo(o, g);
    if (d == 0 && !clearlyIn(o, g)) d = 1e-9;  // touches: not decided
    ds.push_back(d);
  }
  double r = radius(s, ds);
  o.o.vonMisesKappa = s.of({0., 1., 2., 0.5, 10.});
  bool degenerate = s.chance(1, 8);
  if (degenerate) {
    switch (s.below(3)) {
      case 0: o.o.positionCovariance.setZero(); break;
      case 1: o.o.positionCovariance << 2., 2., 2., 2.; break;
      default: o.o.positionCovariance << (s.flip() ? 1. : 0.), 0., 0., 0.; break;
    }
  } else {
    double a = s.of({0.5, 1., 2., 10.}), b = s.of({0.5, 1., 3., 8.}), rho = s.of({0., 0., 0.5, -0.5, 0.9});
    o.o.positionCovariance << a * a, rho * a * b, rho * a * b, b * b;
  }
  c.describe([&](auto& out) {
    out << w.llts.size() << " lanelets, object at " << o.at.x << "," << o.at.y << " yaw " << o.yaw << (o.ring.empty() ? "" : " with hull") << " radius " << r << " kappa " << o.o.vonMisesKappa << " covariance "
        << o.o.positionCovariance(0, 0) << " " << o.o.positionCovariance(0, 1) << " " << o.o.positionCovariance(1, 1);
  });
  LaneletMap& map = *sc.map;
  const LaneletMap& cmap = *sc.map;

  auto det = lm::getDeterministicMatches(map, o.o, r);
  auto cdet = lm::getDeterministicMatches(cmap, o.o, r);
  judgeSet(det, sc, ds, r, "deterministic");
  judgeSet(cdet, sc, ds, r, "deterministic const");
  for (size_t i = 0; i + 1 < det.size(); ++i) PBT_CHECK(det[i].distance <= det[i + 1].distance, "deterministic matches not sorted");
  for (size_t i = 0; i + 1 < cdet.size(); ++i) PBT_CHECK(cdet[i].distance <= cdet[i + 1].distance, "const deterministic matches not sorted");
  PBT_CHECK(sorted(handles(det)) == sorted(handles(cdet)), "const: " << show(handles(cdet)) << " mutable: " << show(handles(det)));
  c.did(2);

  // closeness to a layer
  auto closeTo = [&](bool got, const std::vector<double>& d, double rad, const char* what) {
    double best = geo::INF;
    for (double x : d) best = std::min(best, x);
    bool sure = (best == 0 && rad == 0) || best < rad - 1e-7;
    bool never = best > rad + 1e-7;
    if (sure) PBT_CHECK(got, what << " denied at distance " << best << " with " << rad);
    if (never) PBT_CHECK(!got, what << " claimed at distance " << best << " with " << rad);
    c.did();
  };
  closeTo(lm::isCloseTo(cmap.laneletLayer, o.o, r), ds, r, "isCloseTo(lanelets)");
  closeTo(lm::isCloseTo(map.laneletLayer, o.o, r), ds, r, "isCloseTo(mutable lanelets)");
  closeTo(lm::isWithin(cmap.laneletLayer, o.o), ds, 0, "isWithin(lanelets)");
  std::vector<double> da, dl, dp;
  for (auto& m : w.arM) {
    auto g = w.poly(m);
    double d = distTo(o, g);
    if (d == 0 && !clearlyIn(o, g)) d = 1e-9;
    // C08 compares areas by their outer bound and holes; only the unambiguous part is used here
    auto outer = w.poly(m, false);
    double dOuter = distTo(o, outer);
    if (std::abs(d - dOuter) > 1e-7) d = -1;
    da.push_back(d);
  }
  if (std::find(da.begin(), da.end(), -1.) == da.end()) {
    closeTo(lm::isCloseTo(cmap.areaLayer, o.o, r), da, r, "isCloseTo(areas)");
    closeTo(lm::isWithin(cmap.areaLayer, o.o), da, 0, "isWithin(areas)");
  }
  for (auto& l : cmap.lineStringLayer) {
    double d = distTo(o, lineOf(l));
    if (d == 0) d = 1e-9;
    dl.push_back(d);
  }
  if (r > 1e-6) closeTo(lm::isCloseTo(cmap.lineStringLayer, o.o, r), dl, r, "isCloseTo(line strings)");
  for (auto& p : cmap.pointLayer) {
    double d = o.ring.empty() ? geo::dist(o.at, P2{p.x(), p.y()}) : geo::pointPoly({p.x(), p.y()}, geo::Poly{o.ring, {}});
    dp.push_back(d == 0 ? 1e-9 : d);
  }
  if (r > 1e-6) closeTo(lm::isCloseTo(cmap.pointLayer, o.o, r), dp, r, "isCloseTo(points)");
  PBT_EQ(lm::utils::findWithin(cmap.laneletLayer, o.o, r).size() * 2, det.size(), "findWithin and the matches differ");

  // probabilistic
  if (degenerate) {
    c.label("degenerate covariance");
    for (auto& l : w.llts) PBT_CHECK(chk::throws<MatchingError>([&] { lm::utils::getMahalanobisDistSq(l, o.o); }), "no error for a degenerate covariance");
    if (!det.empty()) {
      PBT_CHECK(chk::throws<MatchingError>([&] { lm::getProbabilisticMatches(map, o.o, r); }), "no error for a degenerate covariance");
      PBT_CHECK(chk::throws<MatchingError>([&] { lm::getProbabilisticMatches(cmap, o.o, r); }), "no error for a degenerate covariance");
    }
    return;
  }
  auto prob = lm::getProbabilisticMatches(map, o.o, r);
  auto cprob = lm::getProbabilisticMatches(cmap, o.o, r);
  judgeSet(prob, sc, ds, r, "probabilistic");
  judgeSet(cprob, sc, ds, r, "probabilistic const");
  PBT_CHECK(sorted(handles(det)) == sorted(handles(prob)), "deterministic and probabilistic candidates differ");
  for (size_t i = 0; i + 1 < prob.size(); ++i) PBT_CHECK(prob[i].mahalanobisDistSq <= prob[i + 1].mahalanobisDistSq, "probabilistic matches not sorted");
  for (size_t i = 0; i + 1 < cprob.size(); ++i) PBT_CHECK(cprob[i].mahalanobisDistSq <= cprob[i + 1].mahalanobisDistSq, "const probabilistic matches not sorted");
  PBT_CHECK(sorted(handles(prob)) == sorted(handles(cprob)), "const and mutable candidates differ");
  bool differ = false;
  auto judge = [&](const ConstLanelet& l, double got, const char* what) {
    auto line = lineOf(l.centerline());
    if (line.size() < 2) return;
    auto want = mahalanobis(line, o);
    if (want.empty()) return;
    bool ok = std::any_of(want.begin(), want.end(), [&](double v) { return std::abs(v - got) <= 1e-6 * (1 + std::abs(v)); });
    PBT_CHECK(ok, what << (l.inverted() ? " inverted " : " ") << l.id() << ": " << got << " instead of " << want.front());
    c.did();
  };
  for (auto& m : prob) judge(m.lanelet, m.mahalanobisDistSq, "probabilistic");
  for (auto& m : cprob) judge(m.lanelet, m.mahalanobisDistSq, "probabilistic const");
  for (auto& l : w.llts) {
    judge(l, lm::utils::getMahalanobisDistSq(l, o.o), "getMahalanobisDistSq");
    judge(l.invert(), lm::utils::getMahalanobisDistSq(l.invert(), o.o), "getMahalanobisDistSq");
  }
  auto order = handles(prob);
  for (size_t i = 0; i + 1 < prob.size(); ++i) differ |= prob[i].distance > prob[i + 1].distance + 1e-6;

  // traffic rules
  std::string land = s.of<std::string>({"de", "xx"});
  std::string who = s.of<std::string>({"vehicle", "pedestrian", "bicycle", "vehicle:truck"});
  traffic_rules::TrafficRulesPtr tr = rules::make(land, who);
  bool removed = false;
  auto filter = [&](auto& matches, const char* what) {
    auto before = handles(matches);
    auto out = lm::removeNonRuleCompliantMatches(matches, tr);
    PBT_CHECK(handles(matches) == before, what << ": the input changed");
    size_t j = 0;
    for (size_t i = 0; i < matches.size(); ++i) {
      auto& m = matches[i];
      auto ok = rules::passable(sc.tags[size_t(m.lanelet.id() - 20000)], m.lanelet.inverted(), who);
      bool kept = j < out.size() && out[j].lanelet == m.lanelet && out[j].distance == m.distance;
      if (ok == rules::Yes) PBT_CHECK(kept, what << " " << who << ": " << (m.lanelet.inverted() ? "-" : "") << m.lanelet.id() << " was removed or moved");
      if (ok == rules::No) {
        PBT_CHECK(!kept, what << " " << who << ": " << (m.lanelet.inverted() ? "-" : "") << m.lanelet.id() << " was kept");
        removed = true;
      }
      if (kept) ++j;
    }
    PBT_EQ(j, out.size(), what << ": more matches than before");
    c.did();
  };
  filter(det, "deterministic");
  filter(cdet, "const deterministic");
  filter(prob, "probabilistic");
  filter(cprob, "const probabilistic");
  c.nontrivial(det.size() > 2 && removed);
  c.label("matches", det.size());
  if (differ) c.label("ranking differs from distance");
  c.label(o.ring.empty() ? "position" : "hull");
}
}  // namespace

int main(int argc, char** argv) {
  rules::registerOther();
  pbt::Suite s;
  s.property = "C24";
  s.rule = "at least two lanelets match and the traffic rules remove some of the matches";
  s.assumptions = {"objects that only touch a lanelet are not judged with a radius of 0",
                   "if several points of a centerline are closest, the value for any of them is accepted",
                   "hulls are clockwise like all polygons of the library, open or closed",
                   "distances equal to the radius within 1e-7 are not judged"};
  s.props = {{"match", "deterministic, probabilistic and rule compliant matches of a generated object and map", 10000, 300000, match}};
  return pbt::runMain(s, argc, argv);
}
