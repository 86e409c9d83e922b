// C26: generated reading programs on several threads under ThreadSanitizer; results compared with a single-threaded run.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <boost/range/adaptor/map.hpp>
#include <fstream>
#include <thread>

#include "roads.h"

// libstdc++ fills the table of std::ctype<char>::narrow and widen on first use without synchronization (not Lanelet2's code)
extern "C" const char* __tsan_default_suppressions() { return "race:std::ctype<char>\n"; }

namespace {
using namespace lanelet;

template <typename T>
std::string idList(const T& v) {
  std::string r;
  for (auto& e : v) r += std::to_string(e.id()) + (e.id() ? "," : "");
  return r + ";";
}
template <typename T>
std::string idListSorted(const T& v) {
  std::vector<Id> ids;
  for (auto& e : v) ids.push_back(e.id());
  std::sort(ids.begin(), ids.end());
  return chk::show(ids);
}
template <typename L>
std::string llts(const L& v) {
  std::string r;
  for (auto& e : v) r += (e.inverted() ? "-" : "") + std::to_string(e.id()) + ",";
  return r + ";";
}
std::string num(double v) { return pbt::str(v) + " "; }
template <typename P>
std::string xy(const P& p) {
  return num(p.x()) + num(p.y());
}

//! what the threads share
struct Scene {
  roads::Net n;
  routing::RoutingGraphUPtr graph;
  std::vector<ConstLanelet> ll;
  std::vector<ConstArea> ar;
  std::vector<ConstPoint3d> pt;
  std::vector<ConstLineString3d> ls;
  std::vector<RegulatoryElementPtr> regs;
  std::vector<LaneletSequence> seq;
  std::vector<routing::Route> routes;
  std::vector<ConstWeakLanelet> weak;
  std::vector<std::shared_ptr<Projector>> proj;
  Polygons3d polys;

  explicit Scene(Case& c) : n{c, options()} {
    auto& s = c.src;
    n.make();
    auto value = [&] { return Attribute(s.of<std::string>({"yes", "no", "1", "0", "17", "1.5", "30 km/h", "50", "mph", "", "true", "20 m/s", "-3"})); };
    for (auto& l : n.w.llts)
      if (s.flip()) l.setAttribute(s.of<std::string>({"a", "b"}), value());
    for (auto& p : n.w.pts)
      if (s.chance(1, 4)) p.setAttribute("a", value());
    for (auto& p : n.w.ls)
      if (s.chance(1, 4)) p.setAttribute("width", value());
    Id id = 60000;
    for (int i : n.inMapL) {
      if (!s.chance(1, 3)) continue;
      LineString3d light(id + 5000, {Point3d(id + 6000, 1, 1, 3), Point3d(id + 7000, 2, 1, 3)});
      light.setAttribute("type", "traffic_light");
      auto r = TrafficLight::make(id++, {}, {light}, s.flip() ? Optional<LineString3d>(n.w.llts[size_t(i)].rightBound()) : Optional<LineString3d>());
      n.w.llts[size_t(i)].addRegulatoryElement(r);
      n.map->add(r);
      n.map->add(n.w.llts[size_t(i)]);
      regs.push_back(r);
    }
    // points that moved since the last reading
    size_t moves = s.below(4);
    for (size_t i = 0; i < moves && !n.w.pts.empty(); ++i) {
      auto& p = n.w.pts[s.below(n.w.pts.size())];
      p.z() += 0.5;
      (void)lanelet::utils::to2D(p).basicPoint();  // known finding point2d: the first 2d access of a point moved in x or y is a write
    }
    for (auto& l : n.w.llts) l.resetCache();
    for (int i : n.inMapL) ll.push_back(s.chance(1, 4) ? n.w.llts[size_t(i)].invert() : n.w.llts[size_t(i)]);
    for (int i : n.inMapA) ar.push_back(n.w.ars[size_t(i)]);
    for (auto& p : n.w.pts) pt.push_back(p);
    for (auto& p : n.w.ls) ls.push_back(s.chance(1, 3) ? p.invert() : p);
    if (ll.empty() || pt.size() < 4 || ls.empty()) throw pbt::Discard{};
    for (size_t i = 0; i < 2; ++i) {
      ConstLanelets m;
      size_t k = size_t(s.range(1, 4));
      for (size_t j = 0; j < k; ++j) m.push_back(ll[s.below(ll.size())]);
      seq.emplace_back(m);
      weak.emplace_back(m.front());
    }
    polys.emplace_back(70000, Points3d{n.w.pts[0], n.w.pts[1], n.w.pts[2]});
    graph = n.graph();
    for (size_t i = 0; i < 4 && routes.size() < 2; ++i) {
      auto r = graph->getRoute(ll[s.below(ll.size())], ll[s.below(ll.size())], 0);
      if (r) routes.push_back(std::move(*r));
    }
    Origin o({49, 8.4});
    proj.push_back(std::make_shared<projection::UtmProjector>(o));
    proj.push_back(std::make_shared<projection::LocalCartesianProjector>(o));
    proj.push_back(std::make_shared<projection::SphericalMercatorProjector>(o));
  }
  static roads::NetOptions options() {
    roads::NetOptions o;
    o.maxCols = 3, o.maxRows = 3;
    return o;
  }
};

struct Op {
  int kind;
  size_t a, b, k;
};
const int Kinds = 24;
const char* opName(int k) {
  static const char* n[] = {"attributes", "points", "line strings", "centerlines", "polygons", "sequences", "compounds", "areas", "layer search", "layer find", "regulatory elements", "geometry",
                            "traffic rules", "routing neighbours", "routing search", "routes", "graph building", "ids", "submaps", "handles", "writing", "projection", "matching", "debug maps"};
  return n[k];
}
template <typename V>
auto& at(V& v, size_t i) {
  return v[i % v.size()];
}

std::string attribute(const Attribute& a, size_t k) {
  switch (k % 6) {
    case 0: return a.asBool() ? std::to_string(*a.asBool()) : "-";
    case 1: return a.asInt() ? std::to_string(*a.asInt()) : "-";
    case 2: return a.asDouble() ? num(*a.asDouble()) : "-";
    case 3: return a.asId() ? std::to_string(*a.asId()) : "-";
    case 4: return a.asVelocity() ? num(a.asVelocity()->value()) : "-";
    default: return a.value();
  }
}
template <typename P>
std::string attributes(const P& p, size_t k) {
  std::map<std::string, std::string> r;
  for (auto& e : p.attributes()) r[e.first] = attribute(e.second, k);
  std::string o;
  for (auto& e : r) o += e.first + "=" + e.second + " ";
  return o + pbt::str(p.attributeOr("a", 7), p.attributeOr("b", false), p.attributeOr("width", 2.5));
}
std::string path(const Optional<routing::LaneletPath>& p) { return p ? llts(*p) : "-"; }
std::string relations(const routing::LaneletRelations& v) {
  std::string r;
  for (auto& e : v) r += (e.lanelet.inverted() ? "-" : "") + std::to_string(e.lanelet.id()) + routing::relationToString(e.relationType);
  return r;
}

//! one reading operation on the shared objects, result as text
std::string run(const Op& o, Scene& s, int thread, std::vector<Id>& got) {
  const ConstLanelet& l = at(s.ll, o.a);
  const ConstLanelet& m = at(s.ll, o.b);
  const ConstLineString3d& ls = at(s.ls, o.b);
  const ConstPoint3d& p = at(s.pt, o.a);
  const LaneletMap& map = *s.n.map;
  std::string r;
  routing::RoutingCostId cost = routing::RoutingCostId(o.k % s.n.costs.size());
  switch (o.kind) {
    case 0:
      switch (o.b % 4) {
        case 0: return attributes(l, o.k);
        case 1: return attributes(p, o.k);
        case 2: return attributes(at(s.ls, o.a), o.k);
        default: return s.regs.empty() ? "" : attributes(static_cast<const RegulatoryElement&>(*at(s.regs, o.a)), o.k);
      }
    case 1: {
      auto p2 = lanelet::utils::to2D(p);
      return xy(p) + num(p.z()) + xy(p2) + xy(p2.basicPoint()) + num(geometry::distance(p2, lanelet::utils::to2D(at(s.pt, o.b)))) + xy(p.basicPoint());
    }
    case 2:
      for (const auto& q : ls) r += xy(q);
      for (auto& q : lanelet::utils::to2D(ls).basicLineString()) r += xy(q);
      for (auto& q : lanelet::utils::toHybrid(lanelet::utils::to2D(ls))) r += xy(q);
      return r + num(geometry::length(ls)) + num(geometry::length(lanelet::utils::to2D(ls))) + std::to_string(ls.numSegments()) + (ls.size() > 1 ? xy(ls.segment(0).second) : "");
    case 3: {
      auto c = l.centerline();
      for (const auto& q : c) r += xy(q) + num(q.z());
      for (const auto& q : m.centerline2d()) r += xy(q);
      return r;
    }
    case 4: {
      auto box = geometry::boundingBox2d(l);
      return num(geometry::area(l.polygon2d().basicPolygon())) + idList(l.polygon3d()) + xy(box.min()) + xy(box.max()) + std::to_string(geometry::inside(l, lanelet::utils::to2D(p).basicPoint())) + num(geometry::approximatedLength2d(m));
    }
    case 5: {
      LaneletSequence q = o.k % 2 ? at(s.seq, o.a) : at(s.seq, o.a).invert();
      for (const auto& x : q.centerline()) r += xy(x);
      return r + idList(q.polygon3d()) + idList(q.leftBound()) + idList(q.rightBound2d()) + std::to_string(q.regulatoryElements().size());
    }
    case 6: {
      CompoundLineString3d c(ConstLineStrings3d{l.leftBound(), m.leftBound().invert()});
      CompoundPolygon3d g(ConstLineStrings3d{l.leftBound(), l.rightBound().invert()});
      for (const auto& q : lanelet::utils::to2D(c)) r += xy(q);
      return r + idList(c) + idList(g) + num(geometry::length(c));
    }
    case 7: {
      if (s.ar.empty()) return "";
      const ConstArea& a = at(s.ar, o.a);
      auto g = a.basicPolygonWithHoles2d();
      for (auto& q : g.outer) r += xy(q);
      for (auto& i : a.innerBoundPolygons()) r += idList(i);
      return r + idList(a.outerBoundPolygon()) + attributes(a, o.k) + std::to_string(geometry::inside(a, lanelet::utils::to2D(p).basicPoint()));
    }
    case 8: {
      BasicPoint2d c(p.x(), p.y());
      BoundingBox2d box(c - BasicPoint2d(3, 3), c + BasicPoint2d(double(o.b % 9), 4));
      r += idListSorted(map.laneletLayer.search(box)) + idListSorted(map.pointLayer.search(box)) + idListSorted(map.lineStringLayer.search(box)) + idListSorted(map.areaLayer.search(box));
      std::vector<double> d;
      for (auto& e : geometry::findNearest(map.laneletLayer, c, 3)) d.push_back(e.first);
      r += chk::show(d) + idListSorted(geometry::findWithin2d(map.pointLayer, c, 2.) | boost::adaptors::map_values);
      auto near = map.pointLayer.nearest(c, 1);
      r += near.empty() ? "-" : num(geometry::distance(lanelet::utils::to2D(near[0]).basicPoint(), c));
      return r;
    }
    case 9: {
      r += std::to_string(map.laneletLayer.exists(l.id())) + std::to_string(map.laneletLayer.size()) + std::to_string(map.pointLayer.exists(Id(o.k) - 100));
      auto it = map.lineStringLayer.find(ls.id());
      r += it == map.lineStringLayer.end() ? "-" : std::to_string(it->size());
      r += idListSorted(map.laneletLayer.findUsages(ls)) + idListSorted(map.lineStringLayer.findUsages(p));
      if (!s.regs.empty()) r += idListSorted(map.laneletLayer.findUsages(at(s.regs, o.k)));
      size_t k = 0;
      for (auto& e : map.laneletLayer) k += size_t(e.id());
      return r + std::to_string(k);
    }
    case 10: {
      for (auto& e : l.regulatoryElements()) r += std::to_string(e->id());
      for (auto& t : l.regulatoryElementsAs<TrafficLight>()) r += std::to_string(t->trafficLights().size()) + (t->stopLine() ? std::to_string(t->stopLine()->id()) : "-");
      if (!s.regs.empty()) {
        std::shared_ptr<const RegulatoryElement> e = at(s.regs, o.a);
        r += std::to_string(e->size()) + std::to_string(e->getParameters().size()) + std::to_string(e->getParameters<ConstLineString3d>("refers").size()) + (e->find<ConstLineString3d>(ls.id()) ? "y" : "n");
      }
      return r;
    }
    case 11: {
      BasicPoint2d q(p.x(), p.y());
      auto c = l.centerline2d();
      r += num(geometry::distance2d(l, q)) + num(geometry::distance2d(l, m)) + num(geometry::distance(lanelet::utils::to2D(ls), q));
      if (c.size() > 1) r += num(geometry::toArcCoordinates(c, q).length) + xy(geometry::project(c, q)) + xy(geometry::interpolatedPointAtDistance(c, 1.5));
      r += std::to_string(geometry::follows(l, m)) + std::to_string(geometry::leftOf(l, m)) + std::to_string(geometry::rightOf(l, m)) + std::to_string(geometry::overlaps2d(l, m)) + std::to_string(geometry::intersects2d(l, m));
      return r;
    }
    case 12: {
      auto& t = *s.n.rules;
      r += pbt::str(t.canPass(l), t.canPass(l, m), t.canChangeLane(l, m), t.isOneWay(l), t.speedLimit(l).speedLimit.value(), t.hasDynamicRules(l));
      if (!s.ar.empty()) r += pbt::str(t.canPass(at(s.ar, o.b)), t.canPass(l, at(s.ar, o.b)));
      auto own = rules::make(o.k % 2 ? "de" : "xx", "vehicle");
      return r + pbt::str(own->canPass(l), own->speedLimit(m).isMandatory);
    }
    case 13: {
      auto& g = *s.graph;
      r += llts(g.following(l, o.k % 2)) + llts(g.previous(l)) + llts(g.besides(l)) + llts(g.lefts(l)) + llts(g.adjacentRights(l)) + relations(g.leftRelations(l)) + relations(g.rightRelations(m));
      std::vector<Id> c;
      for (auto& x : g.conflicting(l)) c.push_back(x.id());
      std::sort(c.begin(), c.end());
      auto rel = g.routingRelation(l, m, true);
      return r + chk::show(c) + (rel ? routing::relationToString(*rel) : "-") + std::to_string(g.checkValidity(false).size());
    }
    case 14: {
      auto& g = *s.graph;
      r += path(g.shortestPath(l, m, cost));
      if (o.k % 3 == 0) r += path(g.shortestPathVia(l, {at(s.ll, o.a + o.k)}, m, cost));
      auto set = g.reachableSet(l, double(o.k % 60), cost);
      std::vector<Id> ids;
      for (auto& x : set) ids.push_back(x.inverted() ? -x.id() : x.id());
      std::sort(ids.begin(), ids.end());
      r += chk::show(ids);
      for (auto& q : g.possiblePaths(l, double(o.k % 40), cost, o.k % 2)) r += llts(q);
      auto route = g.getRoute(l, m, cost);
      if (route) r += "route" + llts(route->shortestPath()) + std::to_string(route->size());
      return r;
    }
    case 15: {
      if (s.routes.empty()) return "";
      const routing::Route& q = at(s.routes, o.a);
      const auto& x = at(s.ll, o.b);
      r += llts(q.shortestPath()) + std::to_string(q.numLanes()) + num(q.length2d()) + std::to_string(q.contains(x)) + std::to_string(q.checkValidity(false).size());
      r += llts(q.fullLane(x)) + llts(q.remainingLane(q.shortestPath()[o.b % q.shortestPath().size()])) + relations(q.followingRelations(x)) + relations(q.leftRelations(x));
      auto sub = q.laneletSubmap();
      r += idListSorted(sub->laneletLayer);
      std::vector<Id> c;
      for (auto& z : q.conflictingInMap(x)) c.push_back(z.id());
      std::sort(c.begin(), c.end());
      return r + chk::show(c);
    }
    case 16: {
      auto g = routing::RoutingGraph::build(map, *s.n.rules, s.n.costs, s.n.config());
      return llts(g->following(l)) + path(g->shortestPath(l, m, cost)) + std::to_string(g->passableSubmap()->laneletLayer.size());
    }
    case 17: {
      size_t k = 1 + o.a % 40;
      for (size_t i = 0; i < k; ++i) got.push_back(lanelet::utils::getId());
      if (o.b % 3 == 0) {
        Id mine = got.back() + Id(o.k % 50);
        lanelet::utils::registerId(mine);
        Id next = lanelet::utils::getId();
        if (next <= mine) return "id " + std::to_string(next) + " after registering " + std::to_string(mine);
        got.push_back(next);
      }
      return "";
    }
    case 18: {
      auto sub = lanelet::utils::createConstSubmap({l, m}, s.ar);
      r += std::to_string(sub->laneletLayer.size()) + std::to_string(sub->areaLayer.size());
      auto full = sub->laneletMap();
      r += idListSorted(full->lineStringLayer) + idListSorted(full->pointLayer) + std::to_string(full->regulatoryElementLayer.size());
      return r;
    }
    case 19: {
      ConstLanelet copy = l, inv = l.invert();
      ConstWeakLanelet w = at(s.weak, o.b);
      r += pbt::str(copy == l, inv == l, copy == m, w.expired(), w.lock().id(), std::hash<ConstLanelet>()(inv) == std::hash<ConstLanelet>()(l));
      ConstLanelets many(s.ll.begin(), s.ll.end());
      std::sort(many.begin(), many.end(), [](auto& a, auto& b) { return a.id() < b.id(); });
      return r + llts(many) + std::to_string(lanelet::geometry::determineCommonLine(l, m) ? 1 : 0);
    }
    case 20: {
      std::string file = std::string(std::getenv("PBT_TMP")) + "/c26_" + std::to_string(thread) + ".osm";
      write(file, map, *at(s.proj, o.b));
      std::ifstream in(file);
      r.assign(std::istreambuf_iterator<char>(in), {});
      std::remove(file.c_str());
      return std::to_string(std::hash<std::string>()(r)) + "/" + std::to_string(r.size());
    }
    case 21: {
      auto& q = *at(s.proj, o.b);
      auto gps = q.reverse(p.basicPoint());
      return num(gps.lat) + num(gps.lon) + xy(q.forward(gps));
    }
    case 22: {
      matching::Object2d obj;
      obj.pose.translate(BasicPoint2d(p.x(), p.y()));
      std::vector<double> d;
      for (auto& x : matching::getDeterministicMatches(map, obj, double(o.b % 8))) d.push_back(x.distance);
      matching::ObjectWithCovariance2d co;
      co.pose = obj.pose;
      co.positionCovariance << 1, 0, 0, 2;
      co.vonMisesKappa = 1;
      for (auto& x : matching::getProbabilisticMatches(map, co, 2)) d.push_back(x.mahalanobisDistSq);
      return chk::show(d);
    }
    default: {
      auto d = s.graph->getDebugLaneletMap(cost);
      r += std::to_string(d->lineStringLayer.size());
      if (!s.routes.empty()) r += std::to_string(at(s.routes, o.a).getDebugLaneletMap()->pointLayer.size());
      return r;
    }
  }
}

void readers(Case& c) {
  rules::registerOther();
  auto& s = c.src;
  size_t before = s.choices().size();
  Scene shared(c);
  std::vector<uint64_t> slice(s.choices().begin() + long(before), s.choices().end());
  size_t threads = size_t(s.range(2, 5));
  // few kinds and few objects: the threads shall meet
  std::vector<int> kinds;
  size_t nk = size_t(s.range(1, 4));
  for (size_t i = 0; i < nk; ++i) kinds.push_back(int(s.below(Kinds)));
  size_t spread = s.of<size_t>({1, 2, 4, 1000});
  std::vector<std::vector<Op>> prog(threads);
  for (auto& p : prog) {
    size_t k = s.size(1, 12);
    for (size_t i = 0; i < k; ++i) p.push_back({s.pick(kinds), s.below(spread), s.below(spread), s.below(60)});
  }
  c.describe([&](auto& o) {
    for (auto& p : prog) {
      o << "thread:";
      for (auto& x : p) o << " " << opName(x.kind) << "(" << x.a << "," << x.b << "," << x.k << ")";
      o << "\n";
    }
  });
  std::vector<std::vector<std::string>> got(threads);
  std::vector<std::vector<Id>> ids(threads);
  std::atomic<size_t> ready{0};
  auto body = [&](size_t t) {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < threads) {
    }
    for (auto& o : prog[t]) {
      try {
        got[t].push_back(run(o, shared, int(t), ids[t]));
      } catch (std::exception& e) {
        got[t].push_back(std::string("exception ") + e.what());
      }
    }
  };
  std::vector<std::thread> pool;
  for (size_t t = 0; t < threads; ++t) pool.emplace_back(body, t);
  for (auto& t : pool) t.join();
  std::vector<Id> all;
  for (auto& v : ids) {
    for (size_t i = 0; i + 1 < v.size(); ++i) PBT_CHECK(v[i] < v[i + 1], "ids of one thread: " << v[i] << " before " << v[i + 1]);
    all.insert(all.end(), v.begin(), v.end());
  }
  std::sort(all.begin(), all.end());
  auto twice = std::adjacent_find(all.begin(), all.end());
  PBT_CHECK(twice == all.end(), "id " << *twice << " given to two requests");

  // the same programs on an equal, untouched scene without threads
  pbt::Src again(slice);
  Case c2(again, false);
  Scene fresh(c2);
  for (size_t t = 0; t < threads; ++t)
    for (size_t i = 0; i < prog[t].size(); ++i) {
      std::vector<Id> dummy;
      std::string want;
      try {
        want = run(prog[t][i], fresh, int(t), dummy);
      } catch (std::exception& e) {
        want = std::string("exception ") + e.what();
      }
      PBT_EQ(got[t][i], want, opName(prog[t][i].kind) << " in thread " << t);
      c.did();
    }
  std::set<std::pair<int, size_t>> seen;
  bool overlap = false;
  for (size_t t = 0; t < threads; ++t) {
    std::set<std::pair<int, size_t>> mine;
    for (auto& o : prog[t]) mine.insert({o.kind, o.a});
    for (auto& m : mine) overlap |= !seen.insert(m).second;
  }
  c.nontrivial(overlap);
  for (auto& p : prog)
    for (auto& o : p) c.label(opName(o.kind));
}

bool point2dRace() {
  for (int attempt = 0; attempt < 20; ++attempt) {
    pid_t pid = fork();
    if (pid == 0) {
      if (!freopen("/dev/null", "w", stderr)) _exit(0);
      Point3d p(1, 0, 0, 0);
      p.x() = 5;
      ConstPoint2d q(p);  // the handle exists before: counting references would order the two reads
      auto read = [&] { return q.basicPoint().x() > 7 ? 1 : 0; };
      std::thread a(read), b(read);
      a.join();
      b.join();
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return true;
  }
  return false;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C26";
  s.rule = "two threads perform the same kind of operation on the same object";
  s.assumptions = {"no thread modifies a shared object; the threads start after the map was completed",
                   "points whose x or y changed were read once in 2d before the threads start (known finding)",
                   "schedules are those of the operating system; the race detector reports unsynchronized accesses also if they did not collide"};
  s.props = {{"readers", "2-5 threads run generated reading programs on a shared map, routing graph and routes", 2000, 150000, readers}};
  s.known = {{"point2d", "the first 2d access of points whose x or y was changed writes the cached 2d position: a data race between readers", point2dRace}};
  s.nondeterministic = true;
  s.caseTimeout = 120;
  return pbt::runMain(s, argc, argv);
}
