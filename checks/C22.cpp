// C22: conflicts are reported exactly for overlapping, unrelated passable primitives.
#include "roads.h"
using namespace lanelet;
using namespace roads;
using routing::RoutingGraphContainer;

namespace {
bool usable(const Net& n, const Vtx& x) { return geo::simpleRing(n.poly(x).outer); }
//! do the shapes overlap, considering the vertical distance if there is a height
Tri conflict(const Net& n, const Vtx& a, const Vtx& b, Optional<double> h) {
  auto o = n.overlap(a, b);
  if (o == Tri::No || !h) return o;
  if (!(std::abs(n.height(a) - n.height(b)) < *h)) return Tri::No;
  return o;
}
bool passes(const Net& n, const Vtx& a, const Vtx& b) {
  auto& r = *n.rules;
  auto all = [](const Vtx& x) {
    std::vector<ConstLaneletOrArea> v{x.p};
    if (!x.area) v.emplace_back(x.p.lanelet()->invert());
    return v;
  };
  for (auto& x : all(a))
    for (auto& y : all(b)) {
      if (x.isArea() && y.isArea() && r.canPass(*x.area(), *y.area())) return true;
      if (x.isArea() && y.isLanelet() && r.canPass(*x.area(), *y.lanelet())) return true;
      if (x.isLanelet() && y.isArea() && r.canPass(*x.lanelet(), *y.area())) return true;
    }
  return false;
}

void graphConflicts(Case& c) {
  NetOptions o;
  o.heights = true, o.tidy = c.src.chance(3, 4), o.maxCols = 3, o.maxRows = 3;
  Net n(c, o);
  if (c.src.flip()) n.vehicleHeight = c.src.of({1., 2., 2.5, 4., 5., 10.});
  n.make();
  n.describe(" height " + std::to_string(n.vehicleHeight));
  auto g = n.graph();
  Optional<double> h;
  if (n.vehicleHeight >= 0) h = n.vehicleHeight;
  size_t m = n.v.size();
  std::vector<bool> ok(m);
  for (size_t i = 0; i < m; ++i) ok[i] = usable(n, n.v[i]);
  std::vector<std::set<Key>> got(m);
  for (size_t i = 0; i < m; ++i) {
    auto r = g->conflicting(n.v[i].p);
    for (auto& x : r) {
      auto k = key(x);
      PBT_CHECK(n.at.count(k), "conflicting " << str(k) << " of " << n.name(int(i)) << " is not part of the graph");
      PBT_CHECK(k != n.v[i].key, n.name(int(i)) << " conflicts with itself");
      PBT_CHECK(got[i].insert(k).second, n.name(int(i)) << " has the conflicting " << str(k) << " twice");
    }
  }
  int yes = 0, stacked = 0, twoWay = 0, withArea = 0;
  for (size_t a = 0; a < m; ++a)
    for (size_t b = 0; b < m; ++b) {
      if (a == b) continue;
      auto &x = n.v[a], &y = n.v[b];
      bool is = got[a].count(y.key) > 0;
      std::string nm = str(x.key) + " and " + str(y.key);
      PBT_CHECK(is == (got[b].count(x.key) > 0), "the conflict of " << nm << " is not symmetric: " << is);
      if (!x.area && !y.area) {
        auto r = g->routingRelation(n.llt(x), n.llt(y), true);
        PBT_CHECK(!is || r, "no relation between the conflicting " << nm);
        bool conf = r && *r == RelationType::Conflicting;
        PBT_CHECK(!conf || is, "relation Conflicting between " << nm << ", but not in conflicting()");
        if (is && !n.related(int(a), int(b))) {
          PBT_CHECK(conf, "routingRelation of the conflicting " << nm << " is " << routing::relationToString(*r));
          PBT_CHECK(!g->routingRelation(n.llt(x), n.llt(y)), "routingRelation of " << nm << " without conflicts is not empty");
        }
      }
      Tri want = Tri::Unclear;
      if (x.key.first == y.key.first) {
        if (!x.area && !y.area) want = Tri::Yes, ++twoWay;
      } else if (x.area || y.area) {
        if (ok[a] && ok[b]) want = passes(n, x, y) || passes(n, y, x) ? Tri::Unclear : conflict(n, x, y, h);
        if (want == Tri::Yes) ++withArea;
      } else {
        if (n.unique && n.related(int(a), int(b))) want = Tri::No;
        else if (ok[a] && ok[b]) want = conflict(n, x, y, h);
        if (h && n.height(x) != n.height(y) && n.overlap(x, y) == Tri::Yes) ++stacked;
      }
      if (want == Tri::Unclear) continue;
      c.did();
      yes += want == Tri::Yes;
      PBT_CHECK(is == (want == Tri::Yes), nm << (is ? " are" : " are not") << " reported as conflicting");
    }
  c.nontrivial(yes > twoWay);
  c.label("conflicting pairs", uint64_t(yes));
  c.label("stacked pairs", uint64_t(stacked));
  c.label("both directions of a lane", uint64_t(twoWay));
  c.label("pairs with areas", uint64_t(withArea));
}

void container(Case& c) {
  NetOptions o;
  o.heights = true, o.maxCols = 3, o.maxRows = 3;
  Net n(c, o);
  n.make();
  std::vector<std::string> whos{n.who};
  size_t ng = 1 + c.src.below(3);
  while (whos.size() < ng) whos.push_back(c.src.of<std::string>({"vehicle", "pedestrian", "bicycle", "vehicle:bus"}));
  std::vector<routing::RoutingGraphConstPtr> graphs;
  std::vector<traffic_rules::TrafficRulesPtr> rs;
  std::vector<LaneletMapPtr> maps{n.map};
  for (size_t i = 0; i < ng; ++i) {
    rs.emplace_back(rules::make(n.land, whos[i]));
    graphs.emplace_back(routing::RoutingGraph::build(*n.map, *rs[i], n.costs, i ? routing::RoutingGraph::Configuration{} : n.config()));
  }
  if (c.src.chance(1, 6)) graphs.push_back(graphs[0]), rs.push_back(rs[0]), whos.push_back(whos[0]), ++ng;
  double h = c.src.of({0., 0., 1., 2., 2.5, 4., 5., 10.});
  n.describe(" graphs for " + chk::show(whos) + " height " + std::to_string(h));
  RoutingGraphContainer ct(graphs);
  PBT_EQ(ct.routingGraphs().size(), ng, "number of graphs");
  Optional<double> oh;
  if (h != 0) oh = h;
  struct Q {
    Vtx x;
    bool in, ok;
  };
  std::vector<Q> qs;
  std::set<int> in(n.inMapL.begin(), n.inMapL.end());
  for (int i = 0; i < int(n.w.llts.size()); ++i) {
    auto& l = n.w.lltM[size_t(i)];
    ConstLanelet p = n.w.llts[size_t(i)];
    Vtx x{false, i, false, l.left, l.right, p, key(p)};
    qs.push_back({x, in.count(i) > 0, usable(n, x)});
  }
  auto asked = [&](const ConstLanelets& r, const char* what) {
    std::set<Key> k;
    for (auto& l : r) PBT_CHECK(k.insert(key(l)).second, what << " has " << str(key(l)) << " twice");
    return k;
  };
  // expected answers: [graph][query] -> lanelet -> Tri
  auto expect = [&](size_t gi, const Q& q, const Q& y) -> Tri {
    if (!y.in || !rs[gi]->canPass(n.llt(y.x))) return Tri::No;
    if (y.x.key.first == q.x.key.first) return Tri::No;
    if (n.follows(q.x, y.x) || n.follows(y.x, q.x)) {
      if (!q.ok || !y.ok) return Tri::Unclear;
      // lanes that lead back can follow and overlap
      Tri t = conflict(n, q.x, y.x, oh);
      auto leadsBack = [&](const Vtx& a) { return n.w.list(a.right).size() > 5 || n.w.list(a.left).size() > 5; };
      return t != Tri::Unclear || leadsBack(q.x) || leadsBack(y.x) ? t : Tri::No;
    }
    if (q.x.left == y.x.right || q.x.right == y.x.left || q.x.left == y.x.left.flip() || q.x.right == y.x.right.flip()) return Tri::No;
    return q.ok && y.ok ? conflict(n, q.x, y.x, oh) : Tri::Unclear;
  };
  int yes = 0;
  auto judge = [&](const std::set<Key>& got, const Q& y, Tri want, const std::string& what) {
    if (want == Tri::Unclear) return;
    c.did();
    yes += want == Tri::Yes;
    PBT_CHECK(got.count(y.x.key) == (want == Tri::Yes), what << (want == Tri::Yes ? " lacks " : " contains ") << str(y.x.key));
  };
  auto inRange = [&](const std::set<Key>& got, const std::string& what) {
    for (auto& k : got) {
      bool known = false;
      for (auto& y : qs) known |= y.x.key == k;
      PBT_CHECK(known, what << " contains the unknown or inverted " << str(k));
    }
  };
  for (auto& q : qs)
    for (bool inv : {false, true}) {
      ConstLanelet l = inv ? n.llt(q.x).invert() : n.llt(q.x);
      auto all = ct.conflictingInGraphs(l, h);
      PBT_EQ(all.size(), ng, "size of conflictingInGraphs");
      for (size_t gi = 0; gi < ng; ++gi) {
        std::string what = "conflictingInGraph(" + str(key(l)) + ", " + std::to_string(gi) + ")";
        auto got = asked(ct.conflictingInGraph(l, gi, h), what.c_str());
        PBT_EQ(all[gi].first, gi, "graph id of conflictingInGraphs");
        PBT_CHECK(asked(all[gi].second, "conflictingInGraphs") == got, what << " differs from conflictingInGraphs");
        if (!inv) PBT_CHECK(!got.count(key(l)), what << " contains the lanelet itself");
        inRange(got, what);
        for (auto& y : qs) judge(got, y, inv && y.x.key.first == q.x.key.first ? Tri::Unclear : expect(gi, q, y), what);
      }
    }
  PBT_CHECK(chk::throws<InvalidInputError>([&] { ct.conflictingInGraph(n.llt(qs[0].x), ng, h); }), "no exception for a bad graph id");
  // routes
  int routes = 0;
  for (size_t t = 0; t < 4; ++t) {
    auto& gr = graphs[c.src.below(ng)];
    ConstLanelet from = n.llt(qs[c.src.below(qs.size())].x), to = n.llt(qs[c.src.below(qs.size())].x);
    auto r = gr->getRoute(from, to);
    if (!r) continue;
    ++routes;
    auto sub = r->laneletSubmap();
    std::vector<const Q*> on;
    std::set<Id> inverted;
    for (auto& l : sub->laneletLayer) {
      if (l.inverted()) inverted.insert(l.id());
      for (auto& q : qs)
        if (q.x.key.first == l.id()) on.push_back(&q);
    }
    PBT_EQ(on.size(), sub->laneletLayer.size(), "lanelets of the route");
    auto all = ct.conflictingOfRouteInGraphs(r.get_ptr(), h);
    PBT_EQ(all.size(), ng, "size of conflictingOfRouteInGraphs");
    for (size_t gi = 0; gi < ng; ++gi) {
      std::string what = "conflictingOfRouteInGraph(" + str(key(from)) + " to " + str(key(to)) + ", " + std::to_string(gi) + ")";
      auto got = asked(ct.conflictingOfRouteInGraph(r.get_ptr(), gi, h), what.c_str());
      PBT_EQ(all[gi].first, gi, "graph id of conflictingOfRouteInGraphs");
      PBT_CHECK(asked(all[gi].second, "conflictingOfRouteInGraphs") == got, what << " differs from conflictingOfRouteInGraphs");
      inRange(got, what);
      for (auto& y : qs) {
        bool any = false, unclear = inverted.count(y.x.key.first) > 0;
        for (auto q : on) {
          auto e = expect(gi, *q, y);
          any |= e == Tri::Yes, unclear |= e == Tri::Unclear;
        }
        judge(got, y, any ? Tri::Yes : unclear ? Tri::Unclear : Tri::No, what);
      }
    }
    PBT_CHECK(chk::throws<InvalidInputError>([&] { ct.conflictingOfRouteInGraph(r.get_ptr(), ng, h); }), "no exception for a bad graph id (route)");
  }
  c.nontrivial(yes > 0);
  c.label("conflicting pairs", uint64_t(yes));
  c.label("routes", uint64_t(routes));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C22";
  s.rule = "at least one pair of different primitives conflicts";
  s.assumptions = {"shapes that share a border or an end, or overlap by less than 1e-4 square meters, are judged only where the routing relation decides",
                   "primitives are flat; areas and lanelets that may be passed from one to the other are not judged",
                   "a container reports lanelets in their stored direction; whether the query lanelet itself is reported for its inverse is not judged"};
  s.props = {{"graph", "conflicting() of every vertex against polygon overlap and relations of the reference model; symmetric; consistent with routingRelation", 5000, 60000, graphConflicts},
             {"container", "conflictingInGraph(s) and conflictingOfRouteInGraph(s) for all lanelets, several participants, heights and routes", 3500, 45000, container}};
  return pbt::runMain(s, argc, argv);
}
