// C20: shortest paths are valid, optimal and found whenever one exists.
#include "roads.h"
using namespace lanelet;
using namespace roads;

namespace {
double tol(double v) { return 1e-8 * (1 + std::abs(v)); }
using Adj = std::vector<std::vector<std::pair<int, double>>>;

std::vector<std::vector<double>> allPairs(const Adj& a) {  // Floyd
  size_t n = a.size();
  std::vector<std::vector<double>> d(n, std::vector<double>(n, INF));
  for (size_t i = 0; i < n; ++i) {
    for (auto& e : a[i]) d[i][size_t(e.first)] = std::min(d[i][size_t(e.first)], e.second);
    d[i][i] = 0;
  }
  for (size_t k = 0; k < n; ++k)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
  return d;
}
//! cost of a path in the model, INF if it is no path
template <typename P>
double cost(const Net& n, const Adj& a, const P& path) {
  double sum = 0;
  for (size_t i = 0; i + 1 < path.size(); ++i) {
    auto f = n.at.find(key(path[i])), t = n.at.find(key(path[i + 1]));
    if (f == n.at.end() || t == n.at.end()) return INF;
    double best = INF;
    for (auto& e : a[size_t(f->second)])
      if (e.first == t->second) best = std::min(best, e.second);
    sum += best;
  }
  return sum;
}

void paths(Case& c) {
  auto& s = c.src;
  NetOptions o;
  o.maxCols = 6;
  Net n(c, o);
  n.make();
  n.describe();
  if (!n.unique || n.v.empty()) throw pbt::Discard{};
  auto g = n.graph();
  auto m2 = n.otherMap();
  auto gOther = n.graph(*m2);
  size_t found = 0, long_ = 0, alt = 0, none = 0, vias = 0;
  Lanelet foreign(77777, n.w.ls[0], n.w.ls[size_t(n.w.ls.size() > 1)]);
  for (size_t k = 0; k < n.costM.size(); ++k)
    for (bool changes : {true, false}) {
      auto id = routing::RoutingCostId(k);
      auto A = n.adjacency(k, changes, false), AA = n.adjacency(k, changes, true);
      auto d = allPairs(A), dA = allPairs(AA);
      auto check = [&](const auto& p, const Adj& adj, int a, int b, double want, const std::string& what) {
        c.did();
        std::string nm = what + " from " + n.name(a) + " to " + n.name(b) + " (cost " + std::to_string(k) + (changes ? ", lane changes)" : ")");
        if (!std::isfinite(want)) {
          PBT_CHECK(!p, nm << " returned " << roads::str(keys(*p)) << " although there is no path");
          ++none;
          return;
        }
        PBT_CHECK(p && !p->empty(), nm << " found nothing, cost would be " << want);
        PBT_CHECK(key(p->front()) == n.v[size_t(a)].key && key(p->back()) == n.v[size_t(b)].key, nm << " is " << roads::str(keys(*p)) << " and does not lead from start to end");
        double got = cost(n, adj, *p);
        PBT_CHECK(std::abs(got - want) <= tol(want), nm << " is " << roads::str(keys(*p)) << " with cost " << got << ", minimum is " << want);
        ++found;
        long_ += p->size() > 3;
      };
      auto pick = [&] { return int(s.below(n.v.size())); };
      for (size_t t = 0; t < 12; ++t) {
        int a = pick(), b = pick();
        if (t == 0) b = a;
        auto &x = n.v[size_t(a)], &y = n.v[size_t(b)];
        check(g->shortestPathIncludingAreas(x.p, y.p, id, changes), AA, a, b, dA[size_t(a)][size_t(b)], "shortest path including areas");
        if (x.area || y.area) continue;
        double want = d[size_t(a)][size_t(b)];
        auto p = g->shortestPath(n.llt(x), n.llt(y), id, changes);
        check(p, A, a, b, want, "shortest path");
        auto p2 = gOther->shortestPath(n.llt(x), n.llt(y), id, changes);
        check(p2, A, a, b, want, "shortest path in another graph");
        auto again = g->shortestPath(n.llt(x), n.llt(y), id, changes);
        PBT_CHECK(bool(p) == bool(again) && (!p || keys(*p) == keys(*again)), "repeated query differs");
        alt += std::isfinite(dA[size_t(a)][size_t(b)]) && dA[size_t(a)][size_t(b)] < want;
        auto r = g->getRoute(n.llt(x), n.llt(y), id, changes);
        PBT_CHECK(bool(r) == std::isfinite(want), "getRoute from " << n.name(a) << " to " << n.name(b) << (r ? " found a route without path" : " found nothing"));
        if (r) check(Optional<routing::LaneletPath>(r->shortestPath()), A, a, b, want, "shortest path of the route");
      }
      for (size_t t = 0; t < 4; ++t) {  // via
        std::vector<int> stops{pick()};
        for (size_t i = 0, m = s.below(4); i <= m; ++i) stops.push_back(s.chance(1, 6) ? stops.back() : pick());
        bool lltsOnly = std::none_of(stops.begin(), stops.end(), [&](int i) { return n.v[size_t(i)].area; });
        auto viaCheck = [&](const auto& p, const Adj& adj, const std::vector<std::vector<double>>& dist, const std::string& what) {
          c.did();
          std::string nm = what + " via";
          double want = 0;
          for (size_t i = 0; i + 1 < stops.size(); ++i) want += dist[size_t(stops[i])][size_t(stops[i + 1])];
          for (int i : stops) nm += " " + n.name(i);
          if (!std::isfinite(want)) {
            PBT_CHECK(!p, nm << " returned " << roads::str(keys(*p)) << " although there is no path");
            return;
          }
          PBT_CHECK(p && !p->empty(), nm << " found nothing, cost would be " << want);
          auto ks = keys(*p);
          PBT_CHECK(ks.front() == n.v[size_t(stops[0])].key && ks.back() == n.v[size_t(stops.back())].key, nm << " is " << roads::str(ks));
          size_t pos = 0;
          for (int i : stops) {
            while (pos < ks.size() && ks[pos] != n.v[size_t(i)].key) ++pos;
            PBT_CHECK(pos < ks.size(), nm << " is " << roads::str(ks) << " and does not visit " << n.name(i) << " in order");
          }
          double got = cost(n, adj, *p);
          PBT_CHECK(std::abs(got - want) <= tol(want), nm << " is " << roads::str(ks) << " with cost " << got << ", minimum is " << want);
          ++vias;
        };
        ConstLaneletOrAreas mid;
        for (size_t i = 1; i + 1 < stops.size(); ++i) mid.push_back(n.v[size_t(stops[i])].p);
        auto &x = n.v[size_t(stops[0])], &y = n.v[size_t(stops.back())];
        viaCheck(g->shortestPathIncludingAreasVia(x.p, mid, y.p, id, changes), AA, dA, "shortest path including areas");
        if (!lltsOnly) continue;
        ConstLanelets midL;
        for (auto& q : mid) midL.push_back(*q.lanelet());
        auto p = g->shortestPathVia(n.llt(x), midL, n.llt(y), id, changes);
        viaCheck(p, A, d, "shortest path");
        // a lanelet that is not in the graph
        ConstLanelets bad = midL;
        bad.push_back(foreign);
        PBT_CHECK(!g->shortestPathVia(n.llt(x), bad, n.llt(y), id, changes), "path via a foreign lanelet");
        PBT_CHECK(!g->shortestPath(n.llt(x), foreign, id, changes) && !g->shortestPath(foreign, n.llt(x), id, changes), "path from or to a foreign lanelet");
        PBT_CHECK(!g->getRoute(n.llt(x), foreign, id, changes) && !g->getRoute(foreign, foreign, id, changes), "route from or to a foreign lanelet");
      }
    }
  c.label("paths", found), c.label("paths over more than 3 elements", long_), c.label("no path", none), c.label("cheaper over areas", alt), c.label("paths with via points", vias);
  c.nontrivial(long_ > 0);
}

// remaining lane and comparison of path objects
void pathObjects(Case& c) {
  auto& s = c.src;
  NetOptions o;
  o.areas = false;
  Net n(c, o);
  n.make();
  n.describe();
  if (n.v.empty()) throw pbt::Discard{};
  // random walks
  std::vector<int> walk{int(s.below(n.v.size()))};
  for (size_t i = 0; i < 6; ++i) {
    auto& e = n.out[0][size_t(walk.back())];
    if (e.empty()) break;
    walk.push_back(std::next(e.begin(), long(s.below(e.size())))->first);
  }
  ConstLanelets llts;
  for (int i : walk) llts.push_back(n.llt(n.v[size_t(i)]));
  routing::LaneletPath p(llts);
  PBT_EQ(p.size(), llts.size(), "size");
  PBT_CHECK(keys(p) == keys(llts), "content");
  size_t cut = 0;
  for (size_t i = 0; i < walk.size(); ++i) {
    Keys want{n.v[size_t(walk[i])].key};
    for (size_t j = i; j + 1 < walk.size() && n.follows(n.v[size_t(walk[j])], n.v[size_t(walk[j + 1])]); ++j) want.push_back(n.v[size_t(walk[j + 1])].key);
    auto lane = p.getRemainingLane(p.begin() + long(i));
    c.did();
    PBT_CHECK(keys(lane.lanelets()) == want, "getRemainingLane from position " << i << " of " << roads::str(keys(p)) << " is " << roads::str(keys(lane.lanelets())) << ", expected " << roads::str(want));
    size_t f = size_t(std::find(walk.begin(), walk.end(), walk[i]) - walk.begin());
    if (f == i) PBT_CHECK(keys(p.getRemainingLane(llts[i]).lanelets()) == want, "getRemainingLane by lanelet");
    cut += want.size() > 1 && want.size() + i < walk.size();
  }
  PBT_CHECK(p.getRemainingLane(p.end()).empty(), "getRemainingLane of the end");
  Lanelet foreign(77777, n.w.ls[0], n.w.ls[0]);
  PBT_CHECK(p.getRemainingLane(foreign).empty(), "getRemainingLane of a foreign lanelet");
  auto q = routing::LaneletPath(llts);
  PBT_CHECK(p == q && !(p != q), "equality");
  llts.push_back(foreign);
  PBT_CHECK(p != routing::LaneletPath(llts), "inequality");
  c.label("lane changes after a lane", cut);
  c.nontrivial(cut > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C20";
  s.rule = "paths: some shortest path has more than 3 elements; pathObjects: a walk follows a lane and then changes it";
  s.assumptions = {"relations of the graph are judged by C19, lanelet lengths by C08", "costs are compared with a relative tolerance of 1e-8"};
  s.props = {
      {"paths", "shortest paths between random pairs and via points against Floyd's algorithm on the model graph", 5000, 250000, paths},
      {"pathObjects", "walks and their remaining lanes", 8000, 300000, pathObjects},
  };
  return pbt::runMain(s, argc, argv);
}
