// C23: a route is a consistent corridor around its shortest path.
#include "roads.h"
using namespace lanelet;
using namespace roads;
using routing::LaneletRelations;
using routing::LaneletVisitInformation;
using routing::Route;

namespace {
constexpr auto Change = RelationType::Left | RelationType::Right;
constexpr auto Beside = Change | RelationType::AdjacentLeft | RelationType::AdjacentRight;
double tol(double v) { return 1e-8 * (1 + std::abs(v)); }
template <typename S>
auto list(const S& s) {
  return std::vector<typename S::value_type>(s.begin(), s.end());
}

struct Setup {
  Case& c;
  Net n;
  routing::RoutingGraphUPtr g;
  Lanelet foreign;
  explicit Setup(Case& cc, bool heights = false) : c{cc}, n{cc, opts(cc, heights)} {
    n.make();
    if (!n.unique) throw pbt::Discard{};
    g = n.graph();
    foreign = Lanelet(77777, n.w.ls[0], n.w.ls[size_t(n.w.ls.size() > 1)]);
  }
  static NetOptions opts(Case& c, bool heights) {
    NetOptions o;
    o.maxCols = 5, o.maxRows = c.src.of<size_t>({3, 4}), o.heights = heights;
    o.areas = c.src.chance(1, 3);
    return o;
  }
};
struct Ask {  // a route that is asked for
  size_t k;
  bool changes;
  Keys points;
};
struct View {  // model of one route
  const Net& n;
  Ask a;
  std::set<int> s;                             // members
  std::vector<int> path;
  std::map<int, std::map<int, Edge>> out;      // relations between members, without conflicts
  std::string name;
  std::vector<int> succ(int i) const {
    std::vector<int> r;
    for (auto& e : out.at(i))
      if (e.second.rel == RelationType::Successor) r.push_back(e.first);
    return r;
  }
  std::vector<int> pred(int i) const {
    std::vector<int> r;
    for (int j : s) {
      auto e = out.at(j).find(i);
      if (e != out.at(j).end() && e->second.rel == RelationType::Successor) r.push_back(j);
    }
    return r;
  }
  Keys keys(const std::vector<int>& v) const {
    Keys r;
    for (int i : v) r.push_back(n.v[size_t(i)].key);
    return r;
  }
  Keys sorted(const std::vector<int>& v) const {
    auto r = keys(v);
    std::sort(r.begin(), r.end());
    return r;
  }
  //! next lanelet of the same lane or -1
  int next(int i) const {
    auto f = succ(i);
    return f.size() == 1 && pred(f[0]).size() == 1 ? f[0] : -1;
  }
  int prev(int i) const {
    auto f = pred(i);
    return f.size() == 1 && succ(f[0]).size() == 1 ? f[0] : -1;
  }
  std::vector<int> rest(int i) const {
    std::vector<int> r{i};
    for (int j = next(i); j >= 0 && j != i; j = next(j)) r.push_back(j);
    return r;
  }
  std::vector<int> lane(int i) const {
    int b = i;
    for (int j = prev(i); j >= 0; j = prev(j)) {
      b = j;
      if (j == i) break;
    }
    return rest(b);
  }
  std::vector<std::vector<std::pair<int, double>>> adjacency(bool back) const {
    std::vector<std::vector<std::pair<int, double>>> r(n.v.size());
    for (auto& x : out)
      for (auto& e : x.second)
        if (Net::has(RelationType::Successor | Change, e.second.rel)) {
          if (back) r[size_t(e.first)].emplace_back(x.first, e.second.cost);
          else r[size_t(x.first)].emplace_back(e.first, e.second.cost);
        }
    return r;
  }
  std::set<int> reach(int from, bool back) const {
    auto a = adjacency(back);
    std::set<int> r{from};
    std::vector<int> todo{from};
    while (!todo.empty()) {
      int i = todo.back();
      todo.pop_back();
      for (auto& e : a[size_t(i)])
        if (r.insert(e.first).second) todo.push_back(e.first);
    }
    return r;
  }
};
ConstLanelet llt(const Net& n, const Key& k) { return n.llt(n.v[size_t(n.at.at(k))]); }

Ask ask(Setup& q) {
  auto& s = q.c.src;
  Ask a{s.below(q.n.costM.size()), !s.chance(1, 5), {}};
  std::vector<int> ls;
  for (size_t i = 0; i < q.n.v.size(); ++i)
    if (!q.n.v[i].area) ls.push_back(int(i));
  if (ls.empty()) throw pbt::Discard{};
  // walk away from a random start so that there is a way
  int at = s.pick(ls);
  a.points.push_back(q.n.v[size_t(at)].key);
  auto A = q.n.adjacency(a.k, a.changes, false);
  size_t stops = s.chance(1, 4) ? 1 + s.below(3) : 1;
  for (size_t t = 0; t < stops; ++t) {
    size_t steps = s.below(8);
    for (size_t i = 0; i < steps; ++i) {
      if (A[size_t(at)].empty()) break;
      at = A[size_t(at)][s.below(A[size_t(at)].size())].first;
    }
    if (s.chance(1, 12)) at = s.pick(ls);
    a.points.push_back(q.n.v[size_t(at)].key);
  }
  if (s.chance(1, 8)) a.points.push_back(a.points[0]);
  return a;
}
Optional<Route> routeOf(Setup& q, const Ask& a, Optional<routing::LaneletPath>& path) {
  auto id = routing::RoutingCostId(a.k);
  auto from = llt(q.n, a.points.front()), to = llt(q.n, a.points.back());
  if (a.points.size() == 2) {
    path = q.g->shortestPath(from, to, id, a.changes);
    return q.g->getRoute(from, to, id, a.changes);
  }
  ConstLanelets via;
  for (size_t i = 1; i + 1 < a.points.size(); ++i) via.push_back(llt(q.n, a.points[i]));
  path = q.g->shortestPathVia(from, via, to, id, a.changes);
  return q.g->getRouteVia(from, via, to, id, a.changes);
}
std::string str(const Ask& a) {
  return "route " + roads::str(a.points) + " cost " + std::to_string(a.k) + (a.changes ? "" : " without lane changes");
}
View view(Setup& q, const Ask& a, const Route& r, const routing::LaneletPath& path) {
  View v{q.n, a, {}, {}, {}, str(a)};
  for (auto& l : path) v.path.push_back(q.n.at.at(key(l)));
  for (size_t i = 0; i < q.n.v.size(); ++i)
    if (!q.n.v[i].area && r.contains(q.n.llt(q.n.v[i]))) v.s.insert(int(i));
  auto mask = RelationType::Successor;
  if (a.changes) mask = mask | Beside;
  for (int i : v.s) {
    v.out[i] = {};
    for (auto& e : q.n.out[a.k][size_t(i)])
      if (v.s.count(e.first) && Net::has(mask, e.second.rel)) v.out[i].insert(e);
  }
  return v;
}
std::string show(const LaneletRelations& r) {
  std::string o = "[";
  for (auto& x : r) o += (o.size() > 1 ? " " : "") + routing::relationToString(x.relationType) + " " + roads::str(key(x.lanelet));
  return o + "]";
}
#define KEQ(got, want, msg)                                                                            \
  do {                                                                                                 \
    auto g_ = (got);                                                                                   \
    auto w_ = (want);                                                                                  \
    c.did();                                                                                           \
    PBT_CHECK(g_ == w_, msg << " is " << roads::str(g_) << ", expected " << roads::str(w_));            \
  } while (0)

//! which lanelets belong to a route
void members(Case& c) {
  Setup q(c);
  auto& n = q.n;
  n.describe();
  size_t beside = 0, big = 0, routes = 0, oneWay = 0, lanes = 0;
  for (int t = 0; t < 6; ++t) {
    auto a = ask(q);
    Optional<routing::LaneletPath> path;
    auto r = routeOf(q, a, path);
    PBT_CHECK(!!r == !!path, str(a) << (r ? " exists" : " does not exist") << ", unlike its shortest path");
    if (!r) continue;
    ++routes;
    auto v = view(q, a, *r, *path);
    KEQ(keys(r->shortestPath()), v.keys(v.path), v.name + ": shortestPath");
    for (int i : v.path) PBT_CHECK(v.s.count(i), v.name << " lacks " << n.name(i) << " of its shortest path");
    auto from = v.path.front(), to = v.path.back();
    auto fwd = v.reach(from, false), bwd = v.reach(to, true);
    std::set<int> onPath(v.path.begin(), v.path.end());
    for (int i : v.s) {
      PBT_CHECK(fwd.count(i), v.name << " contains " << n.name(i) << ", which cannot be reached on the route");
      PBT_CHECK(bwd.count(i), v.name << " contains " << n.name(i) << ", which does not lead to the goal");
      if (onPath.count(i)) continue;
      ++beside;
      c.did();
      // off the path: must touch the rest of the route sideways, by conflict, or lead from it and back
      bool side = false, in = false, outE = false;
      for (int j : v.s) {
        if (j == i) continue;
        auto f = v.out.at(i).find(j), b = v.out.at(j).find(i);
        bool fo = f != v.out.at(i).end(), ba = b != v.out.at(j).end();
        side |= (fo && Net::has(Beside, f->second.rel)) || (ba && Net::has(Beside, b->second.rel));
        outE |= fo && Net::has(Change | RelationType::Successor, f->second.rel);
        in |= ba && Net::has(Change | RelationType::Successor, b->second.rel);
      }
      PBT_CHECK(in && outE, v.name << " contains " << n.name(i) << ", which does not lead from and back onto the route");
    }
    if (a.changes)
      for (int i : v.s)
        for (auto& e : n.out[a.k][size_t(i)]) {
          if (!Net::has(Change, e.second.rel)) continue;
          auto back = n.out[a.k][size_t(e.first)].find(i);
          if (back == n.out[a.k][size_t(e.first)].end() || !Net::has(Change, back->second.rel)) {
            ++oneWay;
            continue;
          }
          PBT_CHECK(v.s.count(e.first), v.name << " lacks " << n.name(e.first) << ", to which one can change from " << n.name(i) << " and back");
        }
    // a lane beside the route that can be entered and left by lane changes
    if (a.changes) {
      auto& E = n.out[a.k];
      auto besideRoute = [&](int i) {
        for (int j : v.s) {
          auto f = E[size_t(i)].find(j), b = E[size_t(j)].find(i);
          if ((f != E[size_t(i)].end() && Net::has(Beside, f->second.rel)) || (b != E[size_t(j)].end() && Net::has(Beside, b->second.rel))) return true;
        }
        return false;
      };
      auto changeTo = [&](int i) {
        for (auto& e : E[size_t(i)])
          if (v.s.count(e.first) && Net::has(Change, e.second.rel)) return true;
        return false;
      };
      std::set<int> atGoal{to};  // the goal and its neighbours: what follows is beyond the goal
      for (std::vector<int> todo{to}; !todo.empty();) {
        int i = todo.back();
        todo.pop_back();
        for (auto& e : E[size_t(i)])
          if (Net::has(Change, e.second.rel) && atGoal.insert(e.first).second) todo.push_back(e.first);
      }
      for (int p : v.s)
        for (auto& e : E[size_t(p)]) {
          if (!Net::has(Change, e.second.rel) || v.s.count(e.first)) continue;
          std::vector<int> chain{e.first};
          std::set<int> seen;
          while (seen.insert(chain.back()).second && !v.s.count(chain.back()) && besideRoute(chain.back()) && !changeTo(chain.back())) {
            int nx = -1, cnt = 0;
            for (auto& f : E[size_t(chain.back())])
              if (f.second.rel == RelationType::Successor) nx = f.first, ++cnt;
            if (cnt != 1) break;
            chain.push_back(nx);
          }
          if (v.s.count(chain.back()) || !besideRoute(chain.back())) continue;
          if (std::any_of(chain.begin(), chain.end(), [&](int i) { return atGoal.count(i) > 0; })) continue;
          bool branch = false;  // whether lanes that branch off are followed is up to the implementation
          for (auto& f : E[size_t(chain.back())]) branch |= f.second.rel == RelationType::Successor;
          if (branch) continue;
          ++lanes;
          PBT_CHECK(!changeTo(chain.back()), v.name << " lacks the lane " << roads::str(v.keys(chain)) << " beside it");
        }
    }
    std::set<Id> ids;
    for (int i : v.s) ids.insert(n.v[size_t(i)].key.first);
    PBT_EQ(r->size(), v.s.size(), v.name << ": size");
    std::multiset<Id> got;
    for (auto& l : r->laneletSubmap()->laneletLayer) got.insert(l.id());
    PBT_CHECK(std::set<Id>(got.begin(), got.end()) == ids && got.size() == ids.size(), v.name << ": laneletSubmap has " << got.size() << " lanelets");
    PBT_CHECK(r->laneletSubmap()->areaLayer.empty(), v.name << ": areas in the laneletSubmap");
    PBT_CHECK(!r->contains(q.foreign), v.name << " contains a foreign lanelet");
    for (size_t i = 0; i < n.w.llts.size(); ++i)
      for (bool inv : {false, true}) {
        ConstLanelet l = inv ? ConstLanelet(n.w.llts[i]).invert() : ConstLanelet(n.w.llts[i]);
        if (!n.at.count(key(l))) PBT_CHECK(!r->contains(l), v.name << " contains " << roads::str(key(l)) << ", which is not in the graph");
      }
    double len = 0;
    for (int i : v.path) len += geometry::length2d(n.llt(n.v[size_t(i)]));
    PBT_CHECK(std::abs(r->length2d() - len) <= tol(len), v.name << ": length2d is " << r->length2d() << ", expected " << len);
    auto errs = r->checkValidity();
    PBT_CHECK(errs.empty(), v.name << ": checkValidity reports " << errs.size() << " errors, first: " << errs[0]);
    r->checkValidity(true);
    big += v.s.size() > onPath.size();
  }
  c.label("routes", routes), c.label("lanelets beside the path", beside), c.label("lane changes without way back", oneWay), c.label("lanes beside the route that are left out", lanes);
  c.nontrivial(big > 0);
}

//! relations within a route
void relations(Case& c) {
  Setup q(c, c.src.flip());
  auto& n = q.n;
  n.describe();
  size_t conflicts = 0, changes = 0;
  for (int t = 0; t < 4; ++t) {
    auto a = ask(q);
    Optional<routing::LaneletPath> path;
    auto r = routeOf(q, a, path);
    if (!r) continue;
    auto v = view(q, a, *r, *path);
    std::vector<std::pair<ConstLanelet, int>> ps;
    for (size_t i = 0; i < n.w.llts.size(); ++i)
      for (bool inv : {false, true}) {
        ConstLanelet l = inv ? ConstLanelet(n.w.llts[i]).invert() : ConstLanelet(n.w.llts[i]);
        auto it = n.at.find(key(l));
        ps.emplace_back(l, it != n.at.end() && v.s.count(it->second) ? it->second : -1);
      }
    ps.emplace_back(q.foreign, -1);
    Keys allConf;
    for (auto& p : ps) {
      int i = p.second;
      auto& l = p.first;
      std::string nm = " of " + roads::str(key(l)) + " on " + v.name;
      auto f = i < 0 ? Keys{} : v.sorted(v.succ(i)), b = i < 0 ? Keys{} : v.sorted(v.pred(i));
      KEQ(sortedKeys(r->following(l)), f, "following" + nm);
      KEQ(sortedKeys(r->previous(l)), b, "previous" + nm);
      auto rel = [&](const LaneletRelations& x) {
        Keys k;
        for (auto& y : x) {
          PBT_CHECK(y.relationType == RelationType::Successor, "relation " << routing::relationToString(y.relationType) << nm);
          k.push_back(key(y.lanelet));
        }
        std::sort(k.begin(), k.end());
        return k;
      };
      KEQ(rel(r->followingRelations(l)), f, "followingRelations" + nm);
      KEQ(rel(r->previousRelations(l)), b, "previousRelations" + nm);
      for (bool left : {true, false}) {
        auto mask = left ? RelationType::Left | RelationType::AdjacentLeft : RelationType::Right | RelationType::AdjacentRight;
        LaneletRelations want;
        std::set<int> seen;
        for (int j = i; j >= 0 && seen.insert(j).second;) {
          int nx = -1;
          for (auto& e : v.out.at(j))
            if (Net::has(mask, e.second.rel)) {
              nx = e.first;
              if (!seen.count(nx)) want.push_back({n.llt(n.v[size_t(nx)]), e.second.rel});
            }
          j = nx;
        }
        auto one = left ? r->leftRelation(l) : r->rightRelation(l);
        auto all = left ? r->leftRelations(l) : r->rightRelations(l);
        c.did(2);
        PBT_EQ(show(all), show(want), (left ? "leftRelations" : "rightRelations") << nm);
        PBT_EQ(show(one ? LaneletRelations{*one} : LaneletRelations{}), show(want.empty() ? want : LaneletRelations{want[0]}), (left ? "leftRelation" : "rightRelation") << nm);
        changes += want.size();
      }
      Keys conf, confR;
      if (i >= 0)
        for (auto& x : q.g->conflicting(l)) {
          conf.push_back(key(x));
          auto it = n.at.find(key(x));
          if (x.isLanelet() && v.s.count(it->second)) confR.push_back(key(x));
        }
      std::sort(conf.begin(), conf.end()), std::sort(confR.begin(), confR.end());
      KEQ(sortedKeys(r->conflictingInRoute(l)), confR, "conflictingInRoute" + nm);
      KEQ(sortedKeys(r->conflictingInMap(l)), conf, "conflictingInMap" + nm);
      allConf.insert(allConf.end(), conf.begin(), conf.end());
      conflicts += confR.size();
    }
    std::sort(allConf.begin(), allConf.end());
    auto got = sortedKeys(r->allConflictingInMap());
    auto uniq = [](Keys k) {
      k.erase(std::unique(k.begin(), k.end()), k.end());
      return k;
    };
    KEQ(uniq(got), uniq(allConf), "allConflictingInMap of " + v.name);
    // visits
    for (bool back : {false, true})
      for (int u = 0; u < 2; ++u) {
        auto ms = std::vector<int>(v.s.begin(), v.s.end());
        int start = c.src.pick(ms);
        auto A = v.adjacency(back);
        std::map<int, double> d{{start, 0.}};
        for (bool go = true; go;) {
          go = false;
          for (int x : ms)
            if (d.count(x))
              for (auto& e : A[size_t(x)])
                if (!d.count(e.first) || d[x] + e.second < d[e.first]) d[e.first] = d[x] + e.second, go = true;
        }
        std::string nm = std::string(back ? "forEachPredecessor" : "forEachSuccessor") + "(" + n.name(start) + ") on " + v.name;
        struct Seen {
          double cost;
          size_t len, changes;
        };
        std::map<int, Seen> seen;
        double last = 0;
        auto visit = [&](const LaneletVisitInformation& x) -> bool {
          c.did();
          auto iv = n.at.find(key(x.lanelet)), ip = n.at.find(key(x.predecessor));
          PBT_CHECK(iv != n.at.end() && ip != n.at.end() && d.count(iv->second), nm << " visits " << roads::str(key(x.lanelet)));
          int w = iv->second, p = ip->second;
          PBT_CHECK(!seen.count(w), nm << " visits " << n.name(w) << " again");
          PBT_CHECK(std::abs(x.cost - d[w]) <= tol(d[w]), nm << ": cost of " << n.name(w) << " is " << x.cost << ", expected " << d[w]);
          PBT_CHECK(x.cost >= last - tol(last), nm << ": cost of " << n.name(w) << " is " << x.cost << " after " << last);
          last = x.cost;
          if (seen.empty()) PBT_CHECK(w == start && p == start && x.length == 1 && x.numLaneChanges == 0, nm << ": first visit");
          else {
            PBT_CHECK(seen.count(p), nm << ": predecessor " << n.name(p) << " not visited before");
            auto& o = v.out.at(back ? w : p);
            auto e = o.find(back ? p : w);
            PBT_CHECK(e != o.end() && std::abs(seen[p].cost + e->second.cost - x.cost) <= tol(x.cost), nm << ": " << n.name(w) << " does not follow from " << n.name(p));
            PBT_EQ(x.length, seen[p].len + 1, nm << ": length at " << n.name(w));
            PBT_EQ(x.numLaneChanges, seen[p].changes + size_t(Net::has(Change, e->second.rel)), nm << ": lane changes at " << n.name(w));
          }
          seen[w] = {x.cost, x.length, x.numLaneChanges};
          return true;
        };
        auto l = n.llt(n.v[size_t(start)]);
        back ? r->forEachPredecessor(l, visit) : r->forEachSuccessor(l, visit);
        PBT_EQ(seen.size(), d.size(), nm << ": number of visits");
      }
    r->forEachSuccessor(q.foreign, [&](auto&) -> bool { throw pbt::Fail{"visit of a foreign lanelet"}; });
    r->forEachPredecessor(q.foreign, [&](auto&) -> bool { throw pbt::Fail{"visit of a foreign lanelet"}; });
  }
  c.label("conflicts in routes", conflicts), c.label("neighbours in routes", changes);
  c.nontrivial(conflicts > 0 || changes > 0);
}

//! lanes and remaining paths
void lanes(Case& c) {
  Setup q(c);
  auto& n = q.n;
  n.describe();
  size_t many = 0, circles = 0, circular = 0;
  for (int t = 0; t < 6; ++t) {
    auto a = ask(q);
    Optional<routing::LaneletPath> path;
    auto r = routeOf(q, a, path);
    if (!r) continue;
    auto v = view(q, a, *r, *path);
    std::set<std::set<int>> all;
    for (int i : v.s) {
      auto lane = v.lane(i), rest = v.rest(i);
      auto l = n.llt(n.v[size_t(i)]);
      KEQ(keys(r->fullLane(l).lanelets()), v.keys(lane), "fullLane of " + n.name(i) + " on " + v.name);
      KEQ(keys(r->remainingLane(l).lanelets()), v.keys(rest), "remainingLane of " + n.name(i) + " on " + v.name);
      if (v.prev(lane[0]) >= 0) ++circles;
      all.insert(std::set<int>(lane.begin(), lane.end()));
    }
    PBT_EQ(r->numLanes(), all.size(), "numLanes of " << v.name);
    many += all.size() > 2;
    bool circle = v.path.size() > 1 && v.path.front() == v.path.back();
    circular += circle;
    for (int i : v.s) {
      auto it = std::find(v.path.begin(), v.path.end(), i);
      std::vector<int> want(it, v.path.end());
      if (circle && it != v.path.end()) {
        want.pop_back();
        want.insert(want.end(), v.path.begin(), it);
        if (want.empty()) want = {v.path.begin(), v.path.end() - 1};
      }
      KEQ(keys(r->remainingShortestPath(n.llt(n.v[size_t(i)]))), v.keys(want), "remainingShortestPath of " + n.name(i) + " on " + v.name);
    }
    PBT_CHECK(r->fullLane(q.foreign).empty() && r->remainingLane(q.foreign).empty() && r->remainingShortestPath(q.foreign).empty(), "lanes of a foreign lanelet");
    // the debug map
    bool both = false;
    for (int i : v.s) both |= n.v[size_t(i)].inv && n.at.count({n.v[size_t(i)].key.first, false}) && v.s.count(n.at.at({n.v[size_t(i)].key.first, false}));
    if (both) continue;
    auto dbg = r->getDebugLaneletMap();
    std::map<Id, int> byId;
    for (int i : v.s) byId[n.v[size_t(i)].key.first] = i;
    std::set<Id> pts, onPath;
    std::map<int, std::string> laneAttr;
    for (auto p : dbg->pointLayer) {
      PBT_CHECK(byId.count(p.id()), "debug map of " << v.name << " has a point " << p.id() << " that is no member");
      pts.insert(p.id());
      PBT_EQ(p.attributeOr("id", Id(-1)), p.id(), "attribute id in the debug map of " << v.name);
      PBT_CHECK(p.hasAttribute("lane_id"), "debug map of " << v.name << ": point without lane_id");
      laneAttr[byId[p.id()]] = p.attribute("lane_id").value();
      if (p.attributeOr("shortest_path", false)) onPath.insert(p.id());
    }
    PBT_EQ(pts.size(), v.s.size(), "points in the debug map of " << v.name);
    std::set<Id> wantPath;
    for (int i : v.path) wantPath.insert(n.v[size_t(i)].key.first);
    PBT_CHECK(onPath == wantPath, "debug map of " << v.name << " marks " << chk::show(list(onPath)) << " as shortest path");
    for (int i : v.s)
      for (int j : v.s) {
        auto lane = v.lane(i);
        bool same = std::count(lane.begin(), lane.end(), j) > 0;
        PBT_CHECK((laneAttr[i] == laneAttr[j]) == same, "lane ids of " << n.name(i) << " and " << n.name(j) << " in the debug map of " << v.name << ": " << laneAttr[i] << " " << laneAttr[j]);
      }
    std::map<std::pair<int, int>, std::multiset<std::string>> got, want;
    for (int i : v.s) {
      for (auto& e : v.out.at(i)) want[{i, e.first}].insert(routing::relationToString(e.second.rel));
      for (auto& x : r->conflictingInRoute(n.llt(n.v[size_t(i)]))) want[{i, n.at.at(key(x))}].insert(routing::relationToString(RelationType::Conflicting));
    }
    for (auto ls : dbg->lineStringLayer) {
      PBT_EQ(ls.size(), size_t(2), "points of a relation in the debug map of " << v.name);
      int x = byId.at(ls.front().id()), y = byId.at(ls.back().id());
      for (auto& at : ls.attributes()) {
        if (at.first.rfind("relation_reverse_", 0) == 0) got[{y, x}].insert(at.second.value());
        else if (at.first.rfind("relation_", 0) == 0) got[{x, y}].insert(at.second.value());
      }
    }
    c.did(want.size());
    for (auto* m : {&got, &want})
      for (auto& e : *m)
        PBT_CHECK(got[e.first] == want[e.first], "debug map of " << v.name << ": relations from " << n.name(e.first.first) << " to " << n.name(e.first.second) << " are "
                                                                 << chk::show(list(got[e.first])) << ", expected " << chk::show(list(want[e.first])));
  }
  c.label("routes with more than two lanes", many), c.label("lanelets on circular lanes", circles), c.label("circular routes", circular);
  c.nontrivial(many > 0 || circular > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C23";
  s.rule = "members: a route has lanelets beside its path; relations: neighbours or conflicts within a route; lanes: more than two lanes or a circular route";
  s.assumptions = {"at most one neighbour per side", "conflicts and shortest paths are those of the routing graph (C20, C22)",
                   "beside lane changes in both directions, which further lanelets are added is only judged by the route leading to them and from them to the goal"};
  s.props = {{"members", "which lanelets belong to a route; size, submap, length, validity", 5000, 60000, members},
             {"relations", "relations, conflicts and visits within a route for lanelets on and off the route", 4000, 50000, relations},
             {"lanes", "lanes, remaining paths and the debug map", 5000, 60000, lanes}};
  return pbt::runMain(s, argc, argv);
}
