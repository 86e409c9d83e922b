// C19: the routing graph holds exactly the relations that the map and the rules imply.
#include "roads.h"
using namespace lanelet;
using namespace roads;
using routing::LaneletRelations;
using routing::RoutingGraph;

namespace {
struct Probe {  // a lanelet that is asked for, in the graph (vertex >= 0) or not
  ConstLanelet l;
  int vertex;
};
std::vector<Probe> probes(Net& n) {
  std::vector<Probe> r;
  for (int i = 0; i < int(n.w.llts.size()); ++i)
    for (bool inv : {false, true}) {
      ConstLanelet l = inv ? ConstLanelet(n.w.llts[size_t(i)]).invert() : ConstLanelet(n.w.llts[size_t(i)]);
      auto it = n.at.find(key(l));
      r.push_back({l, it == n.at.end() ? -1 : it->second});
    }
  Lanelet foreign(77777, n.w.ls[0], n.w.ls[size_t(n.w.ls.size() > 1)]);
  r.push_back({foreign, -1});
  return r;
}
std::string show(const LaneletRelations& r) {
  std::string o = "[";
  for (auto& x : r) o += (o.size() > 1 ? " " : "") + routing::relationToString(x.relationType) + " " + roads::str(key(x.lanelet));
  return o + "]";
}
#define KEQ(got, want, msg)                                                                            \
  do {                                                                                                 \
    auto g_ = (got);                                                                                   \
    auto w_ = (want);                                                                                  \
    c.did();                                                                                           \
    PBT_CHECK(g_ == w_, msg << " is " << roads::str(g_) << ", expected " << roads::str(w_));            \
  } while (0)

//! relations of all vertices against the model
void compare(Case& c, Net& n, const RoutingGraph& g, const std::string& ctx) {
  auto idx = [&](const Probe& p, size_t k) -> const std::map<int, Edge>& {
    static const std::map<int, Edge> none;
    return p.vertex < 0 ? none : n.out[k][size_t(p.vertex)];
  };
  auto single = [&](const Optional<ConstLanelet>& l) { return l ? Keys{key(*l)} : Keys{}; };
  auto ps = probes(n);
  for (auto& p : ps) {
    std::string nm = ctx + " of " + roads::str(key(p.l));
    for (bool changes : {false, true}) {
      auto set = Net::routable(changes, false);
      Keys foll, prev;
      for (auto& e : idx(p, 0))
        if (Net::has(set, e.second.rel)) foll.push_back(n.v[size_t(e.first)].key);
      if (p.vertex >= 0)
        for (size_t a = 0; a < n.v.size(); ++a) {
          auto it = n.out[0][a].find(p.vertex);
          if (it != n.out[0][a].end() && Net::has(set, it->second.rel)) prev.push_back(n.v[a].key);
        }
      std::sort(foll.begin(), foll.end()), std::sort(prev.begin(), prev.end());
      std::string ch = changes ? " with lane changes" : "";
      KEQ(sortedKeys(g.following(p.l, changes)), foll, "following" + ch + nm);
      KEQ(sortedKeys(g.previous(p.l, changes)), prev, "previous" + ch + nm);
      auto rels = [&](const LaneletRelations& r, const Keys& want, bool forward, const char* what) {
        Keys got;
        for (auto& x : r) {
          got.push_back(key(x.lanelet));
          int o = n.at.at(key(x.lanelet)), from = forward ? p.vertex : o, to = forward ? o : p.vertex;
          bool ok = false;
          for (size_t k = 0; k < n.costM.size(); ++k) {
            auto e = n.out[k][size_t(from)].find(to);
            ok |= e != n.out[k][size_t(from)].end() && e->second.rel == x.relationType;
          }
          PBT_CHECK(ok, what << ch << nm << " has wrong relation " << show({x}));
        }
        std::sort(got.begin(), got.end());
        KEQ(got, want, what + ch + nm);
      };
      rels(g.followingRelations(p.l, changes), foll, true, "followingRelations");
      rels(g.previousRelations(p.l, changes), prev, false, "previousRelations");
    }
    for (size_t k = 0; k < n.costM.size(); ++k) {
      auto id = routing::RoutingCostId(k);
      std::string ks = " (cost " + std::to_string(k) + ")";
      auto next = [&](int a, RelationType r) {
        if (a >= 0)
          for (auto& e : n.out[k][size_t(a)])
            if (e.second.rel == r) return e.first;
        return -1;
      };
      auto chain = [&](RelationType r) {
        Keys o;
        for (int a = next(p.vertex, r); a >= 0 && a != p.vertex && !std::count(o.begin(), o.end(), n.v[size_t(a)].key); a = next(a, r)) o.push_back(n.v[size_t(a)].key);
        return o;
      };
      auto first = [](Keys x) { return x.empty() ? x : Keys{x[0]}; };
      auto L = chain(RelationType::Left), R = chain(RelationType::Right), AL = chain(RelationType::AdjacentLeft), AR = chain(RelationType::AdjacentRight);
      KEQ(single(g.left(p.l, id)), first(L), "left" + ks + nm);
      KEQ(single(g.right(p.l, id)), first(R), "right" + ks + nm);
      KEQ(single(g.adjacentLeft(p.l, id)), first(AL), "adjacentLeft" + ks + nm);
      KEQ(single(g.adjacentRight(p.l, id)), first(AR), "adjacentRight" + ks + nm);
      KEQ(keys(g.lefts(p.l, id)), L, "lefts" + ks + nm);
      KEQ(keys(g.rights(p.l, id)), R, "rights" + ks + nm);
      KEQ(keys(g.adjacentLefts(p.l, id)), AL, "adjacentLefts" + ks + nm);
      KEQ(keys(g.adjacentRights(p.l, id)), AR, "adjacentRights" + ks + nm);
      Keys b(L.rbegin(), L.rend());
      b.push_back(key(p.l));
      b.insert(b.end(), R.begin(), R.end());
      KEQ(keys(g.besides(p.l, id)), b, "besides" + ks + nm);
      for (bool left : {true, false}) {
        auto r1 = left ? RelationType::Left : RelationType::Right, r2 = left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
        auto got = left ? g.leftRelations(p.l, id) : g.rightRelations(p.l, id);
        std::string want = "[";
        std::set<int> seen;
        for (int a = p.vertex; a >= 0 && seen.insert(a).second;) {
          int x = next(a, r1), y = next(a, r2);
          int t = x >= 0 ? x : y;
          if (t >= 0 && !seen.count(t)) want += (want.size() > 1 ? " " : "") + routing::relationToString(x >= 0 ? r1 : r2) + " " + n.name(t);
          a = t;
        }
        PBT_EQ(show(got), want + "]", (left ? "leftRelations" : "rightRelations") << ks << nm);
      }
    }
  }
  for (auto& p : ps)
    for (auto& q : ps) {
      std::set<RelationType> want;
      for (size_t k = 0; k < n.costM.size(); ++k) {
        auto& m = idx(p, k);
        auto it = m.find(q.vertex);
        if (q.vertex >= 0 && it != m.end()) want.insert(it->second.rel);
      }
      auto r = g.routingRelation(p.l, q.l);
      c.did();
      auto& first = idx(p, 0);
      auto it0 = first.find(q.vertex);
      if (q.vertex >= 0 && it0 != first.end()) PBT_CHECK(r && *r == it0->second.rel, ctx << " routingRelation(" << roads::str(key(p.l)) << ", " << roads::str(key(q.l)) << ") wrong");
      else PBT_CHECK(want.empty() ? !r : !r || want.count(*r), ctx << " routingRelation(" << roads::str(key(p.l)) << ", " << roads::str(key(q.l)) << ") is "
                                                                << (r ? routing::relationToString(*r) : "nothing") << ", expected "
                                                                << (want.empty() ? "nothing" : routing::relationToString(*want.begin())));
      bool conf = false;
      for (auto& x : g.conflicting(p.l)) conf |= key(x) == key(q.l);
      auto rc = g.routingRelation(p.l, q.l, true);
      if (!conf) PBT_CHECK(want.empty() ? !rc : rc && want.count(*rc), ctx << " routingRelation including conflicts (" << roads::str(key(p.l)) << ", " << roads::str(key(q.l)) << ")");
      else if (want.empty()) PBT_CHECK(rc && *rc == RelationType::Conflicting, ctx << " conflicting lanelets " << roads::str(key(p.l)) << ", " << roads::str(key(q.l)) << " without that relation");
    }
  // everything reachable in one step, areas included
  for (size_t a = 0; a < n.v.size(); ++a)
    for (bool changes : {false, true}) {
      size_t k = n.s.below(n.costM.size());
      std::map<Key, double> got, want;
      bool first = true;
      g.forEachSuccessorIncludingAreas(
          n.v[a].p,
          [&](const routing::LaneletOrAreaVisitInformation& i) {
            if (!first) got[key(i.laneletOrArea)] = i.cost;
            bool go = first;
            first = false;
            return go;
          },
          changes, routing::RoutingCostId(k));
      for (auto& e : n.out[k][a])
        if (int(a) != e.first && Net::has(Net::routable(changes, true), e.second.rel)) want[n.v[size_t(e.first)].key] = e.second.cost;
      Keys gk, wk;
      for (auto& x : got) gk.push_back(x.first);
      for (auto& x : want) wk.push_back(x.first);
      KEQ(gk, wk, "successors including areas" + ctx + " of " + n.name(int(a)));
      for (auto& x : got) PBT_CHECK(std::abs(x.second - want[x.first]) <= 1e-9 * (1 + x.second), "cost from " << n.name(int(a)) << " to " << roads::str(x.first) << " is " << x.second << ", expected " << want[x.first]);
    }
  // passable submap
  auto sm = g.passableSubmap();
  Keys gl, wl;
  for (auto& l : sm->laneletLayer) gl.push_back(key(l));
  for (auto& a : sm->areaLayer) gl.push_back(key(a));
  std::sort(gl.begin(), gl.end());
  for (auto& x : n.v)
    if (!x.inv) wl.push_back(x.key);
  std::sort(wl.begin(), wl.end());
  KEQ(gl, wl, "passableSubmap" + ctx);
  auto err = g.checkValidity(false);
  PBT_CHECK(err.empty(), "checkValidity" << ctx << " reports " << err.front());
}

void networks(Case& c) {
  NetOptions o;
  Net n(c, o);
  n.make();
  n.describe();
  if (!n.unique) throw pbt::Discard{};
  if (c.src.chance(1, 6)) n.vehicleHeight = c.src.of({2., 4.});
  auto g = n.graph();
  compare(c, n, *g, "");
  if (c.src.chance(1, 3)) {
    auto m = n.otherMap();
    auto g2 = n.graph(*m);
    compare(c, n, *g2, " in a map with another order");
  } else if (c.src.chance(1, 2)) {
    LaneletSubmap sub;
    n.shuffled([&](int i) { i >= 0 ? sub.add(n.w.llts[size_t(i)]) : sub.add(n.w.ars[size_t(-i - 1)]); });
    auto g2 = RoutingGraph::build(sub, *n.rules, n.costs, n.config());
    RoutingGraph moved(std::move(*g2));
    compare(c, n, moved, " from a submap");
  }
  size_t cnt[8] = {};
  for (auto& a : n.out[0])
    for (auto& e : a) {
      int i = 0;
      for (auto r = unsigned(e.second.rel); r > 1; r >>= 1) ++i;
      ++cnt[i];
    }
  for (int i = 0; i < 7; ++i) c.label("relations " + routing::relationToString(RelationType(1 << i)), cnt[i]);
  c.nontrivial(cnt[0] > 0 && cnt[1] + cnt[2] + cnt[3] + cnt[4] > 0);
  // cost ids that do not exist
  auto bad = routing::RoutingCostId(n.costM.size() + c.src.below(3));
  ConstLanelet l = n.w.llts[size_t(n.inMapL.empty() ? 0 : n.inMapL[0])];
  if (n.at.count(key(l))) {
    PBT_CHECK(chk::throws<InvalidInputError>([&] { g->left(l, bad); }), "left with unknown cost id");
    PBT_CHECK(chk::throws<InvalidInputError>([&] { g->reachableSet(l, 1., bad); }), "reachableSet with unknown cost id");
    PBT_CHECK(chk::throws<InvalidInputError>([&] { g->shortestPath(l, l, bad); }), "shortestPath with unknown cost id");
  }
}

// several neighbours on one side: answers stay within the candidates and do not depend on the order
void crowded(Case& c) {
  NetOptions o;
  o.tidy = false;
  o.areas = false;
  Net n(c, o);
  n.make();
  n.describe();
  auto g = n.graph();
  size_t multi = 0;
  for (auto& p : probes(n)) {
    auto nm = roads::str(key(p.l));
    auto in = [&](const Optional<ConstLanelet>& l, const std::vector<std::vector<int>>& cand, bool change, const char* what) {
      c.did();
      if (!l) return;
      PBT_CHECK(p.vertex >= 0, what << " of " << nm << " which is not passable");
      auto& t = cand[size_t(p.vertex)];
      auto it = n.at.find(key(*l));
      PBT_CHECK(it != n.at.end() && std::count(t.begin(), t.end(), it->second), what << " of " << nm << " is " << roads::str(key(*l)) << " which is no neighbour");
      if (change) PBT_CHECK(n.rules->canChangeLane(p.l, *l), what << " of " << nm << " is " << roads::str(key(*l)) << " without permission to change lanes");
      multi += t.size() > 1;
    };
    for (size_t k = 0; k < n.costM.size(); ++k) {
      auto id = routing::RoutingCostId(k);
      auto l = g->left(p.l, id), r = g->right(p.l, id), al = g->adjacentLeft(p.l, id), ar = g->adjacentRight(p.l, id);
      in(l, n.leftCand, true, "left"), in(r, n.rightCand, true, "right"), in(al, n.leftCand, false, "adjacentLeft"), in(ar, n.rightCand, false, "adjacentRight");
      if (p.vertex >= 0) {
        PBT_CHECK(n.leftCand[size_t(p.vertex)].empty() == (!l && !al), nm << " has a left neighbour in the map or in the graph, not both");
        PBT_CHECK(n.rightCand[size_t(p.vertex)].empty() == (!r && !ar), nm << " has a right neighbour in the map or in the graph, not both");
      }
    }
    Keys foll;
    if (p.vertex >= 0)
      for (auto& e : n.out[0][size_t(p.vertex)])
        if (e.second.rel == RelationType::Successor) foll.push_back(n.v[size_t(e.first)].key);
    std::sort(foll.begin(), foll.end());
    KEQ(sortedKeys(g->following(p.l)), foll, "following of " + nm);
  }
  c.label("sides with several neighbours", multi);
  c.nontrivial(multi > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C19";
  s.rule = "networks: the graph has successor and sideways relations; crowded: a lanelet has several neighbours on one side";
  s.assumptions = {"the traffic rules object decides whether lanelets may be passed and lanes be changed (judged by C16, C17)",
                   "a lanelet has at most one neighbour per side, as the routing graph documents; otherwise any of the candidates may be reported"};
  s.props = {
      {"networks", "all relation queries of generated networks against a model graph", 6500, 400000, networks},
      {"crowded", "networks with several neighbours on a side", 6000, 300000, crowded},
  };
  return pbt::runMain(s, argc, argv);
}
