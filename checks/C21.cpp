// C21: reachable sets and possible paths are complete, sound and ordered by cost.
#include "roads.h"
using namespace lanelet;
using namespace roads;
using routing::LaneletOrAreaVisitInformation;
using routing::LaneletVisitInformation;

namespace {
using Adj = std::vector<std::vector<std::pair<int, double>>>;
double tol(double v) { return 1e-8 * (1 + std::abs(v)); }

struct Search {  // reference search: expands in order of cost, asks the predicate once per element
  std::vector<double> d;
  std::vector<int> pred, len;
  std::vector<bool> open, leaf;  // predicate result
  std::vector<int> order;
  bool tie{false};  // several cheapest ways to an element
};
template <typename Pred>
Search search(const Adj& a, int start, Pred&& p) {
  size_t n = a.size();
  Search r;
  r.d.assign(n, INF), r.pred.assign(n, -1), r.len.assign(n, 0), r.open.assign(n, false), r.leaf.assign(n, true);
  std::vector<bool> done(n, false);
  r.d[size_t(start)] = 0, r.pred[size_t(start)] = start, r.len[size_t(start)] = 1;
  while (true) {
    int b = -1;
    for (size_t i = 0; i < n; ++i)
      if (!done[i] && std::isfinite(r.d[i]) && (b < 0 || r.d[i] < r.d[size_t(b)])) b = int(i);
    if (b < 0) return r;
    size_t u = size_t(b);
    done[u] = true;
    r.order.push_back(b);
    r.open[u] = p(b, r.d[u], r.len[u]);
    if (b != start) r.leaf[size_t(r.pred[u])] = false;
    if (!r.open[u]) continue;
    for (auto& e : a[u]) {
      size_t t = size_t(e.first);
      double nd = r.d[u] + e.second;
      if (std::isfinite(r.d[t]) && e.first != start && std::abs(nd - r.d[t]) <= tol(nd)) r.tie = true;
      if (nd < r.d[t]) {
        r.d[t] = nd, r.pred[t] = b, r.len[t] = r.len[u] + 1;
      }
    }
  }
}
double edge(const Adj& a, int f, int t) {
  double best = INF;
  for (auto& e : a[size_t(f)])
    if (e.first == t) best = std::min(best, e.second);
  return best;
}

struct Setup {
  Case& c;
  Net n;
  routing::RoutingGraphUPtr g;
  Lanelet foreign;
  explicit Setup(Case& cc) : c{cc}, n{cc, opts()} {
    n.make();
    if (!n.unique || n.v.empty()) throw pbt::Discard{};
    g = n.graph();
    foreign = Lanelet(77777, n.w.ls[0], n.w.ls[size_t(n.w.ls.size() > 1)]);
  }
  static NetOptions opts() {
    NetOptions o;
    o.maxCols = 6;
    return o;
  }
  int pick(bool areas) {
    for (int i = 0; i < 5; ++i) {
      int a = int(c.src.below(n.v.size()));
      if (areas || !n.v[size_t(a)].area) return a;
    }
    throw pbt::Discard{};
  }
  Keys sorted(std::vector<int> v) {
    Keys k;
    for (int i : v) k.push_back(n.v[size_t(i)].key);
    std::sort(k.begin(), k.end());
    return k;
  }
};

void reachable(Case& c) {
  Setup q(c);
  auto& n = q.n;
  auto& s = c.src;
  n.describe();
  size_t big = 0, part = 0;
  for (size_t k = 0; k < n.costM.size(); ++k)
    for (int t = 0; t < 6; ++t) {
      auto id = routing::RoutingCostId(k);
      bool areas = s.chance(1, 3), changes = areas || s.flip(), back = !areas && s.flip();
      int a = q.pick(areas);
      auto A = n.adjacency(k, changes, areas, back);
      auto r = search(A, a, [](int, double, int) { return true; });
      // a limit between two costs, or exactly a cost
      std::vector<double> ds;
      for (double d : r.d)
        if (std::isfinite(d)) ds.push_back(d);
      std::sort(ds.begin(), ds.end());
      double base = ds[s.below(ds.size())], limit = base;
      bool exact = n.costM[k].kind == CostM::Table && n.costM[k].table->grain > 0 && s.flip();
      if (!exact) {
        auto up = std::upper_bound(ds.begin(), ds.end(), base + tol(base));
        limit = up == ds.end() ? base + 1 : (base + *up) / 2;
      }
      std::vector<int> want;
      for (size_t i = 0; i < n.v.size(); ++i)
        if (r.d[i] <= limit) want.push_back(int(i));
      std::string nm = std::string(areas ? "reachableSetIncludingAreas" : back ? "reachableSetTowards" : "reachableSet") + "(" + n.name(a) + ", " + std::to_string(limit) + ", cost " + std::to_string(k) +
                       (changes ? ", lane changes)" : ")");
      Keys got;
      auto& x = n.v[size_t(a)];
      if (areas) got = sortedKeys(q.g->reachableSetIncludingAreas(x.p, limit, id));
      else got = sortedKeys(back ? q.g->reachableSetTowards(n.llt(x), limit, id, changes) : q.g->reachableSet(n.llt(x), limit, id, changes));
      c.did();
      PBT_CHECK(got == q.sorted(want), nm << " is " << roads::str(got) << ", expected " << roads::str(q.sorted(want)));
      big += want.size() > 3;
      part += want.size() > 1 && want.size() < ds.size();
      PBT_CHECK(q.g->reachableSet(q.foreign, limit, id, changes).empty() && q.g->reachableSetTowards(q.foreign, limit, id, changes).empty() && q.g->reachableSetIncludingAreas(q.foreign, limit, id).empty(),
                "reachable set of a foreign lanelet");
    }
  c.label("sets of more than 3", big), c.label("sets cut by the limit", part);
  c.nontrivial(big > 0 && part > 0);
}

void possible(Case& c) {
  Setup q(c);
  auto& n = q.n;
  auto& s = c.src;
  n.describe();
  size_t many = 0, ties = 0, shorter = 0, met = 0;
  for (int t = 0; t < 10; ++t) {
    size_t k = s.below(n.costM.size());
    auto id = routing::RoutingCostId(k);
    bool areas = s.chance(1, 3), changes = s.flip(), back = !areas && s.flip(), keepShorter = s.flip();
    size_t limits = 1 + s.below(3);
    int a = q.pick(areas);
    auto A = n.adjacency(k, changes, areas, back);
    auto all = search(A, a, [](int, double, int) { return true; });
    Optional<double> costLimit;
    Optional<uint32_t> elements;
    bool exact = n.costM[k].kind == CostM::Table && n.costM[k].table->grain > 0 && s.flip();  // sums do not round: the limit may be met exactly
    if (limits & 1) {
      std::vector<double> ds;
      for (double d : all.d)
        if (std::isfinite(d)) ds.push_back(d);
      std::sort(ds.begin(), ds.end());
      double base = ds[s.below(ds.size())];
      auto up = std::upper_bound(ds.begin(), ds.end(), base + tol(base));
      costLimit = exact ? base : up == ds.end() ? base + 1 : (base + *up) / 2;
      met += exact;
    }
    if (limits & 2) elements = uint32_t(s.range(0, 6));
    auto open = [&](int, double d, int len) { return (!costLimit || d < *costLimit) && (!elements || uint32_t(len) < *elements); };
    auto r = search(A, a, open);
    routing::PossiblePathsParams params{costLimit, elements, id, changes, keepShorter};
    std::string nm = std::string("possiblePaths") + (areas ? "IncludingAreas" : back ? "Towards" : "") + "(" + n.name(a) + (costLimit ? ", cost limit " + std::to_string(*costLimit) : "") +
                     (elements ? ", element limit " + std::to_string(*elements) : "") + ", cost " + std::to_string(k) + (changes ? ", lane changes" : "") + (keepShorter ? ", shorter paths)" : ")");
    auto& x = n.v[size_t(a)];
    std::vector<Keys> got;
    auto take = [&](const auto& ps) {
      std::vector<Keys> o;
      for (auto& p : ps) o.push_back(keys(p));
      std::sort(o.begin(), o.end());
      return o;
    };
    if (areas) got = take(q.g->possiblePathsIncludingAreas(x.p, params));
    else got = take(back ? q.g->possiblePathsTowards(n.llt(x), params) : q.g->possiblePaths(n.llt(x), params));
    if (!keepShorter && bool(costLimit) != bool(elements)) {  // the overloads
      std::vector<Keys> other;
      if (costLimit) {
        if (areas) other = take(q.g->possiblePathsIncludingAreas(x.p, *costLimit, id, changes));
        else other = take(back ? q.g->possiblePathsTowards(n.llt(x), *costLimit, id, changes) : q.g->possiblePaths(n.llt(x), *costLimit, id, changes));
      } else {
        if (areas) other = take(q.g->possiblePathsIncludingAreas(x.p, *elements, changes, id));
        else other = take(back ? q.g->possiblePathsTowards(n.llt(x), *elements, changes, id) : q.g->possiblePaths(n.llt(x), *elements, changes, id));
      }
      PBT_CHECK(other == got, nm << ": overload differs");
    }
    auto str = [](const std::vector<Keys>& v) {
      std::string o;
      for (auto& p : v) o += roads::str(p) + " ";
      return o;
    };
    c.did();
    // every path is valid and optimal
    for (auto& p : got) {
      auto w = p;
      if (back) std::reverse(w.begin(), w.end());
      PBT_CHECK(!w.empty() && w[0] == x.key, nm << " has path " << roads::str(p) << " that does not " << (back ? "end" : "start") << " at the query");
      double sum = 0;
      for (size_t i = 0; i + 1 < w.size(); ++i) {
        PBT_CHECK(n.at.count(w[i + 1]), nm << " has unknown element " << roads::str(w[i + 1]));
        int f = n.at[w[i]], e = n.at[w[i + 1]];
        PBT_CHECK(open(f, sum, int(i) + 1) || (!exact && std::abs(sum - costLimit.get_value_or(INF)) < tol(sum)), nm << " has path " << roads::str(p) << " that goes on after the limit was reached at " << roads::str(w[i]));
        sum += edge(A, f, e);
      }
      int end = n.at[w.back()];
      PBT_CHECK(std::isfinite(sum), nm << " has path " << roads::str(p) << " that does not exist");
      if (!elements || !r.tie) PBT_CHECK(std::abs(sum - r.d[size_t(end)]) <= tol(sum), nm << " has path " << roads::str(p) << " with cost " << sum << ", minimum is " << r.d[size_t(end)]);
      if (!keepShorter) PBT_CHECK(!open(end, sum, int(w.size())), nm << " has path " << roads::str(p) << " that does not reach the limit");
    }
    // no path is the beginning of another
    for (size_t i = 0; i < got.size(); ++i)
      for (size_t j = 0; j < got.size(); ++j)
        if (i != j) {
          auto u = got[i], v = got[j];
          if (back) std::reverse(u.begin(), u.end()), std::reverse(v.begin(), v.end());
          PBT_CHECK(!(u.size() <= v.size() && std::equal(u.begin(), u.end(), v.begin())), nm << ": " << roads::str(got[i]) << " is contained in " << roads::str(got[j]));
        }
    if (r.tie) {
      ++ties;
      if (!elements && !keepShorter) {  // the ends do not depend on how ties are resolved
        std::vector<int> want;
        for (int i : r.order)
          if (!r.open[size_t(i)]) want.push_back(i);
        Keys ends;
        for (auto& p : got) ends.push_back(back ? p.front() : p.back());
        std::sort(ends.begin(), ends.end());
        PBT_CHECK(ends == q.sorted(want), nm << " ends at " << roads::str(ends) << ", expected " << roads::str(q.sorted(want)));
      }
      continue;
    }
    std::vector<Keys> want;
    for (int i : r.order) {
      if (!r.leaf[size_t(i)] || (r.open[size_t(i)] && !keepShorter)) continue;
      Keys p;
      for (int j = i;; j = r.pred[size_t(j)]) {
        p.push_back(n.v[size_t(j)].key);
        if (j == a) break;
      }
      if (!back) std::reverse(p.begin(), p.end());
      want.push_back(p);
      shorter += r.open[size_t(i)];
    }
    std::sort(want.begin(), want.end());
    PBT_CHECK(got == want, nm << " is " << str(got) << ", expected " << str(want));
    many += got.size() > 1;
  }
  routing::PossiblePathsParams none;
  int a = q.pick(false);
  PBT_CHECK(chk::throws<InvalidInputError>([&] { q.g->possiblePaths(n.llt(n.v[size_t(a)]), none); }), "possiblePaths without any limit");
  PBT_CHECK(q.g->possiblePaths(q.foreign, 10.).empty() && q.g->possiblePathsTowards(q.foreign, 10.).empty() && q.g->possiblePathsIncludingAreas(q.foreign, 10.).empty(), "possiblePaths of a foreign lanelet");
  c.label("queries with several paths", many), c.label("queries with ties", ties), c.label("shorter paths", shorter), c.label("limits met exactly", met);
  c.nontrivial(many > 0);
}

void visits(Case& c) {
  Setup q(c);
  auto& n = q.n;
  auto& s = c.src;
  n.describe();
  size_t longest = 0, rejected = 0, lc = 0;
  for (int t = 0; t < 8; ++t) {
    size_t k = s.below(n.costM.size());
    auto id = routing::RoutingCostId(k);
    bool areas = s.flip(), changes = s.flip(), back = s.flip();
    int a = q.pick(areas);
    auto A = n.adjacency(k, changes, areas, back);
    std::set<int> closed;
    for (size_t i = 0; i < n.v.size(); ++i)
      if (s.chance(1, 8)) closed.insert(int(i));
    auto r = search(A, a, [&](int v, double, int) { return !closed.count(v); });
    std::string nm = std::string(back ? "forEachPredecessor" : "forEachSuccessor") + (areas ? "IncludingAreas" : "") + "(" + n.name(a) + ", cost " + std::to_string(k) + (changes ? ", lane changes)" : ")");
    struct Seen {
      double cost;
      size_t len, changes;
    };
    std::map<int, Seen> seen;
    double last = 0;
    auto visit = [&](Key kv, Key kp, double cost, size_t len, size_t numChanges) {
      c.did();
      auto iv = n.at.find(kv), ip = n.at.find(kp);
      PBT_CHECK(iv != n.at.end() && ip != n.at.end(), nm << " visits " << roads::str(kv));
      int v = iv->second, p = ip->second;
      std::string at = nm + " at " + n.name(v);
      PBT_CHECK(!seen.count(v), at << " a second time");
      PBT_CHECK(cost >= last - tol(cost), at << ": cost " << cost << " after " << last);
      last = cost;
      PBT_CHECK(std::isfinite(r.d[size_t(v)]) && std::abs(cost - r.d[size_t(v)]) <= tol(cost), at << ": cost " << cost << ", minimum is " << r.d[size_t(v)]);
      if (seen.empty()) PBT_CHECK(v == a && p == a && cost == 0 && len == 1 && numChanges == 0, at << " first");
      else {
        PBT_CHECK(seen.count(p) && !closed.count(p), at << ": predecessor " << n.name(p) << " was not visited or rejected");
        double w = edge(A, p, v);
        PBT_CHECK(std::abs(seen[p].cost + w - cost) <= tol(cost), at << ": cost " << cost << " does not follow from predecessor " << n.name(p) << " with " << seen[p].cost << " + " << w);
        auto& e = n.out[k][size_t(back ? v : p)].at(back ? p : v);
        bool isChange = Net::has(RelationType::Left | RelationType::Right, e.rel);
        PBT_EQ(len, seen[p].len + 1, at << ": length");
        PBT_EQ(numChanges, seen[p].changes + isChange, at << ": number of lane changes");
        lc += isChange;
      }
      seen[v] = {cost, len, numChanges};
      longest = std::max(longest, len);
      rejected += closed.count(v);
      return !closed.count(v);
    };
    auto& x = n.v[size_t(a)];
    auto fl = [&](const LaneletVisitInformation& i) { return visit(key(i.lanelet), key(i.predecessor), i.cost, i.length, i.numLaneChanges); };
    auto fa = [&](const LaneletOrAreaVisitInformation& i) { return visit(key(i.laneletOrArea), key(i.predecessor), i.cost, i.length, i.numLaneChanges); };
    if (areas) back ? q.g->forEachPredecessorIncludingAreas(x.p, fa, changes, id) : q.g->forEachSuccessorIncludingAreas(x.p, fa, changes, id);
    else back ? q.g->forEachPredecessor(n.llt(x), fl, changes, id) : q.g->forEachSuccessor(n.llt(x), fl, changes, id);
    PBT_EQ(seen.size(), r.order.size(), nm << ": number of visited elements");
    // leaving early by exception
    size_t stopAt = s.below(seen.size()), cnt = 0;
    struct Stop {};
    PBT_CHECK(chk::throws<Stop>([&] {
                q.g->forEachSuccessorIncludingAreas(x.p, [&](auto&) -> bool {
                  if (cnt++ == 0 || cnt > stopAt) throw Stop{};
                  return true;
                });
              }),
              "exception of the callback is passed on");
    q.g->forEachSuccessor(q.foreign, [&](auto&) -> bool { throw pbt::Fail{"foreign lanelet was visited"}; });
    q.g->forEachPredecessor(q.foreign, [&](auto&) -> bool { throw pbt::Fail{"foreign lanelet was visited"}; });
  }
  c.label("rejected visits", rejected), c.label("visits after a lane change", lc);
  c.nontrivial(longest > 3 && rejected > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C21";
  s.rule = "reachable: a set has more than 3 members and a set is cut by its limit; possible: several paths; visits: a path of more than 3 elements and a rejected element";
  s.assumptions = {"cost limits lie between the costs of elements, or are exact for costs without rounding",
                   "where several cheapest paths lead to an element any of them may be returned"};
  s.props = {
      {"reachable", "reachable sets in both directions", 6000, 300000, reachable},
      {"possible", "possible paths under cost and element limits", 6000, 300000, possible},
      {"visits", "visiting successors and predecessors with rejecting callbacks", 6000, 300000, visits},
  };
  return pbt::runMain(s, argc, argv);
}
