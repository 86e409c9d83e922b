// Generated road networks and a reference model of their routing graph.
#pragma once
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_routing/RoutingGraphContainer.h>

#include <set>

#include "rules.h"

namespace roads {
using namespace lanelet;
using lattice::LsH;
using lattice::World;
using routing::RelationType;
using Key = std::pair<Id, bool>;  // primitive and direction
using Keys = std::vector<Key>;
constexpr double INF = std::numeric_limits<double>::infinity();

inline Key key(const ConstLanelet& l) { return {l.id(), l.inverted()}; }
inline Key key(const ConstArea& a) { return {a.id(), false}; }
inline Key key(const ConstLaneletOrArea& x) { return x.isLanelet() ? key(*x.lanelet()) : key(*x.area()); }
template <typename R>
Keys keys(const R& r) {
  Keys k;
  for (auto& x : r) k.push_back(key(x));
  return k;
}
template <typename R>
Keys sortedKeys(const R& r) {
  auto k = keys(r);
  std::sort(k.begin(), k.end());
  return k;
}
inline std::string str(const Key& k) { return std::to_string(k.first) + (k.second ? "'" : ""); }
inline std::string str(const Keys& ks) {
  std::string r = "[";
  for (auto& k : ks) r += (r.size() > 1 ? " " : "") + str(k);
  return r + "]";
}

//! A cost module with explicit, arbitrary values
class TableCost : public routing::RoutingCost {
 public:
  uint64_t seed{};
  double grain{0.25};    // values are multiples of it, 0: arbitrary
  int forbidden{0};      // percent of forbidden successors
  size_t minChain{0};    // lane changes need that many lanelets
  bool perLength{false};  // lane change costs depend on the number of lanelets
  static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  double value(Key a, Key b, uint64_t salt) const {
    auto h = mix(mix(mix(seed ^ salt) ^ uint64_t(a.first * 2 + a.second)) ^ uint64_t(b.first * 2 + b.second));
    if (salt == 1 && int(h % 100) < forbidden) return INF;
    h = mix(h);
    return grain > 0 ? grain * double(h % 16) : double(h % 1000003) / 65536. + 0.01;
  }
  double succ(Key a, Key b) const { return value(a, b, 1); }
  double change(const Keys& f, const Keys& t) const {
    if (f.size() < minChain) return INF;
    return value(f.front(), t.front(), 2) + (perLength ? 0.25 * double(f.size()) + value(f.back(), t.back(), 3) : 0.);
  }
  double getCostSucceeding(const traffic_rules::TrafficRules&, const ConstLaneletOrArea& from, const ConstLaneletOrArea& to) const override {
    return succ(key(from), key(to));
  }
  double getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& from, const ConstLanelets& to) const override {
    return change(keys(from), keys(to));
  }
};

struct CostM {  // how a cost module computes
  enum Kind { Distance, Time, Table } kind;
  double change, minimum;
  std::shared_ptr<TableCost> table;
};

enum class Tri { No, Yes, Unclear };
struct Vtx {
  bool area;
  int m;
  bool inv;
  LsH left, right;
  ConstLaneletOrArea p;
  Key key;
};
struct Edge {
  RelationType rel;
  double cost;
};

struct NetOptions {
  bool areas{true};
  bool tidy{true};       // at most one neighbour per side
  bool heights{false};   // stack layers on top of each other
  size_t maxCols{4}, maxRows{4};
};

struct Net {
  Case& c;
  pbt::Src& s;
  World w;
  NetOptions opt;
  std::string who, land;
  std::vector<rules::Tags> mark, tagL, tagA;
  traffic_rules::TrafficRulesPtr rules;
  std::vector<CostM> costM;
  routing::RoutingCostPtrs costs;
  std::vector<Lanelet> absent;
  std::vector<int> inMapL, inMapA;  // indices of members of the map
  LaneletMapPtr map;
  // model
  std::vector<Vtx> v;
  std::map<Key, int> at;
  std::vector<std::vector<std::map<int, Edge>>> out;  // [cost id][from][to]
  std::vector<std::vector<int>> leftCand, rightCand;
  bool unique{true};
  double vehicleHeight{-1};

  explicit Net(Case& cc, NetOptions o = {}) : c{cc}, s{cc.src}, w{cc}, opt{o} {}

  static int front(const World& w, LsH h) { return w.list(h).front(); }
  static int back(const World& w, LsH h) { return w.list(h).back(); }

  //! rows of lanes, optionally closed to a ring
  void block(double z, geo::P2 org) {
    size_t rows = size_t(s.range(1, int(opt.maxRows))), cols = size_t(s.range(1, int(opt.maxCols)));
    bool ring = cols >= 3 && s.chance(1, 5);
    double cw = s.of({8., 4., 16.}), rh = s.of({4., 3.}), jit = s.of({0., 0.1}), wig = s.of({0., 0.06}) * rh;
    auto snap = [](double x) { return std::round(x * 64) / 64; };
    size_t pc = ring ? cols : cols + 1;
    std::vector<std::vector<int>> p(rows + 1, std::vector<int>(pc));
    for (size_t r = 0; r <= rows; ++r)
      for (size_t q = 0; q < pc; ++q) {
        double x = cw * double(q) + jit * cw * s.real(-1, 1), y = rh * double(r) + jit * rh * s.real(-1, 1);
        if (ring) {
          double rad = 10 + y, phi = -2 * M_PI * (double(q) / double(cols));
          x = 20 + rad * std::cos(phi), y = 20 + rad * std::sin(phi);
        }
        p[r][q] = w.addPt({snap(org.x + x), snap(org.y + y)}, z);
      }
    auto P = [&](size_t r, size_t q) { return p[r][ring ? q % cols : q]; };
    std::map<std::pair<int, int>, LsH> edges;
    auto e = [&](int a, int b) {
      auto it = edges.find({a, b});
      if (it != edges.end()) return it->second;
      it = edges.find({b, a});
      if (it != edges.end()) return it->second.flip();
      return edges[{a, b}] = w.edge(a, b, z, wig);
    };
    auto lane = [&](LsH l, LsH r) { w.addLlt(l, r); };
    for (size_t r = 0; r < rows; ++r) {
      bool west = s.chance(1, 4);
      for (size_t q = 0; q < cols; ++q) {
        int sw = P(r, q), se = P(r, q + 1), nw = P(r + 1, q), ne = P(r + 1, q + 1);
        bool flipped = s.chance(1, 20);
        size_t what = s.weighted({24, opt.areas ? 3u : 0u, 1, 1, 1});
        if (what == 0 || what == 4) (west != flipped) ? lane(e(se, sw), e(ne, nw)) : lane(e(nw, ne), e(sw, se));
        if (what == 1) {
          std::vector<LsH> o{e(sw, nw), e(nw, ne), e(ne, se), e(se, sw)};
          std::rotate(o.begin(), o.begin() + long(s.below(4)), o.end());
          w.addArea(o);
        }
        if (what == 2 || what == 4) s.flip() ? lane(e(sw, nw), e(se, ne)) : lane(e(ne, se), e(nw, sw));
        // lanes that start here and end in the neighbouring row (split and merge)
        if (q + 1 < cols && s.chance(1, 5)) {
          int e1 = P(r, q + 2), n1 = P(r + 1, q + 2);
          if (r + 1 < rows && s.flip()) {
            int n2 = P(r + 2, q + 2);
            s.chance(3, 4) ? lane(e(nw, n2), e(sw, n1)) : lane(e(n1, sw), e(n2, nw));
          } else if (r > 0) {
            int s1 = P(r - 1, q + 2);
            s.chance(3, 4) ? lane(e(nw, e1), e(sw, s1)) : lane(e(s1, sw), e(e1, nw));
          } else lane(e(nw, n1), w.addLs({sw, e1}));  // a long lane over two cells
        }
        // a lane within one cell to the next row: one column long
        if (r + 1 < rows && s.chance(1, 8)) {
          int n2 = P(r + 2, q + 1);
          s.flip() ? lane(e(nw, n2), e(sw, ne)) : lane(w.addLs({nw, n2}), w.addLs({sw, ne}));
        }
        // a lane that leads from the end of this cell back to its start, so that two lanes follow each other
        if (!ring && s.chance(1, r + 1 == rows ? 12 : 60)) {
          double x0 = org.x + cw * double(q), x1 = x0 + cw, y0 = org.y + rh * double(r), y1 = y0 + rh;
          auto at = [&](double x, double y) { return w.addPt({snap(x), snap(y)}, z); };
          int mid = at((x0 + x1) / 2, y1 + 1), a = at(x1 + 3, y0), b = at(x1 + 3, y1 + 6), d = at(x0 - 3, y1 + 6), f = at(x0 - 3, y0);
          lane(w.addLs({ne, mid, nw}), w.addLs({se, a, b, d, f, sw}));
        }
        if (!opt.tidy && s.chance(1, 8)) lane(e(nw, ne), w.addLs({sw, se}));
        if (!opt.tidy && s.chance(1, 10)) lane(e(nw, ne), e(sw, se));
      }
    }
  }
  void tidy() {
    if (!opt.tidy) return;
    std::set<std::pair<std::pair<int, bool>, int>> seen;
    // a bound line may be used once per direction and side
    for (size_t i = 0; i < w.lltM.size(); ++i) {
      auto& m = w.lltM[i];
      std::pair<std::pair<int, bool>, int> a{{m.left.ls, m.left.inv}, 0}, b{{m.right.ls, m.right.inv}, 1}, a2{{m.right.ls, !m.right.inv}, 0}, b2{{m.left.ls, !m.left.inv}, 1};
      if (seen.count(a) || seen.count(b) || seen.count(a2) || seen.count(b2)) {
        w.lltM.erase(w.lltM.begin() + long(i)), w.llts.erase(w.llts.begin() + long(i));
        --i;
        continue;
      }
      seen.insert({a, b, a2, b2});
    }
  }
  void tags() {
    who = s.of<std::string>({"vehicle", "vehicle:car", "pedestrian", "bicycle", "vehicle", "vehicle:bus"});
    land = s.of<std::string>({"de", "xx"});
    rules::registerOther();
    rules::Tags common = rules::markTags(s, true);
    for (auto& l : w.ls) {
      mark.push_back(s.chance(1, 2) ? common : rules::markTags(s, true));
      if (who == "pedestrian" && s.chance(3, 4)) mark.back()["lane_change"] = "yes";
      rules::putTags(l, mark.back());
    }
    bool allOpen = s.flip();
    for (auto& l : w.llts) {
      rules::Tags t{{"subtype", who == "pedestrian" ? "walkway" : "road"}};
      if (!allOpen && s.chance(1, 5)) t = rules::passTags(s, true);
      else if (s.chance(1, 6)) t["one_way"] = s.flip() ? "no" : "yes";
      if (s.chance(1, 6)) t["speed_limit"] = s.of<std::string>({"30 km/h", "5", "10", "120"});
      if (s.chance(1, 4)) t["location"] = "nonurban";
      tagL.push_back(t), rules::putTags(l, t);
    }
    for (auto& a : w.ars) {
      rules::Tags t{{"subtype", "exit"}};
      if (s.chance(1, 5)) t = rules::passTags(s, false);
      tagA.push_back(t), rules::putTags(a, t);
    }
    rules = traffic_rules::TrafficRulesPtr(rules::make(land, who));
  }
  void makeCosts() {
    size_t n = 1 + s.below(3);
    for (size_t i = 0; i < n; ++i) {
      CostM m;
      m.kind = CostM::Kind(s.below(3));
      m.change = s.of({10., 0., 1., 25.});
      m.minimum = s.of({0., 0., 9., 20., 1.});
      if (m.kind == CostM::Distance) costs.push_back(std::make_shared<routing::RoutingCostDistance>(m.change, m.minimum));
      if (m.kind == CostM::Time) costs.push_back(std::make_shared<routing::RoutingCostTravelTime>(m.change, m.minimum));
      if (m.kind == CostM::Table) {
        m.table = std::make_shared<TableCost>();
        m.table->seed = s.below(1000);
        m.table->grain = s.of({0., 0.25, 1.});
        m.table->forbidden = s.of({0, 0, 0, 10});
        m.table->minChain = s.of<size_t>({0, 0, 2, 3});
        m.table->perLength = s.flip();
        costs.push_back(m.table);
      }
      costM.push_back(m);
    }
  }
  template <typename Add>
  void shuffled(Add&& add) {
    std::vector<std::pair<uint64_t, int>> o;
    for (int i : inMapL) o.emplace_back(s.below(1u << 20), i);
    for (int i : inMapA) o.emplace_back(s.below(1u << 20), -i - 1);
    std::sort(o.begin(), o.end());
    for (auto& x : o) add(x.second);
  }
  void make() {
    block(0, {0, 0});
    if (s.chance(1, 3)) block(opt.heights ? s.of({0., 2., 4., 6.}) : 0., {s.grid(-10, 30, 0.5), s.grid(-10, 30, 0.5)});
    tidy();
    if (w.llts.empty()) throw pbt::Discard{};
    tags();
    makeCosts();
    for (int i = 0; i < int(w.llts.size()); ++i)
      if (s.chance(19, 20)) inMapL.push_back(i);
    for (int i = 0; i < int(w.ars.size()); ++i)
      if (s.chance(19, 20)) inMapA.push_back(i);
    map = std::make_shared<LaneletMap>();
    shuffled([&](int i) { i >= 0 ? map->add(w.llts[size_t(i)]) : map->add(w.ars[size_t(-i - 1)]); });
    model();
  }
  LaneletMapUPtr otherMap() {
    auto m = std::make_unique<LaneletMap>();
    shuffled([&](int i) { i >= 0 ? m->add(w.llts[size_t(i)]) : m->add(w.ars[size_t(-i - 1)]); });
    return m;
  }
  routing::RoutingGraphUPtr graph(const LaneletMap& m) const { return routing::RoutingGraph::build(m, *rules, costs, config()); }
  routing::RoutingGraphUPtr graph() const { return graph(*map); }
  routing::RoutingGraph::Configuration config() const {
    routing::RoutingGraph::Configuration cfg;
    if (vehicleHeight >= 0) cfg[routing::RoutingGraph::ParticipantHeight] = Attribute(vehicleHeight);
    return cfg;
  }

  // ---- model
  ConstLanelet llt(const Vtx& x) const { return *x.p.lanelet(); }
  bool follows(const Vtx& a, const Vtx& b) const {  // b follows a
    return back(w, a.left) == front(w, b.left) && back(w, a.right) == front(w, b.right);
  }
  double len(const Vtx& a) const {
    if (!a.area) return geometry::approximatedLength2d(llt(a));
    auto r = w.ringPos(w.ring(w.arM[size_t(a.m)].outer));
    double l = 0;
    for (size_t i = 0; i < r.size(); ++i) l += geo::dist(r[i], r[(i + 1) % r.size()]);
    return l;
  }
  double time(const Vtx& a) const {
    double v = a.area ? rules->speedLimit(*a.p.area()).speedLimit.value() : rules->speedLimit(llt(a)).speedLimit.value();
    if (v == 0) throw pbt::Discard{};  // the meaning of a limit of zero is not documented
    return len(a) / v;
  }
  double succCost(size_t k, const Vtx& a, const Vtx& b) const {
    auto& m = costM[k];
    if (m.kind == CostM::Table) return m.table->succ(a.key, b.key);
    return m.kind == CostM::Distance ? (len(a) + len(b)) / 2 : (time(a) + time(b)) / 2;
  }
  double changeCost(size_t k, const std::vector<int>& from, const std::vector<int>& to) const {
    auto& m = costM[k];
    Keys f, t;
    double sum = 0;
    for (int i : from) f.push_back(v[size_t(i)].key), sum += m.kind == CostM::Time ? time(v[size_t(i)]) : len(v[size_t(i)]);
    for (int i : to) t.push_back(v[size_t(i)].key);
    if (m.kind == CostM::Table) return m.table->change(f, t);
    return m.minimum > 0 && sum < m.minimum ? INF : m.change;
  }
  void model() {
    auto addV = [&](Vtx x) {
      at[x.key] = int(v.size());
      v.push_back(x);
    };
    for (int i : inMapL) {
      ConstLanelet l = w.llts[size_t(i)];
      if (!rules->canPass(l)) continue;
      auto& m = w.lltM[size_t(i)];
      addV({false, i, false, m.left, m.right, l, key(l)});
      if (rules->canPass(l.invert())) addV({false, i, true, m.right.flip(), m.left.flip(), l.invert(), key(ConstLanelet(l.invert()))});
    }
    for (int i : inMapA) {
      ConstArea a = w.ars[size_t(i)];
      if (rules->canPass(a)) addV({true, i, false, {}, {}, a, key(a)});
    }
    int n = int(v.size());
    out.assign(costM.size(), std::vector<std::map<int, Edge>>(size_t(n)));
    leftCand.assign(size_t(n), {}), rightCand.assign(size_t(n), {});
    auto put = [&](size_t k, int a, int b, RelationType r, double cost) {
      if (std::isfinite(cost)) out[k][size_t(a)][b] = {r, cost};
    };
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
        auto &x = v[size_t(a)], &y = v[size_t(b)];
        if (x.area || y.area) {
          if (a == b) continue;
          bool can = x.area && y.area ? rules->canPass(*x.p.area(), *y.p.area())
                     : x.area         ? rules->canPass(*x.p.area(), llt(y))
                                      : rules->canPass(llt(x), *y.p.area());
          if (can)
            for (size_t k = 0; k < costM.size(); ++k) put(k, a, b, RelationType::Area, succCost(k, x, y));
          continue;
        }
        if (follows(x, y) && rules->canPass(llt(x), llt(y)))
          for (size_t k = 0; k < costM.size(); ++k) put(k, a, b, RelationType::Successor, succCost(k, x, y));
        if (a == b) continue;
        if (y.right == x.left) leftCand[size_t(a)].push_back(b);
        if (y.left == x.right) rightCand[size_t(a)].push_back(b);
      }
    auto succs = [&](int a) {
      std::vector<int> r;
      for (auto& e : out[0][size_t(a)])
        if (e.second.rel == RelationType::Successor) r.push_back(e.first);
      return r;
    };
    auto target = [&](const std::vector<std::vector<int>>& cand, int a) -> int {
      auto& t = cand[size_t(a)];
      return t.size() == 1 && rules->canChangeLane(llt(v[size_t(a)]), llt(v[size_t(t[0])])) ? t[0] : -1;
    };
    for (int side = 0; side < 2; ++side) {
      auto& cand = side ? rightCand : leftCand;
      std::vector<std::tuple<size_t, int, int, RelationType, double>> add;
      for (int a = 0; a < n; ++a) {
        if (cand[size_t(a)].size() > 1) unique = false;
        if (cand[size_t(a)].size() != 1) continue;
        int t = target(cand, a), b = cand[size_t(a)][0];
        auto adjacent = side ? RelationType::AdjacentRight : RelationType::AdjacentLeft;
        if (t < 0) {
          for (size_t k = 0; k < costM.size(); ++k) add.emplace_back(k, a, b, adjacent, 1.);
          continue;
        }
        std::vector<int> f{a}, g{t};
        while (true) {
          auto nf = succs(f.back()), ng = succs(g.back());
          if (nf.size() != 1 || ng.size() != 1 || target(cand, nf[0]) != ng[0]) break;
          if (std::find(f.begin(), f.end(), nf[0]) != f.end()) break;
          f.push_back(nf[0]), g.push_back(ng[0]);
        }
        for (size_t k = 0; k < costM.size(); ++k) {
          double cost = changeCost(k, f, g);
          if (std::isfinite(cost)) add.emplace_back(k, a, b, side ? RelationType::Right : RelationType::Left, cost);
          else add.emplace_back(k, a, b, adjacent, 1.);
        }
      }
      for (auto& x : add) put(std::get<0>(x), std::get<1>(x), std::get<2>(x), std::get<3>(x), std::get<4>(x));
    }
  }
  bool related(int a, int b) const {
    for (auto& o : out)
      if (o[size_t(a)].count(b) || o[size_t(b)].count(a)) return true;
    return false;
  }
  static bool has(RelationType set, RelationType r) { return (set & r) != RelationType::None; }
  static RelationType routable(bool changes, bool areas) {
    auto r = RelationType::Successor;
    if (changes) r = r | RelationType::Left | RelationType::Right;
    if (areas) r = r | RelationType::Area;
    return r;
  }
  //! out edges used by a search
  std::vector<std::vector<std::pair<int, double>>> adjacency(size_t k, bool changes, bool areas, bool reverse = false) const {
    std::vector<std::vector<std::pair<int, double>>> r(v.size());
    auto set = routable(changes, areas);
    for (size_t a = 0; a < v.size(); ++a)
      for (auto& e : out[k][a])
        if (has(set, e.second.rel)) {
          if (reverse) r[size_t(e.first)].emplace_back(int(a), e.second.cost);
          else r[a].emplace_back(e.first, e.second.cost);
        }
    return r;
  }
  geo::Poly poly(const Vtx& x) const { return x.area ? w.poly(w.arM[size_t(x.m)], false) : w.poly(w.lltM[size_t(x.m)]); }
  std::vector<int> ring(const Vtx& x) const { return x.area ? w.ring(w.arM[size_t(x.m)].outer) : w.ring(w.lltM[size_t(x.m)]); }
  //! do the shapes of two different primitives overlap
  Tri overlap(const Vtx& a, const Vtx& b) const {
    double ia = geo::interArea(poly(a), poly(b));
    if (ia < 1e-9) return Tri::No;
    if (ia < 1e-4) return Tri::Unclear;
    auto ra = ring(a), rb = ring(b);
    for (size_t i = 0; i < ra.size(); ++i)
      for (size_t j = 0; j < rb.size(); ++j)
        if (ra[i] == rb[(j + 1) % rb.size()] && ra[(i + 1) % ra.size()] == rb[j]) return Tri::Unclear;
    if (!a.area && !b.area) {
      auto ends = [&](LsH l, LsH r) { return std::make_pair(front(w, l), front(w, r)); };
      for (auto& x : {ends(a.left, a.right), ends(a.right.flip(), a.left.flip())})
        for (auto& y : {ends(b.left, b.right), ends(b.right.flip(), b.left.flip())})
          if (x.first == y.second && x.second == y.first) return Tri::Unclear;
    }
    return Tri::Yes;
  }
  double height(const Vtx& x) const { return w.at3(ring(x)[0]).z; }
  std::string name(int i) const { return roads::str(v[size_t(i)].key); }
  void describe(const std::string& more = "") {
    c.describe([this, more](auto& o) {
      o << land << " " << who << " costs";
      for (auto& m : costM) o << " " << (m.kind == CostM::Distance ? "distance" : m.kind == CostM::Time ? "time" : "table") << "(" << m.change << "," << m.minimum << ")";
      o << " " << v.size() << " vertices" << more << "\n";
      for (int i : inMapL)
        o << w.llts[size_t(i)].id() << " " << rules::str(tagL[size_t(i)]) << " left " << w.lltM[size_t(i)].left.ls << (w.lltM[size_t(i)].left.inv ? "i" : "") << "=" << chk::show(w.list(w.lltM[size_t(i)].left))
          << " right " << w.lltM[size_t(i)].right.ls << (w.lltM[size_t(i)].right.inv ? "i" : "") << "=" << chk::show(w.list(w.lltM[size_t(i)].right)) << "\n";
      for (int i : inMapA) o << w.ars[size_t(i)].id() << " " << rules::str(tagA[size_t(i)]) << " ring " << chk::show(w.ring(w.arM[size_t(i)].outer)) << "\n";
      for (size_t a = 0; a < v.size() && !out.empty(); ++a) {
        o << name(int(a)) << ":";
        for (auto& e : out[0][a]) o << " " << routing::relationToString(e.second.rel) << " " << name(e.first) << " (" << e.second.cost << ")";
        o << "\n";
      }
    });
  }
};
}  // namespace roads
