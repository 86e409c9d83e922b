// C25: validation of maps with injected defects against a model of the documented tags and plain geometry.
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_validation/Cli.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>

#include <fstream>
#include <iostream>

#include "rules.h"

namespace {
using namespace lanelet;
namespace lv = lanelet::validation;
using geo::P2;
using rules::Tags;
using Strs = std::vector<std::string>;
using Kind = lv::Primitive;

// ---------------------------------------------------------------- validators of a user
struct User {
  lv::Issues map, rules, graph;
  int mapCalls{0}, rulesCalls{0}, graphCalls{0};
  Strs seenRules, seenGraph;
} user;
struct UserMap : lv::MapValidator {
  constexpr static const char* name() { return "user.map_check"; }
  lv::Issues operator()(const LaneletMap&) override { return ++user.mapCalls, user.map; }
};
struct UserRules : lv::TrafficRuleValidator {
  constexpr static const char* name() { return "user.rule_check"; }
  lv::Issues operator()(const LaneletMap&, const std::vector<traffic_rules::TrafficRulesUPtr>& r) override {
    ++user.rulesCalls;
    for (auto& x : r) user.seenRules.push_back(x->participant() + "@" + x->location());
    return user.rules;
  }
};
struct UserGraph : lv::RoutingGraphValidator {
  constexpr static const char* name() { return "user.graph_check"; }
  lv::Issues operator()(const routing::RoutingGraph&, const traffic_rules::TrafficRules& r) override {
    ++user.graphCalls;
    user.seenGraph.push_back(r.participant() + "@" + r.location());
    return user.graph;
  }
};
void registerUser() {
  static lv::RegisterMapValidator<UserMap> a;
  static lv::RegisterTrafficRuleValidator<UserRules> b;
  static lv::RegisterRoutingGraphValidator<UserGraph> c;
}
const Strs MapChecks{"mapping.bool_tags", "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags", "mapping.points_too_close", "mapping.unknown_tag_value", "mapping.unknown_tags", "user.map_check"};
const Strs RuleChecks{"user.rule_check"};
const Strs GraphChecks{"routing.graph_is_valid", "user.graph_check"};

// ---------------------------------------------------------------- filter
char low(char c) { return char(std::tolower(c)); }
//! full, case insensitive match of a basic regular expression made of characters, '.', [sets] and '*'
bool matches(const std::string& re, size_t i, const std::string& t, size_t j) {
  if (i == re.size()) return j == t.size();
  size_t e = i + 1;
  if (re[i] == '[') e = re.find(']', i) + 1;
  auto one = [&](size_t k) {
    if (k >= t.size()) return false;
    if (re[i] == '.') return true;
    if (re[i] != '[') return low(re[i]) == low(t[k]);
    for (size_t x = i + 1; x + 1 < e; ++x) {
      if (x + 2 < e - 1 && re[x + 1] == '-') {
        if (low(t[k]) >= re[x] && low(t[k]) <= re[x + 2]) return true;
        x += 2;
      } else if (low(re[x]) == low(t[k])) {
        return true;
      }
    }
    return false;
  };
  if (e < re.size() && re[e] == '*') {
    for (size_t k = j;; ++k) {
      if (matches(re, e + 1, t, k)) return true;
      if (!one(k)) return false;
    }
  }
  return one(j) && matches(re, e, t, j + 1);
}
bool selected(const std::string& filter, const std::string& name) {
  bool any = false;
  std::stringstream ss(filter);
  std::string part;
  while (std::getline(ss, part, ',')) {
    if (part.empty()) continue;
    any = true;
    if (matches(part, 0, name, 0)) return true;
  }
  return !any;
}
std::string filterString(pbt::Src& s) {
  if (s.chance(1, 3)) return "";
  std::string r;
  size_t n = size_t(s.range(1, 3));
  for (size_t i = 0; i < n; ++i) {
    if (i || s.chance(1, 10)) r += ",";
    Strs all(MapChecks);
    all.insert(all.end(), GraphChecks.begin(), GraphChecks.end());
    all.insert(all.end(), RuleChecks.begin(), RuleChecks.end());
    std::string name = s.pick(all);
    switch (s.below(9)) {
      case 0: r += s.of<std::string>({".*", "mapping.*", "mapping.*", "routing.*", "user.*", "map.*", ".*_check"}); break;
      case 1: r += name.substr(0, s.below(name.size() + 1)); break;           // matches only in part
      case 2: r += name.substr(s.below(name.size())); break;
      case 3: r += ".*" + name.substr(s.below(name.size())); break;
      case 4: r += name.substr(0, s.below(name.size() + 1)) + ".*"; break;
      case 5:
        for (char c : name) r += char(s.flip() ? std::toupper(c) : c);
        break;
      case 6: name[s.below(name.size())] = '.', r += name; break;
      case 7: {
        size_t p = s.below(name.size());
        r += name.substr(0, p) + "[a-z_.]*";
        break;
      }
      default: r += name;
    }
  }
  if (s.chance(1, 10)) r += ",";
  return r;
}

// ---------------------------------------------------------------- tags
bool in(const Strs& v, const std::string& x) { return std::find(v.begin(), v.end(), x) != v.end(); }
bool starts(const std::string& x, const std::string& p) { return x.compare(0, p.size(), p) == 0; }
struct Vocabulary {
  Strs tags;       // known names, alone or with a ':' suffix
  Strs mandatory;
  std::map<std::string, Strs> values;
  bool flags{true};
};
const Vocabulary& vocabulary(Kind k) {
  static const Strs loc{"urban", "nonurban", "private"};
  static const std::map<Kind, Vocabulary> v{
      {Kind::Point, {{"type", "subtype", "ele"}, {}, {{"type", {"begin", "start", "end", "pole", "dot", "post"}}}, false}},
      {Kind::LineString,
       {{"type", "subtype", "lane_change", "width", "height", "temporary", "color"},
        {"type"},
        {{"type", {"line_thin", "line_thick", "curbstone", "virtual", "road_border", "guard_rail", "wall", "fence", "zebra_marking", "pedestrian_marking", "bike_marking", "keepout", "jersey_barrier",
                   "gate", "door", "rail", "arrow", "stop_line", "zig-zag", "lift_gate", "bump", "traffic_sign", "traffic_light", "symbol", "trajectory", "visualization"}}}}},
      {Kind::Lanelet,
       {{"type", "subtype", "location", "one_way", "participant", "speed_limit", "speed_limit_mandatory", "region", "road_name", "road_surface", "name"},
        {"type", "subtype", "location"},
        {{"type", {"lanelet"}},
         {"location", loc},
         {"subtype", {"road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "rail"}}}}},
      {Kind::Area,
       {{"type", "subtype", "location", "participant", "speed_limit", "speed_limit_mandatory", "region", "road_name", "road_surface", "name"},
        {"type", "subtype", "location"},
        {{"type", {"multipolygon", "area"}},
         {"location", loc},
         {"subtype", {"road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "parking", "freespace", "vegetation",
                      "keepout", "building", "traffic_island"}}}}},
      {Kind::RegulatoryElement,
       {{"type", "subtype", "dynamic", "fallback", "sign_type", "speed_limit"}, {"type", "subtype"}, {{"type", {"regulatory_element"}}}}},
  };
  return v.at(k);
}
std::string base(const std::string& tag) { return tag.substr(0, tag.find(':')); }
bool isFlag(const std::string& tag) { return in({"one_way", "dynamic", "lane_change", "participant", "fallback", "temporary"}, base(tag)); }
bool boolish(const std::string& v) { return in({"yes", "no", "true", "false", "1", "0"}, v); }

Tags someTags(pbt::Src& s, Kind k, bool tidy) {
  auto& v = vocabulary(k);
  Tags t;
  auto value = [&](const std::string& key) -> std::string {
    auto it = v.values.find(key);
    if (it != v.values.end() && s.chance(tidy ? 30 : 3, tidy ? 31 : 5)) return s.pick(it->second);
    if (isFlag(key)) return s.chance(tidy ? 30 : 3, tidy ? 31 : 5) ? s.of<std::string>({"yes", "no", "yes", "no", "true", "false"}) : s.of<std::string>({"maybe", "2", "ja", "", "yes please"});
    if (key == "subtype" && k == Kind::LineString) return s.of<std::string>({"solid", "dashed", "low", "high"});
    if (key == "speed_limit") return s.of<std::string>({"50", "30 km/h"});
    return s.of<std::string>({"foo", "1", "", "parking", "white", "lanelet", "Road", "roads", "zzz", "urbane"});
  };
  for (auto& m : v.mandatory)
    if (s.chance(tidy ? 30 : 3, tidy ? 31 : 4)) t[m] = value(m);
  size_t n = s.weighted({4, 3, 2, 1});
  for (size_t i = 0; i < n; ++i) {
    std::string key;
    if (s.chance(tidy ? 30 : 1, tidy ? 31 : 2)) {
      key = s.pick(v.tags);
      if (key == "one_way" || key == "participant") {
        if (key == "participant" || s.flip()) key += ":" + s.pick(rules::participants());
      } else if (key == "lane_change" && s.flip()) {
        key += s.flip() ? ":left" : ":right";
      } else if (starts(key, "speed_limit") && s.chance(1, 3)) {
        key += ":" + s.pick(rules::participants());
      }
    } else {
      key = s.of<std::string>({"foo", "xtype", "my_name", "Type", "zone", "lane", "typ", "part", "one", "sub", "location_", "width", "dynamic", "ele", "one_way", "temporary", "color", "fallback", "area", "lane_change"});
    }
    t[key] = value(key);
  }
  return t;
}

// ---------------------------------------------------------------- the map
struct Scene {
  lattice::World w;
  RegulatoryElementPtrs regs;
  Polygons3d polys;
  LineStrings3d extra;
  LaneletMapUPtr map;
  explicit Scene(Case& c) : w{c} {}

  template <typename P>
  void put(P&& p, const Tags& t) {
    for (auto& e : t) p[e.first] = e.second;
  }
  void make() {
    auto& s = w.s;
    bool tidy = s.chance(1, 4);  // most primitives without any defect
    w.fill();
    Points3d isolated;
    auto nextPt = [&](double x, double y, double z) {
      w.pts.emplace_back(Id(w.pts.size() + 1), x, y, z);
      return w.pts.back();
    };
    // duplicated points
    for (auto& l : w.ls) {
      if (!s.chance(1, tidy ? 40 : 8) || l.empty()) continue;
      size_t i = s.below(l.size());
      bool same = s.flip();
      auto p = l[i];
      if (!same) p = nextPt(p.x(), p.y(), p.z());  // another point at the same place is no duplicate
      l.insert(l.begin() + long(i), p);
    }
    // points near others, also straight above
    size_t n = s.weighted({2, 2, 2, 1});
    for (size_t i = 0; i < n && !w.pts.empty() && !tidy; ++i) {
      auto p = w.pts[s.below(w.pts.size())];
      double dx = s.of({0., 0., 0.03, 0.04, 0.06, 0.049, 0.051}), dy = s.of({0., 0., 0.03, 0.04, 0.02}), dz = s.of({0., 0., 0.01, 0.049, 0.051, 3., -5.});
      isolated.push_back(nextPt(p.x() + dx, p.y() + dy, p.z() + dz));
    }
    // sharp lines
    for (auto& l : w.ls) {
      if (!s.chance(1, tidy ? 60 : 8) || l.size() < 2) continue;
      size_t i = 1 + s.below(l.size() - 1);
      auto a = l[i - 1], b = l[i];
      double t = s.of({0.5, 0.25}), off = s.of({0.1, 0.5, 1., -0.5});
      double x = a.x() + t * (b.x() - a.x()) - off * (b.y() - a.y()), y = a.y() + t * (b.y() - a.y()) + off * (b.x() - a.x());
      l.insert(l.begin() + long(i), nextPt(x, y, a.z()));
    }
    n = s.below(3);
    for (size_t i = 0; i < n && w.pts.size() > 3; ++i) {
      Polygon3d p(40000 + Id(i));
      size_t at = s.below(w.pts.size() - 3);
      for (size_t k = 0; k < 3; ++k) {
        p.push_back(w.pts[at + k]);
        if (s.chance(1, 8)) p.push_back(w.pts[at + k]);
      }
      put(p.attributes(), someTags(s, Kind::LineString, tidy));
      polys.push_back(p);
    }
    if (s.chance(1, 4)) extra.emplace_back(50000, s.flip() || w.pts.empty() ? Points3d{} : Points3d{w.pts.front()});
    n = s.below(3);
    for (size_t i = 0; i < n; ++i) {
      Id id = 60000 + Id(i);
      LineString3d at(id + 1000, {nextPt(100 + double(i), 100, 3), nextPt(101 + double(i), 103, 3)});
      RegulatoryElementPtr r;
      AttributeMap tags;
      put(tags, someTags(s, Kind::RegulatoryElement, tidy));
      if (s.flip()) {
        r = std::make_shared<GenericRegulatoryElement>(std::make_shared<RegulatoryElementData>(id, RuleParameterMap(), tags));
      } else {
        switch (s.below(3)) {
          case 0: r = TrafficLight::make(id, tags, {at}); break;
          case 1: r = SpeedLimit::make(id, tags, {{at}, "de274"}); break;
          default: r = TrafficSign::make(id, tags, {{at}, "de206"}); break;
        }
      }
      extra.push_back(at);
      regs.push_back(r);
    }
    for (auto& p : w.pts)
      if (s.chance(1, 8)) put(p.attributes(), someTags(s, Kind::Point, tidy));
    for (auto& l : w.ls) put(l.attributes(), someTags(s, Kind::LineString, tidy));
    for (auto& l : extra) put(l.attributes(), someTags(s, Kind::LineString, tidy));
    for (auto& l : w.llts) put(l.attributes(), someTags(s, Kind::Lanelet, tidy));
    for (auto& a : w.ars) put(a.attributes(), someTags(s, Kind::Area, tidy));
    map = lanelet::utils::createMap(Lanelets(w.llts), Areas(w.ars));
    for (auto& p : isolated) map->add(p);
    for (auto& p : polys) map->add(p);
    for (auto& l : extra) map->add(l);
    for (auto& r : regs) map->add(r);
  }
};
std::string digest(const LaneletMap& m) {
  std::ostringstream o;
  o.precision(17);
  auto tags = [&](auto& p) {
    std::map<std::string, std::string> t;
    for (auto& e : p.attributes()) t[e.first] = e.second.value();
    o << rules::str(t) << ";";
  };
  auto sortedIds = [](auto& layer) {
    std::vector<Id> r;
    for (auto& e : layer) r.push_back(lanelet::utils::getId(e));
    std::sort(r.begin(), r.end());
    return r;
  };
  for (Id i : sortedIds(m.pointLayer)) {
    auto p = m.pointLayer.get(i);
    o << "P" << i << " " << p.x() << " " << p.y() << " " << p.z();
    tags(p);
  }
  for (Id i : sortedIds(m.lineStringLayer)) {
    auto l = m.lineStringLayer.get(i);
    o << "S" << i;
    for (const auto& p : l) o << " " << p.id();
    tags(l);
  }
  for (Id i : sortedIds(m.polygonLayer)) {
    auto l = m.polygonLayer.get(i);
    o << "G" << i;
    for (const auto& p : l) o << " " << p.id();
    tags(l);
  }
  for (Id i : sortedIds(m.laneletLayer)) {
    auto l = m.laneletLayer.get(i);
    o << "L" << i << " " << l.leftBound().id() << l.leftBound().inverted() << l.rightBound().id() << l.rightBound().inverted() << l.regulatoryElements().size();
    tags(l);
  }
  for (Id i : sortedIds(m.areaLayer)) {
    auto l = m.areaLayer.get(i);
    o << "A" << i;
    for (auto& b : l.outerBound()) o << " " << b.id();
    tags(l);
  }
  for (Id i : sortedIds(m.regulatoryElementLayer)) {
    auto r = m.regulatoryElementLayer.get(i);
    o << "R" << i;
    tags(*r);
  }
  return o.str();
}

// ---------------------------------------------------------------- expectations
struct Key {
  Kind kind;
  Id id;
  bool operator<(const Key& o) const { return std::tie(kind, id) < std::tie(o.kind, o.id); }
};
struct Expect {
  lv::Severity severity{lv::Severity::Warning};
  std::map<Key, std::pair<int, int>> n;  // least and most issues
  std::map<Key, Strs> words;             // all of them occur in the messages
};
using All = std::map<std::string, Expect>;

void expectTags(All& a, Kind kind, Id id, const AttributeMap& attrs) {
  Key k{kind, id};
  auto& v = vocabulary(kind);
  for (auto& e : attrs) {
    std::string tag = e.first, value = e.second.value();
    // unknown tags
    bool known = in(v.tags, tag) || (tag.find(':') != std::string::npos && in(v.tags, base(tag)));
    bool open = !known && std::any_of(v.tags.begin(), v.tags.end(), [&](auto& t) { return starts(tag, t); });
    auto& u = a["mapping.unknown_tags"];
    if (!known) {
      u.n[k].second++;
      if (!open) u.n[k].first++, u.words[k].push_back(tag);
    }
    // flags
    if (v.flags && isFlag(tag) && !boolish(value)) a["mapping.bool_tags"].n[k].first++, a["mapping.bool_tags"].n[k].second++, a["mapping.bool_tags"].words[k].push_back(tag);
    // values
    auto it = v.values.find(tag);
    auto& x = a["mapping.unknown_tag_value"];
    if (it != v.values.end() && !in(it->second, value)) x.n[k].first++, x.n[k].second++, x.words[k].push_back(value);
  }
  for (auto& m : v.mandatory) {
    if (attrs.find(m) != attrs.end()) continue;
    auto& x = a["mapping.mandatory_tags"];
    x.n[k].first++, x.n[k].second++, x.words[k].push_back(m);
  }
}
All expectAll(const LaneletMap& map) {
  All a;
  for (auto& c : MapChecks) a[c];
  a["mapping.duplicated_points"].severity = lv::Severity::Error;
  for (auto& p : map.pointLayer) expectTags(a, Kind::Point, p.id(), p.attributes());
  for (auto& p : map.lineStringLayer) expectTags(a, Kind::LineString, p.id(), p.attributes());
  for (auto& p : map.laneletLayer) expectTags(a, Kind::Lanelet, p.id(), p.attributes());
  for (auto& p : map.areaLayer) expectTags(a, Kind::Area, p.id(), p.attributes());
  for (auto& p : map.regulatoryElementLayer) expectTags(a, Kind::RegulatoryElement, p->id(), std::as_const(*p).attributes());
  auto dup = [&](Kind k, auto& l) {
    std::vector<Id> ids = chk::ids(l);
    bool d = std::adjacent_find(ids.begin(), ids.end()) != ids.end();
    if (d) a["mapping.duplicated_points"].n[Key{k, l.id()}] = {1, 1};
  };
  for (auto& l : map.lineStringLayer) dup(Kind::LineString, l);
  for (auto& l : map.polygonLayer) dup(Kind::Polygon, l);
  std::vector<ConstPoint3d> pts(map.pointLayer.begin(), map.pointLayer.end());
  auto& close = a["mapping.points_too_close"];
  for (auto& p : pts) {
    double best = geo::INF;
    for (auto& q : pts)
      if (p.id() != q.id()) best = std::min(best, geo::dist(conv::p3(p), conv::p3(q)));
    if (best < 0.05 - 1e-9) close.n[Key{Kind::Point, p.id()}] = {1, 1};
    else if (best < 0.05 + 1e-9) close.n[Key{Kind::Point, p.id()}] = {0, 1};
  }
  auto& curv = a["mapping.curvature_too_big"];
  for (auto& l : map.laneletLayer) {
    for (auto& b : {l.leftBound(), l.rightBound()}) {
      for (size_t i = 1; i + 1 < b.size(); ++i) {
        P2 p{b[i - 1].x(), b[i - 1].y()}, q{b[i].x(), b[i].y()}, r{b[i + 1].x(), b[i + 1].y()};
        double x = geo::dist(p, q), y = geo::dist(q, r), z = geo::dist(p, r);
        auto& e = curv.n[Key{Kind::Lanelet, l.id()}];
        if (x < 1e-6 || y < 1e-6) {
          e.second++;  // not a curve
        } else {
          double k = z < 1e-9 ? geo::INF : 2 * std::abs(geo::cross(q - p, r - p)) / (x * y * z);
          if (z > 1e-9 && z < 1e-3) k = geo::INF;
          if (k > 0.5 + 1e-6) e.first++, e.second++, curv.words[Key{Kind::Lanelet, l.id()}].push_back(std::to_string(b[i].id()));
          else if (k > 0.5 - 1e-6) e.second++;
        }
      }
    }
  }
  return a;
}
struct Counts {
  std::map<Key, int> n;
  std::map<Key, std::string> text;
};
void judgeCheck(const std::string& name, const Expect& e, const lv::Issues& issues) {
  Counts g;
  for (auto& i : issues) {
    PBT_CHECK(i.severity == e.severity, name << ": severity of " << i.buildReport());
    g.n[Key{i.primitive, i.id}]++;
    g.text[Key{i.primitive, i.id}] += i.message + "\n";
  }
  for (auto& x : g.n) {
    auto it = e.n.find(x.first);
    int most = it == e.n.end() ? 0 : it->second.second;
    PBT_CHECK(x.second <= most, name << ": " << x.second << " issues instead of " << most << " of " << toString(x.first.kind) << " " << x.first.id << ": " << g.text[x.first]);
  }
  for (auto& x : e.n) {
    int have = g.n.count(x.first) ? g.n[x.first] : 0;
    PBT_CHECK(have >= x.second.first, name << ": " << have << " issues instead of " << x.second.first << " of " << toString(x.first.kind) << " " << x.first.id << ": " << g.text[x.first]);
  }
  for (auto& x : e.words)
    for (auto& word : x.second) PBT_CHECK(g.text[x.first].find(word) != std::string::npos, name << ": " << toString(x.first.kind) << " " << x.first.id << " does not name " << word << ": " << g.text[x.first]);
}

lv::Issues someIssues(pbt::Src& s) {
  lv::Issues r;
  size_t n = s.below(4);
  for (size_t i = 0; i < n; ++i) {
    auto sev = s.of({lv::Severity::Error, lv::Severity::Warning, lv::Severity::Info});
    std::string msg = "message " + std::to_string(s.below(100));
    if (s.flip()) r.emplace_back(sev, msg);
    else r.emplace_back(sev, s.of({Kind::Point, Kind::LineString, Kind::Polygon, Kind::Lanelet, Kind::Area, Kind::RegulatoryElement, Kind::Primitive}), Id(s.range(1, 99)), msg);
  }
  return r;
}
using Flat = std::tuple<std::string, int, int, Id, std::string>;
std::vector<Flat> flat(const std::string& name, const lv::Issues& is) {
  std::vector<Flat> r;
  for (auto& i : is) r.emplace_back(name, int(i.severity), int(i.primitive), i.id, i.message);
  return r;
}
std::vector<Flat> flat(const std::vector<lv::DetectedIssues>& v) {
  std::vector<Flat> r;
  for (auto& d : v) {
    auto f = flat(d.checkName, d.issues);
    r.insert(r.end(), f.begin(), f.end());
  }
  std::sort(r.begin(), r.end());
  return r;
}
std::string text(const std::vector<Flat>& v) {
  std::ostringstream o;
  for (auto& f : v) o << std::get<0>(f) << ":" << std::get<1>(f) << "/" << std::get<2>(f) << "/" << std::get<3>(f) << " " << std::get<4>(f) << "; ";
  return o.str();
}

void judgeReport(const std::vector<lv::DetectedIssues>& issues) {
  auto rep = lv::buildReport(issues);
  Strs err, warn;
  static const char* names[] = {"point", "linestring", "polygon", "lanelet", "area", "regulatory element", "primitive"};
  for (auto& d : issues) {
    auto e = d.errors(), w = d.warnings();
    size_t ne = 0, nw = 0;
    for (auto& i : d.issues) {
      std::string line = (i.severity == lv::Severity::Error ? "Error: " : "Warning: ") + (i.id != InvalId ? std::string(names[int(i.primitive)]) + " " + std::to_string(i.id) + " " : std::string()) + i.message + " [" + d.checkName + "]";
      if (i.severity == lv::Severity::Error) {
        PBT_CHECK(ne < e.size() && e[ne].message == i.message && e[ne].id == i.id, "errors() differ");
        ++ne, err.push_back(line);
      }
      if (i.severity == lv::Severity::Warning) {
        PBT_CHECK(nw < w.size() && w[nw].message == i.message && w[nw].id == i.id, "warnings() differ");
        ++nw, warn.push_back(line);
      }
    }
    PBT_EQ(ne, e.size(), "errors()");
    PBT_EQ(nw, w.size(), "warnings()");
  }
  VEQ(rep.errors, err, "errors of the report");
  VEQ(rep.warnings, warn, "warnings of the report");
}

void names(const std::string& filter) {
  Strs want;
  for (auto* l : {&MapChecks, &RuleChecks, &GraphChecks})
    for (auto& n : *l)
      if (selected(filter, n)) want.push_back(n);
  VEQ(chk::sorted(lv::availabeChecks(filter)), chk::sorted(want), "checks selected by '" << filter << "'");
}

lv::ValidationConfig config(pbt::Src& s) {
  lv::ValidationConfig cfg;
  cfg.checksFilter = filterString(s);
  cfg.location = s.of<std::string>({"de", "de", "xx"});
  cfg.participants.clear();
  for (auto* p : {"vehicle", "pedestrian", "bicycle"})
    if (s.chance(1, 3)) cfg.participants.push_back(p);
  return cfg;
}
//! checks that ran, in any order, are the selected ones and their issues are as expected
void judgeAll(Case& c, LaneletMap& map, const lv::ValidationConfig& cfg, const std::vector<lv::DetectedIssues>& got) {
  auto all = expectAll(map);
  std::map<std::string, lv::Issues> by;
  std::map<std::string, int> times;
  for (auto& d : got) {
    PBT_CHECK(!d.issues.empty(), "an empty entry for " << d.checkName);
    PBT_CHECK(d.checkName == "general" || selected(cfg.checksFilter, d.checkName), d.checkName << " ran with filter '" << cfg.checksFilter << "'");
    ++times[d.checkName];
    auto& to = by[d.checkName];
    to.insert(to.end(), d.issues.begin(), d.issues.end());
  }
  size_t found = 0, kinds = 0;
  for (auto& e : all) {
    if (e.first == "user.map_check") continue;
    if (!selected(cfg.checksFilter, e.first)) continue;
    PBT_CHECK(times[e.first] <= 1, e.first << " reported twice");
    judgeCheck(e.first, e.second, by[e.first]);
    if (!by[e.first].empty()) ++kinds, c.label(e.first, by[e.first].size());
    found += by[e.first].size();
    c.did();
  }
  c.nontrivial(kinds >= 3);
  auto mine = [&](const char* name, const lv::Issues& want, int& calls, int n) {
    bool sel = selected(cfg.checksFilter, name);
    PBT_EQ(calls, sel ? n : 0, "calls of " << name);
    lv::Issues w;
    for (int i = 0; sel && i < n; ++i) w.insert(w.end(), want.begin(), want.end());
    PBT_CHECK(flat(name, by[name]) == flat(name, w), name << ": " << text(flat(name, by[name])) << " instead of " << text(flat(name, w)));
  };
  std::vector<traffic_rules::TrafficRulesUPtr> rs;
  std::vector<routing::RoutingGraphUPtr> graphs;
  Strs who;
  lv::Issues invalid;
  for (auto& p : cfg.participants) {
    rs.push_back(traffic_rules::TrafficRulesFactory::create(cfg.location, p));
    who.push_back(p + "@" + cfg.location);
    graphs.push_back(routing::RoutingGraph::build(map, *rs.back()));
    for (auto& e : graphs.back()->checkValidity(false)) invalid.emplace_back(lv::Severity::Error, e);
  }
  mine("user.map_check", user.map, user.mapCalls, 1);
  mine("user.rule_check", user.rules, user.rulesCalls, 1);
  mine("user.graph_check", user.graph, user.graphCalls, int(cfg.participants.size()));
  if (selected(cfg.checksFilter, "user.rule_check")) VEQ(user.seenRules, who, "rules given to the rule check");
  if (selected(cfg.checksFilter, "user.graph_check")) VEQ(user.seenGraph, who, "rules given to the graph check");
  if (selected(cfg.checksFilter, "routing.graph_is_valid")) {
    auto g = flat("", by["routing.graph_is_valid"]), w = flat("", invalid);
    for (auto* v : {&g, &w}) {
      for (auto& f : *v) std::get<2>(f) = 0;
      std::sort(v->begin(), v->end());
    }
    PBT_CHECK(g == w, "routing.graph_is_valid: " << text(g) << " instead of " << text(w));
    if (!w.empty()) c.label("invalid routing graph");
  }
}
void resetUser(pbt::Src& s) {
  user = User{};
  user.map = someIssues(s);
  user.rules = someIssues(s);
  user.graph = someIssues(s);
}

void validators(Case& c) {
  registerUser();
  Scene sc(c);
  sc.make();
  auto cfg = config(c.src);
  resetUser(c.src);
  c.describe([&](auto& o) { o << sc.w.llts.size() << " lanelets, " << sc.w.ars.size() << " areas, " << sc.map->pointLayer.size() << " points, filter '" << cfg.checksFilter << "', " << cfg.participants.size() << " participants"; });
  names(cfg.checksFilter);
  auto before = digest(*sc.map);
  auto got = lv::validateMap(*sc.map, cfg);
  PBT_CHECK(before == digest(*sc.map), "validation changed the map");
  judgeAll(c, *sc.map, cfg, got);
  judgeReport(got);
  c.did();
}

void filters(Case& c) {
  registerUser();
  auto f = filterString(c.src);
  c.describe([&](auto& o) { o << "'" << f << "'"; });
  names(f);
  size_t n = 0;
  for (auto* l : {&MapChecks, &RuleChecks, &GraphChecks})
    for (auto& x : *l) n += selected(f, x);
  c.nontrivial(n > 0 && n < 11);
  // reports of arbitrary issues
  std::vector<lv::DetectedIssues> v;
  size_t k = c.src.below(4);
  for (size_t i = 0; i < k; ++i) v.emplace_back(c.src.of<std::string>({"a.b", "mapping.x", "general"}), someIssues(c.src));
  judgeReport(v);
  c.did(2);
}

struct Redirect {
  std::ostringstream out, err;
  std::streambuf *o, *e;
  Redirect() : o{std::cout.rdbuf(out.rdbuf())}, e{std::cerr.rdbuf(err.rdbuf())} {}
  ~Redirect() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};

void files(Case& c) {
  registerUser();
  auto& s = c.src;
  std::string file = std::string(std::getenv("PBT_TMP")) + "/map.osm";
  std::remove(file.c_str());
  auto cfg = config(s);
  cfg.origin.lat = s.of({49., -30.5, 0.});
  cfg.origin.lon = s.of({8.4, -70.25, 0.});
  resetUser(s);
  size_t kind = s.weighted({5, 1, 1});
  Scene sc(c);
  if (kind == 0) {
    sc.make();
    lanelet::ErrorMessages err;
    write(file, *sc.map, projection::UtmProjector(Origin(cfg.origin)), &err);
    if (s.chance(1, 4)) {  // a reference that does not exist
      std::ifstream in(file);
      std::string all((std::istreambuf_iterator<char>(in)), {});
      auto p = all.find("<nd ref=\"");
      if (p != std::string::npos) {
        all.replace(p, 9, "<nd ref=\"9");
        std::ofstream(file) << all;
      }
    }
  } else if (kind == 1) {
    std::ofstream(file) << s.of<std::string>({"", "no xml", "<osm", "<foo></foo>"});
  }
  c.describe([&](auto& o) { o << (kind == 0 ? "valid" : kind == 1 ? "broken" : "missing") << " file, filter '" << cfg.checksFilter << "'"; });
  names(cfg.checksFilter);
  // the same by hand
  std::vector<Flat> want;
  bool loads = true;
  try {
    lanelet::ErrorMessages errors;
    auto map = load(file, projection::UtmProjector(Origin(cfg.origin)), &errors);
    want = flat(lv::validateMap(*map, cfg));
    for (auto& e : errors) want.emplace_back("general", int(lv::Severity::Error), int(Kind::Point), InvalId, e);
    if (!errors.empty()) c.label("load errors");
  } catch (LaneletError& e) {
    loads = false;
  }
  std::sort(want.begin(), want.end());
  auto issues = lv::validateMap(file, cfg);
  auto got = flat(issues);
  if (!loads) {
    PBT_EQ(got.size(), 1u, "issues of a file that can not be loaded");
    PBT_EQ(std::get<0>(got[0]), std::string("general"), "check of a file that can not be loaded");
    PBT_EQ(std::get<1>(got[0]), int(lv::Severity::Error), "severity of a file that can not be loaded");
  } else {
    PBT_CHECK(got == want, "file: " << text(got) << " map: " << text(want));
  }
  c.did();

  // the command line tool
  Strs args{"validate"};
  auto opt = [&](const char* shortName, const char* longName, const std::string& v) {
    if (shortName && s.flip()) args.push_back(shortName), args.push_back(v);
    else if (s.flip()) args.push_back(std::string(longName) + "=" + v);
    else args.push_back(longName), args.push_back(v);
  };
  bool print = s.chance(1, 6), noFile = s.chance(1, 8);
  if (!noFile && s.flip()) args.push_back(file);
  bool fileLater = !noFile && args.size() == 1;
  if (!cfg.checksFilter.empty()) opt("-f", "--filter", cfg.checksFilter);
  if (cfg.location != "de" || s.flip()) opt("-l", "--location", cfg.location);
  for (auto& p : cfg.participants) opt("-p", "--participants", p);
  std::ostringstream la, lo;
  la << cfg.origin.lat, lo << cfg.origin.lon;
  // negative numbers need the form --lat=-1
  args.push_back("--lat=" + la.str());
  args.push_back("--lon=" + lo.str());
  if (print) args.push_back("--print");
  if (fileLater) args.push_back(file);
  std::vector<const char*> argv;
  for (auto& a : args) argv.push_back(a.c_str());
  lv::CommandLineConfig cl;
  int ret = 0;
  std::string out;
  {
    Redirect r;
    cl = lv::parseCommandLine(int(argv.size()), argv.data());
    ret = lv::runFromConfig(cl);
    out = r.out.str() + r.err.str();
  }
  auto& v = cl.validationConfig;
  PBT_EQ(cl.mapFile, noFile ? std::string() : file, "map file");
  PBT_EQ(cl.print, print, "--print");
  PBT_EQ(v.checksFilter, cfg.checksFilter, "--filter");
  PBT_EQ(v.location, cfg.location, "--location");
  if (cfg.participants.empty()) VEQ(v.participants, Strs{"vehicle"}, "default participants");
  else VEQ(v.participants, cfg.participants, "--participants");
  PBT_CHECK(v.origin.lat == cfg.origin.lat && v.origin.lon == cfg.origin.lon, "origin " << v.origin.lat << " " << v.origin.lon);
  if (print) {
    PBT_EQ(ret, 0, "exit code with --print");
    for (auto* l : {&MapChecks, &RuleChecks, &GraphChecks})
      for (auto& n : *l) PBT_EQ(out.find(n + "\n") != std::string::npos, selected(cfg.checksFilter, n), n << " in the output of --print with filter '" << cfg.checksFilter << "'");
  } else if (noFile) {
    PBT_EQ(ret, 1, "exit code without a file");
  } else {
    if (cfg.participants.empty()) {
      auto c2 = cfg;
      c2.participants = {"vehicle"};
      issues = lv::validateMap(file, c2);
    }
    PBT_EQ(ret, issues.empty() ? 0 : 1, "exit code of a run with " << issues.size() << " issues");
    auto rep = lv::buildReport(issues);
    for (auto& e : rep.errors) PBT_CHECK(out.find(e) != std::string::npos, "not printed: " << e);
    for (auto& e : rep.warnings) PBT_CHECK(out.find(e) != std::string::npos, "not printed: " << e);
    PBT_CHECK(out.find(std::to_string(rep.errors.size() + rep.warnings.size()) + " issues found") != std::string::npos, "number of issues: " << out);
  }
  c.nontrivial(kind == 0 && !print && !noFile && !issues.empty());
  c.did();
}

bool subtypeIgnored() {
  LineString3d l(1, {Point3d(2, 0, 0, 0), Point3d(3, 9, 0, 0)});
  l.attributes()["type"] = "line_thin";
  l.attributes()["subtype"] = "foo";
  auto m = lanelet::utils::createMap(LineStrings3d{l});
  lv::ValidationConfig cfg;
  cfg.checksFilter = "mapping.unknown_tag_value";
  return lv::validateMap(*m, cfg).empty();
}
}  // namespace

int main(int argc, char** argv) {
  rules::registerOther();
  pbt::Suite s;
  s.property = "C25";
  s.rule = "at least three different checks find issues; the filter selects some, but not all checks; a map with issues is validated from its file";
  s.assumptions = {"tags that only begin with the name of a known tag (e.g. names) are not judged",
                   "subtypes of line strings are not judged (known finding)",
                   "curvature at duplicated points is not judged; distances within 1e-9 of 5 cm and curvatures within 1e-6 of 0.5 are not judged",
                   "filters consist of characters, '.', sets and '*'"};
  s.props = {{"validators", "all validators, user defined validators and the filter on maps with injected defects", 8000, 300000, validators},
             {"filters", "selection of checks by filter strings; reports of generated issues", 60000, 2000000, filters},
             {"files", "validating files and the command line tool compared to validating the loaded map", 3000, 100000, files}};
  s.known = {{"subtype", "validation never checks the subtype of line strings: mapping.unknown_tag_value is silent for type=line_thin, subtype=foo", subtypeIgnored}};
  return pbt::runMain(s, argc, argv);
}
