// C18: speed limits follow tags, regulatory elements and country defaults.
#include "rules.h"
using namespace lanelet;
using namespace rules;

namespace {
struct Limit {
  double kmh{0};
  bool mandatory{true};
  bool open{false}, throws{false};
};
struct Text {
  std::string text;
  double kmh;
};
std::string number(double v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
Text velocity(pbt::Src& s) {
  double v = s.flip() ? double(s.range(0, 200)) : s.grid(0.5, 150, 0.5);
  std::string n = number(v), sp = s.flip() ? " " : "";
  switch (s.below(5)) {
    case 0: return {n + sp + s.of<std::string>({"km/h", "kmh"}), v};
    case 1: return {n + sp + s.of<std::string>({"m/s", "mps"}), v * 3.6};
    case 2: return {n + sp + "mph", v * 1.609344};
    default: return {n, v};
  }
}
const std::map<std::string, double>& signs() {
  static const std::map<std::string, double> m{{"de274", 30},     {"de274-5", 5},     {"de274-10", 10},   {"de274-15", 15},   {"de274-20", 20},  {"de274-30", 30},
                                               {"de274-40", 40},  {"de274-50", 50},   {"de274-60", 60},   {"de274-70", 70},   {"de274-80", 80},  {"de274-90", 90},
                                               {"de274-100", 100}, {"de274-110", 110}, {"de274-120", 120}, {"de274-130", 130}, {"de274_1", 30}, {"de274_1-20", 20}, {"de310", 50}};
  return m;
}
Limit byDefault(const Tags& t, const std::string& land, const std::string& who) {
  bool de = land == "de";
  if (who == "pedestrian") return de ? Limit{5} : Limit{16, false};
  if (who == "bicycle") return de ? Limit{20} : Limit{17};
  bool urban = get(t, "location", "urban") == "urban";
  std::string sub = get(t, "subtype", "road");
  if (sub == "road" || sub == "bus_lane" || (sub == "exit" && urban)) return de ? Limit{urban ? 50. : 100.} : urban ? Limit{11} : Limit{12, false};
  if (sub == "highway") return de ? Limit{130, false} : urban ? Limit{13} : Limit{14, false};
  if (sub == "play_street") return de ? Limit{7} : Limit{15};
  return {0, true, true};
}
void limits(Case& c) {
  auto& s = c.src;
  registerOther();
  Tags t;
  std::map<std::string, double> value;  // of the texts
  auto put = [&](const std::string& k) {
    Text x = velocity(s);
    t[k] = x.text;
    value[k] = x.kmh;
  };
  auto sub = subtype(s);
  if (!sub.empty()) t["subtype"] = sub;
  if (s.chance(3, 4)) t["location"] = s.of<std::string>({"urban", "nonurban"});
  size_t mode = s.below(4);
  if (mode == 1 || mode == 3) put("speed_limit");
  if (mode == 2 || mode == 3)
    for (auto& p : overrideSet(s)) put("speed_limit:" + p);
  bool tagged = !value.empty();
  if (tagged) {
    if (s.chance(1, 2)) t["speed_limit_mandatory"] = yesNo(s);
    if (s.chance(1, 3))
      for (auto& p : overrideSet(s)) t["speed_limit_mandatory:" + p] = yesNo(s);
  }
  if (s.chance(1, 4))
    for (auto& p : overrideSet(s)) t["participant:" + p] = yesNo(s);
  if (s.chance(1, 4)) t["one_way"] = yesNo(s);
  // regulatory elements: at most one speed limit between others
  RegulatoryElementPtrs regs;
  Optional<Limit> german, other;
  auto lineOf = [](Id id, const AttributeMap& a) { return LineString3d(id, {Point3d(id + 1, 0, 0), Point3d(id + 2, 1, 0)}, a); };
  auto sign = [&](Id id, const std::string& type) -> LineStringOrPolygon3d {
    AttributeMap a{{"subtype", Attribute(type)}};
    if (s.flip()) return lineOf(id, a);
    return Polygon3d(id, {Point3d(id + 1, 0, 0), Point3d(id + 2, 1, 0), Point3d(id + 3, 1, 1)}, a);
  };
  auto signType = [&](Limit& l) -> std::string {
    if (s.chance(1, 20)) {
      l.throws = true;
      return s.of<std::string>({"foo", "de275", "", "km/h"});
    }
    if (s.flip()) {
      auto it = std::next(signs().begin(), long(s.below(signs().size())));
      l.kmh = it->second;
      return it->first;
    }
    Text x = velocity(s);
    l.kmh = x.kmh;
    return x.text;
  };
  size_t n = s.chance(1, 2) ? 1 + s.below(3) : 0;
  for (size_t i = 0; i < n; ++i) {
    Id id = 1000 * Id(i + 1);
    AttributeMap ra;
    if (!other && s.chance(1, 3)) {
      double v = double(s.range(1, 100));
      ra["limit"] = Attribute(number(v));
      other = Limit{v, false};
    }
    switch (s.below(german ? 2 : 5)) {
      case 0: regs.push_back(TrafficSign::make(id, ra, {{sign(id + 10, "de274-70")}, "de274-70"})); break;
      case 1: regs.push_back(std::make_shared<GenericRegulatoryElement>(id, RuleParameterMap(), ra)); break;
      case 2: {
        Limit l;
        regs.push_back(SpeedLimit::make(id, ra, signType(l)));
        german = l;
        break;
      }
      default: {
        Limit l;
        std::string ty = signType(l);
        TrafficSignsWithType w{{sign(id + 10, ty)}, ty};
        if (s.flip()) w.trafficSigns.push_back(sign(id + 20, ty));
        TrafficSignsWithType cancel;
        if (s.flip()) cancel = {{sign(id + 30, "de282")}, "de282"};
        regs.push_back(SpeedLimit::make(id, ra, w, cancel));
        german = l;
      }
    }
  }
  Lanelet l(1, lineOf(10, {}), lineOf(20, {}));
  Area a(2, {lineOf(30, {})});
  putTags(l, t), putTags(a, t);
  for (auto& r : regs) l.addRegulatoryElement(r), a.addRegulatoryElement(r);
  std::ostringstream before, after;
  before << l << l.attributes().size() << a.attributes().size();
  c.describe([&](auto& o) { o << str(t) << (german ? german->throws ? " unknown sign" : " sign " + number(german->kmh) : "") << (other ? " rule" : ""); });
  for (std::string land : {"de", "xx"})
    for (auto& who : participants()) {
      auto r = make(land, who);
      Limit want;
      if (land == "de" && isA(who, "vehicle") && german) {
        want = *german;
      } else if (land == "xx" && other) {
        want = *other;
      } else if (tagged) {
        want.kmh = value.count("speed_limit") ? value["speed_limit"] : 0;
        for (auto& v : value)
          if (v.first != "speed_limit" && isA(who, v.first.substr(12))) want.kmh = v.second;
        want.mandatory = !t.count("speed_limit_mandatory") || truth(t["speed_limit_mandatory"]);
        auto m = specific(t, "speed_limit_mandatory", who);
        if (m) want.mandatory = truth(*m);
      } else {
        want = byDefault(t, land, who);
      }
      std::string ctx = land + " " + who + ": ";
      auto judge = [&](auto& prim, const char* what) {
        if (want.throws) {
          PBT_CHECK(chk::throws<LaneletError>([&] { r->speedLimit(prim); }), ctx << what << " with an unknown sign");
          return;
        }
        auto got = r->speedLimit(prim);
        double kmh = units::KmHQuantity(got.speedLimit).value();
        c.did();
        if (want.open) {
          PBT_CHECK(!std::isinf(kmh), ctx << what << " is infinite");
          return;
        }
        PBT_CHECK(std::abs(kmh - want.kmh) < 1e-6, ctx << what << ": " << kmh << " km/h instead of " << want.kmh);
        PBT_EQ(got.isMandatory, want.mandatory, ctx << what << " is mandatory");
      };
      ConstLanelet cl(l);
      ConstLanelet ci(l.invert());
      ConstArea ca(a);
      judge(cl, "lanelet");
      judge(ci, "inverted lanelet");
      judge(ca, "area");
    }
  after << l << l.attributes().size() << a.attributes().size();
  PBT_EQ(before.str(), after.str(), "querying changed the map");
  c.nontrivial(tagged || german || other);
  c.label(german ? "speed limit element" : tagged ? "tags" : "default");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C18";
  s.rule = "the limit is given by tags or a regulatory element";
  s.assumptions = {"an element has at most one speed limit regulatory element",
                   "subtypes without a limit for vehicles in the specification (e.g. walkway) are not judged",
                   "speed_limit_mandatory is only used together with speed_limit, as the specification demands"};
  s.props = {{"limits", "speedLimit of lanelets and areas, all participants, German and another country's rules", 9000, 400000, limits}};
  return pbt::runMain(s, argc, argv);
}
