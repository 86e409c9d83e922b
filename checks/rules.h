// Reference of the documented traffic rules on plain tag maps, and generators of tags.
#pragma once
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include <lanelet2_core/utility/Units.h>

#include "lattice.h"

namespace rules {
using namespace lanelet;
using Tags = std::map<std::string, std::string>;
enum Tri { No = 0, Yes = 1, Open = -1 };  // Open: the documentation does not decide

inline const std::vector<std::string>& participants() {
  static const std::vector<std::string> p{"vehicle",       "vehicle:car",        "vehicle:car:electric", "vehicle:car:combustion",
                                          "vehicle:bus",   "vehicle:truck",      "vehicle:motorcycle",   "vehicle:taxi",
                                          "vehicle:emergency", "pedestrian",     "bicycle"};
  return p;
}
//! who is what, or a specialization of it
inline bool isA(const std::string& who, const std::string& what) { return who == what || who.compare(0, what.size() + 1, what + ":") == 0; }
inline bool truth(const std::string& v) { return v == "yes" || v == "true" || v == "1"; }
//! the value of the tag prefix:X for the participant
inline const std::string* specific(const Tags& t, const std::string& prefix, const std::string& who) {
  for (auto& e : t) {
    if (e.first.compare(0, prefix.size() + 1, prefix + ":") == 0 && isA(who, e.first.substr(prefix.size() + 1))) return &e.second;
  }
  return nullptr;
}
inline bool hasSpecific(const Tags& t, const std::string& prefix) {
  return std::any_of(t.begin(), t.end(), [&](auto& e) { return e.first.compare(0, prefix.size() + 1, prefix + ":") == 0; });
}
inline std::string get(const Tags& t, const std::string& k, const std::string& d = "") {
  auto it = t.find(k);
  return it == t.end() ? d : it->second;
}
inline Tri allowed(const Tags& t, const std::string& who) {
  if (hasSpecific(t, "participant")) {
    auto v = specific(t, "participant", who);
    return v && truth(*v) ? Yes : No;
  }
  static const std::map<std::string, std::vector<std::string>> table{
      {"", {"vehicle"}},
      {"road", {"vehicle", "bicycle"}},
      {"highway", {"vehicle"}},
      {"play_street", {"vehicle", "bicycle", "pedestrian"}},
      {"emergency_lane", {"vehicle:emergency"}},
      {"bus_lane", {"vehicle:bus", "vehicle:emergency", "vehicle:taxi"}},
      {"bicycle_lane", {"bicycle"}},
      {"exit", {"vehicle", "bicycle", "pedestrian"}},
      {"walkway", {"pedestrian"}},
      {"shared_walkway", {"bicycle", "pedestrian"}},
      {"crosswalk", {"pedestrian"}},
      {"stairs", {"pedestrian"}},
  };
  auto it = table.find(get(t, "subtype"));
  if (it == table.end()) return No;
  for (auto& w : it->second)
    if (isA(who, w)) return Yes;
  return No;
}
inline Tri bidirectional(const Tags& t, const std::string& who) {
  if (t.count("one_way")) return truth(t.at("one_way")) ? No : Yes;
  if (hasSpecific(t, "one_way")) {
    auto v = specific(t, "one_way", who);
    if (v) return truth(*v) ? No : Yes;
    return who == "pedestrian" ? Open : No;  // "bi-directional, unless overridden" or "one-directional for all participants, except"
  }
  return who == "pedestrian" ? Yes : No;
}
inline Tri both(Tri a, Tri b) { return a == No || b == No ? No : a == Open || b == Open ? Open : Yes; }
inline Tri passable(const Tags& t, bool inverted, const std::string& who) { return inverted ? both(allowed(t, who), bidirectional(t, who)) : allowed(t, who); }

//! may a boundary be crossed to its left (right) side? tags are relative to the stored direction, inv: it is used the other way round
inline Tri crossable(const Tags& t, bool inv, bool toLeft, const std::string& who, bool virtualPass) {
  if (inv) toLeft = !toLeft;
  if (t.count("lane_change")) return truth(t.at("lane_change")) ? Yes : No;
  bool l = t.count("lane_change:left"), r = t.count("lane_change:right");
  if (l && r) return truth(t.at(toLeft ? "lane_change:left" : "lane_change:right")) ? Yes : No;
  if (l || r) return Open;
  std::string type = get(t, "type"), sub = get(t, "subtype");
  if (type == "virtual" && virtualPass) return Yes;
  bool line = type == "line_thin" || type == "line_thick";
  if ((isA(who, "vehicle") || who == "bicycle") && line) {
    if (sub == "dashed") return Yes;
    if (sub == "dashed_solid" && !toLeft) return Yes;
    if (sub == "solid_dashed" && toLeft) return Yes;
  }
  if ((who == "pedestrian" || who == "bicycle") && type == "curbstone" && sub == "low") return Yes;
  return No;
}

//! participants on which overrides may be defined together
inline std::vector<std::string> overrideSet(pbt::Src& s) {
  std::vector<std::string> r;
  if (s.flip()) {
    if (s.flip()) {
      r.push_back("vehicle");
    } else {
      for (auto* v : {"vehicle:bus", "vehicle:truck", "vehicle:motorcycle", "vehicle:taxi", "vehicle:emergency"})
        if (s.chance(1, 3)) r.push_back(v);
      if (s.flip()) {
        r.push_back("vehicle:car");
      } else {
        if (s.chance(1, 2)) r.push_back("vehicle:car:electric");
        if (s.chance(1, 2)) r.push_back("vehicle:car:combustion");
      }
    }
  }
  if (s.chance(1, 2)) r.push_back("pedestrian");
  if (s.chance(1, 2)) r.push_back("bicycle");
  return r;
}
inline std::string yesNo(pbt::Src& s) { return s.of<std::string>({"yes", "no", "no", "yes", "true", "false"}); }
inline std::string subtype(pbt::Src& s) {
  return s.of<std::string>({"road", "", "road", "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit", "walkway", "shared_walkway", "crosswalk", "stairs", "parking", "foo"});
}
inline Tags passTags(pbt::Src& s, bool lanelet) {
  Tags t;
  auto sub = subtype(s);
  if (!sub.empty() || s.flip()) t["subtype"] = sub;
  if (s.flip()) t["location"] = s.of<std::string>({"urban", "nonurban"});
  if (s.chance(2, 5))
    for (auto& p : overrideSet(s)) t["participant:" + p] = yesNo(s);
  if (lanelet) switch (s.below(4)) {
      case 0: t["one_way"] = yesNo(s); break;
      case 1:
        for (auto& p : overrideSet(s)) t["one_way:" + p] = yesNo(s);
        break;
      default: break;
    }
  if (s.chance(1, 6)) t[s.of<std::string>({"road_name", "region", "turn_direction", "a", "zzz", "speed_limit"})] = "50";
  return t;
}
inline Tags markTags(pbt::Src& s, bool permissive = false) {
  Tags t;
  if (permissive && s.flip()) return s.flip() ? Tags{{"lane_change", "yes"}} : Tags{{"type", "line_thin"}, {"subtype", s.of<std::string>({"dashed", "dashed_solid", "solid_dashed"})}};
  if (s.chance(9, 10)) {
    std::string type = s.of<std::string>({"line_thin", "line_thick", "curbstone", "virtual", "road_border", "line_thin", "guard_rail", "wall", "zebra_marking", "pedestrian_marking", "foo"});
    t["type"] = type;
    if (s.chance(9, 10)) {
      if (type == "curbstone") t["subtype"] = s.of<std::string>({"high", "low"});
      else t["subtype"] = s.of<std::string>({"dashed", "solid", "solid_solid", "dashed_solid", "solid_dashed", "low"});
    }
  }
  switch (s.below(8)) {
    case 0: t["lane_change"] = yesNo(s); break;
    case 1: t["lane_change:left"] = yesNo(s), t["lane_change:right"] = yesNo(s); break;
    default: break;
  }
  return t;
}
template <typename Prim>
void putTags(Prim& p, const Tags& t) {
  for (auto& e : t) p.setAttribute(e.first, Attribute(e.second));
}
inline std::string str(const Tags& t) {
  std::string r = "{";
  for (auto& e : t) r += (r.size() > 1 ? ", " : "") + e.first + "=" + e.second;
  return r + "}";
}

//! rules of an imaginary country: regulatory elements decide, areas are open to vehicles
class OtherRules : public traffic_rules::GenericTrafficRules {
 public:
  using GenericTrafficRules::GenericTrafficRules;

 protected:
  using GenericTrafficRules::canPass;
  Optional<bool> canPass(const RegulatoryElementConstPtrs& regElems) const override {
    for (auto& r : regElems)
      if (r->hasAttribute("pass")) return r->attributeOr("pass", false);
    return {};
  }
  const traffic_rules::CountrySpeedLimits& countrySpeedLimits() const override {
    static const auto kmh = [](double v, bool m = true) { return traffic_rules::SpeedLimitInformation{Velocity(v * units::KmH()), m}; };
    static const traffic_rules::CountrySpeedLimits l{kmh(11), kmh(12, false), kmh(13), kmh(14, false), kmh(15), kmh(16, false), kmh(17)};
    return l;
  }
  Optional<traffic_rules::SpeedLimitInformation> speedLimit(const RegulatoryElementConstPtrs& regElems) const override {
    for (auto& r : regElems)
      if (r->hasAttribute("limit")) return traffic_rules::SpeedLimitInformation{Velocity(r->attributeOr("limit", 0.) * units::KmH()), false};
    return {};
  }
};
inline void registerOther() {
  static traffic_rules::RegisterTrafficRules<OtherRules> v("xx", "vehicle"), p("xx", "pedestrian"), b("xx", "bicycle"), t("xx", "vehicle:truck");
}
inline traffic_rules::TrafficRulesUPtr make(const std::string& country, const std::string& who) {
  return traffic_rules::TrafficRulesFactory::create(country, who);
}
}  // namespace rules
