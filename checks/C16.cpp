// C16: passability and direction follow the documented participant and one-way rules.
#include "rules.h"
using namespace lanelet;
using namespace rules;
using lattice::LsH;
using lattice::V;
using lattice::World;

namespace {
#define TRI(got, want, msg) do { rules::Tri tri_ = (want); if (tri_ != rules::Open) { PBT_EQ(bool(got), tri_ == rules::Yes, msg); c.did(); } } while (0)

std::string country(pbt::Src& s) { return s.of<std::string>({"de", "xx"}); }
RegulatoryElementPtr regelem(pbt::Src& s, Id id, Optional<bool>& pass, bool& dynamic) {
  AttributeMap a;
  if (s.chance(1, 2)) a["dynamic"] = Attribute(yesNo(s));
  auto d = a.find("dynamic");
  if (d != a.end()) dynamic = dynamic || truth(d->second.value());
  if (s.chance(1, 2)) {
    bool p = s.flip();
    a["pass"] = Attribute(p ? "yes" : "no");
    if (!pass) pass = p;
  }
  return std::make_shared<GenericRegulatoryElement>(id, RuleParameterMap(), a);
}

void tags(Case& c) {
  auto& s = c.src;
  registerOther();
  Tags t = passTags(s, true), ta = passTags(s, false);
  auto ls = [&](Id id, double y, bool rev) {
    LineString3d l(id, {Point3d(id * 10 + 1, rev ? 9 : 0, y), Point3d(id * 10 + 2, rev ? 0 : 9, y)});
    putTags(l, markTags(s));
    return l;
  };
  Lanelet l(100, ls(1, 3, false), ls(2, 0, false));
  Area a(101, {ls(3, 5, false), LineString3d(4, {Point3d(32, 9, 5), Point3d(33, 9, 1), Point3d(31, 0, 5)})});
  putTags(l, t);
  putTags(a, ta);
  Optional<bool> passL, passA;
  bool dynL = false, dynA = false;
  if (s.chance(1, 2)) {
    for (size_t i = 0, n = 1 + s.below(2); i < n; ++i) l.addRegulatoryElement(regelem(s, 200 + Id(i), passL, dynL));
  }
  if (s.chance(1, 3)) a.addRegulatoryElement(regelem(s, 210, passA, dynA));
  c.describe([&](auto& o) { o << "lanelet " << str(t) << " area " << str(ta) << (passL ? " rule" : ""); });
  for (std::string land : {"de", "xx"}) {
    for (auto& who : participants()) {
      auto r = make(land, who);
      PBT_CHECK(r->participant() == who && r->location() == land, "participant and location");
      std::string ctx = land + " " + who + ": ";
      Tri al = allowed(t, who), bi = bidirectional(t, who);
      if (land == "xx" && passL) al = *passL ? Yes : No;
      TRI(r->canPass(ConstLanelet(l)), al, ctx << "canPass(lanelet)");
      TRI(r->canPass(ConstLanelet(l.invert())), both(al, bi), ctx << "canPass(inverted lanelet)");
      TRI(!r->isOneWay(l), bi, ctx << "not isOneWay");
      PBT_EQ(r->isOneWay(l), r->isOneWay(l.invert()), ctx << "isOneWay of the inverted lanelet");
      Tri ar = allowed(ta, who);
      if (land == "xx" && passA) ar = *passA ? Yes : No;
      if (land == "de" && isA(who, "vehicle")) ar = No;  // documented: areas are not for vehicles
      TRI(r->canPass(ConstArea(a)), ar, ctx << "canPass(area)");
      PBT_EQ(r->hasDynamicRules(l), dynL, ctx << "hasDynamicRules");
      PBT_EQ(r->hasDynamicRules(l.invert()), dynL, ctx << "hasDynamicRules(inverted)");
    }
  }
  bool special = hasSpecific(t, "participant") || hasSpecific(t, "one_way") || t.count("one_way");
  c.nontrivial(special);
  if (hasSpecific(t, "participant")) c.label("participant overrides");
  if (hasSpecific(t, "one_way")) c.label("one_way overrides");
}

void pairs(Case& c) {
  auto& s = c.src;
  registerOther();
  World w{c};
  w.fill();
  if (w.llts.empty()) throw pbt::Discard{};
  std::string who = s.pick(participants()), land = country(s);
  std::vector<Tags> mark, tl, ta;
  bool simple = s.chance(3, 4), perm = s.chance(2, 3);  // most primitives are passable
  for (auto& l : w.ls) {
    mark.push_back(markTags(s, perm));
    putTags(l, mark.back());
  }
  auto ptags = [&](bool ll) {
    if (simple && s.chance(3, 4)) {
      Tags t{{"participant:" + who, "yes"}};
      if (ll) t["one_way"] = yesNo(s);
      return t;
    }
    return passTags(s, ll);
  };
  for (auto& l : w.llts) tl.push_back(ptags(true)), putTags(l, tl.back());
  for (auto& a : w.ars) ta.push_back(ptags(false)), putTags(a, ta.back());
  auto r = make(land, who);
  bool noAreas = land == "de" && isA(who, "vehicle");
  auto passL = [&](const V& v) { return passable(tl[size_t(v.m)], v.inv, who); };
  auto passA = [&](size_t i) { return noAreas ? No : allowed(ta[i], who); };
  auto first = [&](LsH h) { return w.list(h).front(); };
  auto last = [&](LsH h) { return w.list(h).back(); };
  auto cross = [&](LsH h, bool toLeft) { return crossable(mark[size_t(h.ls)], h.inv, toLeft, who, true); };
  // several common lines: only judged if they agree
  auto agree = [](const std::vector<Tri>& v) {
    if (v.empty()) return No;
    for (auto x : v)
      if (x != v[0]) return Open;
    return v[0];
  };
  size_t yes = 0, joint = 0;
  for (int k = 0; k < 20; ++k) {
    V a = lattice::pickL(w), b = lattice::pickL(w);
    bool fo = last(a.left) == first(b.left) && last(a.right) == first(b.right);
    Tri want = fo ? both(passL(a), passL(b)) : No;
    std::string ctx = land + " " + who + ": canPass(lanelet " + std::to_string(a.l.id()) + (a.inv ? " inverted" : "");
    TRI(r->canPass(ConstLanelet(a.l), ConstLanelet(b.l)), want, ctx << ", lanelet " << b.l.id() << (b.inv ? " inverted)" : ")"));
    yes += want == Yes, joint += fo;
    if (w.ars.empty()) continue;
    size_t i = s.below(w.ars.size()), j = s.below(w.ars.size());
    auto& am = w.arM[i];
    std::vector<Tri> to, from;
    for (auto& h : am.outer) {
      if (h == a.left.flip()) to.push_back(cross(a.left, true)), from.push_back(cross(a.left, false));
      if (h == a.right) to.push_back(cross(a.right, false)), from.push_back(cross(a.right, true));
      if (first(h) == last(a.right) && last(h) == last(a.left)) to.push_back(cross(h, false));   // ahead
      if (first(h) == first(a.left) && last(h) == first(a.right)) from.push_back(cross(h, true));  // behind
    }
    Tri pa = both(passL(a), passA(i));
    Tri wantTo = both(pa, agree(to)), wantFrom = both(pa, agree(from));
    ConstArea ar(w.ars[i]), ar2(w.ars[j]);
    TRI(r->canPass(ConstLanelet(a.l), ar), wantTo, ctx << ", area " << ar.id() << ")");
    TRI(r->canPass(ar, ConstLanelet(a.l)), wantFrom, land << " " << who << ": canPass(area " << ar.id() << ", lanelet " << a.l.id() << (a.inv ? " inverted)" : ")"));
    std::vector<Tri> com;
    for (auto& h : am.outer)
      for (auto& g : w.arM[j].outer)
        if (g == h.flip()) com.push_back(cross(h, true));
    Tri wantA = both(both(passA(i), passA(j)), agree(com));
    TRI(r->canPass(ar, ar2), wantA, land << " " << who << ": canPass(area " << ar.id() << ", area " << ar2.id() << ")");
    yes += (wantTo == Yes) + (wantFrom == Yes) + (wantA == Yes);
    joint += !to.empty() + !from.empty() + !com.empty();
    if (wantTo == Yes) c.label("lanelet to area");
    if (wantFrom == Yes) c.label("area to lanelet");
    if (wantA == Yes) c.label("area to area");
  }
  c.describe([&](auto& o) {
    o << land << " " << who << "\n";
    for (size_t i = 0; i < w.llts.size(); ++i) o << w.llts[i].id() << " " << str(tl[i]) << " left " << w.lltM[i].left.ls << (w.lltM[i].left.inv ? "i" : "") << " right " << w.lltM[i].right.ls << (w.lltM[i].right.inv ? "i" : "") << "\n";
    for (size_t i = 0; i < w.ars.size(); ++i) {
      o << w.ars[i].id() << " " << str(ta[i]) << " outer";
      for (auto& h : w.arM[i].outer) o << " " << h.ls << (h.inv ? "i" : "");
      o << "\n";
    }
    for (size_t i = 0; i < mark.size(); ++i) o << "line " << i << " " << str(mark[i]) << "\n";
  });
  c.label("joint", joint);
  c.nontrivial(yes > 0 && joint > 0);
}

class Probe : public OtherRules {
  using OtherRules::OtherRules;
};
void factory(Case& c) {
  auto& s = c.src;
  registerOther();
  // registrations of this case: locations that are not used elsewhere
  std::map<std::pair<std::string, std::string>, bool> reg;
  size_t n = s.below(5);
  std::vector<std::string> lands{"p1", "p2", "p3"};
  auto available = [] {
    auto v = traffic_rules::TrafficRulesFactory::availableTrafficRules();
    return std::set<std::pair<std::string, std::string>>(v.begin(), v.end());
  };
  auto before = available();
  static std::set<std::pair<std::string, std::string>> all;  // registrations last as long as the process
  for (size_t i = 0; i < n; ++i) {
    auto k = std::make_pair(s.pick(lands) + std::to_string(s.below(1000)), s.pick(participants()));
    traffic_rules::RegisterTrafficRules<Probe> x(k.first, k.second);
    all.insert(k);
    reg[k] = true;
  }
  auto after = available();
  for (auto& k : all) PBT_CHECK(after.count(k), "registered rules are not available");
  for (auto& k : before) PBT_CHECK(after.count(k), "rules disappeared");
  for (auto* p : {"vehicle", "pedestrian", "bicycle"}) PBT_CHECK(after.count({"de", p}), "German rules for " << p);
  PBT_EQ(std::string(Locations::Germany), std::string("de"), "Germany");
  for (int k = 0; k < 12; ++k) {
    std::string land = !reg.empty() && s.flip() ? std::next(reg.begin(), long(s.below(reg.size())))->first.first : s.of<std::string>({"de", "xx", "", "fr", "DE"});
    std::string who = s.chance(4, 5) ? s.pick(participants()) : s.of<std::string>({"", "train", "vehicle:foo", "pedestrian:child", "car", "bicycle:x"});
    bool ok = after.count({land, who}) || (who.compare(0, 7, "vehicle") == 0 && after.count({land, "vehicle"}));
    traffic_rules::TrafficRules::Configuration cfg{{"a", Attribute("b")}, {"location", Attribute("zz")}};
    if (s.flip()) cfg.clear();
    bool threw = false;
    try {
      auto r = traffic_rules::TrafficRulesFactory::create(land, who, cfg);
      PBT_CHECK(!!r, "no rules");
      PBT_EQ(r->participant(), who, "participant");
      PBT_EQ(r->location(), land, "location");
      PBT_EQ(r->configuration().count("a"), cfg.count("a"), "configuration");
      PBT_EQ(!!dynamic_cast<Probe*>(r.get()), all.count({land, who}) || (!after.count({land, who}) && all.count({land, "vehicle"})), "the registered class");
    } catch (InvalidInputError&) {
      threw = true;
    }
    PBT_EQ(threw, !ok, "create(" << land << ", " << who << ") throws");
  }
  c.nontrivial(n > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C16";
  s.rule = "tags: participant or direction is overridden; pairs: something touches and may be passed; factory: rules are registered";
  s.assumptions = {"participant and one_way overrides are defined on one level of the hierarchy only, as the tagging specification demands",
                   "pedestrians with one_way overrides for others only are not judged: the specification can be read either way",
                   "two primitives that touch in several places with different markings are not judged"};
  s.props = {
      {"tags", "canPass, isOneWay, hasDynamicRules of all participants", 40000, 2000000, tags},
      {"pairs", "canPass between lanelets and areas", 30000, 1500000, pairs},
      {"factory", "creation of rules", 4000, 100000, factory},
  };
  return pbt::runMain(s, argc, argv);
}
