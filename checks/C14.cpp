// C14: writing an incomplete map writes all that is there and reports the rest.
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/UTM.h>

#include <fstream>
#include <pugixml.hpp>

#include "iomap.h"
using namespace lanelet;
using namespace iomap;

namespace {
std::string tmp(const char* n) {
  const char* d = getenv("PBT_TMP");
  return std::string(d ? d : "/tmp") + "/" + n;
}
std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
//! a projector that can not convert some points
class Holes : public Projector {
 public:
  explicit Holes(std::set<std::pair<double, double>> b) : Projector(Origin({49, 8.4, 0})), bad(std::move(b)), p(Origin({49, 8.4, 0})) {}
  BasicPoint3d forward(const GPSPoint& g) const override { return p.forward(g); }
  GPSPoint reverse(const BasicPoint3d& x) const override {
    if (bad.count({x.x(), x.y()})) throw ReverseProjectionError("no such place");
    return p.reverse(x);
  }
  std::set<std::pair<double, double>> bad;
  projection::UtmProjector p;
};

struct Member {
  std::string type;
  Id ref;
  bool operator==(const Member& o) const { return type == o.type && ref == o.ref; }
};
struct Element {
  std::vector<Id> nds;
  std::map<std::string, std::vector<Member>> members;
  std::map<std::string, std::string> tags;
};
struct Doc {
  std::map<Id, Element> node, way, relation;
};
std::string show(const Element& e) {
  std::ostringstream o;
  for (auto n : e.nds) o << n << " ";
  for (auto& r : e.members) {
    o << quote(r.first) << ": ";
    for (auto& m : r.second) o << m.type << m.ref << " ";
    o << "; ";
  }
  o << "{";
  for (auto& t : e.tags) o << quote(t.first) << "=" << quote(t.second) << " ";
  o << "}";
  return o.str();
}
Doc parse(const std::string& f) {
  pugi::xml_document d;
  PBT_CHECK(bool(d.load_file(f.c_str())), "the written file is not XML");
  Doc r;
  for (auto e : d.child("osm").children()) {
    std::string n = e.name();
    auto& m = n == "node" ? r.node : n == "way" ? r.way : r.relation;
    Id id = e.attribute("id").as_llong();
    PBT_CHECK(!m.count(id), n << " " << id << " is written twice");
    Element& x = m[id];
    for (auto k : e.children()) {
      std::string kn = k.name();
      if (kn == "tag" && std::string(k.attribute("k").value()) == "ele" && n == "node") continue;
      if (kn == "tag") x.tags[k.attribute("k").value()] = k.attribute("v").value();
      if (kn == "nd") x.nds.push_back(k.attribute("ref").as_llong());
      if (kn == "member") x.members[k.attribute("role").value()].push_back({k.attribute("type").value(), k.attribute("ref").as_llong()});
    }
  }
  return r;
}
template <typename A>
std::map<std::string, std::string> tags(const A& a, const char* k = nullptr, const char* v = nullptr) {
  std::map<std::string, std::string> r;
  for (auto& e : a) r[e.first] = e.second.value();
  if (k) r.emplace(k, v);
  return r;
}
void compare(const std::map<Id, Element>& got, const std::map<Id, Element>& want, const char* kind) {
  for (auto& e : want) {
    auto it = got.find(e.first);
    PBT_CHECK(it != got.end(), kind << " " << e.first << " is not written");
    PBT_CHECK(it->second.nds == e.second.nds && it->second.members == e.second.members && it->second.tags == e.second.tags,
              kind << " " << e.first << " is written as\n  " << show(it->second) << "\n  instead of\n  " << show(e.second));
  }
  for (auto& e : got) PBT_CHECK(want.count(e.first), kind << " " << e.first << " should not be in the file: " << show(e.second));
}

void incomplete(Case& c) {
  auto& s = c.src;
  Opts o;
  o.richness = 3;
  o.smallIds = true;
  Gen g(c, o);
  g.run();
  auto full = g.map();
  // drop elements of the map; some cease to exist
  unsigned rate = unsigned(s.of({20, 8, 4, 2}));
  auto keep = [&](unsigned r) { return !s.chance(1, r); };
  LaneletLayer::Map llm;
  AreaLayer::Map am;
  RegulatoryElementLayer::Map rm;
  PolygonLayer::Map gm;
  LineStringLayer::Map lm;
  PointLayer::Map pm;
  size_t dropped = 0;
  auto fill = [&](auto& layer, auto& m, unsigned r) {
    std::map<Id, std::decay_t<decltype(*layer.begin())>> sorted;
    for (auto& e : layer) sorted.emplace(utils::getId(e), e);
    for (auto& e : sorted) {
      if (r && !keep(r)) ++dropped;
      else m.emplace(e.first, e.second);
    }
  };
  int focus = int(s.below(4));  // 0: everything may be missing, otherwise only some kinds
  fill(full->laneletLayer, llm, focus == 0 || focus == 1 ? rate : 0);
  fill(full->areaLayer, am, focus == 0 || focus == 1 ? rate : 0);
  fill(full->regulatoryElementLayer, rm, focus == 0 || focus == 2 ? rate : 0);
  fill(full->polygonLayer, gm, focus == 0 || focus == 3 ? rate : 0);
  fill(full->lineStringLayer, lm, focus == 0 || focus == 3 ? rate : 0);
  fill(full->pointLayer, pm, focus == 0 || focus == 3 ? rate * 8 : 0);
  full.reset();
  size_t expired = 0;
  if (s.chance(1, 3)) {
    for (auto it = g.lls.begin(); it != g.lls.end();) {
      if (!llm.count(it->id()) && s.flip()) it = g.lls.erase(it), ++expired;
      else ++it;
    }
    for (auto it = g.areas.begin(); it != g.areas.end();) {
      if (!am.count(it->id()) && s.flip()) it = g.areas.erase(it), ++expired;
      else ++it;
    }
  }
  std::set<std::pair<double, double>> bad;
  if (s.chance(1, 5))
    for (auto& p : pm)
      if (s.chance(1, 12)) bad.insert({p.second.x(), p.second.y()});
  Holes proj(bad);
  LaneletMap m(llm, am, rm, gm, lm, pm);
  c.describe([&](std::ostream& out) {
    auto sn = snap(m);
    for (auto& e : sn.what) out << e.first << ": " << e.second << "\n";
    for (auto& b : bad) out << "not projectable: " << b.first << "," << b.second << "\n";
  });
  // what has to be written
  Doc want;
  std::set<Id> complain;
  for (auto& p : m.pointLayer) {
    if (bad.count({p.x(), p.y()})) {
      complain.insert(p.id());
      continue;
    }
    want.node[p.id()].tags = tags(p.attributes());
  }
  auto way = [&](const auto& l, bool area) {
    Element e;
    for (auto& p : l) {
      if (!want.node.count(p.id())) {
        complain.insert(l.id());
        return;
      }
      e.nds.push_back(p.id());
    }
    e.tags = area ? tags(l.attributes(), "area", "true") : tags(l.attributes());
    want.way[l.id()] = e;
  };
  for (auto& l : m.lineStringLayer) way(l.inverted() ? l.invert() : l, false);
  for (auto& l : m.polygonLayer) way(l, true);
  auto member = [&](Element& e, Id self, const std::string& role, const std::string& type, Id ref, bool there) {
    if (there) e.members[role].push_back({type, ref});
    else complain.insert(self);
  };
  auto rules = [&](Element& e, const auto& p) {
    for (auto& r : p.regulatoryElements()) member(e, p.id(), "regulatory_element", "relation", r->id(), m.regulatoryElementLayer.exists(r->id()));
  };
  for (auto& l : m.laneletLayer) {
    Element e;
    auto w = [&](const char* role, Id id) { member(e, l.id(), role, "way", id, want.way.count(id)); };
    w("left", l.leftBound().id());
    w("right", l.rightBound().id());
    if (l.hasCustomCenterline()) w("centerline", l.centerline().id());
    rules(e, l);
    e.tags = tags(l.attributes(), "type", "lanelet");
    want.relation[l.id()] = e;
  }
  for (auto& a : m.areaLayer) {
    Element e;
    for (auto& l : a.outerBound()) member(e, a.id(), "outer", "way", l.id(), want.way.count(l.id()));
    for (auto& h : a.innerBounds())
      for (auto& l : h) member(e, a.id(), "inner", "way", l.id(), want.way.count(l.id()));
    rules(e, a);
    e.tags = tags(a.attributes(), "type", "multipolygon");
    want.relation[a.id()] = e;
  }
  size_t partial = 0;
  for (auto& r : m.regulatoryElementLayer) {
    struct V : RuleParameterVisitor {
      std::vector<std::pair<std::string, Member>> out;
      int exp{0};
      void operator()(const ConstPoint3d& x) override { out.push_back({role, {"node", x.id()}}); }
      void operator()(const ConstLineString3d& x) override { out.push_back({role, {"way", x.id()}}); }
      void operator()(const ConstPolygon3d& x) override { out.push_back({role, {"way", x.id()}}); }
      void operator()(const ConstWeakLanelet& x) override {
        if (x.expired()) ++exp;
        else out.push_back({role, {"lanelet", x.lock().id()}});
      }
      void operator()(const ConstWeakArea& x) override {
        if (x.expired()) ++exp;
        else out.push_back({role, {"area", x.lock().id()}});
      }
    } v;
    RegulatoryElementConstPtr(r)->applyVisitor(v);
    Element e;
    if (v.exp) complain.insert(r->id());
    size_t have = 0, miss = 0;
    for (auto& x : v.out) {
      bool there = x.second.type == "node" ? want.node.count(x.second.ref) : x.second.type == "way" ? want.way.count(x.second.ref) : x.second.type == "lanelet" ? m.laneletLayer.exists(x.second.ref) : m.areaLayer.exists(x.second.ref);
      bool rel = x.second.type == "lanelet" || x.second.type == "area";
      if (rel) ++(there ? have : miss);
      member(e, r->id(), x.first, rel ? "relation" : x.second.type, x.second.ref, there);
    }
    partial += have && miss;
    e.tags = tags(r->attributes(), "type", "regulatory_element");
    want.relation[r->id()] = e;
  }
  c.nontrivial(!complain.empty());
  if (complain.empty()) c.label("complete");
  if (partial) c.label("rule with missing and present lanelets or areas");
  if (expired) c.label("expired");
  if (!bad.empty()) c.label("not projectable");
  // write
  std::string f = tmp("a.osm"), f2 = tmp("b.osm");
  ErrorMessages err;
  write(f, m, proj, &err);
  compare(parse(f).node, want.node, "node");
  compare(parse(f).way, want.way, "way");
  compare(parse(f).relation, want.relation, "relation");
  std::string all;
  for (auto& e : err) all += " " + e + " ";
  PBT_EQ(err.empty(), complain.empty(), "errors reported: " << all);
  auto mentions = [&](Id id) {
    std::string t = std::to_string(id);
    for (size_t p = all.find(t); p != std::string::npos; p = all.find(t, p + 1)) {
      bool l = isdigit(all[p - 1]), r = isdigit(all[p + t.size()]);
      if (!l && !r) return true;
    }
    return false;
  };
  for (auto id : complain) PBT_CHECK(mentions(id), "no error mentions " << id << ": " << all);
  bool threw = chk::throws<WriteError>([&] { write(f2, m, proj); });
  PBT_EQ(threw, !complain.empty(), "write throws WriteError");
  PBT_CHECK(slurp(f) == slurp(f2), "write and write with error messages wrote different files");
  // what does not depend on missing things can be loaded
  ErrorMessages lerr;
  auto r = load(f, proj, &lerr);
  PBT_EQ(r->pointLayer.size(), want.node.size(), "points loaded");
  PBT_EQ(r->lineStringLayer.size() + r->polygonLayer.size(), [&] { size_t n = 0; for (auto& w : want.way) n += !w.second.nds.empty(); return n; }(), "ways loaded");
  auto sg = snap(*r), sw = snap(m);
  for (auto& e : sg.what)
    if (e.first[0] == 'p' || (e.first[0] == 'l' && e.first[1] == 'i')) PBT_EQ(e.second, sw.what.at(e.first), e.first);
  for (auto& l : m.laneletLayer) {
    if (!want.way.count(l.leftBound().id()) || !want.way.count(l.rightBound().id())) continue;
    if (l.hasCustomCenterline() && !want.way.count(l.centerline().id())) continue;
    bool ok = true;
    for (auto& x : l.regulatoryElements()) ok = ok && m.regulatoryElementLayer.exists(x->id());
    if (!ok) continue;
    PBT_CHECK(r->laneletLayer.exists(l.id()), "lanelet " << l.id() << " is complete, but not loaded");
    std::string id = "lanelet " + std::to_string(l.id());
    PBT_EQ(sg.what.at(id), sw.what.at(id), "a complete lanelet");
  }
  c.did(want.relation.size() + want.way.size());
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C14";
  s.rule = "something that an element of the map refers to is missing";
  s.assumptions = {"a line string or polygon is written only if all its points are, as the format demands"};
  s.props = {{"incomplete", "random sub-maps with missing, expired and unprojectable elements; the XML is compared with the expected document", 16000, 600000, incomplete}};
  return pbt::runMain(s, argc, argv);
}
