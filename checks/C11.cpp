// C11: writing a map to OSM and loading it again yields the same map.
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/OsmFile.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

#include <fstream>
#include <pugixml.hpp>

#include "iomap.h"
using namespace lanelet;
using namespace iomap;

namespace {
std::string tmp(const char* n) {
  const char* d = getenv("PBT_TMP");
  return std::string(d ? d : "/tmp") + "/" + n;
}
std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
std::string join(const ErrorMessages& e) {
  std::string r;
  for (auto& x : e) r += x + "; ";
  return r;
}
struct Setup {
  std::unique_ptr<Projector> proj;
  std::string name;
  double bx{0}, by{0}, tolXy{3e-6}, tolZ{1e-9}, again{1e-8};
};
Setup setup(Case& c) {
  auto& s = c.src;
  Setup r;
  GPSPoint g;
  if (s.chance(1, 2)) g = s.of<GPSPoint>({{49, 8.4, 0}, {-33.9, 18.4, 0}, {35.6, 139.7, 0}, {0.001, 5.9995, 0}, {64.1, -21.9, 50}});
  else g = GPSPoint{s.grid(-79, 83, 0.5), s.grid(-179, 179, 0.5), s.of({0., 0., 100.})};
  Origin o(g);
  switch (s.below(5)) {
    case 0: r.proj = std::make_unique<projection::UtmProjector>(o), r.name = "UTM"; break;
    case 1: r.proj = std::make_unique<projection::UtmProjector>(o, false), r.name = "UTM without offset"; break;
    case 2: r.proj = std::make_unique<projection::SphericalMercatorProjector>(o), r.name = "spherical mercator"; break;
    case 3: r.proj = std::make_unique<projection::Mercator>(o), r.name = "mercator"; break;
    default: r.proj = std::make_unique<projection::LocalCartesianProjector>(o), r.name = "local cartesian", r.tolZ = 1e-5, r.tolXy = 1e-5, r.again = 2e-6;
  }
  auto b = r.proj->forward(g);
  if (r.name != "local cartesian") r.bx = b.x(), r.by = b.y();
  if (r.name == "UTM" || r.name == "mercator") r.bx = r.by = 0;
  // the elliptical projection is stretched towards the poles: degrees with 11 decimals are 1.2 um at the equator
  if (r.name.find("mercator") != std::string::npos) r.tolXy = 3e-6 / std::cos(g.lat * M_PI / 180);
  if (r.name == "mercator") r.tolXy += 1e-4, r.again = 1e-4;  // its reverse stops iterating at 1e-9 rad
  r.name += " at " + std::to_string(g.lat) + "," + std::to_string(g.lon);
  return r;
}
io::Configuration config(Case& c, bool& cm) {
  auto& s = c.src;
  io::Configuration p;
  cm = s.chance(1, 5);
  if (cm) p["josm_format_elevation"] = "true";
  else if (s.chance(1, 6)) p["josm_format_elevation"] = "false";
  if (s.chance(1, 4)) p["josm_upload"] = s.of<std::string>({"true", "false"});
  return p;
}
void describe(Case& c, const LaneletMap& m, const std::string& how) {
  c.describe([&](std::ostream& o) {
    auto sn = snap(m);
    o << how << "\n";
    for (auto& e : sn.what) o << e.first << ": " << e.second << "\n";
    o << std::setprecision(17);
    for (auto& e : sn.xyz) o << "at " << e.first << ": " << e.second[0] << ", " << e.second[1] << ", " << e.second[2] << "\n";
  });
}
void count(Case& c, const Gen& g) {
  bool mixed = !g.lls.empty() && !g.regs.empty();
  c.label("lanelets", g.lls.size());
  c.label("areas", g.areas.size());
  c.label("rules", g.regs.size());
  c.nontrivial(mixed || !g.areas.empty());
}

void roundTrip(Case& c) {
  auto& s = c.src;
  Setup st = setup(c);
  Opts o;
  o.bx = st.bx, o.by = st.by;
  Gen g(c, o);
  g.run();
  auto m = g.map();
  bool cm = false;
  auto conf = config(c, cm);
  count(c, g);
  describe(c, *m, st.name);
  c.label(st.name.substr(0, 6));
  std::string f = tmp("a.osm"), f2 = tmp("b.osm"), f3 = tmp("c.osm");
  Snap before = snap(*m), exact = snap(*m, true);
  ErrorMessages err{"old"};
  bool robust = s.flip(), named = s.flip();
  if (robust) {
    if (named) write(f, *m, "osm_handler", *st.proj, &err, conf);
    else write(f, *m, *st.proj, &err, conf);
    PBT_CHECK(err.empty(), "errors while writing: " << join(err));
  } else {
    if (named) write(f, *m, "osm_handler", *st.proj, nullptr, conf);
    else write(f, *m, *st.proj, nullptr, conf);
  }
  same(snap(*m, true), exact, 0, 0, "the map after writing");
  write(f2, *m, *st.proj, nullptr, conf);
  PBT_CHECK(slurp(f) == slurp(f2), "writing twice gives different files");
  auto load1 = [&](const std::string& file) {
    ErrorMessages e{"old"};
    LaneletMapUPtr r;
    if (robust) {
      r = named ? load(file, "osm_handler", *st.proj, &e) : load(file, *st.proj, &e);
      PBT_CHECK(e.empty(), "errors while loading: " << join(e));
    } else {
      r = named ? load(file, "osm_handler", *st.proj) : load(file, *st.proj);
    }
    return r;
  };
  auto m1 = load1(f);
  same(snap(*m1), before, st.tolXy, cm ? 0.005 + st.tolZ : st.tolZ, "the loaded map");
  shared(*m1, "the loaded map");
  write(f3, *m1, *st.proj, nullptr, conf);
  auto m2 = load1(f3);
  same(snap(*m2), snap(*m1), st.again, cm && st.name[0] == 'l' ? 0.005 + 1e-6 : st.again, "the map after a second cycle");
  Id top = 0;
  for (auto& e : before.xyz) top = std::max(top, e.first);
  c.did(before.what.size());
}

// the same map, whatever the ids and however the file is ordered; deleted elements do not count
void fileForm(Case& c) {
  auto& s = c.src;
  Setup st = setup(c);
  Opts o;
  o.bx = st.bx, o.by = st.by;
  Gen g(c, o);
  g.run();
  auto m = g.map();
  count(c, g);
  std::string f = tmp("a.osm"), f2 = tmp("b.osm");
  write(f, *m, *st.proj);
  pugi::xml_document d;
  PBT_CHECK(bool(d.load_file(f.c_str())), "the written file is not XML");
  auto osm = d.child("osm");
  PBT_CHECK(bool(osm), "no osm element");
  PBT_EQ(std::string(osm.attribute("version").value()), "0.6", "version");
  // new ids, larger than any handed out up to now
  std::map<long long, long long> renum;
  std::vector<long long> olds;
  for (auto e : osm.children()) olds.push_back(e.attribute("id").as_llong());
  long long base = utils::getId() + 10;
  bool dense = s.flip(), negate = s.chance(1, 4);
  std::vector<long long> perm(olds.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = (long long)i;
  for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[s.below(i)]);
  for (size_t i = 0; i < olds.size(); ++i) {
    PBT_CHECK(!renum.count(olds[i]), "id " << olds[i] << " is written twice");
    renum[olds[i]] = (base + perm[i] * (dense ? 1 : 7)) * (negate && i % 3 == 0 ? -1 : 1);
  }
  auto subst = [&](pugi::xml_attribute a) {
    auto it = renum.find(a.as_llong());
    PBT_CHECK(it != renum.end(), "reference to " << a.value() << ", which is not in the file");
    a.set_value(it->second);
  };
  for (auto e : osm.children()) {
    subst(e.attribute("id"));
    for (auto k : e.children()) {
      if (std::string(k.name()) == "nd" || std::string(k.name()) == "member") subst(k.attribute("ref"));
    }
  }
  // reorder elements, and members of different roles
  pugi::xml_document nd;
  auto root = nd.append_child("osm");
  root.append_attribute("version") = "0.6";
  std::vector<pugi::xml_node> elems(osm.children().begin(), osm.children().end());
  int order = int(s.below(3));
  if (order == 1) std::reverse(elems.begin(), elems.end());
  if (order == 2)
    for (size_t i = elems.size(); i > 1; --i) std::swap(elems[i - 1], elems[s.below(i)]);
  bool del = s.flip(), tagsFirst = s.flip(), visible = s.flip();
  for (auto& e : elems) {
    if (del && s.chance(1, 3)) {
      // a deleted element, possibly under an id that exists
      auto x = root.append_child(s.of({"node", "way", "relation"}));
      x.append_attribute("id") = s.chance(1, 3) ? e.attribute("id").value() : "77";
      x.append_attribute("action") = "delete";
      if (std::string(x.name()) == "way") x.append_child("nd").append_attribute("ref") = "424242";
      if (s.flip()) {
        auto t = x.append_child("tag");
        t.append_attribute("k") = "type", t.append_attribute("v") = s.of({"lanelet", "multipolygon", "regulatory_element"});
      }
    }
    auto x = root.append_child(e.name());
    std::vector<pugi::xml_attribute> at(e.attributes().begin(), e.attributes().end());
    if (s.flip()) std::reverse(at.begin(), at.end());
    for (auto& a : at) x.append_attribute(a.name()) = a.value();
    if (visible && s.flip()) x.append_attribute("action") = "modify";
    auto tags = [&] {
      for (auto k : e.children("tag")) x.append_copy(k);
    };
    if (tagsFirst) tags();
    for (auto k : e.children("nd")) x.append_copy(k);
    std::map<std::string, std::vector<pugi::xml_node>> byRole;
    std::vector<std::string> seq;
    for (auto k : e.children("member")) byRole[k.attribute("role").value()].push_back(k), seq.push_back(k.attribute("role").value());
    // any interleaving of the roles that keeps the order inside a role
    if (s.flip())
      for (size_t i = seq.size(); i > 1; --i) std::swap(seq[i - 1], seq[s.below(i)]);
    std::map<std::string, size_t> next;
    for (auto& r : seq) x.append_copy(byRole[r][next[r]++]);
    if (!tagsFirst) tags();
  }
  PBT_CHECK(nd.save_file(f2.c_str()), "can not write the scratch file");
  c.describe([&](std::ostream& o2) { o2 << "projector " << st.name << "\n" << slurp(f2); });
  auto m1 = load(f2, *st.proj);
  // rename in the loaded map: the snapshot of the original with the new ids
  auto origAgain = load(f, *st.proj);
  Id top = std::numeric_limits<Id>::min();
  for (auto& e : renum) top = std::max<Id>(top, e.second);
  PBT_EQ(m1->pointLayer.size() + m1->lineStringLayer.size() + m1->polygonLayer.size() + m1->laneletLayer.size() + m1->areaLayer.size() + m1->regulatoryElementLayer.size(), olds.size(), "number of primitives");
  if (!olds.empty()) {
    Id next = utils::getId();
    PBT_CHECK(next > top, "after loading a map with id " << top << " getId() returns " << next);
  }
  // rename the primitives of the first one
  std::set<const void*> seen;
  for (auto& x : origAgain->laneletLayer) x.setId(renum.at(x.id()));
  for (auto& x : origAgain->areaLayer) x.setId(renum.at(x.id()));
  for (auto& x : origAgain->lineStringLayer) x.setId(renum.at(x.id()));
  for (auto& x : origAgain->polygonLayer) x.setId(renum.at(x.id()));
  for (auto& x : origAgain->pointLayer) x.setId(renum.at(x.id()));
  for (auto& x : origAgain->regulatoryElementLayer) x->setId(renum.at(x->id()));
  same(snap(*m1), snap(*origAgain), 1e-12, 1e-12, "the renumbered and reordered file");
  shared(*m1, "the renumbered and reordered file");
}
// the intermediate form: any osm::File survives write and read; files with different references are unequal
std::string dump(const osm::File& f) {
  std::ostringstream o;
  o << std::setprecision(14);
  auto tags = [&](const osm::Attributes& a) {
    for (auto& t : a) o << " [" << t.first << "=" << t.second << "]";
    o << "\n";
  };
  for (auto& n : f.nodes) o << "node " << n.first << " " << n.second.id, tags(n.second.attributes);
  for (auto& w : f.ways) {
    o << "way " << w.first << " " << w.second.id << ":";
    for (auto* n : w.second.nodes) o << " " << n->id << (f.nodes.count(n->id) && &f.nodes.at(n->id) == n ? "" : "!");
    tags(w.second.attributes);
  }
  for (auto& r : f.relations) {
    o << "relation " << r.first << " " << r.second.id << ":";
    for (auto& m : r.second.members) {
      const osm::Primitive* p = m.second;
      const osm::Primitive* known = nullptr;
      std::string t = m.second->type();
      if (t == "node" && f.nodes.count(p->id)) known = &f.nodes.at(p->id);
      if (t == "way" && f.ways.count(p->id)) known = &f.ways.at(p->id);
      if (t == "relation" && f.relations.count(p->id)) known = &f.relations.at(p->id);
      o << " (" << m.first << ":" << t << " " << p->id << (known == p ? ")" : "!)");
    }
    tags(r.second.attributes);
  }
  return o.str();
}
void osmFile(Case& c) {
  auto& s = c.src;
  auto text = [&] { return s.of<std::string>({"a", "type", "x:y", "", "a b", "<&\"'>", "\xc3\xa4", " ", "\n", "lanelet", "0"}); };
  auto tags = [&] {
    osm::Attributes a;
    for (size_t i = s.below(4); i > 0; --i) a[text()] = text();
    return a;
  };
  struct Plan {
    std::vector<std::tuple<Id, osm::Attributes, GPSPoint>> nodes;
    std::vector<std::tuple<Id, osm::Attributes, std::vector<size_t>>> ways;
    std::vector<std::tuple<Id, osm::Attributes, std::vector<std::tuple<std::string, int, size_t>>>> rels;
  } pl;
  auto id = [&](auto& l) {  // the id spaces of the three kinds are separate
    Id i;
    do i = s.chance(1, 8) ? s.of<Id>({9223372036854775807LL, -9223372036854775807LL, 123456789012LL, 0}) : Id(s.range(-6, 9));
    while (std::any_of(l.begin(), l.end(), [&](auto& e) { return std::get<0>(e) == i; }));
    return i;
  };
  size_t nn = s.below(6), nw = nn ? s.below(4) : 0, nr = s.below(5);
  for (size_t i = 0; i < nn; ++i)
    pl.nodes.emplace_back(id(pl.nodes), tags(), GPSPoint{s.chance(1, 3) ? s.real(-90, 90) : s.grid(-90, 90, 0.25), s.grid(-180, 180, 0.25), s.of({0., 0., 3.5, -2., 118.25})});
  for (size_t i = 0; i < nw; ++i) {
    std::vector<size_t> ns;
    for (size_t k = s.below(5); k > 0; --k) ns.push_back(s.below(nn));
    pl.ways.emplace_back(id(pl.ways), tags(), ns);
  }
  for (size_t i = 0; i < nr; ++i) pl.rels.emplace_back(id(pl.rels), tags(), std::vector<std::tuple<std::string, int, size_t>>{});
  std::vector<std::pair<int, size_t>> all;
  for (size_t i = 0; i < nn; ++i) all.emplace_back(0, i);
  for (size_t i = 0; i < nw; ++i) all.emplace_back(1, i);
  for (size_t i = 0; i < nr; ++i) all.emplace_back(2, i);
  size_t members = 0, nested = 0;
  for (auto& r : pl.rels)
    for (size_t k = s.below(5); k > 0; --k) {
      auto m = s.pick(all);
      std::get<2>(r).emplace_back(text(), m.first, m.second);
      ++members, nested += m.first == 2;
    }
  auto make = [](const Plan& p) {
    osm::File f;
    for (auto& n : p.nodes) f.nodes.emplace(std::get<0>(n), osm::Node(std::get<0>(n), std::get<1>(n), std::get<2>(n)));
    for (auto& w : p.ways) {
      std::vector<osm::Node*> ns;
      for (auto i : std::get<2>(w)) ns.push_back(&f.nodes.at(std::get<0>(p.nodes[i])));
      f.ways.emplace(std::get<0>(w), osm::Way(std::get<0>(w), std::get<1>(w), ns));
    }
    for (auto& r : p.rels) f.relations.emplace(std::get<0>(r), osm::Relation(std::get<0>(r), std::get<1>(r)));
    for (auto& r : p.rels)
      for (auto& m : std::get<2>(r)) {
        osm::Primitive* x = nullptr;
        size_t i = std::get<2>(m);
        if (std::get<1>(m) == 0) x = &f.nodes.at(std::get<0>(p.nodes[i]));
        if (std::get<1>(m) == 1) x = &f.ways.at(std::get<0>(p.ways[i]));
        if (std::get<1>(m) == 2) x = &f.relations.at(std::get<0>(p.rels[i]));
        f.relations.at(std::get<0>(r)).members.emplace_back(std::get<0>(m), x);
      }
    return f;
  };
  osm::File f = make(pl);
  c.describe([&](std::ostream& o) { o << dump(f); });
  io::Configuration conf;
  if (s.chance(1, 4)) conf["josm_upload"] = s.of<std::string>({"true", "false"});
  auto doc = osm::write(f, conf);
  osm::File mem, disk;
  std::string fn = tmp("f.osm");
  PBT_CHECK(doc->save_file(fn.c_str()), "can not write the scratch file");
  pugi::xml_document in;
  PBT_CHECK(bool(in.load_file(fn.c_str())), "the written file is not XML");
  osm::Errors errs, errs2;
  mem = osm::read(*doc, &errs);
  disk = osm::read(in, &errs2);
  PBT_EQ(errs.size() + errs2.size(), 0u, "errors");
  PBT_EQ(dump(mem), dump(f), "read(write(file))");
  PBT_EQ(dump(disk), dump(f), "read(write(file)) through a file");
  for (auto* r : {&mem, &disk})
    for (auto& n : f.nodes) {
      auto &p = n.second.point, &q = r->nodes.at(n.first).point;
      PBT_CHECK(std::abs(p.lat - q.lat) < 1e-10 && std::abs(p.lon - q.lon) < 1e-10 && p.ele == q.ele, "position of node " << n.first);
    }
  PBT_CHECK(f == mem && mem == f && f == disk && f == f, "the file that was read is not equal");
  osm::File moved = std::move(disk);
  PBT_EQ(dump(moved), dump(f), "a moved file");
  // one different reference
  Plan o = pl;
  std::string what;
  switch (s.below(4)) {
    case 0:
      if (members) {
        std::vector<size_t> rs;
        for (size_t i = 0; i < nr; ++i)
          if (!std::get<2>(o.rels[i]).empty()) rs.push_back(i);
        auto& ms = std::get<2>(o.rels[s.pick(rs)]);
        auto& m = ms[s.below(ms.size())];
        auto x = s.pick(all);
        if (x.first == std::get<1>(m) && x.second == std::get<2>(m)) break;
        std::get<1>(m) = x.first, std::get<2>(m) = x.second;
        what = "another member of a relation";
      }
      break;
    case 1:
      if (members) {
        for (auto& r : o.rels)
          if (!std::get<2>(r).empty() && what.empty()) std::get<2>(r).pop_back(), what = "one member less";
      }
      break;
    case 2:
      for (auto& w : o.ways)
        if (!std::get<2>(w).empty() && nn > 1 && what.empty()) {
          auto& i = std::get<2>(w)[s.below(std::get<2>(w).size())];
          i = (i + 1) % nn;
          what = "another node of a way";
        }
      break;
    default:
      if (nr) o.rels.emplace_back(Id(100), osm::Attributes(), std::vector<std::tuple<std::string, int, size_t>>{}), what = "another relation";
  }
  if (!what.empty()) {
    osm::File g = make(o);
    PBT_CHECK(!(g == f) && !(f == g), "equal files in spite of " << what << ":\n" << dump(g));
  }
  c.did(3);
  c.label("members", members), c.label("relations as members", nested);
  c.nontrivial(members > 1 && !what.empty());
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C11";
  s.rule = "the map has an area, or lanelets together with regulatory elements";
  s.assumptions = {"lanelets are gently curved strips whose bounds do not share points, areas are simple clockwise rings with disjoint holes",
                   "the inversion of line strings, polygons and lanelets listed in layers or as regulatory element parameters has no OSM representation and is not compared; area rings are compared up to rotation",
                   "reserved tags: 'ele' of points, 'area' of line strings and polygons, 'type' of relations"};
  s.props = {
      {"roundtrip", "write, load and a second cycle over generated maps and projectors", 9000, 400000, roundTrip},
      {"osmfile", "osm::File through write and read, equality of files; non-trivial: more than one member and one reference changed", 20000, 1500000, osmFile},
      {"fileform", "ids renumbered and the file reordered, with deleted elements", 5000, 200000, fileForm},
  };
  return pbt::runMain(s, argc, argv);
}
