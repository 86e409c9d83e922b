// C13: damaged or malformed input never crashes or corrupts the loader.
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

#include <boost/filesystem.hpp>
#include <fstream>
#include <pugixml.hpp>

#include "iomap.h"
using namespace lanelet;
using namespace iomap;

namespace {
std::string tmp(const char* n) {
  const char* d = getenv("PBT_TMP");
  return std::string(d ? d : "/tmp") + "/" + n;
}
std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
void spill(const std::string& f, const std::string& t) { std::ofstream(f, std::ios::binary) << t; }
std::unique_ptr<Projector> projector(pbt::Src& s) {
  Origin o({49, 8.4, 0});
  switch (s.below(5)) {
    case 0: return std::make_unique<projection::SphericalMercatorProjector>(o);
    case 1: return std::make_unique<projection::LocalCartesianProjector>(o);
    case 2: return std::make_unique<projection::Mercator>(o);
    default: return std::make_unique<projection::UtmProjector>(o);
  }
}
Opts opts() {
  Opts o;
  o.smallIds = true;
  return o;
}

struct El {
  std::string kind, text;
  Id id{0};
  std::map<std::string, std::string> tags;
  std::vector<Id> nds;
  struct M {
    std::string type, role;
    Id ref;
  };
  std::vector<M> members;
};
using Key = std::pair<std::string, Id>;
struct Doc {
  std::multimap<Key, El> els;
  const El* get(const std::string& kind, Id id) const {
    auto it = els.find({kind, id});
    return it == els.end() ? nullptr : &it->second;
  }
  size_t count(const Key& k) const { return els.count(k); }
};
Doc parse(const pugi::xml_document& d) {
  Doc r;
  for (auto e : d.child("osm").children()) {
    if (std::string(e.attribute("action").value()) == "delete") continue;
    El x;
    x.kind = e.name();
    x.id = e.attribute("id").as_llong();
    std::ostringstream t;
    e.print(t, "", pugi::format_raw);
    x.text = t.str();
    for (auto k : e.children()) {
      std::string kn = k.name();
      if (kn == "tag") x.tags[k.attribute("k").value()] = k.attribute("v").value();
      if (kn == "nd") x.nds.push_back(k.attribute("ref").as_llong());
      if (kn == "member") x.members.push_back({k.attribute("type").value(), k.attribute("role").value(), k.attribute("ref").as_llong()});
    }
    r.els.emplace(Key{x.kind, x.id}, x);
  }
  return r;
}
bool isTrue(const std::string& v) { return v == "yes" || v == "true" || v == "1"; }
const std::set<std::string> kRules{"", "traffic_light", "right_of_way", "traffic_sign", "speed_limit", "all_way_stop", "regulatory_element"};

//! ids of elements that have a defect of their own, by the rules of the format; elements with ambiguous ids are skipped
std::map<Id, std::string> defects(const Doc& d) {
  std::map<Id, std::string> bad;
  auto one = [&](const std::string& kind, Id id) { return d.count({kind, id}) == 1; };
  auto missing = [&](const std::string& kind, Id id) { return d.count({kind, id}) == 0; };
  auto polygon = [&](const El& w) { return w.tags.count("area") && isTrue(w.tags.at("area")); };
  auto typeIs = [&](const El& e, const char* t) { return e.tags.count("type") && e.tags.at("type") == t; };
  auto usable = [&](const El& w) {
    if (w.nds.empty()) return false;
    for (auto n : w.nds)
      if (missing("node", n)) return false;
    return true;
  };
  for (auto& kv : d.els) {
    auto& e = kv.second;
    if (d.count(kv.first) != 1) continue;
    if (e.kind == "way") {
      if (e.nds.empty()) bad[e.id] = "no points";
      for (auto n : e.nds)
        if (missing("node", n)) bad[e.id] = "missing point";
    }
    if (e.kind != "relation") continue;
    bool known = true;  // of all members, whether they exist exactly once
    for (auto& m : e.members) {
      if (m.type != "node" && m.type != "way" && m.type != "relation") {
        known = false;
        continue;
      }
      if (missing(m.type, m.ref)) bad[e.id] = "missing member";
      if (!one(m.type, m.ref)) known = false;
    }
    if (bad.count(e.id) || !known) continue;
    if (typeIs(e, "lanelet")) {
      for (std::string role : {"left", "right", "centerline"}) {
        size_t n = 0;
        const El::M* m = nullptr;
        for (auto& x : e.members)
          if (x.role == role) ++n, m = &x;
        if (role == "centerline" && n == 0) continue;
        if (n != 1) bad[e.id] = "not one " + role;
        else if (m->type != "way") bad[e.id] = role + " is no way";
        else if (polygon(*d.get("way", m->ref))) bad[e.id] = role + " is a polygon";
      }
    }
    if (typeIs(e, "multipolygon")) {
      for (std::string role : {"outer", "inner"}) {
        std::map<Id, int> ends;
        size_t n = 0;
        bool good = true;
        for (auto& x : e.members) {
          if (x.role != role) continue;
          ++n;
          if (x.type != "way") bad[e.id] = role + " is no way";
          else if (polygon(*d.get("way", x.ref))) bad[e.id] = role + " is a polygon";
          if (x.type != "way" || !usable(*d.get("way", x.ref))) {
            good = false;
            continue;
          }
          auto& w = *d.get("way", x.ref);
          ++ends[w.nds.front()], ++ends[w.nds.back()];
        }
        if (role == "outer" && n == 0) bad[e.id] = "no outer";
        if (good)
          for (auto& x : ends)
            if (x.second % 2) bad[e.id] = role + " ring is open";
      }
    }
    if (typeIs(e, "lanelet") || typeIs(e, "multipolygon")) {
      for (auto& x : e.members) {
        if (x.role != "regulatory_element") continue;
        if (x.type != "relation" || !typeIs(*d.get("relation", x.ref), "regulatory_element")) {
          if (!d.count({"relation", x.ref}) || !typeIs(*d.get("relation", x.ref), "regulatory_element")) bad[e.id] = "regulatory element is none";
        }
      }
    }
    if (typeIs(e, "regulatory_element")) {
      if (!e.tags.count("subtype")) bad[e.id] = "no subtype";
      else if (!kRules.count(e.tags.at("subtype"))) bad[e.id] = "unknown subtype";
      for (auto& x : e.members) {
        if (x.type != "relation") continue;
        auto& r = *d.get("relation", x.ref);
        if (!typeIs(r, "lanelet") && !typeIs(r, "multipolygon")) bad[e.id] = "parameter is neither lanelet nor area";
      }
    }
  }
  return bad;
}
bool mentions(const std::string& all, Id id) {
  std::string t = std::to_string(id);
  for (size_t p = all.find(t); p != std::string::npos; p = all.find(t, p + 1)) {
    bool l = p > 0 && isdigit(all[p - 1]), r = p + t.size() < all.size() && isdigit(all[p + t.size()]);
    if (!l && !r) return true;
  }
  return false;
}
//! walks over everything in the map
size_t touch(const LaneletMap& m) {
  size_t n = 0;
  auto s = snap(m, true);
  for (auto& e : s.what) n += e.second.size();
  return n;
}

void mutate(Case& c, pugi::xml_document& d, std::ostringstream& log) {
  auto& s = c.src;
  auto osm = d.child("osm");
  auto all = [&](const char* kind = nullptr) {
    std::vector<pugi::xml_node> v;
    for (auto e : osm.children())
      if (!kind || std::string(e.name()) == kind) v.push_back(e);
    return v;
  };
  auto subs = [&](pugi::xml_node e, const char* kind) {
    std::vector<pugi::xml_node> v;
    for (auto k : e.children())
      if (!kind || std::string(k.name()) == kind) v.push_back(k);
    return v;
  };
  auto name = [](pugi::xml_node e) { return std::string(e.name()) + " " + e.attribute("id").value(); };
  auto elem = [&]() -> pugi::xml_node {
    const char* k = s.of<const char*>({"relation", "relation", "way", "node"});
    auto v = all(k);
    if (v.empty()) v = all();
    if (v.empty()) return {};
    return s.pick(v);
  };
  auto member = [&](const char* kind, const char* sub) -> std::pair<pugi::xml_node, pugi::xml_node> {
    auto v = all(kind);
    if (v.empty()) return {};
    auto e = s.pick(v);
    auto k = subs(e, sub);
    if (k.empty()) return {};
    return {e, s.pick(k)};
  };
  auto randomId = [&]() -> std::string {
    auto v = all();
    switch (s.below(4)) {
      case 0: return s.of<std::string>({"0", "", "abc", "-1", "99999", "9223372036854775807", "99999999999999999999", "1.5", "-9223372036854775808"});
      default: return v.empty() ? "1" : s.pick(v).attribute("id").value();
    }
  };
  size_t n = 1 + s.size(0, 5);
  for (size_t i = 0; i < n; ++i) {
    switch (s.below(17)) {
      case 0: {
        auto e = elem();
        if (!e) break;
        log << "remove " << name(e) << "\n";
        osm.remove_child(e);
        break;
      }
      case 1: {
        auto e = elem();
        if (!e) break;
        log << "mark as deleted " << name(e) << "\n";
        e.append_attribute("action") = "delete";
        break;
      }
      case 2: {
        auto e = elem();
        if (!e) break;
        log << "duplicate " << name(e) << "\n";
        if (s.flip()) osm.append_copy(e);
        else osm.insert_copy_before(e, e);
        break;
      }
      case 3: {
        auto m = member("way", "nd");
        if (!m.first) break;
        log << "remove a point of " << name(m.first) << "\n";
        m.first.remove_child(m.second);
        break;
      }
      case 4: {
        auto m = member("way", "nd");
        if (!m.first) break;
        std::string id = randomId();
        log << "change a point of " << name(m.first) << " to " << id << "\n";
        m.second.attribute("ref") = id.c_str();
        break;
      }
      case 5: {
        auto m = member("relation", "member");
        if (!m.first) break;
        log << "remove member " << m.second.attribute("role").value() << " of " << name(m.first) << "\n";
        m.first.remove_child(m.second);
        break;
      }
      case 6: {
        auto m = member("relation", "member");
        if (!m.first) break;
        std::string id = randomId();
        log << "change member " << m.second.attribute("role").value() << " of " << name(m.first) << " to " << id << "\n";
        m.second.attribute("ref") = id.c_str();
        break;
      }
      case 7: {
        auto m = member("relation", "member");
        if (!m.first) break;
        const char* t = s.of({"node", "way", "relation", "foo", ""});
        log << "change type of member " << m.second.attribute("role").value() << " of " << name(m.first) << " to " << t << "\n";
        m.second.attribute("type") = t;
        break;
      }
      case 8: {
        auto m = member("relation", "member");
        if (!m.first) break;
        const char* t = s.of({"left", "right", "outer", "inner", "regulatory_element", "centerline", "refers", ""});
        log << "change role of member " << m.second.attribute("role").value() << " of " << name(m.first) << " to " << t << "\n";
        m.second.attribute("role") = t;
        break;
      }
      case 9: {
        auto m = member("relation", "member");
        if (!m.first) break;
        log << "duplicate member " << m.second.attribute("role").value() << " of " << name(m.first) << "\n";
        m.first.append_copy(m.second);
        break;
      }
      case 10: {
        auto m = member(s.of({"relation", "relation", "way", "node"}), "tag");
        if (!m.first) break;
        log << "remove tag " << m.second.attribute("k").value() << " of " << name(m.first) << "\n";
        m.first.remove_child(m.second);
        break;
      }
      case 11: {
        auto v = all("relation");
        if (v.empty()) break;
        auto e = s.pick(v);
        const char* k = s.of({"type", "subtype"});
        const char* t = s.of({"lanelet", "multipolygon", "regulatory_element", "road", "foo", "", "right_of_way", "speed_limit", "traffic_light", "all_way_stop", "traffic_sign"});
        log << "set " << k << " of " << name(e) << " to " << t << "\n";
        auto tag = e.find_child_by_attribute("tag", "k", k);
        if (!tag) tag = e.append_child("tag"), tag.append_attribute("k") = k, tag.append_attribute("v");
        tag.attribute("v") = t;
        break;
      }
      case 12: {
        auto v = all("way");
        if (v.empty()) break;
        auto e = s.pick(v);
        log << "set area of " << name(e) << "\n";
        auto tag = e.find_child_by_attribute("tag", "k", "area");
        if (!tag) tag = e.append_child("tag"), tag.append_attribute("k") = "area", tag.append_attribute("v");
        tag.attribute("v") = s.of({"yes", "no", "maybe", "1"});
        break;
      }
      case 13: {
        auto v = all("node");
        if (v.empty()) break;
        auto e = s.pick(v);
        const char* k = s.of({"lat", "lon"});
        const char* t = s.of({"", "abc", "nan", "inf", "-91", "1e308", "0", "180", "-1e-320", "49,5", "90"});
        log << "set " << k << " of " << name(e) << " to " << t << "\n";
        e.attribute(k) = t;
        break;
      }
      case 14: {
        auto e = elem();
        if (!e) break;
        std::string id = randomId();
        log << "change the id of " << name(e) << " to " << id << "\n";
        e.attribute("id") = id.c_str();
        break;
      }
      case 15: {
        auto e = elem();
        if (!e) break;
        std::vector<pugi::xml_attribute> at(e.attributes().begin(), e.attributes().end());
        if (s.flip()) {
          auto k = subs(e, nullptr);
          if (k.empty()) break;
          auto x = s.pick(k);
          at.assign(x.attributes().begin(), x.attributes().end());
          if (at.empty()) break;
          auto a = s.pick(at);
          log << "remove attribute " << a.name() << " of a " << x.name() << " of " << name(e) << "\n";
          x.remove_attribute(a);
          break;
        }
        if (at.empty()) break;
        auto a = s.pick(at);
        log << "remove attribute " << a.name() << " of " << name(e) << "\n";
        e.remove_attribute(a);
        break;
      }
      default: {
        auto v = all("node");
        if (v.empty()) break;
        auto e = s.pick(v);
        log << "elevation of " << name(e) << "\n";
        auto tag = e.append_child("tag");
        tag.append_attribute("k") = "ele", tag.append_attribute("v") = s.of({"", "abc", "nan", "12"});
      }
    }
  }
}

void structured(Case& c) {
  auto& s = c.src;
  Gen g(c, opts());
  g.run();
  auto m = g.map();
  auto proj = projector(s);
  std::string f = tmp("a.osm"), f2 = tmp("b.osm");
  write(f, *m, *proj);
  auto orig = load(f, *proj);
  pugi::xml_document d;
  d.load_file(f.c_str());
  Doc before = parse(d);
  std::ostringstream log;
  mutate(c, d, log);
  d.save_file(f2.c_str());
  Doc after = parse(d);
  c.describe([&](std::ostream& o) { o << "mutations:\n" << log.str() << slurp(f2); });
  ErrorMessages err{"old"};
  LaneletMapUPtr r = load(f2, *proj, &err);
  PBT_CHECK(!!r, "no map");
  touch(*r);
  std::string all;
  for (auto& e : err) all += e + "\n";
  bool threw = false;
  try {
    load(f2, *proj);
  } catch (ParseError&) {
    threw = true;
  }
  PBT_EQ(threw, !err.empty(), "load throws ParseError, errors are: " << all);
  // every defect is reported
  auto bad = defects(after);
  for (auto& b : bad) PBT_CHECK(mentions(all, b.first), "not reported: " << b.first << " (" << b.second << "), the errors are: " << all);
  for (auto& b : bad) c.label(b.second);
  // elements that do not depend on a changed one are loaded unchanged
  std::set<Key> dirty;
  std::set<Id> idDirty;  // ids that appear in several places
  for (auto& e : before.els) {
    auto x = after.els.find(e.first);
    if (after.count(e.first) != 1 || x->second.text != e.second.text) dirty.insert(e.first);
  }
  for (auto& e : after.els)
    if (!before.count(e.first)) dirty.insert(e.first);
  bool grown = true;
  while (grown) {
    grown = false;
    for (auto& e : before.els) {
      if (dirty.count(e.first)) continue;
      bool x = false;
      for (auto n : e.second.nds) x = x || dirty.count({"node", n});
      for (auto& k : e.second.members) x = x || dirty.count({k.type, k.ref});
      // a changed element of another kind with the same id
      if (x) dirty.insert(e.first), grown = true;
    }
  }
  auto want = snap(*orig), got = snap(*r);
  size_t clean = 0;
  for (auto& e : want.what) {
    auto sp = e.first.find(' ');
    std::string kind = e.first.substr(0, sp);
    Id id = std::stoll(e.first.substr(sp + 1));
    std::string k = kind == "point" ? "node" : kind == "line" || kind == "polygon" ? "way" : "relation";
    if (dirty.count({k, id})) continue;
    ++clean;
    auto it = got.what.find(e.first);
    PBT_CHECK(it != got.what.end(), e.first << " is intact, but was not loaded; errors: " << all);
    PBT_CHECK(it->second == e.second, e.first << " is intact, but was loaded as\n " << it->second << "\n instead of\n " << e.second);
    if (kind == "point") {
      auto &a = got.xyz.at(id), &b = want.xyz.at(id);
      PBT_CHECK(a == b, "point " << id << " is intact, but moved");
    }
  }
  c.nontrivial(!bad.empty() && clean > 0);
  if (err.empty()) c.label("no errors");
  c.did(clean + bad.size());
}

std::string osmText(Case& c, const Projector& p) {
  Gen g(c, opts());
  g.run();
  std::string f = tmp("a.osm");
  write(f, *g.map(), p);
  return slurp(f);
}
void damage(Case& c, std::string& t) {
  auto& s = c.src;
  size_t n = 1 + s.below(6);
  static const std::vector<std::string> frag{"<", ">", "/>", "\"", "&", "&#0;", "&#xFFFFFFFF;", "<![CDATA[", "-->", "<!--", "<?xml?>", "</osm>", "<osm>", "<relation id=\"1\">", "<member/>", "<tag/>", "<nd/>", "<node/>", "<way/>", "\xff\xfe", std::string(1, '\0'), "<!DOCTYPE osm [<!ENTITY a \"b\">]>"};
  for (size_t i = 0; i < n && !t.empty(); ++i) {
    size_t p = s.below(t.size());
    switch (s.below(7)) {
      case 0: t.resize(p); break;
      case 1: t[p] = char(s.below(256)); break;
      case 2: t.erase(p, 1 + s.below(60)); break;
      case 3: t.insert(p, s.pick(frag)); break;
      case 4: {
        size_t q = s.below(t.size());
        t.insert(p, t.substr(q, 1 + s.below(300)));
        break;
      }
      case 5: t[p] = char(t[p] ^ (1 << s.below(8))); break;
      default: std::swap(t[p], t[s.below(t.size())]);
    }
  }
}
void bytes(Case& c) {
  auto& s = c.src;
  auto proj = projector(s);
  std::string t;
  if (s.chance(1, 6)) {
    size_t n = s.size(0, 200);
    for (size_t i = 0; i < n; ++i) t += char(s.below(256));
    if (s.flip()) t = "<osm>" + t + "</osm>";
  } else {
    t = osmText(c, *proj);
    damage(c, t);
  }
  c.describe([&](std::ostream& o) { o << t; });
  std::string f = tmp("x.osm");
  spill(f, t);
  int outcome = 0;  // 0: map, 1: map with errors, 2: ParseError
  ErrorMessages err;
  try {
    auto m = load(f, *proj, &err);
    PBT_CHECK(!!m, "no map");
    touch(*m);
    outcome = err.empty() ? 0 : 1;
  } catch (ParseError&) {
    outcome = 2;
  }
  bool threw = false;
  try {
    auto m = load(f, "osm_handler", *proj);
    PBT_CHECK(!!m, "no map");
  } catch (ParseError&) {
    threw = true;
  }
  PBT_EQ(threw, outcome != 0, "load throws ParseError");
  pugi::xml_document d;
  bool xml = bool(d.load_buffer(t.data(), t.size()));
  PBT_EQ(outcome == 2, !xml, "loading with error messages throws exactly if the text is not XML");
  c.nontrivial(outcome != 0);
  c.label(outcome == 0 ? "map" : outcome == 1 ? "errors" : "not XML");
}

// a binary map that ends early, or that is none
void binary(Case& c) {
  auto& s = c.src;
  std::string t, f = tmp("x.bin");
  size_t full = 0;
  if (s.chance(1, 5)) {
    // an archive starts with the length of its signature; lengths that only exhaust the memory are left out
    size_t n = s.size(0, 100);
    for (size_t i = 0; i < n; ++i) t += char(s.below(256));
    bool small = s.flip();
    for (size_t i = 0; i < std::min<size_t>(8, n); ++i) t[i] = small ? (i == 0 ? t[i] : char(0)) : char(255);
    if (n > 8 && s.flip()) {
      t.insert(8, "serialization::archive");
      for (size_t i = 0; i < 8; ++i) t[i] = i ? char(0) : char(22);
    }
    c.label("garbage");
  } else {
    Opts o;
    o.osm = false;
    Gen g(c, o);
    g.run();
    write(f, *g.map());
    t = slurp(f);
    full = t.size();
    size_t len = s.below(t.size());
    t.resize(len);
    c.label("truncated");
  }
  c.describe([&](std::ostream& o) { o << t.size() << " of " << full << " bytes"; });
  spill(f, t);
  bool threw = false;
  ErrorMessages err;
  bool robust = s.flip();
  try {
    auto m = robust ? load(f, Origin::defaultOrigin(), &err) : load(f);
    touch(*m);
  } catch (IOError&) {
    threw = true;
  }
  PBT_CHECK(threw, "a map was returned for a file that is no complete map");
  c.nontrivial();
}

void api(Case& c) {
  auto& s = c.src;
  auto proj = projector(s);
  Gen g(c, opts());
  g.run();
  auto m = g.map();
  std::string dir = tmp("d"), f = dir + "/a.osm";
  boost::filesystem::create_directory(dir);
  ErrorMessages err;
  ErrorMessages* e = s.flip() ? &err : nullptr;
  switch (s.below(8)) {
    case 0: PBT_CHECK(chk::throws<FileNotFoundError>([&] { load(dir + "/none.osm", *proj, e); }), "a missing file"); break;
    case 1:
      write(f, *m, *proj);
      boost::filesystem::rename(f, dir + "/a.xyz");
      PBT_CHECK(chk::throws<UnsupportedExtensionError>([&] { load(dir + "/a.xyz", *proj, e); }), "an unknown extension");
      {
        auto r = load(dir + "/a.xyz", "osm_handler", *proj, e);
        same(snap(*r), snap(*m), 1e-2, 1e-2, "named parser");
      }
      break;
    case 2: PBT_CHECK(chk::throws<UnsupportedExtensionError>([&] { write(dir + "/a.xyz", *m, *proj, e); }), "an unknown extension"); break;
    case 3: PBT_CHECK(chk::throws<UnsupportedIOHandlerError>([&] { write(f, *m, "no_handler", *proj, e); }), "an unknown writer"); break;
    case 4:
      write(f, *m, *proj);
      PBT_CHECK(chk::throws<UnsupportedIOHandlerError>([&] { load(f, "no_handler", *proj, e); }), "an unknown parser");
      break;
    case 5: PBT_CHECK(chk::throws<IOError>([&] { write(dir + "/none/a.osm", *m, *proj, e); }), "a folder that does not exist"); break;
    case 6: PBT_CHECK(chk::throws<IOError>([&] { write(dir + "/none/a.bin", *m, *proj, e); }), "a folder that does not exist (binary)"); break;
    default:
      write(f, *m, *proj);
      PBT_CHECK(chk::throws<IOError>([&] { load(f, Origin::defaultOrigin(), e); }), "osm without an origin");
  }
  boost::filesystem::remove_all(dir);
  c.nontrivial();
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C13";
  s.rule = "structured: at least one defect and at least one intact element; bytes: the file is not loaded without errors; binary, api: all";
  s.assumptions = {"binary files are damaged by truncation or are no archive at all: the archive format of boost is not robust against arbitrary changes inside",
                   "an element that is defined twice is only checked not to cause a crash"};
  s.props = {
      {"structured", "well-formed OSM files with defects: they are reported, everything else is loaded unchanged", 12000, 500000, structured},
      {"bytes", "damaged and arbitrary bytes as OSM", 6000, 300000, bytes},
      {"binary", "truncated binary maps and other bytes", 3000, 150000, binary},
      {"api", "missing files, unknown formats, unwritable targets", 600, 20000, api},
  };
  return pbt::runMain(s, argc, argv);
}
