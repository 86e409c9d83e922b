// C29: graph exports and the debug map hold exactly the vertices and edges of the routing graph.
#include <fstream>
#include <pugixml.hpp>
#include <regex>


#include "roads.h"
using namespace lanelet;
using namespace roads;
using routing::RoutingGraph;

namespace {
struct E {
  Key from, to;
  std::string rel;
  double cost;
  bool operator<(const E& o) const { return std::tie(from, to, rel, cost) < std::tie(o.from, o.to, o.rel, o.cost); }
};
using Es = std::vector<E>;
using Ids = std::vector<Key>;
std::string show(const E& e) {
  std::ostringstream o;
  o << std::setprecision(12) << roads::str(e.from) << " -> " << roads::str(e.to) << " " << e.rel << " (" << e.cost << ")";
  return o.str();
}
std::string show(const Es& es) {
  std::string r;
  for (auto& e : es) r += "\n  " + show(e);
  return r;
}
const std::vector<RelationType> All{RelationType::Successor, RelationType::Left, RelationType::Right, RelationType::AdjacentLeft, RelationType::AdjacentRight, RelationType::Conflicting, RelationType::Area};
const RelationType Unweighted = RelationType::AdjacentLeft | RelationType::AdjacentRight | RelationType::Conflicting;

//! the edges of cost module k with one of the relations
Es edges(const Net& n, const RoutingGraph& g, size_t k, RelationType rels) {
  Es r;
  for (size_t a = 0; a < n.v.size(); ++a) {
    for (auto& e : n.out[k][a])
      if (Net::has(rels, e.second.rel)) r.push_back({n.v[a].key, n.v[size_t(e.first)].key, routing::relationToString(e.second.rel), e.second.cost});
    if (Net::has(rels, RelationType::Conflicting))
      for (auto& o : g.conflicting(n.v[a].p)) r.push_back({n.v[a].key, key(o), "Conflicting", 1.});
  }
  return r;
}
void plainIds(Es& es) {
  for (auto& e : es) e.from.second = e.to.second = false;
}
void same(Case& c, Es got, Es want, double rel, const std::string& what) {
  std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
  c.did(want.size() + 1);
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); ++i)
    ok = got[i].from == want[i].from && got[i].to == want[i].to && got[i].rel == want[i].rel && std::fabs(got[i].cost - want[i].cost) <= rel * std::max(1., std::fabs(want[i].cost));
  PBT_CHECK(ok, what << " has the edges" << show(got) << "\nexpected" << show(want));
}
void sameIds(Case& c, Ids got, Ids want, const std::string& what) {
  std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
  c.did();
  PBT_CHECK(got == want, what << " has the vertices " << roads::str(got) << ", expected " << roads::str(want));
}
geo::P2 centroid(const std::vector<geo::P2>& p) {
  double a = 0, x = 0, y = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    auto &u = p[i], &v = p[(i + 1) % p.size()];
    double k = (u.x - p[0].x) * (v.y - p[0].y) - (v.x - p[0].x) * (u.y - p[0].y);
    a += k, x += k * (u.x + v.x + p[0].x) / 3, y += k * (u.y + v.y + p[0].y) / 3;
  }
  return {x / a, y / a};
}
struct Made {
  Net n;
  routing::RoutingGraphUPtr g;
  explicit Made(Case& c) : n{c, [] {
    NetOptions o;
    o.maxCols = 4, o.maxRows = 3;
    return o;
  }()} {
    n.make();
    if (!n.unique || n.v.empty()) throw pbt::Discard{};
    g = n.graph();
    n.describe();
  }
};
double number(const std::string& s) {
  size_t used = 0;
  double d = 0;
  try {
    d = std::stod(s, &used);
  } catch (std::exception&) {
  }
  PBT_CHECK(used == s.size() && used > 0, "'" << s << "' is not a number");
  return d;
}

void debugMap(Case& c) {
  Made m(c);
  auto &n = m.n;
  auto& g = *m.g;
  size_t both = 0, most = 0;
  for (size_t k = 0; k < n.costM.size(); ++k)
    for (bool adj : {false, true})
      for (bool conf : {false, true}) {
        std::string what = "debug map " + std::to_string(k) + (adj ? " with adjacent" : "") + (conf ? " with conflicting" : "");
        auto d = g.getDebugLaneletMap(routing::RoutingCostId(k), adj, conf);
        auto rels = RelationType::Successor | RelationType::Left | RelationType::Right | RelationType::Area;
        if (adj) rels = rels | RelationType::AdjacentLeft | RelationType::AdjacentRight;
        if (conf) rels = rels | RelationType::Conflicting;
        std::set<Id> ids;
        for (auto& v : n.v) ids.insert(v.key.first);
        Ids want, got;
        for (auto i : ids) want.push_back({i, false});
        for (auto& p : d->pointLayer) {
          got.push_back({p.id(), false});
          PBT_CHECK(p.attributeOr("id", Id(0)) == p.id(), what << ": attribute id of the point " << p.id() << " is " << p.attributeOr<std::string>("id", "missing"));
        }
        sameIds(c, got, want, what);
        for (auto& v : n.v) {
          auto z = centroid(n.w.ringPos(n.ring(v)));
          auto p = d->pointLayer.get(v.key.first);
          c.did();
          PBT_CHECK(std::hypot(p.x() - z.x, p.y() - z.y) < 1e-6, what << ": the point of " << roads::str(v.key) << " is at (" << p.x() << ", " << p.y() << "), expected (" << z.x << ", " << z.y << ")");
        }
        Es es;
        for (auto& l : d->lineStringLayer) {
          PBT_CHECK(l.size() == 2, what << ": a relation of " << l.size() << " points");
          Key a{l[0].id(), false}, b{l[1].id(), false};
          for (auto& q : l) PBT_CHECK(std::hypot(q.x() - d->pointLayer.get(q.id()).x(), q.y() - d->pointLayer.get(q.id()).y()) < 1e-6, what << ": a relation starts away from its point");
          PBT_CHECK(l.hasAttribute("relation") && l.hasAttribute("routing_cost"), what << ": a relation without type or cost");
          PBT_CHECK(l.hasAttribute("relation_reverse") == l.hasAttribute("routing_cost_reverse"), what << ": only one reverse attribute");
          es.push_back({a, b, l.attribute("relation").value(), number(l.attribute("routing_cost").value())});
          if (l.hasAttribute("relation_reverse")) {
            es.push_back({b, a, l.attribute("relation_reverse").value(), number(l.attribute("routing_cost_reverse").value())});
            both++;
          }
        }
        auto w = edges(n, g, k, rels);
        plainIds(w);
        same(c, es, w, 2e-6, what);
        most = std::max(most, w.size());
        PBT_CHECK(d->laneletLayer.empty() && d->areaLayer.empty() && d->polygonLayer.empty() && d->regulatoryElementLayer.empty(), what << " has more than points and line strings");
      }
  auto bad = routing::RoutingCostId(n.costM.size() + c.src.below(3));
  PBT_CHECK((chk::throws<InvalidInputError>([&] { g.getDebugLaneletMap(bad, c.src.flip(), c.src.flip()); })), "debug map of a cost id that does not exist");
  c.label("relations in both directions", both);
  c.nontrivial(most > 2);
}

std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
void parseViz(const std::string& text, size_t k, Ids& ids, Es& es) {
  static const std::regex node(R"re(^(\d+)\[label="(-?\d+)" lanelet="(-?\d+)"\];$)re");
  static const std::regex edge(R"re(^(\d+)->(\d+) \[label="(\w+)" color="(\w*)"?( weight="([^"]*))?" routingCostId="(\d+)"\];$)re");
  std::istringstream in(text);
  std::string line;
  std::map<std::string, Id> name;
  PBT_CHECK(std::getline(in, line) && line == "digraph G {", "the graphviz file starts with '" << line << "'");
  bool end = false;
  while (std::getline(in, line)) {
    PBT_CHECK(!end, "text after the end of the graph: " << line);
    std::smatch m;
    if (line == "}") {
      end = true;
    } else if (std::regex_match(line, m, node)) {
      PBT_CHECK(m[2] == m[3] && !name.count(m[1]), "vertex: " << line);
      name[m[1]] = std::stol(m[2]);
      ids.push_back({name[m[1]], false});
    } else if (std::regex_match(line, m, edge)) {
      PBT_CHECK(name.count(m[1]) && name.count(m[2]), "edge of unknown vertices: " << line);
      PBT_CHECK(std::stoul(m[7]) == k, "edge of another cost module: " << line);
      std::string rel = m[3];
      bool weighted = rel == "Successor" || rel == "Left" || rel == "Right" || rel == "Area";
      PBT_CHECK(weighted == m[5].matched, "weight: " << line);
      es.push_back({{name[m[1]], false}, {name[m[2]], false}, rel, weighted ? number(m[6]) : 1.});
    } else PBT_CHECK(line.empty(), "unexpected line: " << line);
  }
  PBT_CHECK(end, "the graph does not end");
}
void parseMl(const std::string& file, Ids& ids, Es& es) {
  pugi::xml_document doc;
  auto res = doc.load_file(file.c_str());
  PBT_CHECK(bool(res), "the graphml file can not be parsed: " << res.description());
  auto root = doc.child("graphml");
  std::map<std::string, std::string> keyName;
  for (auto& k : root.children("key")) keyName[k.attribute("id").value()] = k.attribute("attr.name").value();
  auto gr = root.child("graph");
  PBT_CHECK(std::string(gr.attribute("edgedefault").value()) == "directed", "the graph is not directed");
  std::map<std::string, Key> name;
  auto data = [&](const pugi::xml_node& x) {
    std::map<std::string, std::string> r;
    for (auto& d : x.children("data")) r[keyName[d.attribute("key").value()]] = d.text().get();
    return r;
  };
  static const std::regex info(R"re(^\[id: (-?\d+)(, inverted)?.*\]$)re");
  for (auto& x : gr.children("node")) {
    auto d = data(x);
    std::smatch m;
    PBT_CHECK(std::regex_match(d["info"], m, info), "info '" << d["info"] << "'");
    PBT_CHECK(!name.count(x.attribute("id").value()), "two vertices " << x.attribute("id").value());
    Key q{std::stol(m[1]), m[2].matched};
    name[x.attribute("id").value()] = q;
    ids.push_back(q);
  }
  for (auto& x : gr.children("edge")) {
    auto d = data(x);
    PBT_CHECK(name.count(x.attribute("source").value()) && name.count(x.attribute("target").value()), "edge of unknown vertices");
    es.push_back({name[x.attribute("source").value()], name[x.attribute("target").value()], d["relation"], number(d["routingCost"])});
  }
}

void files(Case& c) {
  Made m(c);
  auto &n = m.n;
  auto& g = *m.g;
  auto& s = c.src;
  const char* env = getenv("PBT_TMP");
  std::string dir = env ? env : "/tmp", f = dir + "/graph_" + std::to_string(getpid());
  struct Remove {
    std::string f;
    ~Remove() { std::remove(f.c_str()); }
  } remove{f};
  size_t most = 0, left = 0;
  Ids all, plain;
  for (auto& v : n.v) all.push_back(v.key), plain.push_back({v.key.first, false});
  for (size_t k = 0; k < n.costM.size(); ++k)
    for (int t = 0; t < 3; ++t) {
      auto excl = RelationType::None;
      std::string what;
      for (auto r : All)
        if (t > 0 && s.chance(1, 3)) excl = excl | r, what += " without " + routing::relationToString(r);
      auto rels = RelationType::None;
      for (auto r : All)
        if (!Net::has(excl, r)) rels = rels | r;
      auto want = edges(n, g, k, rels);
      Ids ids;
      Es es;
      excl == RelationType::None && k == 0 ? g.exportGraphML(f) : g.exportGraphML(f, excl, routing::RoutingCostId(k));
      parseMl(f, ids, es);
      std::string cost = " of cost module " + std::to_string(k) + what;
      sameIds(c, ids, all, "graphml" + cost);
      same(c, es, want, 1e-5, "graphml" + cost);
      most = std::max(most, want.size()), left += want.size() < edges(n, g, k, ~RelationType::None).size();
      ids.clear(), es.clear();
      excl == RelationType::None && k == 0 ? g.exportGraphViz(f) : g.exportGraphViz(f, excl, routing::RoutingCostId(k));
      parseViz(slurp(f), k, ids, es);
      plainIds(want);
      sameIds(c, ids, plain, "graphviz" + cost);
      same(c, es, want, 1e-5, "graphviz" + cost);
    }
  auto bad = routing::RoutingCostId(n.costM.size() + s.below(3));
  std::string no = dir + "/no/such/folder/graph";
  PBT_CHECK(chk::throws<InvalidInputError>([&] { g.exportGraphML(f, RelationType::None, bad); }), "graphml of a cost id that does not exist");
  PBT_CHECK(chk::throws<InvalidInputError>([&] { g.exportGraphViz(f, RelationType::None, bad); }), "graphviz of a cost id that does not exist");
  PBT_CHECK(chk::throws<InvalidInputError>([&] { g.exportGraphML(""); }), "graphml without a file name");
  PBT_CHECK(chk::throws<InvalidInputError>([&] { g.exportGraphViz(""); }), "graphviz without a file name");
  PBT_CHECK(chk::throws<ExportError>([&] { g.exportGraphML(no); }), "graphml to a folder that does not exist");
  PBT_CHECK(chk::throws<ExportError>([&] { g.exportGraphViz(no); }), "graphviz to a folder that does not exist");
  c.label("exports with relations excluded", left);
  c.nontrivial(most > 2);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C29";
  s.rule = "the graph has more than two edges";
  s.assumptions = {"at most one neighbour per side; conflicts as reported by conflicting() (C22)", "lanelets that can be passed in both directions are one point of the debug map"};
  s.props = {
      {"debug_map", "getDebugLaneletMap for all cost modules and options", 3000, 150000, debugMap},
      {"files", "exportGraphML and exportGraphViz with any relations excluded", 2000, 100000, files},
  };
  return pbt::runMain(s, argc, argv);
}
