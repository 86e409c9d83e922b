// C28: the enclosing polygon of a path is made of the borders its elements do not share with their neighbours in the path.
#include <lanelet2_core/geometry/Polygon.h>

#include "lattice.h"
#include "roads.h"
using namespace lanelet;
using pbt::Case;

namespace {
using Pos = std::tuple<double, double, double>;
using Edge = std::pair<Pos, Pos>;
using Edges = std::map<Edge, int>;
using Ps = std::vector<ConstPoint3d>;

Pos pos(const ConstPoint3d& p) { return Pos{p.x(), p.y(), p.z()}; }
Pos pos(const BasicPoint3d& p) { return Pos{p.x(), p.y(), p.z()}; }
std::string str(const Edges& es) {
  std::ostringstream o;
  for (auto& e : es)
    if (e.second)
      o << " " << e.second << "x(" << std::get<0>(e.first.first) << "," << std::get<1>(e.first.first) << " -> " << std::get<0>(e.first.second) << "," << std::get<1>(e.first.second) << ")";
  return o.str();
}
template <typename R>
void addRing(Edges& es, const R& r, int n = 1) {
  for (size_t i = 0; i < r.size(); ++i) {
    Pos a = pos(r[i]), b = pos(r[(i + 1) % r.size()]);
    if (a != b) es[{a, b}] += n;
  }
}
void addLine(Edges& es, const Ps& l, int n) {
  for (size_t i = 0; i + 1 < l.size(); ++i)
    if (pos(l[i]) != pos(l[i + 1])) es[{pos(l[i]), pos(l[i + 1])}] += n;
}
Ps points(const ConstLineString3d& l) { return Ps(l.begin(), l.end()); }
Ps reversed(Ps p) {
  std::reverse(p.begin(), p.end());
  return p;
}
Ps ring(const ConstLaneletOrArea& e) {  // clockwise
  Ps r;
  if (e.isLanelet()) {
    r = points(e.lanelet()->leftBound());
    for (auto& p : reversed(points(e.lanelet()->rightBound()))) r.push_back(p);
  } else {
    for (auto& l : e.area()->outerBound())
      for (auto& p : points(l)) r.push_back(p);
  }
  return r;
}
//! the border between two elements: what is left out of the ring of the first and of the second, and the side of each it is on
struct Border {
  Ps first, second;
  std::string side1, side2;
};
std::vector<Border> bordersLL(const ConstLanelet& a, const ConstLanelet& b) {
  std::vector<Border> r;
  auto al = points(a.leftBound()), ar = points(a.rightBound()), bl = points(b.leftBound()), br = points(b.rightBound());
  if (al.back() == bl.front() && ar.back() == br.front()) r.push_back({{al.back(), ar.back()}, {br.front(), bl.front()}, "end", "start"});
  if (bl.back() == al.front() && br.back() == ar.front()) r.push_back({{ar.front(), al.front()}, {bl.back(), br.back()}, "start", "end"});
  if (a.leftBound() == b.rightBound()) r.push_back({al, reversed(br), "left", "right"});
  if (a.rightBound() == b.leftBound()) r.push_back({reversed(ar), bl, "right", "left"});
  return r;
}
std::vector<Border> bordersLA(const ConstLanelet& l, const ConstArea& a) {
  std::vector<Border> r;
  auto ll = points(l.leftBound()), lr = points(l.rightBound());
  size_t i = 0;
  for (auto& o : a.outerBound()) {
    auto p = points(o);
    std::string side = std::to_string(i++);
    if (p.back() == ll.back() && p.front() == lr.back()) r.push_back({{ll.back(), lr.back()}, p, "end", side});
    if (p.back() == lr.front() && p.front() == ll.front()) r.push_back({{lr.front(), ll.front()}, p, "start", side});
    if (o == l.leftBound().invert()) r.push_back({ll, p, "left", side});
    if (o == l.rightBound()) r.push_back({reversed(lr), p, "right", side});
  }
  return r;
}
std::vector<Border> bordersAA(const ConstArea& a, const ConstArea& b) {
  std::vector<Border> r;
  auto oa = a.outerBound(), ob = b.outerBound();
  for (size_t i = 0; i < oa.size(); ++i)
    for (size_t j = 0; j < ob.size(); ++j)
      if (oa[i].invert() == ob[j]) r.push_back({points(oa[i]), points(ob[j]), std::to_string(i), std::to_string(j)});
  return r;
}
std::vector<Border> borders(const ConstLaneletOrArea& a, const ConstLaneletOrArea& b) {
  if (a.isLanelet() && b.isLanelet()) return bordersLL(*a.lanelet(), *b.lanelet());
  if (a.isLanelet()) return bordersLA(*a.lanelet(), *b.area());
  if (b.isLanelet()) {
    auto r = bordersLA(*b.lanelet(), *a.area());
    for (auto& x : r) std::swap(x.first, x.second), std::swap(x.side1, x.side2);
    return r;
  }
  return bordersAA(*a.area(), *b.area());
}
bool sameElement(const ConstLaneletOrArea& a, const ConstLaneletOrArea& b) {
  return a.isLanelet() == b.isLanelet() && (a.isLanelet() ? a.lanelet()->constData() == b.lanelet()->constData() : a.area()->constData() == b.area()->constData());
}
std::string name(const ConstLaneletOrArea& e) { return (e.isLanelet() ? (e.lanelet()->inverted() ? "lanelet -" : "lanelet ") : "area ") + std::to_string(e.id()); }
std::string name(const ConstLaneletOrAreas& p) {
  std::string o;
  for (auto& e : p) o += (o.empty() ? "" : ", ") + name(e);
  return "enclosing polygon of [" + o + "]";
}
//! nothing to expect (returns false) if a border is ambiguous or an element is left where it was entered
bool expected(const ConstLaneletOrAreas& path, Edges& es) {
  std::string in;
  for (size_t i = 0; i < path.size(); ++i) {
    addRing(es, ring(path[i]));
    if (i + 1 == path.size()) break;
    auto b = borders(path[i], path[i + 1]);
    if (b.size() != 1 || (i > 0 && b[0].side1 == in)) return false;
    in = b[0].side2;
    addLine(es, b[0].first, -1), addLine(es, b[0].second, -1);
  }
  return true;
}
void judge(Case& c, const ConstLaneletOrAreas& path, Edges want) {
  auto poly = routing::getEnclosingPolygon3d(routing::LaneletOrAreaPath(path));
  c.did();
  Edges diff = want;
  addRing(diff, poly, -1);
  auto s = str(diff);
  PBT_CHECK(s.empty(), name(path) << ": edges that lack (or are too many, if negative):" << s);
  std::set<Pos> all;
  for (auto& e : path)
    for (auto& p : ring(e)) all.insert(pos(p));
  for (auto& p : poly) PBT_CHECK(all.count(pos(p)), name(path) << " has a point that belongs to no element: " << p.transpose());
}

void walks(Case& c) {
  lattice::World w{c};
  auto& s = c.src;
  w.flatZ = !s.chance(1, 4);
  w.lattice(0, {0, 0}, s.of({4., 8., 16.}), s.of({3., 4., 8.}), int(s.range(1, 3)), int(s.range(2, 5)));
  w.describe();
  ConstLaneletOrAreas all;
  for (auto& l : w.llts) all.emplace_back(ConstLanelet(l)), all.emplace_back(ConstLanelet(l.invert()));
  for (auto& a : w.ars) all.emplace_back(ConstArea(a));
  if (all.empty()) throw pbt::Discard{};
  PBT_CHECK(routing::getEnclosingPolygon3d(routing::LaneletOrAreaPath()).empty(), "enclosing polygon of an empty path");
  size_t longest = 0, mixed = 0, side = 0;
  for (int t = 0; t < 6; ++t) {
    ConstLaneletOrAreas path{c.src.pick(all)};
    size_t len = s.size(1, 9);
    std::string in;
    std::set<std::string> sides;
    while (path.size() < len) {
      std::vector<std::pair<ConstLaneletOrArea, Border>> next;
      for (auto& e : all) {
        bool used = false;
        for (auto& p : path) used = used || sameElement(p, e);
        if (used) continue;
        auto b = borders(path.back(), e);
        if (b.size() == 1 && (path.size() == 1 || b[0].side1 != in)) next.emplace_back(e, b[0]);
      }
      if (next.empty()) break;
      auto& n = s.pick(next);
      path.push_back(n.first);
      in = n.second.side2;
      sides.insert(n.second.side1);
    }
    Edges want;
    if (!expected(path, want)) continue;
    judge(c, path, want);
    longest = std::max(longest, path.size());
    bool l = false, a = false;
    for (auto& e : path) e.isArea() ? a = true : l = true;
    mixed += l && a && path.size() > 2;
    side += sides.count("left") || sides.count("right");
  }
  c.label("paths with lanelets and areas", mixed), c.label("paths with lane changes", side), c.label("5 and more elements", longest > 4);
  c.nontrivial(longest > 2);
}

void networks(Case& c) {
  roads::NetOptions o;
  o.maxCols = 6;
  roads::Net n(c, o);
  n.make();
  if (!n.unique || n.v.empty()) throw pbt::Discard{};
  auto g = n.graph();
  n.describe();
  size_t judged = 0, area = 0;
  for (int t = 0; t < 8; ++t) {
    auto &a = n.v[c.src.below(n.v.size())], &b = n.v[c.src.below(n.v.size())];
    auto p = g->shortestPathIncludingAreas(a.p, b.p, routing::RoutingCostId(c.src.below(n.costM.size())), true);
    if (!p) continue;
    ConstLaneletOrAreas path(p->begin(), p->end());
    Edges want;
    if (!expected(path, want)) continue;
    judge(c, path, want);
    judged += path.size() > 2;
    for (auto& e : path) area += e.isArea();
  }
  c.label("areas on paths", area);
  c.nontrivial(judged > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C28";
  s.rule = "a path of more than two elements was judged";
  s.assumptions = {"neighbours in a path share exactly one border, and an element is not left where it was entered"};
  s.props = {
      {"walks", "walks over lattices of lanelets (both views) and areas: start to end, end to start, sideways, into and out of areas", 6000, 300000, walks},
      {"networks", "shortest paths of routing graphs", 3000, 150000, networks},
  };
  return pbt::runMain(s, argc, argv);
}
