// Generated well-formed maps for the input/output checks, and canonical snapshots of maps.
#pragma once
#include <lanelet2_core/geometry/Lanelet.h>

#include <boost/variant.hpp>
#include <typeinfo>

#include "common.h"

namespace iomap {
using namespace lanelet;
using Lines = std::map<std::string, std::string>;
struct Snap {
  Lines what;
  std::map<Id, std::array<double, 3>> xyz;
};
inline std::string quote(const std::string& s) {
  std::ostringstream o;
  o << '"';
  for (unsigned char ch : s) {
    if (ch >= 32 && ch < 127 && ch != '"') o << ch;
    else o << "\\x" << std::hex << std::setw(2) << std::setfill('0') << int(ch) << std::dec;
  }
  o << '"';
  return o.str();
}
template <typename M>
std::string attrs(const M& m, std::initializer_list<std::pair<const char*, const char*>> implied = {}) {
  std::map<std::string, std::string> v;
  for (auto& e : m) v[e.first] = e.second.value();
  for (auto& e : implied) v.emplace(e.first, e.second);
  std::string r = " {";
  for (auto& e : v) r += quote(e.first) + "=" + quote(e.second) + " ";
  return r + "}";
}
template <typename R>
std::string idlist(const R& r) {
  std::ostringstream o;
  for (auto it = r.begin(); it != r.end(); ++it) o << it->id() << " ";
  return o.str();
}

//! exact: the inversion flags of the stored objects count (binary); otherwise only what they mean (OSM)
struct Shot {
  bool exact{false};
  struct V : RuleParameterVisitor {
    const Shot* s;
    std::map<std::string, std::string> roles;
    void put(const std::string& t) { roles[role] += t + " "; }
    void operator()(const ConstPoint3d& x) override { put("point:" + std::to_string(x.id())); }
    void operator()(const ConstLineString3d& x) override {
      put("line:" + std::to_string(x.id()) + (s->exact && x.inverted() ? "^-1" : ""));
    }
    void operator()(const ConstPolygon3d& x) override {
      put("polygon:" + std::to_string(x.id()) + (s->exact && x.inverted() ? "^-1" : ""));
    }
    void operator()(const ConstWeakLanelet& x) override {
      put(x.expired() ? std::string("expired") : "lanelet:" + std::to_string(x.lock().id()) + (s->exact && x.lock().inverted() ? "^-1" : ""));
    }
    void operator()(const ConstWeakArea& x) override { put(x.expired() ? std::string("expired") : "area:" + std::to_string(x.lock().id())); }
  };
  std::string line(const ConstLineString3d& l) const {
    return std::to_string(l.id()) + (exact && l.inverted() ? "^-1" : "") + "(" + idlist(l) + ")";
  }
  template <typename R>
  std::string ring(const R& r0) const {
    ConstLineStrings3d r(r0.begin(), r0.end());
    if (r.empty()) return "[]";
    size_t m = 0;
    if (!exact)
      for (size_t i = 0; i < r.size(); ++i)
        if (r[i].id() < r[m].id()) m = i;
    std::string o = "[";
    for (size_t i = 0; i < r.size(); ++i) o += line(r[(m + i) % r.size()]) + " ";
    return o + "]";
  }
  template <typename M>
  Snap operator()(const M& map) const {
    Snap s;
    std::string type = exact ? "" : "x";
    for (auto& p : map.pointLayer) {
      s.what["point " + std::to_string(p.id())] = attrs(p.attributes());
      s.xyz[p.id()] = {p.x(), p.y(), p.z()};
    }
    for (auto& l0 : map.lineStringLayer) {
      ConstLineString3d l = !exact && l0.inverted() ? l0.invert() : l0;
      s.what["line " + std::to_string(l.id())] = line(l) + attrs(l.attributes());
    }
    for (auto& l : map.polygonLayer)
      s.what["polygon " + std::to_string(l.id())] =
          (exact && l.inverted() ? "^-1 " : "") + idlist(l) + (exact ? attrs(l.attributes()) : attrs(l.attributes(), {{"area", "true"}}));
    for (auto& l : map.laneletLayer)
      s.what["lanelet " + std::to_string(l.id())] =
          (exact && l.inverted() ? "^-1 " : "") + ("left " + line(l.leftBound())) + " right " + line(l.rightBound()) +
          (l.hasCustomCenterline() ? " centerline " + line(ConstLineString3d(std::const_pointer_cast<LineStringData>(l.centerline().constData()), l.centerline().inverted())) : "") + " rules " +
          rules(l) + (exact ? attrs(l.attributes()) : attrs(l.attributes(), {{"type", "lanelet"}}));
    for (auto& a : map.areaLayer) {
      std::string o = "outer " + ring(a.outerBound());
      for (auto& h : a.innerBounds()) o += " inner " + ring(h);
      s.what["area " + std::to_string(a.id())] = o + " rules " + rules(a) + (exact ? attrs(a.attributes()) : attrs(a.attributes(), {{"type", "multipolygon"}}));
    }
    for (auto& r : map.regulatoryElementLayer) {
      V v;
      v.s = this;
      RegulatoryElementConstPtr cr = r;
      cr->applyVisitor(v);
      std::string o;
      for (auto& e : v.roles) o += quote(e.first) + ": " + e.second + "; ";
      const RegulatoryElement& re = *cr;
      s.what["rule " + std::to_string(r->id())] =
          std::string(typeid(re).name()) + " " + o + (exact ? attrs(r->attributes()) : attrs(r->attributes(), {{"type", "regulatory_element"}}));
    }
    return s;
  }
  template <typename P>
  static std::string rules(const P& p) {
    std::string o;
    for (auto& r : p.regulatoryElements()) o += std::to_string(r->id()) + " ";
    return o;
  }
};
inline Snap snap(const LaneletMapLayers& m, bool exact = false) { return Shot{exact}(m); }

//! compares, want may lack nothing
inline void same(const Snap& got, const Snap& want, double tolXy, double tolZ, const std::string& ctx) {
  for (auto& e : want.what) {
    auto it = got.what.find(e.first);
    PBT_CHECK(it != got.what.end(), ctx << ": " << e.first << " is missing");
    PBT_CHECK(it->second == e.second, ctx << ": " << e.first << " is\n  " << it->second << "\n  instead of\n  " << e.second);
  }
  for (auto& e : got.what) PBT_CHECK(want.what.count(e.first), ctx << ": there is an additional " << e.first << ": " << e.second);
  for (auto& e : want.xyz) {
    auto& g = got.xyz.at(e.first);
    for (int i = 0; i < 3; ++i) {
      double tol = i < 2 ? tolXy : tolZ;
      bool ok = tol == 0 ? std::memcmp(&g[i], &e.second[i], sizeof(double)) == 0 : std::abs(g[i] - e.second[i]) <= tol;
      PBT_CHECK(ok, ctx << ": coordinate " << i << " of point " << e.first << " is " << std::setprecision(17) << g[i] << " instead of " << e.second[i]);
    }
  }
}

//! every reference of an element of the map to a primitive that is in the map leads to that very object
inline void shared(const LaneletMap& m, const std::string& ctx) {
  auto ls = [&](const ConstLineString3d& l, const std::string& who) {
    if (!m.lineStringLayer.exists(l.id())) return;
    PBT_CHECK(m.lineStringLayer.get(l.id()).constData() == l.constData(), ctx << ": " << who << " has a copy of line string " << l.id());
  };
  auto pts = [&](const auto& l, const std::string& who) {
    for (auto& p : l)
      if (m.pointLayer.exists(p.id())) PBT_CHECK(m.pointLayer.get(p.id()).constData() == p.constData(), ctx << ": " << who << " has a copy of point " << p.id());
  };
  auto regs = [&](const auto& p, const std::string& who) {
    for (auto& r : p.regulatoryElements())
      if (m.regulatoryElementLayer.exists(r->id())) PBT_CHECK(m.regulatoryElementLayer.get(r->id()) == r, ctx << ": " << who << " has a copy of rule " << r->id());
  };
  for (auto& l : m.lineStringLayer) pts(l, "line string " + std::to_string(l.id()));
  for (auto& l : m.polygonLayer) pts(l, "polygon " + std::to_string(l.id()));
  for (auto& l : m.laneletLayer) {
    std::string who = "lanelet " + std::to_string(l.id());
    ls(l.leftBound(), who), ls(l.rightBound(), who), regs(l, who);
  }
  for (auto& a : m.areaLayer) {
    std::string who = "area " + std::to_string(a.id());
    for (auto& l : a.outerBound()) ls(l, who);
    for (auto& h : a.innerBounds())
      for (auto& l : h) ls(l, who);
    regs(a, who);
  }
  struct V : RuleParameterVisitor {
    const LaneletMap* m;
    std::string bad;
    void operator()(const ConstPoint3d& x) override {
      if (m->pointLayer.exists(x.id()) && m->pointLayer.get(x.id()).constData() != x.constData()) bad += " point " + std::to_string(x.id());
    }
    void operator()(const ConstLineString3d& x) override {
      if (m->lineStringLayer.exists(x.id()) && m->lineStringLayer.get(x.id()).constData() != x.constData()) bad += " line string " + std::to_string(x.id());
    }
    void operator()(const ConstPolygon3d& x) override {
      if (m->polygonLayer.exists(x.id()) && m->polygonLayer.get(x.id()).constData() != x.constData()) bad += " polygon " + std::to_string(x.id());
    }
    void operator()(const ConstWeakLanelet& w) override {
      if (w.expired()) return;
      auto x = w.lock();
      if (m->laneletLayer.exists(x.id()) && m->laneletLayer.get(x.id()).constData() != x.constData()) bad += " lanelet " + std::to_string(x.id());
    }
    void operator()(const ConstWeakArea& w) override {
      if (w.expired()) return;
      auto x = w.lock();
      if (m->areaLayer.exists(x.id()) && m->areaLayer.get(x.id()).constData() != x.constData()) bad += " area " + std::to_string(x.id());
    }
  };
  for (auto& r : m.regulatoryElementLayer) {
    V v;
    v.m = &m;
    RegulatoryElementConstPtr(r)->applyVisitor(v);
    PBT_CHECK(v.bad.empty(), ctx << ": rule " << r->id() << " has copies of" << v.bad);
  }
}

struct Opts {
  bool osm{true};      //!< only what OSM can express
  int richness{2};     //!< number of extra elements
  double extent{1};    //!< scale of the free coordinates
  bool smallIds{false};
  double bx{0}, by{0};  //!< added to all coordinates
};

class Gen {
 public:
  Case& c;
  pbt::Src& s;
  Opts o;
  Points3d pts;
  LineStrings3d lss;
  Polygons3d polys;
  Lanelets lls;
  Areas areas;
  std::vector<RegulatoryElementPtr> regs;
  std::set<Id> used;

  explicit Gen(Case& cc, Opts oo = {}) : c(cc), s(cc.src), o(oo) {
    idMode_ = int(s.below(4));
    textMode_ = int(s.below(3));
    zMode_ = int(s.below(3));
  }
  void run() {
    roads();
    size_t n = s.size(0, size_t(2 * o.richness));
    for (size_t i = 0; i < n; ++i) free();
    size_t k = s.size(0, size_t(2 * o.richness) + 2);
    for (size_t i = 0; i < k; ++i) rule();
    attach();
  }
  LaneletMapUPtr map() {
    auto m = std::make_unique<LaneletMap>();
    std::vector<std::function<void()>> add;
    for (auto& x : pts) add.push_back([&m, x] { m->add(x); });
    for (auto& x : lss) add.push_back([&m, x] { m->add(x); });
    for (auto& x : polys) add.push_back([&m, x] { m->add(x); });
    for (auto& x : lls) add.push_back([&m, x] { m->add(x); });
    for (auto& x : areas) add.push_back([&m, x] { m->add(x); });
    for (auto& x : regs) add.push_back([&m, x] { m->add(x); });
    while (!add.empty()) {
      size_t i = s.below(add.size());
      add[i]();
      add.erase(add.begin() + long(i));
    }
    return m;
  }
  Id nid() {
    for (;;) {
      Id id = 0;
      int mode = o.smallIds ? 0 : idMode_;
      if (mode == 3) mode = int(s.below(3));
      switch (mode) {
        case 0: id = Id(1 + s.below(5000)); break;
        case 1: id = -Id(1 + s.below(5000)); break;
        default: id = s.of({Id(1) << 31, Id(1) << 53, Id(1) << 61, Id(9000000000000)}) + Id(s.below(5000)) - 2500;
      }
      if (used.insert(id).second) return id;
    }
  }
  std::string text() {
    static const std::vector<std::string> plain{"yes", "no", "road", "50", "a b", "1.5", "de205", "", "5 m", "3x"};
    static const std::vector<std::string> nasty{"<", ">", "&", "\"", "'", " ", "  ", "\t", "\n", "\r", "&amp;", "]]>", "<!--", "ä", "€", "😀", "é", "\\", "/", "%s", "\x01", "0", "a", "Z"};
    if (textMode_ == 0) return s.pick(plain);
    if (textMode_ == 1 && s.chance(1, 2)) return s.pick(plain);
    std::string r;
    size_t n = s.size(0, 6);
    for (size_t i = 0; i < n; ++i) r += s.pick(nasty);
    return r;
  }
  AttributeMap attributes(bool relation, bool point, bool allowArea) {
    AttributeMap m;
    size_t n = s.size(0, 4);
    for (size_t i = 0; i < n; ++i) {
      std::string k = s.chance(1, 2) ? s.of<std::string>({"type", "subtype", "location", "one_way", "participant:vehicle", "x:y", "speed_limit", "color", "role", "ref", "id", "ele", "k", "area"}) : text();
      if (k.empty() && o.osm && s.flip()) continue;
      if (k == "type" && relation) continue;
      if (k == "subtype" && relation) continue;
      if (k == "ele" && point && o.osm) continue;
      if (k == "area" && !allowArea && o.osm) continue;
      m[k] = text();
    }
    return m;
  }
  double z() { return zMode_ == 0 ? 0. : zMode_ == 1 ? s.grid(-20, 300, 0.5) : s.chance(1, 3) ? 0. : s.real(-400, 3000); }
  Point3d point(double x, double y) {
    Point3d p(nid(), x + o.bx, y + o.by, z(), attributes(false, true, true));
    return p;
  }
  double coord() { return (s.chance(1, 2) ? s.grid(-200, 200, 1) : s.real(-500, 500)) * o.extent; }

 private:
  LineString3d stored(Points3d p) {
    if (s.flip()) std::reverse(p.begin(), p.end());
    LineString3d l(nid(), p, attributes(false, false, false));
    return l;
  }
  static LineString3d along(const LineString3d& l, const Point3d& from) { return l.front() == from ? l : l.invert(); }
  void roads() {
    size_t cols = s.below(4), lanes = 1 + s.below(3);
    if (cols == 0) return;
    double k = s.of({0., 0., 1. / 80, -1. / 80, 1. / 150}), phi0 = s.real(0, 2 * M_PI), x0 = coord(), y0 = coord();
    auto at = [&](double q, double t) {
      double x = x0, y = y0, phi = phi0;
      if (k == 0) {
        x += q * std::cos(phi), y += q * std::sin(phi);
      } else {
        x += (std::sin(phi + k * q) - std::sin(phi)) / k, y += (std::cos(phi) - std::cos(phi + k * q)) / k;
        phi += k * q;
      }
      return std::make_pair(x - t * std::sin(phi), y + t * std::cos(phi));
    };
    std::vector<double> S{0}, T{0};
    for (size_t i = 0; i < cols; ++i) S.push_back(S.back() + s.grid(5, 25, 1));
    for (size_t i = 0; i < lanes; ++i) T.push_back(T.back() + s.grid(2, 5, 0.5));
    auto mk = [&](double q, double t) {
      auto p = at(q, t);
      return point(p.first, p.second);
    };
    std::vector<Points3d> node(cols + 1);
    for (size_t i = 0; i <= cols; ++i)
      for (size_t j = 0; j <= lanes; ++j) node[i].push_back(mk(S[i], T[j]));
    std::map<std::pair<size_t, size_t>, Optional<LineString3d>> along_, across_;
    auto lon = [&](size_t i, size_t j) {  // boundary j in column i, forward
      auto& l = along_[{i, j}];
      if (!l) {
        Points3d p{node[i][j]};
        size_t n = s.below(4);
        for (size_t a = 1; a <= n; ++a) p.push_back(mk(S[i] + (S[i + 1] - S[i]) * double(a) / double(n + 1), T[j]));
        p.push_back(node[i + 1][j]);
        l = stored(p);
      }
      return along(*l, node[i][j]);
    };
    auto lat = [&](size_t i, size_t j) {  // column end i, lane j, towards the left
      auto& l = across_[{i, j}];
      if (!l) {
        Points3d p{node[i][j]};
        if (s.chance(1, 3)) p.push_back(mk(S[i], (T[j] + T[j + 1]) / 2));
        p.push_back(node[i][j + 1]);
        l = stored(p);
      }
      return along(*l, node[i][j]);
    };
    for (size_t i = 0; i < cols; ++i) {
      for (size_t j = 0; j < lanes; ++j) {
        switch (s.weighted({6, 2, 1})) {
          case 0: {
            LineString3d left = lon(i, j + 1), right = lon(i, j);
            if (s.chance(1, 3)) {
              auto t = left.invert();
              left = right.invert();
              right = t;
            }
            Lanelet l(nid(), left, right, laneletAttr("lanelet"));
            if (s.chance(1, 5)) {
              bool fwd = left.front() == lon(i, j + 1).front();
              Points3d p;
              double mid = (T[j] + T[j + 1]) / 2;
              for (double q : {0.1, 0.5, 0.9}) p.push_back(mk(S[i] + (S[i + 1] - S[i]) * (fwd ? q : 1 - q), mid));
              l.setCenterline(along(stored(p), p.front()));
            }
            if (s.chance(1, 8)) l = Lanelet(l.invert());
            lls.push_back(l);
            break;
          }
          case 1: {
            LineStrings3d outer{lat(i, j), lon(i, j + 1), lat(i + 1, j).invert(), lon(i, j).invert()};
            if (s.chance(1, 4)) {  // join two neighbouring sides
              outer = {lat(i, j), lon(i, j + 1), stored({node[i + 1][j + 1], node[i + 1][j], node[i][j]})};
              if (outer[2].front() != node[i + 1][j + 1]) outer[2] = outer[2].invert();
            } else if (s.chance(1, 4)) {
              Points3d p{node[i][j], node[i][j + 1], node[i + 1][j + 1], node[i + 1][j], node[i][j]};
              outer = {LineString3d(nid(), p, attributes(false, false, false))};
            }
            std::rotate(outer.begin(), outer.begin() + long(s.below(outer.size())), outer.end());
            std::vector<LineStrings3d> inner;
            size_t holes = s.weighted({3, 1, 1});
            double t0 = T[j], dt = T[j + 1] - T[j];
            for (size_t h = 0; h < holes; ++h) {
              double q0 = S[i] + (S[i + 1] - S[i]) * (h == 0 ? 0.2 : 0.6), dq = (S[i + 1] - S[i]) * 0.2;
              Points3d p{mk(q0, t0 + 0.3 * dt), mk(q0, t0 + 0.7 * dt), mk(q0 + dq, t0 + 0.6 * dt), mk(q0 + dq, t0 + 0.35 * dt)};
              inner.push_back(loop(p));
            }
            Area a(nid(), outer, inner, laneletAttr("multipolygon"));
            areas.push_back(a);
            break;
          }
          default: break;
        }
      }
    }
  }
  AttributeMap laneletAttr(const char* type) {
    auto m = attributes(true, false, true);
    if (s.chance(1, 3)) m["type"] = type;
    if (s.chance(1, 2)) m["subtype"] = s.of<std::string>({"road", "crosswalk", "freespace", "a&b"});
    return m;
  }
  LineStrings3d loop(Points3d p) {  // clockwise ring, split into 1..n line strings
    size_t n = p.size(), k = 1 + s.below(3);
    std::vector<size_t> cut;
    if (k == 1) {
      p.push_back(p.front());
      return {LineString3d(nid(), p, attributes(false, false, false))};
    }
    while (cut.size() < k) {
      size_t x = s.below(n);
      if (std::find(cut.begin(), cut.end(), x) == cut.end()) cut.push_back(x);
    }
    std::sort(cut.begin(), cut.end());
    LineStrings3d r;
    for (size_t i = 0; i < k; ++i) {
      Points3d q;
      size_t a = cut[i], b = cut[(i + 1) % k] + (i + 1 == k ? n : 0);
      for (size_t j = a; j <= b; ++j) q.push_back(p[j % n]);
      auto l = stored(q);
      r.push_back(along(l, q.front()));
    }
    return r;
  }
  Points3d somePoints(size_t lo, size_t hi) {
    Points3d p;
    size_t n = s.size(lo, hi);
    for (size_t i = 0; i < n; ++i) {
      if (!pts.empty() && s.chance(1, 3)) {
        p.push_back(s.pick(pts));
      } else {
        p.push_back(point(coord(), coord()));
        if (s.flip()) pts.push_back(p.back());
      }
    }
    return p;
  }
  void free() {
    switch (s.below(3)) {
      case 0: pts.push_back(point(coord(), coord())); break;
      case 1: {
        LineString3d l(nid(), somePoints(o.osm ? 1 : 0, 5), attributes(false, false, false));
        lss.push_back(s.chance(1, 4) ? l.invert() : l);
        break;
      }
      default: {
        auto a = attributes(false, false, false);
        if (s.chance(1, 3)) a["area"] = s.of<std::string>({"yes", "true", "1"});
        Polygon3d l(nid(), somePoints(o.osm ? 1 : 0, 5), a);
        polys.push_back(l);
      }
    }
  }
  LineString3d anyLs() {
    if (!lls.empty() && s.chance(1, 4)) {
      Lanelet l = s.pick(lls);
      return s.flip() ? l.leftBound() : l.rightBound();
    }
    if (lss.empty() || s.chance(1, 3)) lss.emplace_back(nid(), somePoints(2, 3), attributes(false, false, false));
    auto l = s.pick(lss);
    return s.chance(1, 5) ? l.invert() : l;
  }
  Polygon3d anyPoly() {
    if (polys.empty() || s.chance(1, 3)) polys.emplace_back(nid(), somePoints(3, 4), attributes(false, false, false));
    return s.pick(polys);
  }
  LineStringOrPolygon3d anyLp() {
    if (s.chance(1, 3)) return anyPoly();
    return anyLs();
  }
  Lanelet anyLl() {
    auto l = s.pick(lls);
    return !o.osm && s.chance(1, 5) ? l.invert() : l;
  }
  template <typename F>
  auto many(size_t lo, size_t hi, F f) {
    std::vector<decltype(f())> r;
    size_t n = s.size(lo, hi);
    for (size_t i = 0; i < n; ++i) r.push_back(f());
    return r;
  }
  void rule() {
    auto a = attributes(true, false, true);
    Id id = nid();
    auto ls = [&] { return anyLs(); };
    auto lp = [&] { return anyLp(); };
    auto ll = [&] { return anyLl(); };
    auto opt = [&]() -> Optional<LineString3d> {
      if (s.flip()) return anyLs();
      return {};
    };
    auto signs = [&](size_t lo, size_t hi) {
      TrafficSignsWithType t;
      t.trafficSigns = many(lo, hi, lp);
      t.type = s.of<std::string>({"de274", "de205"});
      return t;
    };
    auto lines = [&](size_t hi) {
      LineStrings3d r;
      for (auto& x : many(0, hi, ls)) r.push_back(x);
      return r;
    };
    switch (s.below(6)) {
      case 0: regs.push_back(TrafficLight::make(id, a, many(1, 3, lp), opt())); return;
      case 1:
        if (lls.empty()) break;
        regs.push_back(RightOfWay::make(id, a, many(1, 3, ll), many(1, 3, ll), opt()));
        return;
      case 2: {
        if (lls.empty()) break;
        LaneletsWithStopLines v;
        bool with = s.flip();
        for (auto& l : many(1, 3, ll)) {
          LaneletWithStopLine x{l, {}};
          if (with) x.stopLine = anyLs();
          v.push_back(x);
        }
        regs.push_back(AllWayStop::make(id, a, v, many(0, 2, lp)));
        return;
      }
      case 3: regs.push_back(TrafficSign::make(id, a, signs(1, 3), s.flip() ? signs(1, 2) : TrafficSignsWithType{}, lines(2), lines(1))); return;
      case 4:
        if (s.flip()) regs.push_back(SpeedLimit::make(id, a, signs(1, 2), {}, lines(1)));
        else regs.push_back(SpeedLimit::make(id, a, "de274-60", lines(2)));
        return;
      default: break;
    }
    RuleParameterMap m;
    size_t n = s.size(0, 5);
    for (size_t i = 0; i < n; ++i) {
      std::string role = s.chance(1, 2) ? s.of<std::string>({"refers", "ref_line", "yield", "right_of_way", "cancels", "cancel_line", "left", "regulatory_element", "outer"}) : text();
      switch (s.below(5)) {
        case 0:
          if (pts.empty()) pts.push_back(point(coord(), coord()));
          m[role].push_back(s.pick(pts));
          break;
        case 1: m[role].push_back(anyLs()); break;
        case 2: m[role].push_back(anyPoly()); break;
        case 3:
          if (!lls.empty()) m[role].push_back(anyLl());
          break;
        default:
          if (!areas.empty()) m[role].push_back(s.pick(areas));
      }
    }
    a["subtype"] = "regulatory_element";
    regs.push_back(std::make_shared<GenericRegulatoryElement>(id, m, a));
  }
  void attach() {
    auto some = [&](auto& prims) {
      for (auto& p : prims) {
        if (regs.empty() || !s.chance(1, 2)) continue;
        size_t n = 1 + s.below(3);
        for (size_t i = 0; i < n; ++i) {
          auto r = s.pick(regs);
          auto& have = p.regulatoryElements();
          if (std::find(have.begin(), have.end(), r) == have.end()) p.addRegulatoryElement(r);
        }
      }
    };
    some(lls), some(areas);
  }
  int idMode_{0}, textMode_{0}, zMode_{0};
};
}  // namespace iomap
