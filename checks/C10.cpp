// C10: regulatory elements report exactly the roles and parameters they were given.
#include "common.h"
using namespace lanelet;

namespace {
enum Kind { LS, POLY, LL, AR, PT };
//! one parameter in the model
struct Par {
  int kind{0};
  size_t idx{0};
  bool inv{false};
  bool operator==(const Par& o) const { return kind == o.kind && idx == o.idx && inv == o.inv; }
};
using Pars = std::vector<Par>;
using Roles = std::map<std::string, Pars>;

struct Pool {
  std::vector<LineString3d> ls;
  std::vector<Polygon3d> poly;
  std::vector<Optional<Lanelet>> lls;  // empty: not referenced by anybody any more
  std::vector<Optional<Area>> areas;
  std::vector<Point3d> pts;
  explicit Pool(Case& c) {
    Id id = 1000;
    auto pt = [&](double x, double y) { return Point3d(id++, x, y, 0); };
    for (int i = 0; i < 6; ++i) {
      ls.emplace_back(100 + i, Points3d{pt(i, 0), pt(i, 1)});
      if (c.src.chance(1, 2)) ls.back().setAttribute(AttributeName::Subtype, "de" + std::to_string(270 + c.src.below(5)));
    }
    for (int i = 0; i < 3; ++i) {
      poly.emplace_back(200 + i, Points3d{pt(i, 0), pt(i, 1), pt(i + 0.5, 1)});
      if (c.src.chance(1, 2)) poly.back().setAttribute(AttributeName::Subtype, "us" + std::to_string(c.src.below(5)));
    }
    for (int i = 0; i < 5; ++i)
      lls.emplace_back(Lanelet(300 + i, LineString3d(3000 + i, {pt(i, 1), pt(i + 1, 1)}), LineString3d(3100 + i, {pt(i, 0), pt(i + 1, 0)})));
    for (int i = 0; i < 2; ++i) areas.emplace_back(Area(400 + i, {LineString3d(4000 + i, {pt(i, 1), pt(i + 1, 1), pt(i, 0), pt(i, 1)})}));
    for (int i = 0; i < 3; ++i) pts.push_back(pt(i, i));
  }
  LineString3d l(Par p) const { return p.inv ? ls[p.idx].invert() : ls[p.idx]; }
  LineStringOrPolygon3d lp(Par p) const { return p.kind == LS ? LineStringOrPolygon3d(l(p)) : LineStringOrPolygon3d(poly[p.idx]); }
  Lanelet llt(Par p) const { return p.inv ? lls[p.idx]->invert() : *lls[p.idx]; }
  RuleParameter rule(Par p) const {
    switch (p.kind) {
      case LS: return l(p);
      case POLY: return poly[p.idx];
      case LL: return llt(p);
      case AR: return *areas[p.idx];
      default: return pts[p.idx];
    }
  }
  Id id(Par p) const {
    switch (p.kind) {
      case LS: return ls[p.idx].id();
      case POLY: return poly[p.idx].id();
      case LL: return Id(300 + p.idx);
      case AR: return Id(400 + p.idx);
      default: return pts[p.idx].id();
    }
  }
  bool alive(Par p) const { return p.kind == LL ? !!lls[p.idx] : p.kind == AR ? !!areas[p.idx] : true; }
  AttributeMap& attr(Par p) { return p.kind == LS ? ls[p.idx].attributes() : poly[p.idx].attributes(); }
  std::string show(Par p) const {
    static const char* n[] = {"line", "poly", "llt", "area", "point"};
    return std::string(n[p.kind]) + std::to_string(p.idx) + (p.inv ? "^-1" : "");
  }
  std::string name(Par p) const { return alive(p) ? show(p) : std::string("expired"); }
};

// canonical names of what the library returns: kind, id and direction; the object has to be the pool's own one
struct Namer : RuleParameterVisitor {
  const Pool* p;
  std::vector<std::string> out;
  std::vector<std::string> roles;
  explicit Namer(const Pool& pool) : p(&pool) {}
  std::string name(const ConstLineString3d& l) const {
    for (size_t i = 0; i < p->ls.size(); ++i)
      if (l.constData() == p->ls[i].constData()) return p->show({LS, i, l.inverted()});
    return "foreign line";
  }
  std::string name(const ConstPolygon3d& l) const {
    for (size_t i = 0; i < p->poly.size(); ++i)
      if (l.constData() == p->poly[i].constData()) return p->show({POLY, i, l.inverted()});
    return "foreign polygon";
  }
  std::string name(const ConstLanelet& l) const {
    for (size_t i = 0; i < p->lls.size(); ++i)
      if (p->lls[i] && l.constData() == p->lls[i]->constData()) return p->show({LL, i, l.inverted()});
    return "foreign lanelet";
  }
  std::string name(const ConstArea& l) const {
    for (size_t i = 0; i < p->areas.size(); ++i)
      if (p->areas[i] && l.constData() == p->areas[i]->constData()) return p->show({AR, i, false});
    return "foreign area";
  }
  std::string name(const ConstPoint3d& l) const {
    for (size_t i = 0; i < p->pts.size(); ++i)
      if (l == p->pts[i]) return p->show({PT, i, false});
    return "foreign point";
  }
  std::string name(const ConstLineStringOrPolygon3d& l) const { return l.isPolygon() ? name(*l.polygon()) : name(*l.lineString()); }
  void push(std::string s) { out.push_back(std::move(s)), roles.push_back(role); }
  void operator()(const ConstPoint3d& x) override { push(name(x)); }
  void operator()(const ConstLineString3d& x) override { push(name(x)); }
  void operator()(const ConstPolygon3d& x) override { push(name(x)); }
  void operator()(const ConstWeakLanelet& x) override { push(x.expired() ? "expired" : name(x.lock())); }
  void operator()(const ConstWeakArea& x) override { push(x.expired() ? "expired" : name(x.lock())); }
  template <typename V>
  std::vector<std::string> names(const V& v) const {
    std::vector<std::string> r;
    for (auto& e : v) r.push_back(name(e));
    return r;
  }
};

const std::vector<std::string> kRoles{"refers", "ref_line", "yield", "right_of_way", "cancels", "cancel_line", "custom role"};
const std::vector<std::pair<std::string, RoleName>> kEnums{{"refers", RoleName::Refers}, {"ref_line", RoleName::RefLine},
                                                          {"yield", RoleName::Yield}, {"right_of_way", RoleName::RightOfWay},
                                                          {"cancels", RoleName::Cancels}, {"cancel_line", RoleName::CancelLine}};

struct World {
  Pool pool;
  Roles m;
  RegulatoryElementPtr re;
  explicit World(Case& c) : pool(c) {}

  std::vector<std::string> expect(const std::string& role, std::initializer_list<int> kinds, bool dropExpired) const {
    std::vector<std::string> r;
    auto it = m.find(role);
    if (it == m.end()) return r;
    for (auto& p : it->second) {
      if (std::find(kinds.begin(), kinds.end(), p.kind) == kinds.end()) continue;
      if (!pool.alive(p)) {
        if (!dropExpired) r.push_back("expired");
      } else {
        r.push_back(pool.show(p));
      }
    }
    return r;
  }
  //! the role map and the generic queries agree with the model
  void verifyGeneric() const {
    const RegulatoryElement& r = *re;
    Namer n(pool);
    auto params = r.getParameters();
    auto roles = r.roles();
    PBT_EQ(roles.size(), r.size(), "roles() and size()");
    PBT_EQ(params.size(), r.size(), "getParameters() and size()");
    PBT_EQ(r.empty(), roles.empty(), "empty() and roles()");
    VEQ(chk::sorted(roles), [&] { std::vector<std::string> v; for (auto& e : params) v.push_back(e.first); return chk::sorted(v); }(), "roles() and getParameters()");
    std::set<std::string> known(roles.begin(), roles.end());
    for (auto& e : m)
      if (!e.second.empty()) PBT_CHECK(known.count(e.first), "role " << e.first << " is missing in roles()");
    for (auto& role : roles) {
      Namer v(pool);
      auto it = params.find(role);
      PBT_CHECK(it != params.end(), "role " << role << " is not in getParameters()");
      for (auto& e : it->second) boost::apply_visitor(v, e);
      VEQ(v.out, expect(role, {LS, POLY, LL, AR, PT}, false), "parameters of role " << role);
    }
    for (auto& role : kRoles) {
      VEQ(n.names(r.getParameters<ConstLineString3d>(role)), expect(role, {LS}, true), "line strings of role " << role);
      VEQ(n.names(r.getParameters<ConstPolygon3d>(role)), expect(role, {POLY}, true), "polygons of role " << role);
      VEQ(n.names(r.getParameters<ConstLanelet>(role)), expect(role, {LL}, true), "lanelets of role " << role);
      VEQ(n.names(r.getParameters<ConstArea>(role)), expect(role, {AR}, true), "areas of role " << role);
      VEQ(n.names(r.getParameters<ConstPoint3d>(role)), expect(role, {PT}, true), "points of role " << role);
    }
    for (auto& e : kEnums) {
      VEQ(n.names(r.getParameters<ConstLineString3d>(e.second)), expect(e.first, {LS}, true), "line strings of role (enum) " << e.first);
      VEQ(n.names(r.getParameters<ConstPolygon3d>(e.second)), expect(e.first, {POLY}, true), "polygons of role (enum) " << e.first);
      VEQ(n.names(r.getParameters<ConstLanelet>(e.second)), expect(e.first, {LL}, true), "lanelets of role (enum) " << e.first);
      VEQ(n.names(r.getParameters<ConstArea>(e.second)), expect(e.first, {AR}, true), "areas of role (enum) " << e.first);
      VEQ(n.names(r.getParameters<ConstPoint3d>(e.second)), expect(e.first, {PT}, true), "points of role (enum) " << e.first);
    }
    // the visitor sees every parameter once, with its role
    Namer v(pool);
    r.applyVisitor(v);
    std::vector<std::string> got, want;
    for (size_t i = 0; i < v.out.size(); ++i) got.push_back(v.roles[i] + ":" + v.out[i]);
    for (auto& e : m)
      for (auto& p : e.second) want.push_back(e.first + ":" + pool.name(p));
    VEQ(chk::sorted(got), chk::sorted(want), "applyVisitor");
    // find and has
    auto present = [&](Par p) {
      for (auto& e : m)
        for (auto& q : e.second)
          if (q.kind == p.kind && q.idx == p.idx && pool.alive(q)) return true;
      return false;
    };
    auto check = [&](Par p, bool found, Id foundId) {
      bool want2 = present(p);
      PBT_CHECK(found == want2, "find of " << pool.show(p) << " reports " << found);
      if (found) PBT_EQ(foundId, pool.id(p), "find");
      auto any = r.find<ConstRuleParameter>(pool.id(p));
      PBT_CHECK(!!any == want2, "find<ConstRuleParameter> of " << pool.show(p) << " reports " << !!any);
      if (want2) PBT_EQ(utils::getId(*any), pool.id(p), "find<ConstRuleParameter>");
      if (want2) PBT_CHECK(utils::has(r, pool.id(p)), "has " << pool.show(p));
    };
    for (size_t i = 0; i < pool.ls.size(); ++i) {
      auto f = r.find<ConstLineString3d>(pool.ls[i].id());
      check({LS, i, false}, !!f, f ? f->id() : 0);
    }
    for (size_t i = 0; i < pool.poly.size(); ++i) {
      auto f = r.find<ConstPolygon3d>(pool.poly[i].id());
      check({POLY, i, false}, !!f, f ? f->id() : 0);
    }
    for (size_t i = 0; i < pool.lls.size(); ++i) {
      auto f = r.find<ConstLanelet>(Id(300 + i));
      check({LL, i, false}, !!f, f ? f->id() : 0);
    }
    for (size_t i = 0; i < pool.areas.size(); ++i) {
      auto f = r.find<ConstArea>(Id(400 + i));
      check({AR, i, false}, !!f, f ? f->id() : 0);
    }
    for (size_t i = 0; i < pool.pts.size(); ++i) {
      auto f = r.find<ConstPoint3d>(pool.pts[i].id());
      check({PT, i, false}, !!f, f ? f->id() : 0);
    }
    PBT_CHECK(!r.find<ConstLineString3d>(987654) && !r.find<ConstLanelet>(987654) && !r.find<ConstRuleParameter>(987654), "find of an unknown id");
    PBT_CHECK(!utils::has(r, 987654), "has of an unknown id");
    std::ostringstream o;
    o << r;
    PBT_CHECK(!o.str().empty(), "printing");
  }
  std::vector<std::string> lp(const std::string& role) const { return expect(role, {LS, POLY}, true); }
  void verifyTyped() {
    Namer n(pool);
    auto front = [&](const std::string& role) {
      auto v = expect(role, {LS}, true);
      return v.empty() ? std::string("none") : v.front();
    };
    auto opt = [&](const auto& o) { return o ? n.name(*o) : std::string("none"); };
    std::vector<std::string> both;
    if (auto tl = std::dynamic_pointer_cast<TrafficLight>(re)) {
      std::shared_ptr<const TrafficLight> ct = tl;
      VEQ(n.names(tl->trafficLights()), lp("refers"), "trafficLights()");
      VEQ(n.names(ct->trafficLights()), lp("refers"), "const trafficLights()");
      PBT_EQ(opt(tl->stopLine()), front("ref_line"), "stopLine()");
      PBT_EQ(opt(ct->stopLine()), front("ref_line"), "const stopLine()");
    } else if (auto rw = std::dynamic_pointer_cast<RightOfWay>(re)) {
      std::shared_ptr<const RightOfWay> ct = rw;
      VEQ(n.names(rw->rightOfWayLanelets()), expect("right_of_way", {LL}, true), "rightOfWayLanelets()");
      VEQ(n.names(ct->rightOfWayLanelets()), expect("right_of_way", {LL}, true), "const rightOfWayLanelets()");
      VEQ(n.names(rw->yieldLanelets()), expect("yield", {LL}, true), "yieldLanelets()");
      VEQ(n.names(ct->yieldLanelets()), expect("yield", {LL}, true), "const yieldLanelets()");
      PBT_EQ(opt(rw->stopLine()), front("ref_line"), "stopLine()");
      PBT_EQ(opt(ct->stopLine()), front("ref_line"), "const stopLine()");
      for (size_t i = 0; i < pool.lls.size(); ++i) {
        if (!pool.lls[i]) continue;
        for (bool inv : {false, true}) {
          Par p{LL, i, inv};
          auto has = [&](const char* role) {
            auto& v = m[role];
            return std::find(v.begin(), v.end(), p) != v.end();
          };
          auto want = has("right_of_way") ? ManeuverType::RightOfWay : has("yield") ? ManeuverType::Yield : ManeuverType::Unknown;
          PBT_CHECK(rw->getManeuver(pool.llt(p)) == want, "getManeuver of " << pool.show(p) << " is " << int(rw->getManeuver(pool.llt(p))));
        }
      }
    } else if (auto ts = std::dynamic_pointer_cast<TrafficSign>(re)) {
      std::shared_ptr<const TrafficSign> ct = ts;
      VEQ(n.names(ts->trafficSigns()), lp("refers"), "trafficSigns()");
      VEQ(n.names(ct->trafficSigns()), lp("refers"), "const trafficSigns()");
      VEQ(n.names(ts->cancellingTrafficSigns()), lp("cancels"), "cancellingTrafficSigns()");
      VEQ(n.names(ct->cancellingTrafficSigns()), lp("cancels"), "const cancellingTrafficSigns()");
      VEQ(n.names(ts->refLines()), expect("ref_line", {LS}, true), "refLines()");
      VEQ(n.names(ct->refLines()), expect("ref_line", {LS}, true), "const refLines()");
      VEQ(n.names(ts->cancelLines()), expect("cancel_line", {LS}, true), "cancelLines()");
      VEQ(n.names(ct->cancelLines()), expect("cancel_line", {LS}, true), "const cancelLines()");
      std::string type, want;
      try {
        type = ts->type();
      } catch (InvalidInputError&) {
        type = "InvalidInputError";
      }
      want = wantType();
      PBT_EQ(type, want, "type()");
      std::set<std::string> types;
      bool ok = true;
      for (auto& p : m["cancels"]) {
        if (p.kind != LS && p.kind != POLY) continue;
        auto& a = pool.attr(p);
        auto it = a.find(AttributeName::Subtype);
        if (it == a.end()) ok = false;
        else types.insert(it->second.value());
      }
      if (ok) VEQ(ts->cancelTypes(), std::vector<std::string>(types.begin(), types.end()), "cancelTypes()");
    } else if (auto aw = std::dynamic_pointer_cast<AllWayStop>(re)) {
      std::shared_ptr<const AllWayStop> ct = aw;
      VEQ(n.names(aw->lanelets()), expect("yield", {LL}, true), "lanelets()");
      VEQ(n.names(ct->lanelets()), expect("yield", {LL}, true), "const lanelets()");
      VEQ(n.names(aw->stopLines()), expect("ref_line", {LS}, true), "stopLines()");
      VEQ(n.names(ct->stopLines()), expect("ref_line", {LS}, true), "const stopLines()");
      VEQ(n.names(aw->trafficSigns()), lp("refers"), "trafficSigns()");
      VEQ(n.names(ct->trafficSigns()), lp("refers"), "const trafficSigns()");
      auto &y = m["yield"], &s = m["ref_line"];
      for (size_t i = 0; i < pool.lls.size(); ++i) {
        if (!pool.lls[i]) continue;
        for (bool inv : {false, true}) {
          Par p{LL, i, inv};
          auto it = std::find(y.begin(), y.end(), p);
          std::string want = it == y.end() || s.empty() ? "none" : pool.show(s[size_t(it - y.begin())]);
          PBT_EQ(opt(aw->getStopLine(pool.llt(p))), want, "getStopLine of " << pool.show(p));
          PBT_EQ(opt(ct->getStopLine(pool.llt(p))), want, "const getStopLine of " << pool.show(p));
        }
      }
    }
  }
  std::string signType;  // sign_type attribute
  std::string wantType() {
    for (auto& p : m["refers"]) {
      if (p.kind != LS && p.kind != POLY) continue;
      auto& a = pool.attr(p);
      auto it = a.find(AttributeName::Subtype);
      return it == a.end() ? "InvalidInputError" : it->second.value();
    }
    return signType.empty() ? "InvalidInputError" : signType;
  }
  void verify() {
    verifyGeneric();
    verifyTyped();
  }
};

Par genLp(pbt::Src& s) { return s.chance(2, 3) ? Par{LS, s.below(6), s.chance(1, 5)} : Par{POLY, s.below(3), false}; }
Par genLs(pbt::Src& s) { return {LS, s.below(6), s.chance(1, 5)}; }
Optional<Par> genLl(pbt::Src& s, const Pool& p, bool allowInv = true) {
  Par q{LL, s.below(5), allowInv && s.chance(1, 5)};
  if (!p.lls[q.idx]) return {};
  return q;
}
bool eraseFirst(Pars& v, Par p) {
  auto it = std::find(v.begin(), v.end(), p);
  if (it == v.end()) return false;
  v.erase(it);
  return true;
}
AttributeMap genAttrs(Case& c) {
  AttributeMap a;
  if (c.src.flip()) a["a"] = "1";
  if (c.src.chance(1, 4)) a[AttributeName::Type] = "something";
  if (c.src.chance(1, 4)) a[AttributeName::Subtype] = "something else";
  return a;
}

//! distinct lanelets for roles that identify one entry by its lanelet
void checkHistory(Case& c) {
  auto& s = c.src;
  World w(c);
  std::ostringstream log;
  c.describe([&](auto& o) { o << log.str(); });
  int type = int(s.below(6));
  static const char* names[] = {"TrafficLight", "RightOfWay", "AllWayStop", "TrafficSign", "SpeedLimit", "Generic"};
  c.label(names[type]);
  log << names[type];
  auto attrs = genAttrs(c);
  const Id id = 50;
  auto lps = [&](const std::string& role, size_t lo, size_t hi) {
    LineStringsOrPolygons3d v;
    size_t n = s.size(lo, hi);
    for (size_t i = 0; i < n; ++i) {
      Par p = genLp(s);
      w.m[role].push_back(p);
      v.push_back(w.pool.lp(p));
    }
    return v;
  };
  auto lss = [&](const std::string& role, size_t lo, size_t hi) {
    LineStrings3d v;
    size_t n = s.size(lo, hi);
    for (size_t i = 0; i < n; ++i) {
      Par p = genLs(s);
      w.m[role].push_back(p);
      v.push_back(w.pool.l(p));
    }
    return v;
  };
  auto llts = [&](const std::string& role, size_t lo, size_t hi) {
    Lanelets v;
    size_t n = s.size(lo, hi);
    for (size_t i = 0; i < n; ++i) {
      Par p = *genLl(s, w.pool);
      w.m[role].push_back(p);
      v.push_back(w.pool.llt(p));
    }
    return v;
  };
  auto typed = [&](const std::string& role, size_t lo, size_t hi, bool force) {
    TrafficSignsWithType t;
    t.trafficSigns = lps(role, lo, hi);
    if (force || s.flip()) t.type = s.of({std::string("de274"), std::string("de280"), std::string("usR2-1")});
    return t;
  };
  auto checkTypes = [&](const TrafficSignsWithType& t) {
    if (t.type.empty()) return;
    for (auto& e : t.trafficSigns) {
      auto a = e.attributes();
      PBT_EQ(a.at("subtype").value(), t.type, "subtype of a traffic sign given with a type");
      PBT_EQ(a.at("type").value(), std::string("traffic_sign"), "type of a traffic sign given with a type");
    }
  };
  switch (type) {
    case 0: {
      auto l = lps("refers", 1, 4);
      Optional<LineString3d> sl;
      if (s.flip()) sl = lss("ref_line", 1, 1).front();
      w.re = TrafficLight::make(id, attrs, l, sl);
      break;
    }
    case 1: {
      auto r = llts("right_of_way", 1, 3), y = llts("yield", 1, 3);
      Optional<LineString3d> sl;
      if (s.flip()) sl = lss("ref_line", 1, 1).front();
      w.re = RightOfWay::make(id, attrs, r, y, sl);
      break;
    }
    case 2: {
      LaneletsWithStopLines v;
      bool with = s.flip();
      size_t n = s.size(0, 3);
      for (size_t i = 0; i < n; ++i) {
        Par p = *genLl(s, w.pool);
        if (std::find(w.m["yield"].begin(), w.m["yield"].end(), p) != w.m["yield"].end()) continue;
        LaneletWithStopLine x{w.pool.llt(p), {}};
        w.m["yield"].push_back(p);
        if (with) {
          Par l = genLs(s);
          w.m["ref_line"].push_back(l);
          x.stopLine = w.pool.l(l);
        }
        v.push_back(x);
      }
      auto signs = lps("refers", 0, 2);
      w.re = AllWayStop::make(id, attrs, v, signs);
      break;
    }
    case 3:
    case 4: {
      bool noSign = type == 4 && s.chance(1, 3);
      if (noSign) {
        auto rl = lss("ref_line", 0, 2), cl = lss("cancel_line", 0, 2);
        w.signType = s.of({std::string("de274-50"), std::string("50 km/h")});
        w.re = SpeedLimit::make(id, attrs, w.signType, rl, cl);
        break;
      }
      if (s.chance(1, 3)) attrs["sign_type"] = w.signType = "de999";
      auto sg = typed("refers", w.signType.empty() ? 1 : 0, 3, false);
      auto cn = typed("cancels", 0, 2, false);
      // an untyped first sign is an error
      auto probe = [&] {
        if (!sg.type.empty() || sg.trafficSigns.empty()) return true;
        auto a = sg.trafficSigns.front().attributes();
        if (a.find("subtype") != a.end()) return true;
        if (cn.type.empty()) return false;
        return std::any_of(cn.trafficSigns.begin(), cn.trafficSigns.end(), [&](auto& e) { return e.id() == sg.trafficSigns.front().id(); });
      };
      bool ok = probe();
      auto rl = lss("ref_line", 0, 2), cl = lss("cancel_line", 0, 2);
      auto mk = [&] {
        if (type == 3) w.re = TrafficSign::make(id, attrs, sg, cn, rl, cl);
        else w.re = SpeedLimit::make(id, attrs, sg, cn, rl, cl);
      };
      if (!ok) {
        PBT_CHECK(chk::throws<InvalidInputError>(mk), "traffic sign without type was accepted");
        c.label("rejected");
        return;
      }
      mk();
      checkTypes(cn);
      if (cn.type.empty()) checkTypes(sg);
      break;
    }
    default: {
      RuleParameterMap rpm;
      size_t n = s.size(0, 5);
      for (size_t i = 0; i < n; ++i) {
        auto role = s.pick(kRoles);
        Par p = s.of({genLp(s), Par{LL, s.below(5), s.chance(1, 5)}, Par{AR, s.below(2), false}, Par{PT, s.below(3), false}});
        w.m[role].push_back(p);
        rpm[role].push_back(w.pool.rule(p));
      }
      w.re = std::make_shared<GenericRegulatoryElement>(id, rpm, attrs);
    }
  }
  static const char* sub[] = {"traffic_light", "right_of_way", "all_way_stop", "traffic_sign", "speed_limit"};
  PBT_EQ(w.re->id(), id, "id");
  if (type < 5) {
    PBT_EQ(w.re->attribute(AttributeName::Subtype).value(), std::string(sub[type]), "subtype");
    PBT_EQ(w.re->attribute(AttributeName::Type).value(), std::string("regulatory_element"), "type");
    if (attrs.find("a") != attrs.end()) PBT_EQ(w.re->attribute("a").value(), std::string("1"), "custom attribute");
  }
  w.verify();
  size_t steps = s.size(0, 16), done = 0;
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream op;
    bool applied = true;
    auto mode = s.below(10);
    if (mode == 0) {  // a lanelet (or area) goes away
      if (s.chance(3, 4)) {
        size_t i = s.below(5);
        w.pool.lls[i].reset();
        op << "lanelet " << i << " expires";
      } else {
        size_t i = s.below(2);
        w.pool.areas[i].reset();
        op << "area " << i << " expires";
      }
      c.label("expired");
    } else if (mode == 1) {  // sharing with lanelets
      size_t i = s.below(5);
      if (w.pool.lls[i]) {
        auto other = std::make_shared<GenericRegulatoryElement>(Id(60));
        auto& l = *w.pool.lls[i];
        auto before = l.regulatoryElements();
        l.addRegulatoryElement(w.re);
        l.addRegulatoryElement(other);
        PBT_EQ(l.regulatoryElements().size(), before.size() + 2, "regulatory elements of a lanelet");
        PBT_EQ(w.pool.lls[i]->invert().regulatoryElements().size(), before.size() + 2, "regulatory elements of the inverted lanelet");
        auto same = l.regulatoryElementsAs<RegulatoryElement>();
        PBT_EQ(same.size(), before.size() + 2, "regulatoryElementsAs<RegulatoryElement>");
        PBT_CHECK(l.regulatoryElementsAs<TrafficLight>().size() == (type == 0 ? before.size() + 1 : 0), "regulatoryElementsAs<TrafficLight>");
        PBT_CHECK(l.regulatoryElementsAs<TrafficSign>().size() == (type == 3 || type == 4 ? before.size() + 1 : 0), "regulatoryElementsAs<TrafficSign>");
        PBT_CHECK(l.regulatoryElementsAs<SpeedLimit>().size() == (type == 4 ? before.size() + 1 : 0), "regulatoryElementsAs<SpeedLimit>");
        PBT_CHECK(l.removeRegulatoryElement(other), "removeRegulatoryElement reports failure");
        PBT_CHECK(!l.removeRegulatoryElement(other), "removing twice reports success");
        auto after = l.regulatoryElements();
        PBT_EQ(after.size(), before.size() + 1, "regulatory elements after removing one");
        PBT_CHECK(after.back() == w.re, "removing a regulatory element removed another one");
        PBT_CHECK(std::equal(before.begin(), before.end(), after.begin()), "removing a regulatory element changed others");
        PBT_CHECK(l.removeRegulatoryElement(w.re), "removeRegulatoryElement reports failure");
        PBT_CHECK(chk::throws<NullptrError>([&] { l.addRegulatoryElement(nullptr); }), "adding a nullptr was accepted");
        op << "add/remove from lanelet " << i;
      }
    } else if (type == 0) {
      auto tl = std::dynamic_pointer_cast<TrafficLight>(w.re);
      switch (s.below(4)) {
        case 0: {
          Par p = genLp(s);
          op << "addTrafficLight " << w.pool.show(p);
          tl->addTrafficLight(w.pool.lp(p));
          w.m["refers"].push_back(p);
          break;
        }
        case 1: {
          Par p = genLp(s);
          op << "removeTrafficLight " << w.pool.show(p);
          bool r = tl->removeTrafficLight(w.pool.lp(p));
          PBT_EQ(r, eraseFirst(w.m["refers"], p), op.str());
          break;
        }
        case 2: {
          Par p = genLs(s);
          op << "setStopLine " << w.pool.show(p);
          tl->setStopLine(w.pool.l(p));
          w.m["ref_line"] = {p};
          break;
        }
        default:
          op << "removeStopLine";
          tl->removeStopLine();
          w.m["ref_line"].clear();
      }
    } else if (type == 1) {
      auto rw = std::dynamic_pointer_cast<RightOfWay>(w.re);
      switch (s.below(6)) {
        case 0:
        case 1: {
          auto p = genLl(s, w.pool);
          if (!p) break;
          bool row = s.flip();
          op << "add " << row << " " << w.pool.show(*p);
          if (row) rw->addRightOfWayLanelet(w.pool.llt(*p));
          else rw->addYieldLanelet(w.pool.llt(*p));
          w.m[row ? "right_of_way" : "yield"].push_back(*p);
          break;
        }
        case 2:
        case 3: {
          auto p = genLl(s, w.pool);
          if (!p) break;
          bool row = s.flip();
          op << "remove " << row << " " << w.pool.show(*p);
          bool r = row ? rw->removeRightOfWayLanelet(w.pool.llt(*p)) : rw->removeYieldLanelet(w.pool.llt(*p));
          PBT_EQ(r, eraseFirst(w.m[row ? "right_of_way" : "yield"], *p), op.str());
          break;
        }
        case 4: {
          Par p = genLs(s);
          op << "setStopLine " << w.pool.show(p);
          rw->setStopLine(w.pool.l(p));
          w.m["ref_line"] = {p};
          break;
        }
        default:
          op << "removeStopLine";
          rw->removeStopLine();
          w.m["ref_line"].clear();
      }
    } else if (type == 2) {
      auto aw = std::dynamic_pointer_cast<AllWayStop>(w.re);
      auto &y = w.m["yield"], &sl = w.m["ref_line"];
      switch (s.below(5)) {
        case 0:
        case 1: {
          auto p = genLl(s, w.pool);
          if (!p || std::find(y.begin(), y.end(), *p) != y.end()) break;
          bool with = s.chance(1, 6) ? s.flip() : (y.empty() ? s.flip() : !sl.empty());
          LaneletWithStopLine x{w.pool.llt(*p), {}};
          Par l = genLs(s);
          if (with) x.stopLine = w.pool.l(l);
          op << "addLanelet " << w.pool.show(*p) << (with ? " with " + w.pool.show(l) : std::string());
          bool anyAlive = std::any_of(y.begin(), y.end(), [&](auto& q) { return w.pool.alive(q); });
          bool bad = !sl.empty() ? !with : (anyAlive && with);
          bool thrown = chk::throws<InvalidInputError>([&] { aw->addLanelet(x); });
          PBT_EQ(thrown, bad, op.str() << ": InvalidInputError");
          if (!thrown) {
            if (sl.empty() && with) y.clear();  // lanelets that are gone would have no stop line
            y.push_back(*p);
            if (with) sl.push_back(l);
          } else {
            c.label("rejected");
          }
          break;
        }
        case 2: {
          auto p = genLl(s, w.pool);
          if (!p) break;
          op << "removeLanelet " << w.pool.show(*p);
          bool r = aw->removeLanelet(w.pool.llt(*p));
          auto it = std::find(y.begin(), y.end(), *p);
          PBT_EQ(r, it != y.end(), op.str());
          if (r) {
            if (!sl.empty()) sl.erase(sl.begin() + (it - y.begin()));
            y.erase(it);
          }
          break;
        }
        case 3: {
          Par p = genLp(s);
          op << "addTrafficSign " << w.pool.show(p);
          aw->addTrafficSign(w.pool.lp(p));
          w.m["refers"].push_back(p);
          break;
        }
        default: {
          Par p = genLp(s);
          op << "removeTrafficSign " << w.pool.show(p);
          bool r = aw->removeTrafficSign(w.pool.lp(p));
          PBT_EQ(r, eraseFirst(w.m["refers"], p), op.str());
        }
      }
    } else if (type == 3 || type == 4) {
      auto ts = std::dynamic_pointer_cast<TrafficSign>(w.re);
      auto which = s.below(4);
      bool add = s.chance(2, 3);
      Par p = which < 2 ? genLp(s) : genLs(s);
      static const char* roles[] = {"refers", "cancels", "ref_line", "cancel_line"};
      auto& v = w.m[roles[which]];
      op << (add ? "add " : "remove ") << w.pool.show(p) << " " << roles[which];
      if (add) {
        if (which == 0) ts->addTrafficSign(w.pool.lp(p));
        if (which == 1) {
          TrafficSignsWithType t;
          t.trafficSigns = {w.pool.lp(p)};
          if (s.flip()) t.type = "de278";
          ts->addCancellingTrafficSign(t);
          checkTypes(t);
        }
        if (which == 2) ts->addRefLine(w.pool.l(p));
        if (which == 3) ts->addCancellingRefLine(w.pool.l(p));
        v.push_back(p);
      } else {
        bool r = which == 0   ? ts->removeTrafficSign(w.pool.lp(p))
                 : which == 1 ? ts->removeCancellingTrafficSign(w.pool.lp(p))
                 : which == 2 ? ts->removeRefLine(w.pool.l(p))
                              : ts->removeCancellingRefLine(w.pool.l(p));
        PBT_EQ(r, eraseFirst(v, p), op.str());
      }
    } else {
      auto g = std::dynamic_pointer_cast<GenericRegulatoryElement>(w.re);
      Par p = s.of({genLp(s), Par{LL, s.below(5), s.chance(1, 5)}, Par{AR, s.below(2), false}, Par{PT, s.below(3), false}});
      if (w.pool.alive(p)) {
        auto role = s.pick(kRoles);
        bool viaEnum = role != "custom role" && s.flip();
        RoleName e = RoleName::Refers;
        for (auto& x : kEnums)
          if (x.first == role) e = x.second;
        op << "addParameter " << role << " " << w.pool.show(p);
        auto add = [&](auto prim) {
          if (viaEnum) g->addParameter(e, prim);
          else g->addParameter(role, prim);
        };
        if (s.chance(1, 6)) {
          g->parameters()[role].clear();
          if (s.flip()) g->parameters().erase(role);
          w.m[role].clear();
        }
        switch (p.kind) {
          case LS: add(w.pool.l(p)); break;
          case POLY: add(w.pool.poly[p.idx]); break;
          case LL: add(w.pool.llt(p)); break;
          case AR: add(*w.pool.areas[p.idx]); break;
          default: add(w.pool.pts[p.idx]);
        }
        w.m[role].push_back(p);
      } else {
        applied = false;
      }
    }
    if (op.str().empty()) applied = false;
    if (!applied) continue;
    ++done;
    log << "\n " << op.str();
    w.verify();
  }
  c.did(done);
  c.nontrivial(done > 0);
}

// the factory against the typed constructors
void checkFactory(Case& c) {
  auto& s = c.src;
  World w(c), o(c);  // o: only its pool is not used
  std::ostringstream log;
  c.describe([&](auto& out) { out << log.str(); });
  static const std::vector<std::string> rules{"traffic_light", "right_of_way", "all_way_stop", "traffic_sign", "speed_limit", "regulatory_element", "", "no such rule"};
  std::string rule = s.pick(rules);
  log << "rule '" << rule << "':";
  c.label(rule.empty() ? "empty rule" : rule);
  RuleParameterMap rpm;
  for (auto& role : kRoles) {
    size_t n = s.weighted({4, 4, 2, 1});
    for (size_t i = 0; i < n; ++i) {
      Par p;
      bool typical = s.chance(9, 10);
      if (typical) {
        if (role == "yield" || role == "right_of_way") p = {LL, s.below(5), s.chance(1, 5)};
        else if (role == "ref_line" || role == "cancel_line") p = genLs(s);
        else p = genLp(s);
      } else {
        p = s.of({genLp(s), Par{LL, s.below(5), s.chance(1, 5)}, Par{AR, s.below(2), false}, Par{PT, s.below(3), false}});
      }
      w.m[role].push_back(p);
      rpm[role].push_back(w.pool.rule(p));
      log << " " << role << "=" << w.pool.show(p);
    }
  }
  AttributeMap attrs = genAttrs(c);
  attrs[AttributeName::Type] = AttributeValueString::RegulatoryElement;
  if (s.chance(1, 3)) attrs["sign_type"] = w.signType = "de999";
  auto count = [&](const char* role, std::initializer_list<int> kinds) {
    size_t n = 0;
    for (auto& p : w.m[role]) n += std::find(kinds.begin(), kinds.end(), p.kind) != kinds.end();
    return n;
  };
  bool ok = true;
  if (rule == "traffic_light") ok = count("refers", {LS, POLY}) > 0 && count("ref_line", {LS}) <= 1;
  if (rule == "right_of_way") ok = count("right_of_way", {LL}) > 0 && count("yield", {LL}) > 0;
  if (rule == "all_way_stop") ok = w.m["right_of_way"].empty() && (w.m["ref_line"].empty() || w.m["ref_line"].size() == w.m["yield"].size());
  if (rule == "traffic_sign" || rule == "speed_limit") ok = w.wantType() != "InvalidInputError";
  if (rule == "no such rule") ok = false;
  // an all way stop whose entries have other types than lanelets and lines is not specified
  if (rule == "all_way_stop" && (count("yield", {LL}) != w.m["yield"].size() || count("ref_line", {LS}) != w.m["ref_line"].size())) throw pbt::Discard{};
  if (rule == "all_way_stop") {
    auto& y = w.m["yield"];
    for (size_t i = 0; i < y.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (y[i] == y[j]) throw pbt::Discard{};
  }
  bool viaData = s.flip();
  auto data = std::make_shared<RegulatoryElementData>(50, rpm, attrs);
  bool thrown = chk::throws<InvalidInputError>([&] {
    w.re = viaData ? RegulatoryElementFactory::create(rule, data) : RegulatoryElementFactory::create(rule, 50, rpm, attrs);
  });
  PBT_EQ(thrown, !ok, "factory throws InvalidInputError");
  auto av = RegulatoryElementFactory::availableRules();
  PBT_EQ(std::count(av.begin(), av.end(), rule) == 1, rule != "no such rule" && !rule.empty(), "availableRules has '" << rule << "'");
  if (!ok) {
    c.label("rejected");
    c.nontrivial(true);
    return;
  }
  std::string subtype = rule.empty() ? "regulatory_element" : rule;
  PBT_EQ(w.re->attribute(AttributeName::Subtype).value(), subtype, "subtype");
  auto is = [&](auto* t) { return !!std::dynamic_pointer_cast<std::remove_pointer_t<decltype(t)>>(w.re); };
  PBT_EQ(is((TrafficLight*)nullptr), rule == "traffic_light", "is TrafficLight");
  PBT_EQ(is((RightOfWay*)nullptr), rule == "right_of_way", "is RightOfWay");
  PBT_EQ(is((AllWayStop*)nullptr), rule == "all_way_stop", "is AllWayStop");
  PBT_EQ(is((TrafficSign*)nullptr), rule == "traffic_sign" || rule == "speed_limit", "is TrafficSign");
  PBT_EQ(is((SpeedLimit*)nullptr), rule == "speed_limit", "is SpeedLimit");
  PBT_EQ(is((GenericRegulatoryElement*)nullptr), subtype == "regulatory_element", "is GenericRegulatoryElement");
  w.verify();
  c.nontrivial(!w.m.empty());
  // the typed constructor from the same content
  auto lps = [&](const char* r) {
    LineStringsOrPolygons3d v;
    for (auto& p : w.m[r]) v.push_back(w.pool.lp(p));
    return v;
  };
  auto lss = [&](const char* r) {
    LineStrings3d v;
    for (auto& p : w.m[r]) v.push_back(w.pool.l(p));
    return v;
  };
  auto llts = [&](const char* r) {
    Lanelets v;
    for (auto& p : w.m[r]) v.push_back(w.pool.llt(p));
    return v;
  };
  std::map<std::string, std::set<int>> needs;
  if (rule == "traffic_light") needs = {{"refers", {LS, POLY}}, {"ref_line", {LS}}};
  if (rule == "right_of_way") needs = {{"right_of_way", {LL}}, {"yield", {LL}}, {"ref_line", {LS}}};
  if (rule == "all_way_stop") needs = {{"yield", {LL}}, {"ref_line", {LS}}, {"refers", {LS, POLY}}};
  if (rule == "traffic_sign" || rule == "speed_limit") needs = {{"refers", {LS, POLY}}, {"cancels", {LS, POLY}}, {"ref_line", {LS}}, {"cancel_line", {LS}}};
  if (needs.empty()) return;
  for (auto& e : w.m) {
    if (e.second.empty()) continue;
    if (!needs.count(e.first)) return;
    for (auto& p : e.second)
      if (!needs[e.first].count(p.kind)) return;
  }
  if (rule == "right_of_way" && w.m["ref_line"].size() > 1) return;
  auto fromFactory = w.re;
  Optional<LineString3d> sl;
  if (!w.m["ref_line"].empty()) sl = w.pool.l(w.m["ref_line"].front());
  if (rule == "traffic_light") w.re = TrafficLight::make(50, attrs, lps("refers"), sl);
  if (rule == "right_of_way") w.re = RightOfWay::make(50, attrs, llts("right_of_way"), llts("yield"), sl);
  if (rule == "all_way_stop") {
    LaneletsWithStopLines v;
    auto y = llts("yield");
    auto l = lss("ref_line");
    for (size_t i = 0; i < y.size(); ++i) v.push_back({y[i], l.empty() ? Optional<LineString3d>() : l[i]});
    w.re = AllWayStop::make(50, attrs, v, lps("refers"));
  }
  if (rule == "traffic_sign") w.re = TrafficSign::make(50, attrs, {lps("refers"), ""}, {lps("cancels"), ""}, lss("ref_line"), lss("cancel_line"));
  if (rule == "speed_limit") w.re = SpeedLimit::make(50, attrs, {lps("refers"), ""}, {lps("cancels"), ""}, lss("ref_line"), lss("cancel_line"));
  w.verify();
  PBT_CHECK(w.re->attributes() == fromFactory->attributes(), "attributes of the factory's element differ from those of the typed constructor");
  c.label("compared with typed constructor");
}

// ownership: regulatory elements do not keep lanelets alive, lanelets keep regulatory elements alive
void checkOwnership(Case& c) {
  auto& s = c.src;
  World w(c);
  std::weak_ptr<const LaneletData> wl;
  std::weak_ptr<RegulatoryElement> wr;
  size_t i = s.below(5), j = (i + 1 + s.below(4)) % 5;
  int type = int(s.below(3));
  RegulatoryElementPtr re;
  {
    Lanelet a = *w.pool.lls[i], b = *w.pool.lls[j];
    if (type == 0) re = RightOfWay::make(50, {}, {a}, {b, a});
    else if (type == 1) re = AllWayStop::make(50, {}, {{a, w.pool.ls[0]}, {b, w.pool.ls[1]}});
    else {
      RuleParameterMap m;
      m["refers"] = {a, b};
      re = std::make_shared<GenericRegulatoryElement>(50, m);
    }
    wr = re;
    wl = a.constData();
    if (s.flip()) a.addRegulatoryElement(re), b.addRegulatoryElement(re);
    else b.addRegulatoryElement(re);
  }
  bool mapped = s.flip();
  std::unique_ptr<LaneletMap> map;
  if (mapped) map = utils::createMap({*w.pool.lls[j]});  // adds the regulatory element and thereby lanelet i as well
  c.describe([&](auto& o) { o << "type " << type << " map " << mapped; });
  w.pool.lls[i].reset();
  PBT_CHECK(wl.expired() == !mapped, "lanelet " << (wl.expired() ? "expired" : "kept alive") << " although " << (mapped ? "it is" : "it is not") << " part of a map");
  re.reset();
  PBT_CHECK(!wr.expired(), "a regulatory element referenced by a lanelet was deleted");
  if (!mapped) {
    auto left = wr.lock()->getParameters<ConstLanelet>(type == 0 ? "right_of_way" : type == 1 ? "yield" : "refers");
    for (auto& l : left) PBT_EQ(l.id(), Id(300 + j), "expired lanelet is reported");
    for (auto& l : w.pool.lls[j]->regulatoryElements()) PBT_EQ(l->id(), Id(50), "regulatory element of the other lanelet");
  }
  map.reset();
  PBT_CHECK(wl.expired(), "a lanelet is kept alive by a regulatory element");
  w.pool.lls[j].reset();
  PBT_CHECK(wr.expired(), "a regulatory element outlives the lanelets that use it (cyclic ownership)");
  c.nontrivial(true);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C10";
  s.rule = "history: at least one operation took place; factory: at least one parameter; ownership: always";
  s.assumptions = {"whether a role without parameters is listed by roles()/getParameters() is not specified", "lanelets are distinct within an all way stop"};
  s.props = {
      {"history", "typed getters, role map, find, visitor and manoeuvres agree with a per-role list model after every operation", 24000, 240000, checkHistory},
      {"factory", "factory-made elements equal typed ones; invalid role maps are rejected", 24000, 240000, checkFactory},
      {"ownership", "regulatory elements do not own lanelets, lanelets own regulatory elements", 2000, 20000, checkOwnership},
  };
  return pbt::runMain(s, argc, argv);
}
