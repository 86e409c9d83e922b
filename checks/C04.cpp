// C04: lanelet, area, compound and sequence views against models made of point lists.
#include <lanelet2_core/geometry/Lanelet.h>

#include "corridor.h"
using namespace lanelet;
using geo::P3;

namespace {
using PList = std::vector<Id>;  // point ids are unique per point in this check
struct LsM {
  PList pts;
};
struct LsH {  // handle: line string index and direction
  int ls{-1};
  bool inv{false};
  LsH flip() const { return {ls, !inv}; }
  bool operator==(const LsH& o) const { return ls == o.ls && inv == o.inv; }
};
struct LltM {
  LsH left, right;
  bool custom{false};
  LsH center;
  std::vector<int> regs;
  std::string attr;
  Id id;
};
struct ArM {
  std::vector<LsH> outer;
  std::vector<std::vector<LsH>> inner;
  std::vector<int> regs;
};
PList uniq(PList l) {
  l.erase(std::unique(l.begin(), l.end()), l.end());
  return l;
}
PList rev(PList l) {
  std::reverse(l.begin(), l.end());
  return l;
}

struct State {
  Case& c;
  pbt::Src& s;
  std::map<Id, Point3d> pts;
  std::vector<LineString3d> ls;
  std::vector<LsM> lsM;
  std::vector<RegulatoryElementPtr> regs;
  struct LltHandle {
    Lanelet l;
    int m;
    bool inv;
  };
  std::vector<LltHandle> llts;
  std::vector<LltM> lltM;
  std::vector<std::pair<Area, int>> areas;
  std::vector<ArM> arM;
  bool centerStale{false};
  size_t tick{0};
  std::map<int, std::vector<P3>> fresh;  // cleared when anything changes

  explicit State(Case& cc) : c{cc}, s{cc.src} {}

  PList list(LsH h) const {
    if (h.ls < 0) return {};
    return h.inv ? rev(lsM[h.ls].pts) : lsM[h.ls].pts;
  }
  LineString3d real(LsH h) { return h.inv ? ls[h.ls].invert() : ls[h.ls]; }
  LsH pickLs() { return {int(s.below(ls.size())), s.flip()}; }
  LsH expLeft(int m, bool inv) const { return inv ? lltM[m].right.flip() : lltM[m].left; }
  LsH expRight(int m, bool inv) const { return inv ? lltM[m].left.flip() : lltM[m].right; }
  P3 pos(Id id) const { return conv::p3(pts.at(id)); }

  template <typename LsT>
  void checkLs(const LsT& l, LsH exp, const char* what) {
    PList e = list(exp);
    VEQ(chk::ids(l), e, what);
    PBT_EQ(l.size(), e.size(), what);
    if (exp.ls >= 0) PBT_EQ(l.id(), ls[exp.ls].id(), what);
    if (exp.ls >= 0) PBT_CHECK(l.inverted() == exp.inv, what << " inverted flag");
    c.did();
  }
  // any compound view, 2d or 3d, with ids
  template <typename C>
  void checkCompound(const C& cp, const std::vector<LsH>& parts, bool poly, const std::string& what) {
    PList e;
    for (auto& p : parts) {
      auto l = list(p);
      e.insert(e.end(), l.begin(), l.end());
    }
    e = uniq(e);
    std::vector<Id> partIds;
    for (auto& p : parts) partIds.push_back(p.ls < 0 ? 0 : ls[p.ls].id());
    VEQ(chk::ids(cp), e, what);
    PBT_EQ(cp.size(), e.size(), what);
    PBT_EQ(cp.empty(), e.empty(), what);
    VEQ(cp.ids(), partIds, what);
    auto lss = cp.lineStrings();
    PBT_EQ(lss.size(), parts.size(), what);
    for (size_t i = 0; i < parts.size(); ++i) {
      VEQ(chk::ids(lss[i]), list(parts[i]), what << " part " << i);
      PBT_CHECK(parts[i].ls < 0 || lss[i] == ConstLineString3d(real(parts[i])), what << " part equality " << i);
    }
    size_t n = e.size();
    PBT_EQ(cp.numSegments(), poly ? std::max<size_t>(1, n) : std::max<size_t>(1, n) - 1, what);
    if (n) {
      PBT_EQ(cp.front().id(), e.front(), what);
      PBT_EQ(cp.back().id(), e.back(), what);
    }
    for (size_t t = 0; t < std::min<size_t>(n, 3); ++t) {  // rotating subset of the positions
      size_t i = (tick++ * 7) % n;
      PBT_EQ(cp[i].id(), e[i], what << " [" << i << "]");
      auto seg = cp.segment(i);
      PBT_EQ(seg.first.id(), e[i], what);
      PBT_EQ(seg.second.id(), e[(i + 1) % n], what);
      PBT_EQ((cp.begin() + i)->id(), e[i], what);
      PBT_EQ((cp.end() - (n - i))->id(), e[i], what);
      PBT_EQ(cp.end() - (cp.begin() + i), std::ptrdiff_t(n - i), what);
    }
    PList back;
    for (auto it = cp.end(); it != cp.begin();) {
      --it;
      back.push_back(it->id());
    }
    VEQ(back, rev(e), what << " walked backwards");
    size_t k = 0;
    for (auto it = cp.basicBegin(); it != cp.basicEnd(); ++it, ++k) {
      auto bp = *it;
      PBT_CHECK(k < n && bp.x() == pos(e[k]).x && bp.y() == pos(e[k]).y, what << " basic point " << k);
    }
    PBT_EQ(k, n, what);
    for (int t = 0; t < 2; ++t) {
      Id id = Id(1 + (tick++ * 5) % pts.size());
      PBT_EQ(utils::has(cp, id), std::count(e.begin(), e.end(), id) > 0, what << " has");
    }
    c.did(n + 1);
  }
  template <typename C, typename H>
  void checkHybrid(const C& cp, const H& hy, const std::string& what) {
    PBT_EQ(hy.size(), cp.size(), what);
    for (size_t i = 0; i < cp.size(); ++i) {
      auto p = hy[i];
      PBT_CHECK(p.x() == cp[i].x() && p.y() == cp[i].y(), what << " hybrid point " << i);
    }
  }
  void checkPolygonAll(const CompoundPolygon3d& p, const std::vector<LsH>& parts, const std::string& what) {
    checkCompound(p, parts, true, what + " 3d");
    checkCompound(CompoundPolygon2d(p), parts, true, what + " 2d");
    checkHybrid(p, CompoundHybridPolygon3d(p), what);
    checkHybrid(p, CompoundHybridPolygon2d(p), what);
    PBT_EQ(p.basicPolygon().size(), p.size(), what);
  }
  std::vector<LsH> flipParts(std::vector<LsH> p) {
    std::reverse(p.begin(), p.end());
    for (auto& e : p) e = e.flip();
    return p;
  }

  //! centerline as computed on a fresh lanelet with the same bounds: used to detect stale caches
  std::vector<P3> freshCenter(const LltM& m) {
    Lanelet f(77, real(m.left), real(m.right));
    return conv::l3(utils::addConst(f).centerline3d());
  }
  static bool same(const std::vector<P3>& a, const std::vector<P3>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (geo::dist(a[i], b[i]) > 1e-9) return false;
    return true;
  }
  void checkCenter(const ConstLanelet& l, int mi, bool inv) {
    auto& m = lltM[mi];
    if (m.custom) {
      PBT_CHECK(l.hasCustomCenterline(), "custom centerline expected");
      checkLs(l.centerline(), inv ? m.center.flip() : m.center, "custom centerline");
      return;
    }
    PBT_CHECK(!l.hasCustomCenterline(), "no custom centerline expected");
    auto L = list(m.left), R = list(m.right);
    auto cl = conv::l3(l.centerline3d());
    auto cl2 = conv::l2(l.centerline2d());
    PBT_EQ(cl.size(), cl2.size(), "2d/3d");
    if (L.empty() || R.empty()) {
      PBT_EQ(cl.size(), 0u, "empty bound: empty centerline");
      return;
    }
    if (L.size() < 2 || R.size() < 2) return;  // not a valid bound; only required not to crash
    if (!fresh.count(mi)) fresh[mi] = freshCenter(m);
    auto f = fresh[mi];
    if (inv) std::reverse(f.begin(), f.end());
    PBT_CHECK(same(cl, f), "centerline differs from the one of a new lanelet with the same bounds (inverted " << inv << ")");
    auto el = list(expLeft(mi, inv)), er = list(expRight(mi, inv));
    P3 a = 0.5 * (pos(el.front()) + pos(er.front())), b = 0.5 * (pos(el.back()) + pos(er.back()));
    PBT_CHECK(geo::dist(cl.front(), a) < 1e-6, "centerline starts midway");
    PBT_CHECK(geo::dist(cl.back(), b) < 1e-6, "centerline ends midway");
    for (auto& p : cl) {  // points of the centerline are midpoints between both bounds, hence inside their box
      geo::Box bx;
      for (auto i : L) bx.add(geo::to2(pos(i)));
      for (auto i : R) bx.add(geo::to2(pos(i)));
      PBT_CHECK(bx.distTo(geo::to2(p)) < 1e-6, "centerline leaves the bounding box");
    }
    c.did();
  }
  template <typename LT>
  void checkLanelet(LT l, int mi, bool inv, bool center) {
    auto& m = lltM[mi];
    PBT_EQ(l.id(), m.id, "id");
    PBT_EQ(l.inverted(), inv, "inverted");
    checkLs(l.leftBound(), expLeft(mi, inv), "leftBound");
    checkLs(l.leftBound3d(), expLeft(mi, inv), "leftBound3d");
    checkLs(l.leftBound2d(), expLeft(mi, inv), "leftBound2d");
    checkLs(l.rightBound(), expRight(mi, inv), "rightBound");
    checkLs(l.rightBound3d(), expRight(mi, inv), "rightBound3d");
    checkLs(l.rightBound2d(), expRight(mi, inv), "rightBound2d");
    PBT_EQ(l.attributes().size(), m.attr.empty() ? 0u : 1u, "attributes");
    if (!m.attr.empty()) PBT_EQ(l.attribute("a").value(), m.attr, "attribute");
    std::vector<Id> regIds, expRegs;
    for (auto& r : l.regulatoryElements()) regIds.push_back(r->id());
    for (int r : m.regs) expRegs.push_back(regs[r]->id());
    VEQ(regIds, expRegs, "regulatory elements");
    PBT_EQ(l.template regulatoryElementsAs<GenericRegulatoryElement>().size(), expRegs.size(), "regulatoryElementsAs");
    if (center && !centerStale) checkCenter(l, mi, inv);
  }
  void checkPolygonOf(const ConstLanelet& l, int mi, bool inv) {
    // the surface covered is the same for the inverted lanelet: up to the starting point the reported ring must be the
    // bounds of the stored lanelet
    auto& m = lltM[mi];
    (void)inv;
    checkPolygonAll(l.polygon3d(), {m.left, m.right.flip()}, "lanelet polygon");
    checkCompound(l.polygon2d(), {m.left, m.right.flip()}, true, "lanelet polygon2d");
  }
  template <typename AT>
  void checkArea(AT a, int ai) {
    auto& m = arM[ai];
    auto ob = a.outerBound();
    PBT_EQ(ob.size(), m.outer.size(), "outer bound");
    for (size_t i = 0; i < m.outer.size(); ++i) checkLs(ob[i], m.outer[i], "outer bound part");
    auto ib = a.innerBounds();
    PBT_EQ(ib.size(), m.inner.size(), "inner bounds");
    for (size_t i = 0; i < m.inner.size(); ++i) {
      PBT_EQ(ib[i].size(), m.inner[i].size(), "inner bound " << i);
      for (size_t j = 0; j < m.inner[i].size(); ++j) checkLs(ib[i][j], m.inner[i][j], "inner bound part");
    }
    checkPolygonAll(a.outerBoundPolygon(), m.outer, "outer polygon");
    auto ip = a.innerBoundPolygons();
    PBT_EQ(ip.size(), m.inner.size(), "inner polygons");
    auto b2 = a.basicPolygonWithHoles2d();
    auto b3 = a.basicPolygonWithHoles3d();
    PBT_EQ(b2.inner.size(), m.inner.size(), "basic holes");
    PBT_EQ(b3.inner.size(), m.inner.size(), "basic holes");
    auto cmpBasic = [&](const auto& b, const CompoundPolygon3d& p) {
      PBT_EQ(b.size(), p.size(), "basic ring");
      for (size_t i = 0; i < b.size(); ++i) PBT_CHECK(b[i].x() == p[i].x() && b[i].y() == p[i].y(), "basic ring point");
    };
    cmpBasic(b2.outer, a.outerBoundPolygon());
    cmpBasic(b3.outer, a.outerBoundPolygon());
    for (size_t i = 0; i < m.inner.size(); ++i) {
      checkCompound(ip[i], m.inner[i], true, "inner polygon");
      cmpBasic(b2.inner[i], ip[i]);
      cmpBasic(b3.inner[i], ip[i]);
    }
    std::vector<Id> regIds, expRegs;
    for (auto& r : a.regulatoryElements()) regIds.push_back(r->id());
    for (int r : m.regs) expRegs.push_back(regs[r]->id());
    VEQ(regIds, expRegs, "area regulatory elements");
  }
  void checkSequence(bool sequenceInverted) {
    size_t n = s.below(4);
    std::vector<size_t> hs;
    ConstLanelets lls;
    for (size_t i = 0; i < n; ++i) {
      hs.push_back(s.below(llts.size()));
      lls.push_back(llts[hs.back()].l);
    }
    std::vector<LsH> L, R;
    std::vector<Id> ids, regIds;
    for (auto h : hs) {
      L.push_back(expLeft(llts[h].m, llts[h].inv));
      R.push_back(expRight(llts[h].m, llts[h].inv));
      ids.push_back(lltM[llts[h].m].id);
    }
    LaneletSequence seq(lls);
    if (n > 1 && s.flip()) {  // nested construction
      size_t k = s.below(n);
      seq = LaneletSequence(LaneletSequences{LaneletSequence(ConstLanelets(lls.begin(), lls.begin() + k)),
                                             LaneletSequence(ConstLanelets(lls.begin() + k, lls.end()))});
    }
    auto view = [&](const LaneletSequence& q, bool inv, const std::string& w) {
      auto l = inv ? flipParts(R) : L, r = inv ? flipParts(L) : R;
      PBT_EQ(q.inverted(), inv, w);
      PBT_EQ(q.size(), n, w);
      PBT_EQ(q.empty(), n == 0, w);
      checkCompound(q.leftBound(), l, false, w + " left");
      checkCompound(q.leftBound2d(), l, false, w + " left2d");
      checkCompound(q.leftBound3d(), l, false, w + " left3d");
      checkCompound(q.rightBound(), r, false, w + " right");
      checkCompound(q.rightBound2d(), r, false, w + " right2d");
      checkCompound(q.rightBound3d(), r, false, w + " right3d");
      auto parts = L;
      for (auto& p : flipParts(R)) parts.push_back(p);
      checkPolygonAll(q.polygon3d(), parts, w + " polygon");
      checkCompound(q.polygon2d(), parts, true, w + " polygon2d");
      auto eids = inv ? rev(ids) : ids;
      VEQ(q.ids(), eids, w);
      VEQ(chk::ids(q), eids, w);
      VEQ(chk::ids(q.lanelets()), eids, w);
      for (size_t i = 0; i < n; ++i) PBT_EQ(q[i].id(), eids[i], w);
      for (int t = 0; t < 2; ++t) {
        Id pid = Id(1 + (tick++ * 3) % pts.size());
        auto in = [&](const std::vector<LsH>& p) {
          for (auto& h : p) {
            auto pl = list(h);
            if (std::count(pl.begin(), pl.end(), pid)) return true;
          }
          return false;
        };
        PBT_EQ(utils::has(q, pid), in(L) || in(R), w << " has");
      }
      std::vector<Id> expR, gotR;
      for (size_t i = 0; i < n; ++i)
        for (int rr : lltM[llts[hs[inv ? n - 1 - i : i]].m].regs) expR.push_back(regs[rr]->id());
      for (auto& rr : q.regulatoryElements()) gotR.push_back(rr->id());
      VEQ(gotR, expR, w);
      if (!centerStale) {
        // joined centerlines, joints are distinct points
        std::vector<P3> e;
        for (auto h : hs) {
          auto cl = conv::l3(ConstLanelet(llts[h].l).centerline3d());
          e.insert(e.end(), cl.begin(), cl.end());
        }
        if (inv) std::reverse(e.begin(), e.end());
        std::vector<P3> g;
        for (auto&& p : q.centerline()) g.push_back(conv::p3(p));
        // automatically computed points are never shared, custom ones may be
        auto collapse = [](std::vector<P3> v) {
          std::vector<P3> o;
          for (auto& p : v)
            if (o.empty() || geo::dist(o.back(), p) > 0) o.push_back(p);
          return o;
        };
        PBT_CHECK(same(collapse(g), collapse(e)), w << " centerline is the concatenation");
      }
    };
    view(seq, false, "sequence");
    view(seq.invert(), true, "inverted sequence");
    PBT_CHECK(seq.invert().invert() == seq, "double inversion");
    if (sequenceInverted) view(seq.invert().invert().invert(), true, "triple inverted");
    seq.resetCache();
    view(seq, false, "sequence after resetCache");
    c.label("sequence");
  }
  void checkCompoundConstruction() {
    std::vector<LsH> parts;
    ConstLineStrings3d cls;
    LineStrings3d mls;
    size_t n = s.below(5);
    for (size_t i = 0; i < n; ++i) {
      parts.push_back(pickLs());
      mls.push_back(real(parts.back()));
      cls.push_back(mls.back());
    }
    CompoundLineString3d a(cls), b(mls);
    CompoundLineString2d a2(cls);
    checkCompound(a, parts, false, "compound");
    checkCompound(b, parts, false, "compound from mutable");
    checkCompound(a2, parts, false, "compound2d");
    checkCompound(a.invert(), flipParts(parts), false, "inverted compound");
    checkCompound(a2.invert(), flipParts(parts), false, "inverted compound2d");
    checkCompound(a.invert().invert(), parts, false, "double inverted compound");
    checkHybrid(a, CompoundHybridLineString3d(a), "hybrid");
    checkHybrid(a, CompoundHybridLineString2d(a), "hybrid2d");
    checkHybrid(a.invert(), CompoundHybridLineString2d(a.invert()), "inverted hybrid2d");
    checkHybrid(a.invert(), CompoundHybridLineString2d(a).invert(), "inverted hybrid2d");
    PBT_EQ(a.basicLineString().size(), a.size(), "basicLineString");
    PBT_CHECK(a == b && a.invert().invert() == a && !(a != b), "equality of equal compounds");
    PBT_EQ(a.inverted(), false, "");
    PBT_EQ(a.invert().inverted(), true, "");
    // nested
    size_t k = s.below(n + 1);
    CompoundLineString3d nest(CompoundLineStrings3d{CompoundLineString3d(ConstLineStrings3d(cls.begin(), cls.begin() + k)),
                                                    CompoundLineString3d(ConstLineStrings3d(cls.begin() + k, cls.end()))});
    checkCompound(nest, parts, false, "nested compound");
    auto nestParts = flipParts(std::vector<LsH>(parts.begin(), parts.begin() + k));
    for (size_t i = k; i < n; ++i) nestParts.push_back(parts[i]);
    CompoundLineString3d nest2(
        CompoundLineStrings3d{CompoundLineString3d(ConstLineStrings3d(cls.begin(), cls.begin() + k)).invert(),
                              CompoundLineString3d(ConstLineStrings3d(cls.begin() + k, cls.end()))});
    checkCompound(nest2, nestParts, false, "nested inverted compound");
    checkPolygonAll(CompoundPolygon3d(cls), parts, "compound polygon");
    checkPolygonAll(CompoundPolygon3d(nest2), nestParts, "compound polygon from line string");
    checkPolygonAll(CompoundPolygon3d(a.invert()), flipParts(parts), "compound polygon from inverted line string");
    if (n > 1) c.label("compound");
  }
};

void histories(Case& c) {
  State st(c);
  auto& s = c.src;
  // points on a small lattice; may coincide in position
  size_t np = 3 + s.below(8);
  for (size_t i = 0; i < np; ++i)
    st.pts.emplace(Id(i + 1), Point3d(Id(i + 1), s.grid(0, 6, 1), s.grid(0, 6, 1), s.grid(0, 2, 0.5)));
  auto randPts = [&](size_t lo, size_t hi) {
    PList p;
    size_t n = s.size(lo, hi);
    for (size_t i = 0; i < n; ++i) p.push_back(Id(1 + s.below(np)));
    return p;
  };
  auto newLs = [&](PList p) {
    Points3d q;
    for (auto i : p) q.push_back(st.pts.at(i));
    st.ls.push_back(LineString3d(Id(100 + st.ls.size()), q));
    st.lsM.push_back({p});
  };
  size_t nl = 2 + s.below(4);
  bool tiny = s.chance(1, 3);
  for (size_t i = 0; i < nl; ++i) newLs(randPts(tiny ? 0 : 2, 5));
  for (int i = 0; i < 2; ++i) st.regs.push_back(std::make_shared<GenericRegulatoryElement>(Id(500 + i)));
  size_t nll = 1 + s.below(2);
  for (size_t i = 0; i < nll; ++i) {
    LltM m;
    m.left = st.pickLs(), m.right = st.pickLs(), m.id = Id(200 + i);
    st.lltM.push_back(m);
    st.llts.push_back({Lanelet(m.id, st.real(m.left), st.real(m.right)), int(i), false});
  }
  auto randRing = [&] {
    std::vector<LsH> r;
    size_t n = s.below(4);
    for (size_t i = 0; i < n; ++i) r.push_back(st.pickLs());
    return r;
  };
  auto toReal = [&](const std::vector<LsH>& r) {
    LineStrings3d o;
    for (auto& h : r) o.push_back(st.real(h));
    return o;
  };
  {
    ArM m;
    m.outer = randRing();
    size_t k = s.below(3);
    InnerBounds ib;
    for (size_t i = 0; i < k; ++i) {
      m.inner.push_back(randRing());
      ib.push_back(toReal(m.inner.back()));
    }
    st.arM.push_back(m);
    st.areas.push_back({Area(300, toReal(m.outer), ib), 0});
  }
  auto checkAll = [&](bool full) {
    st.fresh.clear();
    for (size_t i = 0; i < st.llts.size(); ++i) {
      auto& h = st.llts[i];
      st.checkLanelet<Lanelet>(h.l, h.m, h.inv, true);
      st.checkLanelet<ConstLanelet>(h.l, h.m, h.inv, true);
      st.checkLanelet<ConstLanelet>(ConstLanelet(h.l).invert(), h.m, !h.inv, true);
      if (!full && (i + st.tick) % st.llts.size() != 0) continue;
      st.checkPolygonOf(h.l, h.m, h.inv);
      if (full) st.checkPolygonOf(ConstLanelet(h.l).invert(), h.m, !h.inv);
      ConstLaneletOrArea lar(h.l);
      PBT_CHECK(lar.isLanelet() && !lar.isArea() && !!lar.lanelet() && !lar.area() && *lar.lanelet() == h.l, "lanelet or area");
      PBT_EQ(lar.id(), h.l.id(), "lanelet or area");
      st.checkCompound(lar.boundingPolygon(), {st.lltM[h.m].left, st.lltM[h.m].right.flip()}, true, "boundingPolygon");
      for (auto& h2 : st.llts) {
        bool eq = h2.m == h.m && h2.inv == h.inv;
        PBT_EQ(h2.l == h.l, eq, "lanelet handle equality");
        PBT_EQ(ConstLaneletOrArea(h2.l) == lar, eq, "laneletOrArea equality");
        if (eq) PBT_EQ(std::hash<Lanelet>()(h2.l), std::hash<ConstLanelet>()(h.l), "hash");
      }
      WeakLanelet w(h.l);
      PBT_CHECK(!w.expired() && w.lock() == h.l, "weak handle");
    }
    for (auto& a : st.areas) {
      st.checkArea<Area>(a.first, a.second);
      st.checkArea<ConstArea>(a.first, a.second);
      ConstLaneletOrArea lar(a.first);
      PBT_CHECK(lar.isArea() && !lar.isLanelet() && !!lar.area() && !lar.lanelet() && *lar.area() == a.first, "lanelet or area");
      st.checkCompound(lar.boundingPolygon(), st.arM[a.second].outer, true, "boundingPolygon");
    }
    if (full) {
      st.checkSequence(s.flip());
      st.checkCompoundConstruction();
    }
  };
  checkAll(true);
  size_t ops = 1 + s.below(12);
  size_t sets = 0;
  for (size_t o = 0; o < ops; ++o) {
    size_t h = s.below(st.llts.size());
    auto& H = st.llts[h];
    auto& m = st.lltM[H.m];
    switch (s.weighted({5, 5, 2, 3, 3, 2, 2, 3, 3, 2, 1, 1, 2})) {
      case 0: {
        auto b = st.pickLs();
        H.l.setLeftBound(st.real(b));
        (H.inv ? m.right : m.left) = H.inv ? b.flip() : b;
        ++sets;
        break;
      }
      case 1: {
        auto b = st.pickLs();
        H.l.setRightBound(st.real(b));
        (H.inv ? m.left : m.right) = H.inv ? b.flip() : b;
        ++sets;
        break;
      }
      case 2: {
        auto b = st.pickLs();
        H.l.setCenterline(st.real(b));
        m.center = H.inv ? b.flip() : b, m.custom = true;
        break;
      }
      case 3: {
        auto m2 = H;
        m2.l = H.l.invert(), m2.inv = !H.inv;
        if (st.llts.size() < 6) st.llts.push_back(m2);
        break;
      }
      case 4:  // copy, possibly through a weak handle
        if (st.llts.size() < 6) {
          auto m2 = H;
          if (s.flip()) m2.l = WeakLanelet(H.l).lock();
          st.llts.push_back(m2);
        }
        break;
      case 5: {
        int r = s.below(2);
        H.l.addRegulatoryElement(st.regs[r]);
        m.regs.push_back(r);
        break;
      }
      case 6: {
        int r = s.below(2);
        auto it = std::find(m.regs.begin(), m.regs.end(), r);
        PBT_EQ(H.l.removeRegulatoryElement(st.regs[r]), it != m.regs.end(), "removeRegulatoryElement");
        if (it != m.regs.end()) m.regs.erase(it);
        break;
      }
      case 7: {  // edit a line string: every view made of it follows, the centerline after resetCache
        auto e = st.pickLs();
        Id p = Id(1 + s.below(np));
        auto l = st.real(e);
        auto cur = st.list(e);
        if (s.flip() || cur.empty()) {
          size_t k = s.below(cur.size() + 1);
          l.insert(l.begin() + k, st.pts.at(p));
          cur.insert(cur.begin() + k, p);
        } else {
          l.pop_back();
          cur.pop_back();
        }
        st.lsM[e.ls].pts = e.inv ? rev(cur) : cur;
        st.centerStale = true;
        break;
      }
      case 8: {  // move a point
        auto& p = st.pts.at(Id(1 + s.below(np)));
        (s.flip() ? p.x() : p.y()) = s.grid(0, 6, 1);
        st.centerStale = true;
        break;
      }
      case 9: {
        auto& a = st.areas[0];
        auto r = randRing();
        a.first.setOuterBound(toReal(r));
        st.arM[0].outer = r;
        break;
      }
      case 10: {
        auto& a = st.areas[0];
        size_t k = s.below(3);
        st.arM[0].inner.clear();
        InnerBounds ib;
        for (size_t i = 0; i < k; ++i) {
          st.arM[0].inner.push_back(randRing());
          ib.push_back(toReal(st.arM[0].inner.back()));
        }
        a.first.setInnerBounds(ib);
        break;
      }
      case 11:
        H.l.setAttribute("a", m.attr = pbt::str("v", s.below(5)));
        break;
      default:
        H.l.setId(m.id = Id(200 + s.below(100)));
        break;
    }
    if (st.centerStale && s.chance(2, 3)) {
      for (auto& q : st.llts) q.l.resetCache();
      st.centerStale = false;
    }
    checkAll(s.chance(1, 3));
  }
  checkAll(true);
  bool joint = false;
  for (auto& m : st.lltM) {
    auto L = st.list(m.left), R = st.list(m.right);
    if (!L.empty() && !R.empty() && (L.back() == R.back() || L.front() == R.front())) joint = true;
  }
  c.nontrivial(sets > 0 && st.llts.size() > nll);
  if (joint) c.label("bounds share an end point");
  c.describe([&](auto& o) {
    for (size_t i = 0; i < st.lsM.size(); ++i) o << "ls" << i << "=" << chk::show(st.lsM[i].pts) << " ";
    o << ops << " operations, " << st.llts.size() << " handles";
  });
}

//! road-like lanelets: centerline between the bounds
void centerline(Case& c) {
  auto& s = c.src;
  corridor::Opt o;
  o.sameSampling = s.chance(1, 4);
  auto k = corridor::make(c, o);
  geo::L2 left = k.left, right = k.right;
  Id pid = 1000;
  double zl = s.grid(0, 4, 0.5), zr = s.grid(0, 4, 0.5);
  auto mk = [&](Id id, geo::L2 l, double z) {
    bool r = s.flip();
    if (r) std::reverse(l.begin(), l.end());
    auto ls = corridor::toLs(id, l, pid, z);
    return r ? ls.invert() : ls;
  };
  LineString3d L = mk(1, left, zl), R = mk(2, right, zr);
  if (s.chance(1, 5)) {  // closed at one or both ends
    geo::L2 l2 = left, r2 = right;
    bool b = s.flip(), e = s.flip();
    geo::P2 a = 0.5 * (left.front() + right.front()), z = 0.5 * (left.back() + right.back());
    Points3d lp, rp;
    if (b) l2[0] = r2[0] = a;
    if (e) l2.back() = r2.back() = z;
    for (auto& p : l2) lp.push_back(Point3d(pid++, p.x, p.y, zl));
    for (auto& p : r2) rp.push_back(Point3d(pid++, p.x, p.y, zl));
    if (b) rp[0] = lp[0];
    if (e) rp.back() = lp.back();
    zr = zl;
    L = LineString3d(1, lp), R = LineString3d(2, rp);
    left = l2, right = r2;
    c.label("closed");
  }
  geo::L2 ring = left;
  for (auto it = right.rbegin(); it != right.rend(); ++it) {
    if (geo::dist(ring.back(), *it) > 0 && geo::dist(ring.front(), *it) > 0) ring.push_back(*it);
  }
  if (!geo::simpleRing(ring)) throw pbt::Discard{};
  Lanelet l(5, L, R);
  bool inv = s.flip();
  ConstLanelet q = inv ? l.invert() : l;
  auto cl = conv::l3(q.centerline());
  auto cl2 = geo::to2(cl);
  c.describe([&](auto& oo) {
    oo << "left";
    for (auto& p : left) oo << " (" << p.x << "," << p.y << ")";
    oo << " right";
    for (auto& p : right) oo << " (" << p.x << "," << p.y << ")";
    oo << " centerline";
    for (auto& p : cl2) oo << " (" << p.x << "," << p.y << ")";
  });
  PBT_CHECK(cl.size() >= 2, "centerline has at least start and end");
  auto lb = conv::l3(q.leftBound()), rb = conv::l3(q.rightBound());
  PBT_CHECK(geo::dist(cl.front(), 0.5 * (lb.front() + rb.front())) < 1e-6, "start midway");
  PBT_CHECK(geo::dist(cl.back(), 0.5 * (lb.back() + rb.back())) < 1e-6, "end midway");
  geo::Poly poly{ring, {}};
  double tol = 1e-6;
  for (size_t i = 0; i + 1 < cl2.size(); ++i) {
    for (int j = 0; j <= 8; ++j) {
      geo::P2 p = cl2[i] + (j / 8.) * (cl2[i + 1] - cl2[i]);
      PBT_CHECK(geo::inPoly(p, poly) || geo::pointBoundary(p, poly) < tol,
                "centerline segment " << i << " leaves the lanelet at " << p.x << "," << p.y);
    }
  }
  for (auto& p : cl) PBT_CHECK(std::abs(p.z - 0.5 * (zl + zr)) < 1e-9, "height is the mean of both bounds");
  PBT_EQ(cl.size() <= left.size() + right.size(), true, "length of the centerline");
  // it proceeds from the start to the end: positions along the left bound never run backwards by more than the width
  if (k.straight) {
    for (auto& p : cl2) {
      double dl = geo::pointLine(p, k.left), dr = geo::pointLine(p, k.right);
      if (geo::simpleRing(corridor::ring(k)) && left.size() == k.left.size() && geo::dist(left[0], k.left[0]) == 0 &&
          geo::dist(left.back(), k.left.back()) == 0)
        PBT_CHECK(std::abs(dl - dr) < 1e-6, "straight lanelet: centerline is in the middle");
    }
    c.label("straight");
  } else {
    c.nontrivial(cl.size() > 4);
  }
  double maxGap = 0;
  for (auto& p : k.mid) maxGap = std::max(maxGap, geo::pointLine(p, cl2));
  PBT_CHECK(maxGap < k.width, "centerline strays " << maxGap << " from the middle of a lane of width " << k.width);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C04";
  s.rule =
      "histories: lanelets, areas, sequences and compounds over a small pool of shared (partly inverted, empty, repeated) line strings; after each "
      "operation through any handle all views of all handles are compared with lists of point ids. centerline: road-like lanelets with "
      "independently sampled bounds.";
  s.assumptions = {"point ids are unique", "after editing line strings or points the cached centerline is compared only once resetCache was called"};
  s.props = {{"histories", "non-trivial: bounds are replaced and a lanelet has several handles", 6500, 250000, histories},
             {"centerline", "non-trivial: curved lanelet whose centerline has more than 4 points", 16000, 1500000, centerline}};
  return pbt::runMain(s, argc, argv);
}
