// C17: lane changes are allowed exactly where the shared marking permits them.
#include "rules.h"
using namespace lanelet;
using namespace rules;
using lattice::LsH;
using lattice::V;
using lattice::World;

namespace {
void lattices(Case& c) {
  auto& s = c.src;
  registerOther();
  World w{c};
  w.fill();
  if (w.llts.empty()) throw pbt::Discard{};
  std::string who = s.pick(participants()), land = s.of<std::string>({"de", "xx"});
  std::vector<Tags> mark, tl;
  bool perm = s.flip();
  for (auto& l : w.ls) mark.push_back(markTags(s, perm)), putTags(l, mark.back());
  bool simple = s.chance(3, 4);
  for (auto& l : w.llts) {
    if (simple && s.chance(4, 5)) tl.push_back({{"participant:" + who, "yes"}, {"one_way", yesNo(s)}});
    else tl.push_back(passTags(s, true));
    putTags(l, tl.back());
  }
  auto r = make(land, who);
  auto passL = [&](const V& v) { return passable(tl[size_t(v.m)], v.inv, who); };
  size_t yes = 0, no = 0;
  for (size_t i = 0; i < w.llts.size() && i < 12; ++i)
    for (size_t j = 0; j < w.llts.size() && j < 12; ++j)
      for (int v = 0; v < 4; ++v) {
        auto get = [&](size_t k, bool inv) -> V {
          auto& q = w.lltM[k];
          if (inv) return {w.llts[k].invert(), q.right.flip(), q.left.flip(), int(k), true};
          return {w.llts[k], q.left, q.right, int(k), false};
        };
        V a = get(i, v & 1), b = get(j, v & 2);
        bool toRight = a.right == b.left, toLeft = a.left == b.right;
        if (toRight && toLeft) continue;
        Tri want = No;
        if (toRight) want = both(both(passL(a), passL(b)), crossable(mark[size_t(a.right.ls)], a.right.inv, false, who, false));
        if (toLeft) want = both(both(passL(a), passL(b)), crossable(mark[size_t(a.left.ls)], a.left.inv, true, who, false));
        if (want == Open) continue;
        c.did();
        PBT_EQ(r->canChangeLane(ConstLanelet(a.l), ConstLanelet(b.l)), want == Yes,
               land << " " << who << ": canChangeLane(" << a.l.id() << (a.inv ? " inverted, " : ", ") << b.l.id() << (b.inv ? " inverted)" : ")"));
        yes += want == Yes, no += (toRight || toLeft) && want == No;
      }
  c.describe([&](auto& o) {
    o << land << " " << who << "\n";
    for (size_t i = 0; i < w.llts.size(); ++i) o << w.llts[i].id() << " " << str(tl[i]) << " left " << w.lltM[i].left.ls << (w.lltM[i].left.inv ? "i" : "") << " right " << w.lltM[i].right.ls << (w.lltM[i].right.inv ? "i" : "") << "\n";
    for (size_t i = 0; i < mark.size(); ++i) o << "line " << i << " " << str(mark[i]) << "\n";
  });
  c.label("allowed", yes);
  c.label("neighbours without lane change", no);
  c.nontrivial(yes > 0 && no > 0);
}

// two lanes side by side: every marking, participant and orientation
void twoLanes(Case& c) {
  auto& s = c.src;
  registerOther();
  Tags m = markTags(s), mirrored = m;
  auto swapSides = [](Tags& t) {
    if (t.count("lane_change:left")) std::swap(t["lane_change:left"], t["lane_change:right"]);
    auto& sub = t["subtype"];
    if (sub == "dashed_solid") sub = "solid_dashed";
    else if (sub == "solid_dashed") sub = "dashed_solid";
  };
  swapSides(mirrored);
  Id id = 1;
  auto line = [&](double y, bool rev, const Tags& t) {
    size_t n = 2 + s.below(3);
    Points3d p;
    for (size_t i = 0; i < n; ++i) p.emplace_back(id++, 10. * double(rev ? n - 1 - i : i), y, 0);
    LineString3d l(id++, p);
    putTags(l, t);
    return l;
  };
  Tags tl{{"subtype", subtype(s)}}, tr{{"subtype", s.flip() ? tl["subtype"] : subtype(s)}};
  for (auto* t : {&tl, &tr})
    if (s.flip()) (*t)["one_way"] = yesNo(s);
  bool rev = s.flip();
  // the marking is stored in one or the other direction with mirrored tags: same meaning
  LineString3d top = line(6, false, markTags(s)), bottom = line(0, false, markTags(s));
  LineString3d fwd = line(3, false, m), back = line(3, true, mirrored);
  LineString3d mid = rev ? back.invert() : fwd;
  Lanelet left(1000, top, mid), right(1001, mid, bottom);
  putTags(left, tl), putTags(right, tr);
  c.describe([&](auto& o) { o << "marking " << str(m) << (rev ? " stored the other way round" : "") << " left " << str(tl) << " right " << str(tr); });
  size_t yes = 0;
  for (auto& who : participants()) {
    auto r = make(s.flip() ? "de" : "xx", who);
    std::string ctx = who + ": ";
    auto expect = [&](bool got, Tri p, Tri x, const char* what) {
      Tri w = both(p, x);
      if (w == Open) return;
      c.did();
      PBT_EQ(got, w == Yes, ctx << what);
      yes += w == Yes;
    };
    Tri pass = both(allowed(tl, who), allowed(tr, who)), back2 = both(passable(tl, true, who), passable(tr, true, who));
    Tri toR = crossable(m, false, false, who, false), toL = crossable(m, false, true, who, false);
    expect(r->canChangeLane(left, right), pass, toR, "left to right");
    expect(r->canChangeLane(right, left), pass, toL, "right to left");
    expect(r->canChangeLane(left.invert(), right.invert()), back2, toR, "left to right, inverted");
    expect(r->canChangeLane(right.invert(), left.invert()), back2, toL, "right to left, inverted");
    expect(r->canChangeLane(left, right.invert()), No, No, "into the opposite direction");
    expect(r->canChangeLane(left.invert(), right), No, No, "into the opposite direction");
    expect(r->canChangeLane(left, left), No, No, "onto itself");
  }
  c.nontrivial(yes > 0);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C17";
  s.rule = "lattices: at least one allowed and one forbidden lane change between neighbours; two lanes: some lane change is allowed";
  s.assumptions = {"if lane_change:left or lane_change:right is used, both are set, as the specification demands"};
  s.props = {
      {"lattices", "all pairs of lanelets of generated networks", 20000, 1000000, lattices},
      {"twoLanes", "all participants on two lanes, marking stored in either direction", 60000, 3000000, twoLanes},
  };
  return pbt::runMain(s, argc, argv);
}
