// C12: the binary format reproduces a map bit for bit.
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/Serialize.h>
#include <lanelet2_projection/UTM.h>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <fstream>

#include "iomap.h"
using namespace lanelet;
using namespace iomap;

namespace {
std::string tmp(const char* n) {
  const char* d = getenv("PBT_TMP");
  return std::string(d ? d : "/tmp") + "/" + n;
}
// any double, in particular those a text format would not keep
double anyDouble(pbt::Src& s) {
  switch (s.below(8)) {
    case 0: return s.of({0., -0., 1e-310, -1e308, 1e-17, 1. / 3});
    case 1: return std::numeric_limits<double>::quiet_NaN();
    case 2: return s.of({1., -1.}) * std::numeric_limits<double>::infinity();
    case 3: return std::nextafter(s.grid(-100, 100, 1), 1e9);
    default: return s.real(-1e6, 1e6);
  }
}
Opts opts(Case& c) {
  Opts o;
  o.osm = false;
  return o;
}
void odd(Case& c, Gen& g) {  // values and shapes OSM can not hold
  auto& s = c.src;
  for (auto& p : g.pts)
    if (s.chance(1, 3)) p.z() = anyDouble(s);
  for (auto& l : g.lss)
    for (auto& p : l)
      if (s.chance(1, 6)) p.z() = anyDouble(s);
  auto binary = [&] {
    std::string t;
    size_t n = s.size(0, 6);
    for (size_t i = 0; i < n; ++i) t += char(s.below(256));
    return t;
  };
  for (auto& l : g.lss)
    if (s.chance(1, 4)) l.setAttribute(binary(), Attribute(binary()));
  for (auto& l : g.lls)
    if (s.chance(1, 4)) l.setAttribute(binary(), Attribute(binary()));
  c.label("lanelets", g.lls.size());
  c.label("areas", g.areas.size());
  c.label("rules", g.regs.size());
  bool cyc = false;
  for (auto& l : g.lls)
    for (auto& r : l.regulatoryElements())
      for (auto& q : r->getParameters())
        for (auto& e : q.second) cyc = cyc || boost::get<ConstWeakLanelet>(&e) != nullptr;
  if (cyc) c.label("cyclic");
  c.nontrivial((!g.lls.empty() && !g.regs.empty()) || !g.areas.empty());
}
void show(Case& c, const Snap& sn) {
  c.describe([&](std::ostream& o) {
    for (auto& e : sn.what) o << e.first << ": " << e.second << "\n";
    o << std::setprecision(17);
    for (auto& e : sn.xyz) o << "at " << e.first << ": " << e.second[0] << ", " << e.second[1] << ", " << e.second[2] << "\n";
  });
}
std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
// queries that need the typed state of the elements
std::string typed(const LaneletMap& m) {
  std::map<Id, std::string> out;
  for (auto& r : m.regulatoryElementLayer) {
    std::ostringstream o;
    if (auto t = std::dynamic_pointer_cast<const TrafficLight>(r)) {
      o << "light " << t->trafficLights().size() << " " << (t->stopLine() ? t->stopLine()->id() : 0);
    } else if (auto t2 = std::dynamic_pointer_cast<const RightOfWay>(r)) {
      o << "row";
      for (auto& l : t2->rightOfWayLanelets()) o << " " << l.id();
      for (auto& l : t2->yieldLanelets()) o << " y" << l.id() << l.inverted();
      {
        std::map<Id, int> man;
        for (auto& l : m.laneletLayer) man[l.id()] = int(t2->getManeuver(l));
        for (auto& e : man) o << " " << e.second;
      }
    } else if (auto t3 = std::dynamic_pointer_cast<const TrafficSign>(r)) {
      o << "sign " << t3->type() << " " << t3->trafficSigns().size() << " " << t3->refLines().size() << (std::dynamic_pointer_cast<const SpeedLimit>(r) ? " limit" : "");
    } else if (auto t4 = std::dynamic_pointer_cast<const AllWayStop>(r)) {
      o << "stop";
      for (auto& l : t4->lanelets()) {
        auto sl = t4->getStopLine(l);
        o << " " << l.id() << ":" << (sl ? sl->id() : 0);
      }
    }
    out[r->id()] = o.str();
  }
  std::string all;
  for (auto& e : out) all += std::to_string(e.first) + "=" + e.second + "; ";
  for (auto& l : m.laneletLayer) {
    std::string q;
    q += std::to_string(l.regulatoryElementsAs<RightOfWay>().size()) + std::to_string(l.regulatoryElementsAs<TrafficLight>().size()) +
         std::to_string(l.regulatoryElementsAs<SpeedLimit>().size()) + std::to_string(l.regulatoryElementsAs<AllWayStop>().size());
    out[l.id()] = q;
  }
  std::map<Id, std::string> sorted2(out.begin(), out.end());
  for (auto& e : sorted2) all += std::to_string(e.first) + "=" + e.second + "; ";
  return all;
}

void file(Case& c) {
  auto& s = c.src;
  Gen g(c, opts(c));
  g.run();
  odd(c, g);
  auto m = g.map();
  // ids that are not known to the id management yet
  bool fresh = s.flip();
  Id top = 0;
  if (fresh) {
    Id base = utils::getId() + 3;
    auto re = [&](auto& x) { x.setId(base + Id(s.below(3))), top = std::max(top, x.id()), base = x.id() + 1; };
    LaneletMapUPtr old = std::move(m);
    PointLayer::Map pm;
    LineStringLayer::Map lm;
    for (auto& p : old->pointLayer) re(p), pm.emplace(p.id(), p);
    for (auto& l : old->lineStringLayer) re(l), lm.emplace(l.id(), l);
    PolygonLayer::Map gm;
    for (auto& l : old->polygonLayer) re(l), gm.emplace(l.id(), l);
    LaneletLayer::Map llm;
    for (auto& l : old->laneletLayer) re(l), llm.emplace(l.id(), l);
    AreaLayer::Map am;
    for (auto& l : old->areaLayer) re(l), am.emplace(l.id(), l);
    RegulatoryElementLayer::Map rm;
    for (auto& l : old->regulatoryElementLayer) re(*l), rm.emplace(l->id(), l);
    m = std::make_unique<LaneletMap>(llm, am, rm, gm, lm, pm);
  }
  Snap before = snap(*m, true);
  show(c, before);
  std::string before2 = typed(*m);
  std::string f = tmp("a.bin");
  bool named = s.flip(), robust = s.flip();
  Origin o1(GPSPoint{s.grid(-70, 70, 1), s.grid(-170, 170, 1), 0}), o2(GPSPoint{s.grid(-70, 70, 1), s.grid(-170, 170, 1), 0});
  projection::UtmProjector utm(o2);
  ErrorMessages err{"x"};
  if (named) write(f, *m, "bin_handler", s.flip() ? o1 : Origin::defaultOrigin(), robust ? &err : nullptr);
  else write(f, *m, s.flip() ? o1 : Origin::defaultOrigin(), robust ? &err : nullptr);
  if (robust) PBT_CHECK(err.empty(), "errors while writing");
  same(snap(*m, true), before, 0, 0, "the map after writing");
  err = {"x"};
  LaneletMapUPtr r;
  switch (s.below(3)) {
    case 0: r = named ? load(f, "bin_handler", o2, robust ? &err : nullptr) : load(f, o2, robust ? &err : nullptr); break;
    case 1: r = named ? load(f, "bin_handler", utm, robust ? &err : nullptr) : load(f, utm, robust ? &err : nullptr); break;
    default: r = named ? load(f, "bin_handler", Origin::defaultOrigin(), robust ? &err : nullptr) : load(f, Origin::defaultOrigin(), robust ? &err : nullptr);
  }
  if (robust) PBT_CHECK(err.empty(), "errors while loading");
  same(snap(*r, true), before, 0, 0, "the loaded map");
  shared(*r, "the loaded map");
  PBT_EQ(typed(*r), before2, "typed queries");
  Id next = utils::getId();
  for (auto& e : before.xyz) PBT_CHECK(e.first < next, "getId() returns " << next << " although a point with id " << e.first << " was loaded");
  for (auto& l : r->laneletLayer) PBT_CHECK(l.id() < next, "getId() returns " << next << " although a lanelet with id " << l.id() << " was loaded");
  for (auto& l : r->regulatoryElementLayer) PBT_CHECK(l->id() < next, "getId() returns " << next << " although a rule with id " << l->id() << " was loaded");
  // nothing is shared between the original and the copy
  for (auto& p : r->pointLayer) PBT_CHECK(p.constData() != m->pointLayer.get(p.id()).constData(), "the loaded map shares a point with the original");
  // again from the copy
  std::string f2 = tmp("b.bin");
  write(f2, *r);
  auto r2 = load(f2);
  same(snap(*r2, true), before, 0, 0, "the map after a second cycle");
  shared(*r2, "the map after a second cycle");
  c.did(before.what.size());
}

// several primitives in one archive keep what they share
void archive(Case& c) {
  auto& s = c.src;
  Gen g(c, opts(c));
  g.run();
  odd(c, g);
  auto m = g.map();
  struct Item {
    int kind;
    size_t i;
    bool inv, alt;
  };
  std::vector<Item> items;
  size_t n = s.size(1, 8);
  for (size_t i = 0; i < n; ++i) {
    Item it{int(s.below(6)), 0, s.chance(1, 3), s.chance(1, 3)};
    size_t have = it.kind == 0 ? g.pts.size() : it.kind == 1 ? g.lss.size() : it.kind == 2 ? g.polys.size() : it.kind == 3 ? g.lls.size() : it.kind == 4 ? g.areas.size() : g.regs.size();
    if (have == 0) continue;
    it.i = s.below(have);
    items.push_back(it);
  }
  if (items.empty()) throw pbt::Discard{};
  auto llt = [&](const Item& i) { return i.inv ? g.lls[i.i].invert() : g.lls[i.i]; };
  auto ls = [&](const Item& i) { return i.inv ? g.lss[i.i].invert() : g.lss[i.i]; };
  c.describe([&](std::ostream& o) {
    o << "archived in this order:";
    static const char* names[] = {"point", "line", "polygon", "lanelet", "area", "rule"};
    for (auto& i : items) o << " " << names[i.kind] << i.i << (i.inv ? "^-1" : "");
    o << "\n";
  });
  show(c, snap(*m, true));
  std::stringstream st;
  {
    boost::archive::binary_oarchive oa(st);
    for (auto& i : items) {
      switch (i.kind) {
        case 0: {
          const Point3d p = g.pts[i.i];
          oa << p;
          break;
        }
        case 1: {
          const LineString3d l = ls(i);
          if (i.alt) {
            const ConstLineString3d cl = l;
            oa << cl;
          } else {
            oa << l;
          }
          break;
        }
        case 2: {
          const Polygon3d l = g.polys[i.i];
          oa << l;
          break;
        }
        case 3: {
          const Lanelet l = llt(i);
          if (i.alt) {
            const WeakLanelet w = l;
            oa << w;
          } else {
            oa << l;
          }
          break;
        }
        case 4: {
          const Area a = g.areas[i.i];
          if (i.alt) {
            const WeakArea w = a;
            oa << w;
          } else {
            oa << a;
          }
          break;
        }
        default: {
          const RegulatoryElementPtr r = g.regs[i.i];
          oa << r;
        }
      }
    }
  }
  auto got = std::make_unique<LaneletMap>();
  std::vector<Lanelet> lls;
  std::vector<RegulatoryElementPtr> regs;  // they keep the elements alive
  std::vector<Area> areas;
  std::vector<std::string> order, wantOrder;
  boost::archive::binary_iarchive ia(st);  // keeps what is only referenced weakly
  {
    for (auto& i : items) {
      switch (i.kind) {
        case 0: {
          Point3d p;
          ia >> p;
          got->add(p);
          order.push_back("point " + std::to_string(p.id()));
          wantOrder.push_back("point " + std::to_string(g.pts[i.i].id()));
          break;
        }
        case 1: {
          LineString3d l;
          if (i.alt) {
            ConstLineString3d cl;
            ia >> cl;
            l = LineString3d(std::const_pointer_cast<LineStringData>(cl.constData()), cl.inverted());
          } else {
            ia >> l;
          }
          order.push_back("line " + std::to_string(l.id()) + " " + std::to_string(l.inverted()) + idlist(l));
          wantOrder.push_back("line " + std::to_string(ls(i).id()) + " " + std::to_string(ls(i).inverted()) + idlist(ls(i)));
          got->add(l);
          break;
        }
        case 2: {
          Polygon3d l;
          ia >> l;
          order.push_back("polygon " + std::to_string(l.id()) + idlist(l));
          wantOrder.push_back("polygon " + std::to_string(g.polys[i.i].id()) + idlist(g.polys[i.i]));
          got->add(l);
          break;
        }
        case 3: {
          Lanelet l;
          if (i.alt) {
            WeakLanelet w;
            ia >> w;
            PBT_CHECK(!w.expired(), "the loaded weak lanelet is expired although the archive is not finished");
            l = w.lock();
          } else {
            ia >> l;
          }
          order.push_back("lanelet " + std::to_string(l.id()) + " " + std::to_string(l.inverted()) + idlist(l.leftBound()));
          wantOrder.push_back("lanelet " + std::to_string(llt(i).id()) + " " + std::to_string(llt(i).inverted()) + idlist(llt(i).leftBound()));
          lls.push_back(l);
          break;
        }
        case 4: {
          Area a;
          if (i.alt) {
            WeakArea w;
            ia >> w;
            PBT_CHECK(!w.expired(), "the loaded weak area is expired although the archive is not finished");
            a = w.lock();
          } else {
            ia >> a;
          }
          order.push_back("area " + std::to_string(a.id()));
          wantOrder.push_back("area " + std::to_string(g.areas[i.i].id()));
          areas.push_back(a);
          break;
        }
        default: {
          RegulatoryElementPtr r;
          ia >> r;
          PBT_CHECK(!!r, "no regulatory element");
          order.push_back("rule " + std::to_string(r->id()));
          wantOrder.push_back("rule " + std::to_string(g.regs[i.i]->id()));
          regs.push_back(r);
        }
      }
    }
  }
  PBT_EQ(chk::show(order), chk::show(wantOrder), "archived objects");
  // elements reachable through the loaded objects equal the original ones, and are the same objects where they were the same
  auto want = std::make_unique<LaneletMap>();
  for (auto& i : items) {
    switch (i.kind) {
      case 0: want->add(g.pts[i.i]); break;
      case 1: want->add(ls(i)); break;
      case 2: want->add(g.polys[i.i]); break;
      case 3: want->add(llt(i)); break;
      case 4: want->add(g.areas[i.i]); break;
      default: want->add(g.regs[i.i]);
    }
  }
  size_t a = 0, b = 0, d = 0;
  for (auto& i : items) {
    if (i.kind == 3) got->add(lls[a++]);
    if (i.kind == 4) got->add(areas[b++]);
    if (i.kind == 5) got->add(regs[d++]);
  }
  // which of several equal usages (inverted or not) is listed in a layer depends on the order of adding
  auto norm = [](Snap x) { return x; };
  same(norm(Shot{false}(*got)), norm(Shot{false}(*want)), 0, 0, "the archived objects");
  shared(*got, "the archived objects");
  c.did(order.size());
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C12";
  s.rule = "the map has an area, or lanelets together with regulatory elements";
  s.assumptions = {"regulatory elements are of a registered type and carry its subtype tag (an unknown subtype can not be constructed while loading)", "no regulatory element refers to a primitive that no longer exists"};
  s.props = {
      {"file", "binary files of generated maps, twice, with unregistered ids and any projector", 12000, 500000, file},
      {"archive", "sequences of single primitives in one archive keep values, direction and sharing", 8000, 300000, archive},
  };
  return pbt::runMain(s, argc, argv);
}
