// C15: projections invert each other and respect their origin and bounds.
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Projection.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

#include <GeographicLib/PolarStereographic.hpp>
#include <GeographicLib/TransverseMercatorExact.hpp>
#include <GeographicLib/UTMUPS.hpp>
#include <cmath>

#include "common.h"
using namespace lanelet;
using pbt::Case;

namespace {
constexpr double A = 6378137.0, F = 1 / 298.257223563, E2 = F * (2 - F);
const double R = M_PI / 180;

// WGS84 to earth centered coordinates, from the definition of the ellipsoid
BasicPoint3d ecef(const GPSPoint& p) {
  long double la = p.lat * (M_PIl / 180), lo = p.lon * (M_PIl / 180), h = p.ele;
  long double s = std::sin(la), n = A / std::sqrt(1 - E2 * s * s);
  return {double((n + h) * std::cos(la) * std::cos(lo)), double((n + h) * std::cos(la) * std::sin(lo)), double((n * (1 - E2) + h) * s)};
}
BasicPoint3d enu(const GPSPoint& o, const GPSPoint& p) {
  BasicPoint3d d = ecef(p) - ecef(o);
  double sl = std::sin(o.lat * R), cl = std::cos(o.lat * R), so = std::sin(o.lon * R), co = std::cos(o.lon * R);
  return {-so * d.x() + co * d.y(), -sl * co * d.x() - sl * so * d.y() + cl * d.z(), cl * co * d.x() + cl * so * d.y() + sl * d.z()};
}
double gpsDist(const GPSPoint& a, const GPSPoint& b) { return (ecef(a) - ecef(b)).norm(); }
std::string str(const GPSPoint& p) {
  std::ostringstream o;
  o.precision(15);
  o << "(" << p.lat << ", " << p.lon << ", " << p.ele << ")";
  return o.str();
}
std::string str(const BasicPoint3d& p) {
  std::ostringstream o;
  o.precision(15);
  o << "(" << p.x() << ", " << p.y() << ", " << p.z() << ")";
  return o.str();
}
double clampLat(double l, double m) { return std::min(m, std::max(-m, l)); }
double wrap(double lon) {
  while (lon > 180) lon -= 360;
  while (lon < -180) lon += 360;
  return lon;
}
double ele(pbt::Src& s) { return s.chance(1, 3) ? 0. : s.grid(-500, 9000, 0.5); }
//! a position, often at special places
GPSPoint position(pbt::Src& s, double maxLat) {
  double lat, lon;
  switch (s.below(6)) {
    case 0: lat = s.of({0., 1e-9, -1e-9, 0.5, -0.5, 56., 64., 72., 84., -80., 83.999999, -79.999999, 84.000001, -80.000001}); break;
    case 1: lat = s.grid(56, 64, 1e-3); break;
    case 2: lat = s.grid(71, 85, 1e-3); break;
    case 3: lat = s.of({89.9, -89.9, 90., -90., 89.5, 89.6, -89.5, -89.6, 45., -45.}); break;
    default: lat = s.grid(-90, 90, 1e-4);
  }
  switch (s.below(5)) {
    case 0: lon = 6 * double(s.range(-30, 30)) + s.of({0., 1e-9, -1e-9, 1e-4, -1e-4, 0.1, -0.1, 3.}); break;
    case 1: lon = s.of({180., -180., 179.999, -179.999, 0., 90., -90.}); break;
    case 2: lon = s.grid(-1, 46, 1e-3); break;
    default: lon = s.grid(-180, 180, 1e-4);
  }
  lat = clampLat(lat, maxLat);
  if (lat == 0) lat = 0;  // no negative zero
  return {lat, wrap(lon), ele(s)};
}
//! a position at most some kilometers away
GPSPoint near(pbt::Src& s, const GPSPoint& o, double maxLat, double m) {
  double dn = s.grid(-m, m, 0.01), de = s.grid(-m, m, 0.01);
  double lat = clampLat(o.lat + dn / 111000., maxLat);
  double lon = wrap(o.lon + de / (111000. * std::max(0.05, std::cos(lat * R))));
  return {lat, lon, s.flip() ? o.ele : ele(s)};
}
GPSPoint target(pbt::Src& s, const GPSPoint& o, double maxLat) {
  switch (s.below(4)) {
    case 0: return position(s, maxLat);
    case 1: return near(s, o, maxLat, 50);
    case 2: return near(s, o, maxLat, 600000);
    default: return near(s, o, maxLat, 5000);
  }
}

#define CLOSE(got, want, tol, what) PBT_CHECK(((got) - (want)).norm() <= (tol), what << ": " << str(got) << ", expected " << str(want))
#define GPSCLOSE(got, want, tol, what) PBT_CHECK(gpsDist(got, want) <= (tol), what << ": " << str(got) << ", expected " << str(want) << ", " << gpsDist(got, want) << " m away")

void both(const Projector& p, const GPSPoint& x, double tol, double tolBack) {
  auto f = p.forward(x);
  auto b = p.reverse(f);
  GPSCLOSE(b, x, tol, "reverse(forward(" << str(x) << "))");
  PBT_CHECK(std::abs(b.ele - x.ele) <= tol, "elevation of reverse(forward(" << str(x) << "))");
  CLOSE(p.forward(b), f, tolBack, "forward(reverse(" << str(f) << "))");
}

void sphericalMercator(Case& c) {
  auto& s = c.src;
  Origin o(position(s, 89));
  projection::SphericalMercatorProjector p(o);
  PBT_CHECK(p.origin().position.lat == o.position.lat && p.origin().position.lon == o.position.lon && !p.origin().isDefault, "origin");
  GPSPoint x = target(s, o.position, 89);
  c.describe([&](auto& os) { os << "origin " << str(o.position) << " point " << str(x); });
  double sc = std::cos(o.position.lat * R);
  BasicPoint3d want(sc * A * x.lon * R, sc * A * std::asinh(std::tan(x.lat * R)), x.ele);
  double tol = 1e-7 + 1e-13 * want.norm() / std::max(0.1, std::cos(x.lat * R));
  CLOSE(p.forward(x), want, tol, "forward");
  both(p, x, 1e-6, 1e-5);
  Projector::Ptr copy = std::make_shared<projection::SphericalMercatorProjector>(p);
  CLOSE(copy->forward(x), p.forward(x), 0., "copy");
  // near the origin, the projection has true scale and the right orientation
  GPSPoint a = near(s, o.position, 89, 20);
  if (std::abs(a.lon - o.position.lon) < 1) {
    a.ele = o.position.ele;
    BasicPoint3d d = p.forward(a) - p.forward(o.position), t = enu(o.position, a);
    // radius of curvature of the ellipsoid and the sphere differ by at most 0.7 %
    PBT_CHECK((d.head<2>() - t.head<2>()).norm() <= 0.01 * t.norm() + 1e-6, "metric at origin: " << str(d) << " instead of " << str(t));
  }
  c.nontrivial(std::abs(o.position.lat) > 1);
}

double isometric(double lat) {
  double e = std::sqrt(E2), f = lat * R;
  return std::asinh(std::tan(f)) - e * std::atanh(e * std::sin(f));
}
void mercator(Case& c) {
  auto& s = c.src;
  Origin o(position(s, 89));
  projection::Mercator p(o);
  GPSPoint x = target(s, o.position, 90);
  c.describe([&](auto& os) { os << "origin " << str(o.position) << " point " << str(x); });
  double la = clampLat(x.lat, 89.5);  // the poles are infinitely far away
  BasicPoint3d want(A * (x.lon - o.position.lon) * R, A * (isometric(la) - isometric(o.position.lat)), x.ele - o.position.ele);
  CLOSE(p.forward(x), want, 1e-3, "forward");  // its eccentricity has 11 digits
  GPSPoint lim{la, x.lon, x.ele};
  both(p, lim, 1e-3, 1e-1);
  CLOSE(p.forward(o.position), BasicPoint3d(0, 0, 0), 0., "the origin");
  GPSCLOSE(p.reverse(BasicPoint3d(0, 0, 0)), o.position, 1e-3, "reverse of zero");
  // conformal: equal scale in both directions, north is up
  GPSPoint n{o.position.lat + 1e-5, o.position.lon, o.position.ele}, e{o.position.lat, o.position.lon + 1e-5, o.position.ele};
  BasicPoint3d dn = p.forward(n), de = p.forward(e);
  double kn = dn.y() / enu(o.position, n).y(), ke = de.x() / enu(o.position, e).x();
  PBT_CHECK(dn.y() > 0 && de.x() > 0 && std::abs(dn.x()) < 1e-6 && std::abs(de.y()) < 1e-6, "orientation: north " << str(dn) << " east " << str(de));
  PBT_CHECK(std::abs(kn / ke - 1) < 1e-3, "scale " << kn << " to the north, " << ke << " to the east");
  c.nontrivial(std::abs(o.position.lat) > 1);
}

void localCartesian(Case& c) {
  auto& s = c.src;
  Origin o(position(s, 90));
  projection::LocalCartesianProjector p(o);
  GPSPoint x = target(s, o.position, 90);
  c.describe([&](auto& os) { os << "origin " << str(o.position) << " point " << str(x); });
  CLOSE(p.forward(x), enu(o.position, x), 1e-6, "forward");
  both(p, x, 1e-6, 1e-6);
  CLOSE(p.forward(o.position), BasicPoint3d(0, 0, 0), 1e-8, "the origin");
  // distances are kept exactly
  GPSPoint y = target(s, o.position, 90);
  PBT_CHECK(std::abs((p.forward(x) - p.forward(y)).norm() - gpsDist(x, y)) <= 1e-6, "distance of " << str(x) << " and " << str(y));
  // metric points to gps and back
  BasicPoint3d m(s.grid(-1e4, 1e4, 0.01), s.grid(-1e4, 1e4, 0.01), s.grid(-100, 1000, 0.01));
  CLOSE(p.forward(p.reverse(m)), m, 1e-6, "forward(reverse)");
  c.nontrivial(std::abs(o.position.lat) > 1 && std::abs(o.position.lon) > 1);
}

void geocentric(Case& c) {
  auto& s = c.src;
  projection::GeocentricProjector p;
  GPSPoint x = position(s, 90);
  c.describe([&](auto& os) { os << "point " << str(x); });
  CLOSE(p.forward(x), ecef(x), 1e-7, "forward");
  both(p, x, 1e-6, 1e-6);
  PBT_CHECK(!p.origin().isDefault, "the origin must not count as unset");
  CLOSE(p.forward(p.origin().position), BasicPoint3d(0, 0, 0), 0.1, "the origin");
  c.nontrivial();
}

//! UTM or UPS coordinates of a point in a given zone, not bounded
struct Ref {
  bool ok{true};
  double x{}, y{};
};
Ref utmRef(const GPSPoint& p, int zone, bool north) {
  Ref r;
  if (zone == 0) {
    r.ok = north ? p.lat > 60 : p.lat < -60;
    if (!r.ok) return r;
    GeographicLib::PolarStereographic::UPS().Forward(north, p.lat, p.lon, r.x, r.y);
    r.x += 2e6, r.y += 2e6;
    return r;
  }
  double lon0 = 6. * zone - 183;
  double d = wrap(p.lon - lon0);
  r.ok = std::abs(d) < 59;
  if (!r.ok) return r;
  GeographicLib::TransverseMercatorExact::UTM().Forward(lon0, p.lat, p.lon, r.x, r.y);
  r.x += 5e5;
  if (!north) r.y += 1e7;
  return r;
}
//! zone by the definition of the grid
int zoneOf(const GPSPoint& p) {
  if (p.lat >= 84 || p.lat < -80) return 0;
  double lon = p.lon >= 180 ? p.lon - 360 : p.lon;
  int z = int(std::floor((lon + 180) / 6)) + 1;
  if (p.lat >= 56 && p.lat < 64 && lon >= 3 && lon < 6) return 32;
  if (p.lat >= 72 && p.lat < 84 && lon >= 0 && lon < 42) return lon < 9 ? 31 : lon < 21 ? 33 : lon < 33 ? 35 : 37;
  return z;
}
bool nearBorder(const GPSPoint& p, double eps) {
  for (double a : {-eps, 0., eps})
    for (double b : {-eps, 0., eps}) {
      GPSPoint q{clampLat(p.lat + a, 90), wrap(p.lon + b), 0};
      if (zoneOf(q) != zoneOf(p) || (q.lat >= 0) != (p.lat >= 0)) return true;
    }
  return false;
}
void utm(Case& c) {
  auto& s = c.src;
  Origin o(position(s, 90));
  bool useOffset = s.flip(), thr = s.flip();
  projection::UtmProjector p(o, useOffset, thr);
  GPSPoint x;
  // places around the origin, around the limits of the padding, or anywhere
  int zone = zoneOf(o.position);
  bool north = o.position.lat >= 0;
  if (zone != 0 && s.chance(1, 3)) {
    x = near(s, o.position, 90, 3000);
    double km = s.grid(-100000, 100000, 1);
    double half = (5e5 + km) / (111320. * std::max(0.05, std::cos(x.lat * R)));
    x.lon = wrap(6. * zone - 183 + (s.flip() ? half : -half));
  } else {
    x = target(s, o.position, 90);
  }
  if (x.lat == 0) x.lat = 0;
  c.describe([&](auto& os) { os << "origin " << str(o.position) << " point " << str(x) << (useOffset ? " with offset" : "") << (thr ? " throws in padding" : ""); });
  bool same = zoneOf(x) == zone && (x.lat >= 0) == north;
  Ref ro = utmRef(o.position, zone, north), r = utmRef(x, zone, north);
  bool threw = false;
  BasicPoint3d f(0, 0, 0);
  try {
    f = p.forward(x);
  } catch (ForwardProjectionError&) {
    threw = true;
  }
  std::string ctx = "forward of a point in " + std::string(same ? "the zone" : "another zone or hemisphere");
  if (same) PBT_CHECK(!threw, ctx << " failed");
  if (thr && !same) PBT_CHECK(threw, ctx << " did not fail");
  if (!same && !thr) {
    // the limits of UTM coordinates are 100 km wider than those of the grid (100..900 km, UPS: 1300..2700 km north, 800..3200 km south)
    double lo = zone ? 0 : north ? 1.2e6 : 0.7e6, hi = zone ? 1e6 : north ? 2.8e6 : 3.3e6;
    auto within = [&](double m) { return r.ok && r.x > lo + m && r.x < hi - m && (zone || (r.y > lo + m && r.y < hi - m && (x.lat >= 0) == north)); };
    // towards the poles, UTM coordinates end 100 km beyond the northings of the grid (9500 and -9000 km)
    double own = r.y - (north ? 0 : 1e7);  // northing from the equator
    bool polar = zone && (own > 9.599e6 || own < -9.099e6);
    if (within(1) && !polar) PBT_CHECK(!threw, ctx << " failed within the padding area");
    if (!within(-1)) PBT_CHECK(threw, ctx << " did not fail outside of the padding area: " << str(f));
    c.label(threw ? "outside" : "padding");
  }
  double rx = useOffset ? ro.x : 0, ry = useOffset ? ro.y : 0;
  if (!threw) {
    CLOSE(f, BasicPoint3d(r.x - rx, r.y - ry, x.ele), 1e-5, "forward");
    bool border = nearBorder(x, 1e-7);
    if (!thr || !border) {
      GPSPoint b;
      bool failed = false;
      try {
        b = p.reverse(f);
      } catch (ReverseProjectionError& e) {
        failed = true;
      }
      PBT_CHECK(!failed, "reverse of " << str(f) << " failed");
      GPSCLOSE(b, x, 1e-5, "reverse(forward)");
      PBT_EQ(b.ele, x.ele, "elevation");
    }
  } else if (r.ok && thr && !nearBorder(x, 1e-7)) {
    // a metric point that is not in the zone
    bool failed = false;
    try {
      p.reverse(BasicPoint3d(r.x - rx, r.y - ry, 0));
    } catch (ReverseProjectionError&) {
      failed = true;
    }
    PBT_CHECK(failed, "reverse to a point outside of the zone did not fail");
  }
  // the origin
  auto fo = p.forward(o.position);
  CLOSE(fo, BasicPoint3d(useOffset ? 0 : ro.x, useOffset ? 0 : ro.y, o.position.ele), 1e-5, "the origin");
  // metric points
  BasicPoint3d m(s.grid(-5e4, 5e4, 0.01) + (useOffset ? 0 : ro.x), s.grid(-5e4, 5e4, 0.01) + (useOffset ? 0 : ro.y), s.grid(-100, 1000, 0.01));
  if (s.chance(1, 8)) m.x() = s.of({1e9, -1e9, 2e6, -6e5}), c.label("far");
  try {
    auto g = p.reverse(m);
    PBT_EQ(g.ele, m.z(), "elevation");
    if (!nearBorder(g, 1e-7) || !thr) {
      try {
        CLOSE(p.forward(g), m, 1e-4, "forward(reverse)");
      } catch (ForwardProjectionError&) {
        PBT_CHECK(!thr, "the result of reverse can not be projected");
      }
    }
    PBT_CHECK(std::abs(m.x() + rx) < 5e6, "reverse of " << str(m) << " did not fail");
  } catch (ReverseProjectionError&) {
    c.label("reverse fails");
  }
  projection::UtmProjector q(p);
  if (!threw) CLOSE(q.forward(x), f, 0., "copy");
  c.nontrivial(!same || useOffset);
  c.label(same ? "same zone" : "other zone");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C15";
  s.rule = "mercator, local cartesian: the origin is not on the equator (or meridian); utm: an offset is used or the point is in another zone or hemisphere";
  s.assumptions = {"references: the definition of the WGS84 ellipsoid, spherical and elliptical Mercator formulas, GeographicLib's exact transverse Mercator and polar stereographic projections",
                   "tolerances: 1 um (LocalCartesian, Geocentric), 10 um (UTM), 1 mm (Mercator, whose inverse iteration stops at 1e-9 rad)"};
  s.props = {
      {"sphericalMercator", "default projector", 200000, 10000000, sphericalMercator},
      {"mercator", "elliptical Mercator", 200000, 10000000, mercator},
      {"localCartesian", "east, north, up coordinates", 200000, 10000000, localCartesian},
      {"geocentric", "earth centered coordinates", 200000, 10000000, geocentric},
      {"utm", "UTM/UPS with offset, padding and zone rules", 500000, 25000000, utm},
  };
  return pbt::runMain(s, argc, argv);
}
