// conversions from lanelet2 primitives (through their plain accessors) to the oracle's vectors
#pragma once
#include "common.h"
#include "geo.h"
namespace conv {
inline geo::P3 p3(const ll::ConstPoint3d& p) { return {p.x(), p.y(), p.z()}; }
inline geo::P2 p2(const ll::ConstPoint3d& p) { return {p.x(), p.y()}; }
inline geo::P2 p2(const ll::BasicPoint2d& p) { return {p.x(), p.y()}; }
inline geo::P3 p3(const ll::BasicPoint3d& p) { return {p.x(), p.y(), p.z()}; }
template <typename R>
geo::L3 l3(const R& r) {
  geo::L3 o;
  for (size_t i = 0; i < r.size(); ++i) o.push_back({r[i].x(), r[i].y(), r[i].z()});
  return o;
}
template <typename R>
geo::L2 l2(const R& r) {
  geo::L2 o;
  for (size_t i = 0; i < r.size(); ++i) o.push_back({r[i].x(), r[i].y()});
  return o;
}
inline ll::BasicPoint2d bp(geo::P2 p) { return ll::BasicPoint2d(p.x, p.y); }
inline ll::BasicPoint3d bp(geo::P3 p) { return ll::BasicPoint3d(p.x, p.y, p.z); }
inline ll::BasicLineString2d bl(const geo::L2& l) {
  ll::BasicLineString2d o;
  for (auto& p : l) o.push_back(bp(p));
  return o;
}
inline ll::BasicLineString3d bl(const geo::L3& l) {
  ll::BasicLineString3d o;
  for (auto& p : l) o.push_back(bp(p));
  return o;
}
inline ll::BasicPolygon2d bpoly(const geo::L2& l) {
  ll::BasicPolygon2d o;
  for (auto& p : l) o.push_back(bp(p));
  return o;
}
}  // namespace conv
