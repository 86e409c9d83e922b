// Shared helpers of the checks. Only public API of lanelet2 is used.
#pragma once
#include <lanelet2_core/Attribute.h>
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/LineStringOrPolygon.h>
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/primitives/Polygon.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_core/utility/Utilities.h>

#include <algorithm>
#include <cmath>
#include <iomanip>
#include <limits>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "pbt.h"

namespace ll = lanelet;
using pbt::Case;

namespace chk {
template <typename Range>
std::vector<ll::Id> ids(const Range& r) {
  std::vector<ll::Id> out;
  for (auto it = r.begin(); it != r.end(); ++it) out.push_back(it->id());
  return out;
}
template <typename T>
std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? ", " : "") << v[i];
  o << "]";
  return o.str();
}
template <typename T>
std::vector<T> sorted(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  return v;
}
template <typename E, typename F>
bool throws(F&& f) {
  try {
    f();
  } catch (const E&) {
    return true;
  }
  return false;
}
}  // namespace chk

#define VEQ(a, b, ...)                                                                           \
  do {                                                                                           \
    const auto pbt_a_ = (a);                                                                     \
    const auto pbt_b_ = (b);                                                                     \
    if (!(pbt_a_ == pbt_b_)) {                                                                   \
      std::ostringstream pbt_o_;                                                                 \
      pbt_o_.precision(17);                                                                      \
      pbt_o_ << __FILE__ ":" PBT_STR(__LINE__) ": " #a " == " #b " got " << chk::show(pbt_a_) << " vs " \
             << chk::show(pbt_b_) << " -- " << __VA_ARGS__;                                      \
      throw ::pbt::Fail{pbt_o_.str()};                                                           \
    }                                                                                            \
  } while (0)
