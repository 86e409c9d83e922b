// C05: attributes and the attribute map against a text model and std::map.
#include <lanelet2_core/utility/Units.h>

#include <cctype>
#include <cstdlib>

#include "common.h"
using namespace lanelet;

namespace {
// ---- independent reading of a text
bool digits(const std::string& s, size_t& i) {
  size_t b = i;
  while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i;
  return i > b;
}
//! length of the longest decimal number starting at i, 0 if none; plain decimal grammar
size_t numberAt(const std::string& s, size_t b) {
  size_t i = b;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  bool d = digits(s, i);
  if (i < s.size() && s[i] == '.') {
    size_t k = i + 1;
    bool d2 = digits(s, k);
    if (d || d2) i = k, d = true;
  }
  if (!d) return 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    size_t k = i + 1;
    if (k < s.size() && (s[k] == '+' || s[k] == '-')) ++k;
    if (digits(s, k)) i = k;
  }
  return i - b;
}
bool exotic(const std::string& s) {  // hexadecimal, nan, inf, overflowing numbers: only consistency is demanded
  std::string l;
  for (char ch : s) l += char(std::tolower((unsigned char)ch));
  if (l.find("nan") != l.npos || l.find("inf") != l.npos || l.find('x') != l.npos) return true;
  for (size_t i = 0; i < s.size(); ++i) {
    size_t n = numberAt(s, i);
    if (n) {
      double v = std::fabs(std::strtod(s.substr(i, n).c_str(), nullptr));
      if (!(v == 0 || (v > 1e-300 && v < 1e300))) return true;
      // 0e5 or underflow written with a zero result is exotic as well
      if (v == 0 && s.find_first_of("eE") != s.npos) return true;
    }
  }
  return false;
}
Optional<double> pDouble(const std::string& s) {
  if (!s.empty() && numberAt(s, 0) == s.size()) return std::strtod(s.c_str(), nullptr);
  return {};
}
template <typename T>
Optional<T> pInt(const std::string& s) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i == s.size()) return {};
  __int128 v = 0;
  for (; i < s.size(); ++i) {
    if (!std::isdigit((unsigned char)s[i])) return {};
    v = v * 10 + (s[i] - '0');
    if (v > (__int128(1) << 70)) return {};
  }
  if (neg) v = -v;
  if (v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) return {};
  return T(v);
}
//! true/false/none, and 'any' for spellings of 0 and 1 that may or may not be understood (like "+1" or "01")
struct PBool {
  bool any{false};
  Optional<bool> v;
};
PBool pBool(const std::string& s) {
  if (s == "1" || s == "true" || s == "yes") return {false, true};
  if (s == "0" || s == "false" || s == "no") return {false, false};
  auto i = pInt<int64_t>(s);
  if (i && (*i == 0 || *i == 1)) return {true, bool(*i)};
  return {};
}
Optional<double> pMps(const std::string& s) {
  size_t b = 0;
  while (b < s.size() && std::isspace((unsigned char)s[b])) ++b;
  size_t n = numberAt(s, b);
  if (!n) return {};
  double v = std::strtod(s.substr(b, n).c_str(), nullptr);
  std::string unit = s.substr(b + n);
  if (unit.empty()) return v / 3.6;
  size_t u = 0;
  while (u < unit.size() && std::isspace((unsigned char)unit[u])) ++u;
  while (unit.size() > u && std::isspace((unsigned char)unit.back())) unit.pop_back();
  unit = unit.substr(u);
  if (unit == "mps" || unit == "m/s") return v;
  if (unit == "kmh" || unit == "km/h") return v / 3.6;
  if (unit == "mph" || unit == "m/h") return v * 1609.344 / 3600.;
  return {};
}
double mps(const Velocity& v) { return v.value(); }
bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }

std::string randText(pbt::Src& s) {
  static const std::vector<std::string> units{"",     "mps",  "m/s",  "kmh",  "km/h", "mph", "m/h", "km/s", "kmph", "miles", "kmhx",
                                              "xm/s", "mpss", "m /s", " ",    "kn",   "MPS", "s",   "m",    "mpsmph", "kmh kmh"};
  auto num = [&] {
    std::string t;
    t += s.of<const char*>({"", "", "", "-", "+"});
    switch (s.below(5)) {
      case 0: t += std::to_string(s.below(10)); break;
      case 1: t += std::to_string(s.below(1000)) + "." + std::to_string(s.below(1000)); break;
      case 2: t += s.of<const char*>({"5.", ".5", "0", "1", "007", "00", "01", "1e3", "2.5e-3", "1E2", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "123456789.123456789"}); break;
      case 3: t += std::to_string(s.below(uint64_t(1) << 40)); break;
      default: t += pbt::str(s.real(0, 300)); break;
    }
    return t;
  };
  switch (s.weighted({5, 6, 3, 2})) {
    case 0: return num();
    case 1: return std::string(s.of<const char*>({"", "", "", " "})) + num() + s.of<const char*>({"", " ", "  "}) + s.pick(units) + s.of<const char*>({"", "", " "});
    case 2: return s.of<const char*>({"", "true", "false", "yes", "no", "True", "truee", "on", "null", "solid", "1 ", " 1", "tru", "nan", "inf", "0x10", "1e400", "--1", "1-", ".", "e5", "+", "-"});
    default: {
      std::string t;
      for (size_t n = s.below(6); n > 0; --n) t += s.of<char>({'0', '1', '9', '.', '-', 'e', ' ', 'm', 'p', 's', 'k', '/', 'h', 't'});
      return t;
    }
  }
}

struct Slot {
  Attribute a;
  std::string text;
  // what it was made from
  enum { Text, Bool, IdT, Int, Double, Vel } origin{Text};
  bool b{};
  Id id{};
  int i{};
  double d{};
};

void attributes(Case& c) {
  auto& s = c.src;
  auto make = [&] {
    Slot q;
    switch (s.below(6)) {
      case 0: {
        q.text = randText(s);
        switch (s.below(3)) {
          case 0: q.a = Attribute(q.text); break;
          case 1: q.a = Attribute(q.text.c_str()); break;
          default: q.a = Attribute(std::string(q.text)); break;
        }
        PBT_EQ(q.a.value(), q.text, "value() is the text");
        q.origin = Slot::Text;
        break;
      }
      case 1: q.origin = Slot::Bool, q.b = s.flip(), q.a = Attribute(q.b); break;
      case 2:
        q.origin = Slot::IdT;
        q.id = s.of<Id>({0, 1, 2, 77, -1, 1000000, 2147483647, 2147483648, -2147483649, std::numeric_limits<Id>::max(), std::numeric_limits<Id>::min()});
        q.a = Attribute(q.id);
        break;
      case 3:
        q.origin = Slot::Int;
        q.i = s.of<int>({0, 1, 2, -1, 42, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
        q.a = Attribute(q.i);
        break;
      case 4:
        q.origin = Slot::Double;
        switch (s.below(4)) {
          case 0: q.d = double(s.range(-50, 50)); break;
          case 1: q.d = s.grid(-10, 10, 0.125); break;
          case 2: q.d = s.real(-200, 200); break;
          default: q.d = s.of<double>({0.1, 1. / 3, 1e-7, 123456789.123456, 1e-12, -2.5e-5, 1e15, 3.0000001}); break;
        }
        q.a = Attribute(q.d);
        break;
      default:
        q.origin = Slot::Vel;
        q.d = s.of<double>({0., 1., 5., 13.888888888888889, 27.77777, 0.000001, 50. / 3.6, 33.333333333, 8.94});
        if (s.flip()) q.d = s.real(0, 60);
        q.a = Attribute(Velocity(q.d * units::MPS()));
        break;
    }
    q.text = q.a.value();
    return q;
  };
  auto checkOne = [&](const Slot& q, int which) {
    const auto& t = q.text;
    bool ex = exotic(t);
    Attribute fresh(t);
    switch (which) {
      case 0: {
        auto v = q.a.asBool();
        PBT_CHECK(v == q.a.as<bool>() && v == q.a.as<Optional<bool>>(), "as<bool> of '" << t << "'");
        if (q.origin == Slot::Bool) PBT_CHECK(!!v && *v == q.b, "bool read back from '" << t << "'");
        PBT_CHECK(v == fresh.asBool(), "asBool of '" << t << "' differs from a fresh attribute");
        auto e = pBool(t);
        if (e.any) PBT_CHECK(!v || v == e.v, "asBool of '" << t << "'");
        else PBT_CHECK(v == e.v, "asBool of '" << t << "'");
        break;
      }
      case 1: {
        auto v = q.a.asInt();
        PBT_CHECK(v == q.a.as<int>() && v == q.a.as<Optional<int>>(), "as<int> of '" << t << "'");
        if (q.origin == Slot::Int) PBT_CHECK(!!v && *v == q.i, "int read back from '" << t << "'");
        PBT_CHECK(v == fresh.asInt(), "asInt of '" << t << "' differs from a fresh attribute");
        PBT_CHECK(v == pInt<int>(t), "asInt of '" << t << "' is " << (v ? pbt::str(*v) : "none"));
        break;
      }
      case 2: {
        auto v = q.a.asId();
        PBT_CHECK(v == q.a.as<Id>() && v == q.a.as<Optional<Id>>(), "as<Id> of '" << t << "'");
        if (q.origin == Slot::IdT) PBT_CHECK(!!v && *v == q.id, "id read back from '" << t << "'");
        PBT_CHECK(v == fresh.asId(), "asId of '" << t << "' differs from a fresh attribute");
        PBT_CHECK(v == pInt<Id>(t), "asId of '" << t << "' is " << (v ? pbt::str(*v) : "none"));
        break;
      }
      case 3: {
        auto v = q.a.asDouble();
        if (q.origin == Slot::Double) PBT_CHECK(!!v && *v == q.d, "double " << q.d << " read back from '" << t << "' as " << (v ? pbt::str(*v) : "none"));
        auto f = fresh.asDouble();
        PBT_CHECK(!!v == !!f, "asDouble of '" << t << "' differs from a fresh attribute");
        if (v && std::isfinite(*v)) {
          PBT_EQ(*v, *f, "asDouble of '" << t << "' differs from a fresh attribute");
          PBT_CHECK(v == q.a.as<double>() && v == q.a.as<Optional<double>>(), "as<double> of '" << t << "'");
        }
        if (!ex) {
          auto e = pDouble(t);
          PBT_EQ(!!v, !!e, "asDouble of '" << t << "'");
          if (v) PBT_CHECK(std::fabs(*v - *e) <= 1e-15 * std::fabs(*e), "asDouble of '" << t << "' is " << *v);
        }
        break;
      }
      case 4: {
        auto v = q.a.asVelocity();
        auto f = fresh.asVelocity();
        PBT_EQ(!!v, !!f, "asVelocity of '" << t << "' differs from a fresh attribute");
        if (q.origin == Slot::Vel)
          PBT_CHECK(!!v && std::fabs(mps(*v) - q.d) <= 1e-12 * q.d, "velocity " << q.d << " read back from '" << t << "' as " << (v ? mps(*v) : -1));
        if (v && std::isfinite(mps(*v))) {
          PBT_CHECK(std::fabs(mps(*v) - mps(*f)) <= 1e-12 * std::fabs(mps(*v)), "asVelocity of '" << t << "' differs from a fresh attribute: " << mps(*v) << " vs " << mps(*f));
          auto w = q.a.as<Velocity>();
          auto w2 = q.a.as<Optional<Velocity>>();
          PBT_CHECK(w && w2 && mps(*w) == mps(*v) && mps(*w2) == mps(*v), "as<Velocity>");
        }
        if (!ex) {
          auto e = pMps(t);
          PBT_EQ(!!v, !!e, "asVelocity of '" << t << "'" << (v ? pbt::str(" is ", mps(*v)) : ""));
          if (v) PBT_CHECK(near(mps(*v), *e), "asVelocity of '" << t << "' is " << mps(*v) << " expected " << *e);
        }
        break;
      }
      default:
        PBT_EQ(q.a.value(), t, "value");
        PBT_EQ(*q.a.as<std::string>(), t, "as<string>");
        PBT_EQ(*q.a.as<Optional<std::string>>(), t, "as<string>");
        PBT_EQ(std::string(*q.a.as<const char*>()), t.substr(0, t.find('\0')), "as<const char*>");
        PBT_CHECK(q.a == Attribute(t) && !(q.a != Attribute(t)), "equality follows the text");
    }
    c.did();
  };
  std::vector<Slot> v;
  v.push_back(make());
  size_t ops = 2 + s.below(10);
  size_t reads = 0;
  std::set<int> kinds;
  for (size_t o = 0; o < ops; ++o) {
    size_t k = s.below(v.size());
    switch (s.weighted({8, 2, 2, 1, 1, 1})) {
      case 0: {
        int w = int(s.below(6));
        kinds.insert(w);
        ++reads;
        checkOne(v[k], w);
        break;
      }
      case 1: {
        auto t = randText(s);
        v[k].a.setValue(t);
        v[k].text = t, v[k].origin = Slot::Text;
        break;
      }
      case 2: v.push_back(make()); break;
      case 3: v.push_back(v[k]); break;
      case 4: {
        size_t j = s.below(v.size());
        v[j] = Slot(v[k]);
        break;
      }
      default: {  // move into another one and give the old one a new value
        Attribute tmp(std::move(v[k].a));
        v[k].a = v[s.below(v.size())].a;
        v[k].a = std::move(tmp);
        break;
      }
    }
  }
  for (auto& q : v)
    for (int w = 0; w < 6; ++w) checkOne(q, (w * 5 + int(ops)) % 6);
  for (auto& q : v)
    for (int w = 0; w < 6; ++w) checkOne(q, w);
  c.nontrivial(kinds.size() > 2);
  c.describe([&](auto& o) {
    for (auto& q : v) o << "'" << q.text << "' ";
  });
}

// ---- the map
const std::vector<std::pair<std::string, AttributeName>> Names{{"type", AttributeName::Type},
                                                               {"subtype", AttributeName::Subtype},
                                                               {"one_way", AttributeName::OneWay},
                                                               {"participant:vehicle", AttributeName::ParticipantVehicle},
                                                               {"participant:pedestrian", AttributeName::ParticipantPedestrian},
                                                               {"speed_limit", AttributeName::SpeedLimit},
                                                               {"location", AttributeName::Location},
                                                               {"dynamic", AttributeName::Dynamic}};
const std::vector<std::string> Others{"", "a", "Type", "typ", "type ", "types", "participant", "color", "lane_change", "speed_limit_mandatory", "zz"};
using Model = std::map<std::string, std::string>;

void compare(Case& c, AttributeMap& m, const Model& e) {
  const AttributeMap& cm = m;
  PBT_EQ(m.size(), e.size(), "size");
  PBT_EQ(m.empty(), e.empty(), "empty");
  Model got;
  std::vector<std::string> order, eo;
  for (auto& kv : cm) got[kv.first] = kv.second.value(), order.push_back(kv.first);
  for (auto& kv : e) eo.push_back(kv.first);
  PBT_CHECK(got == e, "content");
  VEQ(order, eo, "iteration order");
  PBT_EQ(size_t(std::distance(m.begin(), m.end())), e.size(), "mutable iteration");
  auto one = [&](const std::string& k) {
    auto it = e.find(k);
    bool has = it != e.end();
    PBT_EQ(m.find(k) != m.end(), has, "find " << k);
    PBT_EQ(cm.find(k) != cm.end(), has, "find const " << k);
    if (has) {
      PBT_EQ(m.find(k)->second.value(), it->second, "find " << k);
      PBT_EQ(cm.at(k).value(), it->second, "at " << k);
      PBT_EQ(m.at(k).value(), it->second, "at " << k);
    } else {
      PBT_CHECK(chk::throws<std::out_of_range>([&] { cm.at(k); }), "at " << k << " throws");
      PBT_CHECK(chk::throws<std::out_of_range>([&] { m.at(k); }), "at " << k << " throws");
    }
  };
  for (auto& n : Names) {
    one(n.first);
    bool has = e.count(n.first) > 0;
    auto it = m.find(n.second);
    auto cit = cm.find(n.second);
    PBT_EQ(it != m.end(), has, "find by enum of " << n.first);
    PBT_EQ(cit != cm.end(), has, "const find by enum of " << n.first);
    PBT_CHECK(it == m.find(n.first), "enum and string lookup agree for " << n.first);
    if (has) {
      PBT_EQ(it->first, n.first, "enum lookup");
      PBT_EQ(cit->second.value(), e.at(n.first), "enum lookup of " << n.first);
      PBT_EQ(m.at(n.second).value(), e.at(n.first), "at by enum of " << n.first);
      PBT_EQ(cm.at(n.second).value(), e.at(n.first), "at by enum of " << n.first);
    } else {
      PBT_CHECK(chk::throws<std::out_of_range>([&] { cm.at(n.second); }), "at by enum of " << n.first << " throws");
    }
  }
  for (auto& k : Others) one(k);
  c.did();
}

void hybridMap(Case& c) {
  auto& s = c.src;
  std::vector<AttributeMap> m(2 + s.below(2));
  std::vector<Model> e(m.size());
  auto key = [&]() -> std::string { return s.chance(2, 3) ? Names[s.below(Names.size())].first : s.pick(Others); };
  auto val = [&] { return pbt::str("v", s.below(6)); };
  size_t n = 1 + s.below(25);
  std::string log;
  size_t moves = 0, erases = 0;
  for (size_t o = 0; o < n; ++o) {
    size_t i = s.below(m.size()), j = s.below(m.size());
    auto &M = m[i];
    auto &E = e[i];
    switch (size_t op = s.weighted({4, 2, 4, 4, 3, 2, 2, 2, 2, 1, 1, 1, 1, 2, 2, 1})) {
      case 0: {
        auto k = key();
        auto v = val();
        auto r = M.insert({k, Attribute(v)});
        auto re = E.insert({k, v});
        PBT_EQ(r.second, re.second, "insert reports insertion of " << k);
        PBT_EQ(r.first->first, k, "insert iterator");
        PBT_EQ(r.first->second.value(), re.first->second, "insert does not overwrite " << k);
        break;
      }
      case 1: {
        auto k = key();
        auto v = val();
        auto hint = M.begin();
        std::advance(hint, s.below(M.size() + 1));
        auto r = M.insert(hint, {k, Attribute(v)});
        E.insert({k, v});
        PBT_EQ(r->first, k, "hinted insert");
        PBT_EQ(r->second.value(), E[k], "hinted insert");
        break;
      }
      case 2: {
        auto k = key();
        auto v = val();
        M[k] = v;
        E[k] = v;
        break;
      }
      case 3: {
        auto& nm = Names[s.below(Names.size())];
        auto v = val();
        M[nm.second] = v;
        E[nm.first] = v;
        break;
      }
      case 4: {
        auto k = key();
        PBT_EQ(M.erase(k), E.erase(k), "erase " << k);
        ++erases;
        break;
      }
      case 5:
        if (!E.empty()) {
          size_t p = s.below(E.size());
          auto it = std::next(M.begin(), p);
          auto ie = std::next(E.begin(), p);
          auto r = M.erase(it);
          auto re = E.erase(ie);
          PBT_EQ(r == M.end(), re == E.end(), "erase returns the following element");
          if (re != E.end()) PBT_EQ(r->first, re->first, "erase returns the following element");
          ++erases;
        }
        break;
      case 6: M = AttributeMap(m[j]), E = Model(e[j]); break;
      case 7: M = m[j], E = Model(e[j]); break;
      case 8:
        if (i != j) {
          M = std::move(m[j]);
          E = std::move(e[j]);
          m[j].clear(), e[j].clear();
          ++moves;
        }
        break;
      case 9: {
        AttributeMap t(std::move(M));
        Model te(E);
        compare(c, t, te);
        M = AttributeMap();
        E = Model();
        if (s.flip()) M = std::move(t), E = te;
        ++moves;
        break;
      }
      case 10:
        std::swap(M, m[j]);
        if (i != j) std::swap(E, e[j]);
        ++moves;
        break;
      case 11: M.clear(), E.clear(); break;
      case 12: {
        M = AttributeMap(m[j].begin(), m[j].end());
        E = Model(e[j]);
        break;
      }
      case 13: {
        auto it = M.find(Names[s.below(Names.size())].second);
        if (it != M.end()) {
          auto v = val();
          E[it->first] = v;
          it->second = Attribute(v);
        }
        break;
      }
      case 14: {  // default construct through operator[]
        if (s.flip()) {
          auto& nm = Names[s.below(Names.size())];
          PBT_EQ(M[nm.second].value(), E[nm.first], "operator[] by enum");
        } else {
          auto k = key();
          PBT_EQ(M[k].value(), E[k], "operator[]");
        }
        break;
      }
      default: {
        auto k1 = key(), k2 = key();
        AttributeMap t{{k1, Attribute("x")}, {k2, Attribute("y")}};
        Model te{{k1, "x"}, {k2, "y"}};
        compare(c, t, te);
        M = t, E = te;
      }
    }
    for (size_t q = 0; q < m.size(); ++q) compare(c, m[q], e[q]);
    for (size_t q = 0; q < m.size(); ++q) {
      PBT_EQ(m[q] == m[0], e[q] == e[0], "map equality");
      PBT_EQ(m[q] != m[0], e[q] != e[0], "map inequality");
    }
  }
  c.nontrivial(moves > 0 && erases > 0);
  c.describe([&](auto& o) {
    o << n << " operations; final ";
    for (auto& q : e) o << q.size() << " ";
  });
}

//! attributes of primitives: shared by all handles, typed defaults
template <typename PrimT, typename ConstT>
void primitiveAttrs(Case& c, PrimT p) {
  auto& s = c.src;
  Model e;
  std::vector<PrimT> handles{p};
  for (size_t o = 0, n = 1 + s.below(12); o < n; ++o) {
    auto h = handles[s.below(handles.size())];
    auto& nm = Names[s.below(Names.size())];
    std::string k = s.flip() ? nm.first : s.pick(Others);
    switch (s.below(5)) {
      case 0: {
        auto t = randText(s);
        h.setAttribute(k, t);
        e[k] = t;
        break;
      }
      case 1: {
        auto t = randText(s);
        h.setAttribute(nm.second, t);
        e[nm.first] = t;
        break;
      }
      case 2:
        h.attributes().erase(k);
        e.erase(k);
        break;
      case 3: handles.push_back(h); break;
      default: {
        auto t = randText(s);
        h.attributes()[k] = t;
        e[k] = t;
      }
    }
    for (auto& q : handles) {
      ConstT cq = q;
      compare(c, q.attributes(), e);
      PBT_CHECK(cq.attributes() == q.attributes(), "const attributes");
      for (int r = 0; r < 2; ++r) {
        std::string key = r ? nm.first : k;
        bool has = e.count(key) > 0;
        PBT_EQ(cq.hasAttribute(key), has, "hasAttribute " << key);
        if (has) PBT_EQ(cq.attribute(key).value(), e[key], "attribute " << key);
        else PBT_CHECK(chk::throws<NoSuchAttributeError>([&] { cq.attribute(key); }), "attribute throws");
        std::string t = has ? e[key] : "";
        PBT_EQ(cq.attributeOr(key, std::string("dflt")), has ? t : "dflt", "attributeOr string");
        PBT_EQ(std::string(cq.attributeOr(key, "dflt")), has ? t : std::string("dflt"), "attributeOr const char*");
        auto i = has ? pInt<int>(t) : Optional<int>();
        PBT_EQ(cq.attributeOr(key, 4711), i ? *i : 4711, "attributeOr int of '" << t << "'");
        PBT_CHECK(cq.attributeOr(key, Optional<int>()) == i, "attributeOr optional int of '" << t << "'");
        auto id = has ? pInt<Id>(t) : Optional<Id>();
        PBT_EQ(cq.attributeOr(key, Id(4711)), id ? *id : Id(4711), "attributeOr Id of '" << t << "'");
        auto b = has ? pBool(t) : PBool();
        if (!b.any) PBT_EQ(cq.attributeOr(key, true), b.v ? *b.v : true, "attributeOr bool of '" << t << "'");
        if (!b.any) PBT_EQ(cq.attributeOr(key, false), b.v ? *b.v : false, "attributeOr bool of '" << t << "'");
        if (!exotic(t)) {
          auto d = has ? pDouble(t) : Optional<double>();
          PBT_CHECK(std::fabs(cq.attributeOr(key, 0.5) - (d ? *d : 0.5)) <= 1e-15 * std::fabs(d ? *d : 0.), "attributeOr double of '" << t << "'");
          auto v = has ? pMps(t) : Optional<double>();
          Velocity dv(3. * units::MPS());
          PBT_CHECK(near(mps(cq.attributeOr(key, dv)), v ? *v : 3.), "attributeOr velocity of '" << t << "'");
        }
      }
      bool has = e.count(nm.first) > 0;
      PBT_EQ(cq.hasAttribute(nm.second), has, "hasAttribute by enum");
      PBT_EQ(cq.attributeOr(nm.second, std::string("dflt")), has ? e[nm.first] : "dflt", "attributeOr by enum");
      auto i = has ? pInt<int>(e[nm.first]) : Optional<int>();
      PBT_EQ(cq.attributeOr(nm.second, 4711), i ? *i : 4711, "attributeOr by enum");
      if (has) PBT_EQ(cq.attribute(nm.second).value(), e[nm.first], "attribute by enum");
      else PBT_CHECK(chk::throws<NoSuchAttributeError>([&] { cq.attribute(nm.second); }), "attribute by enum throws");
    }
  }
  c.nontrivial(handles.size() > 1 && e.size() > 1);
  c.describe([&](auto& o) {
    for (auto& kv : e) o << kv.first << "='" << kv.second << "' ";
  });
}
void primitives(Case& c) {
  switch (c.src.below(5)) {
    case 0: return primitiveAttrs<Point3d, ConstPoint3d>(c, Point3d(1, 0, 0, 0));
    case 1: return primitiveAttrs<LineString3d, ConstLineString3d>(c, LineString3d(1));
    case 2: return primitiveAttrs<Polygon3d, ConstPolygon3d>(c, Polygon3d(1));
    case 3: return primitiveAttrs<Lanelet, ConstLanelet>(c, Lanelet(1));
    default: return primitiveAttrs<Area, ConstArea>(c, Area(1, LineStrings3d{}));
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite s;
  s.property = "C05";
  s.rule =
      "attributes: histories of construction from every type, setValue, copies, moves and reads through every accessor; each read is compared with "
      "an independent parser of the text and with a fresh attribute of that text. map: operation histories on several attribute maps against "
      "std::map, every key by string and by enum after each step. primitives: attribute access through handles, with typed defaults.";
  s.assumptions = {"texts spelling nan, infinity, hexadecimal or overflowing numbers are only required to read consistently",
                   "mph means 1609.344 m per hour"};
  s.props = {{"attributes", "non-trivial: more than two kinds of reads interleaved", 25000, 1500000, attributes},
             {"map", "non-trivial: maps are moved or swapped and elements erased", 7000, 400000, hybridMap},
             {"primitives", "non-trivial: several handles and attributes", 4500, 300000, primitives}};
  return pbt::runMain(s, argc, argv);
}
