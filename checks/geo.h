// Independent geometry oracle: plain formulas on double vectors, no boost, no lanelet2.
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <utility>
#include <vector>

namespace geo {
using D = double;
constexpr D INF = std::numeric_limits<double>::infinity();
struct P2 {
  D x{0}, y{0};
};
struct P3 {
  D x{0}, y{0}, z{0};
};
using L2 = std::vector<P2>;
using L3 = std::vector<P3>;
inline P2 operator-(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
inline P2 operator+(P2 a, P2 b) { return {a.x + b.x, a.y + b.y}; }
inline P2 operator*(D s, P2 a) { return {s * a.x, s * a.y}; }
inline D dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
inline D cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
inline D norm(P2 a) { return std::hypot(a.x, a.y); }
inline D dist(P2 a, P2 b) { return norm(a - b); }
inline P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline P3 operator*(D s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline D dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline D norm(P3 a) { return std::sqrt(dot(a, a)); }
inline D dist(P3 a, P3 b) { return norm(a - b); }
inline P2 to2(P3 p) { return {p.x, p.y}; }
inline L2 to2(const L3& l) {
  L2 r;
  for (auto& p : l) r.push_back(to2(p));
  return r;
}

template <typename P>
P closestOnSeg(P p, P a, P b) {
  P d = b - a;
  D l2 = dot(d, d);
  if (l2 == 0) return a;
  D t = dot(p - a, d) / l2;
  t = std::min(1., std::max(0., t));
  return a + t * d;
}
template <typename P>
D pointSeg(P p, P a, P b) {
  return dist(p, closestOnSeg(p, a, b));
}
template <typename P>
D pointLine(P p, const std::vector<P>& l) {
  if (l.empty()) return INF;
  D d = dist(p, l[0]);
  for (size_t i = 0; i + 1 < l.size(); ++i) d = std::min(d, pointSeg(p, l[i], l[i + 1]));
  return d;
}
template <typename P>
std::vector<P> closed(std::vector<P> r) {
  if (!r.empty()) r.push_back(r.front());
  return r;
}
inline int sgn(D v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }
inline bool onSeg(P2 p, P2 a, P2 b, D tol = 0) { return pointSeg(p, a, b) <= tol; }
inline bool segsIntersect(P2 a, P2 b, P2 c, P2 d) {
  int o1 = sgn(cross(b - a, c - a)), o2 = sgn(cross(b - a, d - a)), o3 = sgn(cross(d - c, a - c)),
      o4 = sgn(cross(d - c, b - c));
  if (o1 * o2 < 0 && o3 * o4 < 0) return true;
  return onSeg(a, c, d) || onSeg(b, c, d) || onSeg(c, a, b) || onSeg(d, a, b);
}
inline D segSeg(P2 a, P2 b, P2 c, P2 d) {
  if (segsIntersect(a, b, c, d)) return 0;
  return std::min(std::min(pointSeg(a, c, d), pointSeg(b, c, d)), std::min(pointSeg(c, a, b), pointSeg(d, a, b)));
}
//! 3d segment-segment: the unconstrained optimum if inside both, else an end point is involved
inline std::pair<P3, P3> closestSegSeg(P3 a, P3 b, P3 c, P3 d) {
  P3 u = b - a, v = d - c, w = a - c;
  D A = dot(u, u), B = dot(u, v), C = dot(v, v), E = dot(u, w), F = dot(v, w), det = A * C - B * B;
  std::pair<P3, P3> best{a, closestOnSeg(a, c, d)};
  auto upd = [&](P3 p, P3 q) {
    if (dist(p, q) < dist(best.first, best.second)) best = {p, q};
  };
  upd(b, closestOnSeg(b, c, d));
  upd(closestOnSeg(c, a, b), c);
  upd(closestOnSeg(d, a, b), d);
  if (det > 1e-12 * A * C && A > 0 && C > 0) {
    D s = (B * F - C * E) / det, t = (A * F - B * E) / det;
    if (s >= 0 && s <= 1 && t >= 0 && t <= 1) upd(a + s * u, c + t * v);
  }
  return best;
}
inline D segSeg(P3 a, P3 b, P3 c, P3 d) {
  auto p = closestSegSeg(a, b, c, d);
  return dist(p.first, p.second);
}
template <typename P>
D lineLine(const std::vector<P>& l, const std::vector<P>& m) {
  if (l.empty() || m.empty()) return INF;
  if (l.size() == 1) return pointLine(l[0], m);
  if (m.size() == 1) return pointLine(m[0], l);
  D d = INF;
  for (size_t i = 0; i + 1 < l.size(); ++i)
    for (size_t j = 0; j + 1 < m.size(); ++j) d = std::min(d, segSeg(l[i], l[i + 1], m[j], m[j + 1]));
  return d;
}
//! even-odd, boundary excluded from guarantees (test the boundary distance first)
inline bool inRing(P2 p, const L2& r) {
  bool in = false;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) {
    if ((r[i].y > p.y) != (r[j].y > p.y)) {
      D x = (r[j].x - r[i].x) * (p.y - r[i].y) / (r[j].y - r[i].y) + r[i].x;
      if (p.x < x) in = !in;
    }
  }
  return in;
}
inline D ringArea(const L2& r) {  // signed, positive counter clockwise
  D a = 0;
  for (size_t i = 0; i < r.size(); ++i) a += cross(r[i], r[(i + 1) % r.size()]);
  return a / 2;
}
//! a polygon with holes
struct Poly {
  L2 outer;
  std::vector<L2> holes;
};
inline D pointBoundary(P2 p, const Poly& g) {
  D d = pointLine(p, closed(g.outer));
  for (auto& h : g.holes) d = std::min(d, pointLine(p, closed(h)));
  return d;
}
inline bool inPoly(P2 p, const Poly& g) {
  if (!inRing(p, g.outer)) return false;
  for (auto& h : g.holes)
    if (inRing(p, h)) return false;
  return true;
}
inline D pointPoly(P2 p, const Poly& g) {
  if (g.outer.size() >= 3 && inPoly(p, g)) return 0;
  return pointBoundary(p, g);
}
inline D lineBoundary(const L2& l, const Poly& g) {
  D d = lineLine(l, closed(g.outer));
  for (auto& h : g.holes) d = std::min(d, lineLine(l, closed(h)));
  return d;
}
inline D linePoly(const L2& l, const Poly& g) {
  if (l.empty()) return INF;
  if (inPoly(l[0], g)) return 0;
  return lineBoundary(l, g);
}
inline D polyPoly(const Poly& a, const Poly& b) {
  if (a.outer.empty() || b.outer.empty()) return INF;
  if (inPoly(a.outer[0], b) || inPoly(b.outer[0], a)) return 0;
  D d = lineBoundary(closed(a.outer), b);
  for (auto& h : a.holes) d = std::min(d, lineBoundary(closed(h), b));
  return d;
}
//! area of the intersection (even-odd rule) by a slab sweep over all vertices and crossings
inline D interArea(const Poly& a, const Poly& b) {
  struct Seg {
    P2 p, q;
    int which;
  };
  std::vector<Seg> segs;
  auto add = [&](const L2& r, int w) {
    for (size_t i = 0; i < r.size(); ++i) {
      P2 p = r[i], q = r[(i + 1) % r.size()];
      if (p.x == q.x) continue;
      if (p.x > q.x) std::swap(p, q);
      segs.push_back({p, q, w});
    }
  };
  std::vector<D> xs;
  auto addAll = [&](const Poly& g, int w) {
    add(g.outer, w);
    for (auto& h : g.holes) add(h, w);
    for (auto& p : g.outer) xs.push_back(p.x);
    for (auto& h : g.holes)
      for (auto& p : h) xs.push_back(p.x);
  };
  addAll(a, 0);
  addAll(b, 1);
  for (size_t i = 0; i < segs.size(); ++i) {
    for (size_t j = i + 1; j < segs.size(); ++j) {
      P2 u = segs[i].q - segs[i].p, v = segs[j].q - segs[j].p;
      D det = cross(u, v);
      if (std::abs(det) < 1e-15) continue;
      D t = cross(segs[j].p - segs[i].p, v) / det;
      if (t > 0 && t < 1) {
        D x = segs[i].p.x + t * u.x;
        if (x > segs[j].p.x && x < segs[j].q.x) xs.push_back(x);
      }
    }
  }
  std::sort(xs.begin(), xs.end());
  D total = 0;
  for (size_t k = 0; k + 1 < xs.size(); ++k) {
    D w = xs[k + 1] - xs[k];
    if (w <= 0) continue;
    D m = (xs[k] + xs[k + 1]) / 2;
    std::vector<std::pair<D, int>> ys;
    for (auto& s : segs)
      if (s.p.x < m && m < s.q.x) ys.push_back({s.p.y + (s.q.y - s.p.y) * (m - s.p.x) / (s.q.x - s.p.x), s.which});
    std::sort(ys.begin(), ys.end());
    bool in[2] = {false, false};
    for (size_t i = 0; i + 1 < ys.size(); ++i) {
      in[ys[i].second] = !in[ys[i].second];
      if (in[0] && in[1]) total += (ys[i + 1].first - ys[i].first) * w;
    }
  }
  return total;
}
inline D polyArea(const Poly& a) {
  D r = std::abs(ringArea(a.outer));
  for (auto& h : a.holes) r -= std::abs(ringArea(h));
  return r;
}
//! no two non-adjacent edges touch, no repeated vertices
inline bool simpleRing(const L2& r, D tol = 1e-9) {
  size_t n = r.size();
  if (n < 3) return false;
  for (size_t i = 0; i < n; ++i) {
    if (dist(r[i], r[(i + 1) % n]) <= tol) return false;
    for (size_t j = i + 1; j < n; ++j) {
      bool adj = (j == i + 1) || (i == 0 && j == n - 1);
      if (!adj && segSeg(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]) <= tol) return false;
      if (adj) {
        P2 a, b, c;
        if (j == i + 1) a = r[i], b = r[j], c = r[(j + 1) % n];
        else a = r[j], b = r[i], c = r[(i + 1) % n];
        if (std::abs(cross(b - a, c - b)) <= tol && dot(b - a, c - b) <= 0) return false;
      }
    }
  }
  return true;
}
struct Box {
  D x0{INF}, y0{INF}, x1{-INF}, y1{-INF};
  bool empty() const { return x0 > x1; }
  void add(P2 p) {
    x0 = std::min(x0, p.x), y0 = std::min(y0, p.y), x1 = std::max(x1, p.x), y1 = std::max(y1, p.y);
  }
  void add(const L2& l) {
    for (auto& p : l) add(p);
  }
  void add(const Box& b) {
    if (!b.empty()) add(P2{b.x0, b.y0}), add(P2{b.x1, b.y1});
  }
  bool hits(const Box& b) const {
    return !empty() && !b.empty() && x0 <= b.x1 && b.x0 <= x1 && y0 <= b.y1 && b.y0 <= y1;
  }
  D distTo(P2 p) const {
    D dx = std::max({x0 - p.x, 0., p.x - x1}), dy = std::max({y0 - p.y, 0., p.y - y1});
    return std::hypot(dx, dy);
  }
};
}  // namespace geo
