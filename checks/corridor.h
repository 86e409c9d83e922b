// random road-like corridors: two bounds around a curved centre, sampled independently
#pragma once
#include "conv.h"
namespace corridor {
struct Corridor {
  geo::L2 left, right, mid;  // mid: densely sampled centre
  double width{0}, length{0};
  bool straight{true};
};
struct Opt {
  double minStepFactor{0.3}, maxStepFactor{1.6};  // sampling step in multiples of the half width
  bool sameSampling{false};
  bool offGrid{true};
};
inline Corridor make(Case& c, Opt o = {}) {
  auto& s = c.src;
  Corridor r;
  double hw = s.grid(1, 4, 0.25);
  r.width = 2 * hw;
  struct Piece {
    double len, k;
  };
  std::vector<Piece> pieces;
  double turn = 0;
  size_t n = 1 + s.below(4);
  for (size_t i = 0; i < n; ++i) {
    Piece p{s.grid(2, 20, 0.5), 0};
    if (s.chance(2, 3)) {
      double R = hw * s.grid(3, 12, 0.5);
      p.k = (s.flip() ? 1 : -1) / R;
      double maxTurn = 2.2;
      double room = p.k > 0 ? maxTurn - turn : maxTurn + turn;
      if (p.len * std::abs(p.k) > room) p.len = std::max(0.5, room / std::abs(p.k));
      turn += p.len * p.k;
      r.straight = false;
    }
    pieces.push_back(p);
    r.length += p.len;
  }
  double phi0 = s.of({0., 0.5, 1., 1.5, 0.123, 0.7, 1.9}) * M_PI, x0 = s.of({0., 100., -1234.5}), y0 = s.of({0., 50., -77.25});
  auto at = [&](double q, double off) {
    double x = x0, y = y0, phi = phi0;
    for (auto& p : pieces) {
      double l = std::min(q, p.len);
      if (l <= 0) break;
      if (p.k == 0) {
        x += l * std::cos(phi), y += l * std::sin(phi);
      } else {
        x += (std::sin(phi + p.k * l) - std::sin(phi)) / p.k, y += (std::cos(phi) - std::cos(phi + p.k * l)) / p.k;
        phi += p.k * l;
      }
      q -= l;
    }
    return geo::P2{x - off * std::sin(phi), y + off * std::cos(phi)};
  };
  auto sample = [&] {
    std::vector<double> v{0};
    double q = 0;
    while (true) {
      q += hw * s.real(o.minStepFactor, o.maxStepFactor);
      if (q > r.length - 0.3 * hw) break;
      v.push_back(q);
    }
    v.push_back(r.length);
    return v;
  };
  auto sl = sample();
  auto sr = o.sameSampling ? sl : sample();
  for (double q : sl) r.left.push_back(at(q, hw));
  for (double q : sr) r.right.push_back(at(q, -hw));
  for (size_t i = 0; i <= 40; ++i) r.mid.push_back(at(r.length * i / 40, 0));
  return r;
}
inline geo::L2 ring(const Corridor& r) {
  geo::L2 q = r.left;
  q.insert(q.end(), r.right.rbegin(), r.right.rend());
  return q;
}
inline ll::LineString3d toLs(ll::Id id, const geo::L2& l, ll::Id& nextPt, double z = 0) {
  ll::LineString3d ls(id);
  for (auto& p : l) ls.push_back(ll::Point3d(nextPt++, p.x, p.y, z));
  return ls;
}
}  // namespace corridor
