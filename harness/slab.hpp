// Exact areas of set expressions over polygons: between two consecutive
// ordinates of vertices and edge crossings every shape is a set of trapezoids,
// so that the length along the middle line times the height is the area.
#pragma once
#include "oracle.hpp"

namespace slab {
using namespace orc;
typedef std::vector<std::pair<double, double>> Ivs;   // sorted, disjoint

inline double length(const Ivs& a) {
  double s = 0;
  for (auto&& p : a) { s += p.second - p.first; }
  return s;
}
inline Ivs unite(const std::vector<Ivs>& v) {
  Ivs all, o;
  for (auto&& a : v) { all.insert(all.end(), a.begin(), a.end()); }
  std::sort(all.begin(), all.end());
  for (auto&& p : all) {
    if (!o.empty() && p.first <= o.back().second) {
      o.back().second = std::max(o.back().second, p.second);
    } else {
      o.push_back(p);
    }
  }
  return o;
}
inline Ivs meet(const Ivs& a, const Ivs& b) {
  Ivs o;
  for (auto&& p : a) {
    for (auto&& q : b) {
      const double l = std::max(p.first, q.first);
      const double r = std::min(p.second, q.second);
      if (l < r) { o.emplace_back(l, r); }
    }
  }
  return o;
}
// fn gets the intervals of each shape on a line, returns a length; the result
// is its integral over y.
inline double integrate(const std::vector<Multi>& shapes,
    const std::function<double(const std::vector<Ivs>&)>& fn) {
  std::vector<std::pair<V, V>> e;
  std::vector<double> ys;
  const V o = shapes[0][0].outer[0];
  std::vector<Multi> sh;
  for (auto&& s : shapes) {
    sh.push_back(mapMulti(s, [&] (V p) { return p - o; }));
    for (auto&& q : sh.back()) {
      auto add = [&] (const Ring& r) {
        for (size_t i = 0; i < r.size(); ++i) {
          e.emplace_back(r[i], r[(i + 1) % r.size()]);
          ys.push_back(r[i].y);
        }
      };
      add(q.outer);
      for (auto&& h : q.holes) { add(h); }
    }
  }
  for (size_t i = 0; i < e.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      const V d = e[i].second - e[i].first, f = e[j].second - e[j].first;
      const double den = cross(d, f);
      if (den == 0) { continue; }
      const double s = cross(e[j].first - e[i].first, f) / den;
      const double u = cross(e[j].first - e[i].first, d) / den;
      if (s >= 0 && s <= 1 && u >= 0 && u <= 1) {
        ys.push_back(e[i].first.y + d.y * s);
      }
    }
  }
  std::sort(ys.begin(), ys.end());
  LD sum = 0;
  for (size_t i = 1; i < ys.size(); ++i) {
    const double h = ys[i] - ys[i - 1];
    if (h <= 1e-12) { continue; }
    std::vector<Ivs> iv;
    for (auto&& s : sh) {
      // chords of different polygons of one shape may touch but not overlap
      iv.push_back(unite({chords(s, 0.5 * (ys[i] + ys[i - 1])).segs}));
    }
    sum += (LD)h * fn(iv);
  }
  return static_cast<double>(sum);
}
// The strip of width w along the segment a-b, with flat ends.
inline Multi strip(const V& a, const V& b, double w) {
  const V d = (b - a) * (1 / dist(a, b)), n = V(-d.y, d.x) * (w / 2);
  return {Poly{{a + n, b + n, b - n, a - n}, {}}};
}
}  // namespace slab
