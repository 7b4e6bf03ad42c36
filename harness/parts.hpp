// Oracle for partitions of a region into cells.
#pragma once
#include "lines.hpp"

namespace pa {
using namespace orc;
typedef std::vector<V> Line;

inline double distLine(const V& p, const std::vector<Line>& ls) {
  return ln::distTo(p, ls);
}
// parts cover m without overlap; points within `band` of a cut are left out.
inline void checkPartition(pbt::Gen& g, const Multi& m, const Multi& parts,
    const std::vector<Line>& cuts, double band, size_t probes) {
  const double A = area(m);
  double sum = 0, len = 0;
  for (auto&& q : parts) {
    CHECK(area(q) >= 0, " negative area");
    sum += area(q);
  }
  for (auto&& l : cuts) { len += fx::lineLength(l); }
  CHECK_NEAR(sum, A, 1e-7 * A + band * (1 + len) + ln::eps(m) * 100,
      "area of the parts");
  for (size_t k = 0; k < probes; ++k) {
    V p;
    if (!cuts.empty() && k % 2) {   // aimed at the cuts
      const Line& l = g.pick(cuts);
      if (l.size() < 2) { continue; }
      const size_t i = g.below(l.size() - 1);
      p = l[i] + (l[i + 1] - l[i]) * g.uniform(0, 1) +
        V(g.uniform(-1, 1), g.uniform(-1, 1)) * (0.01 * diam(m));
    } else {
      p = pointNear(g, m, 0.05);
    }
    if (distBorder(p, m) < band || (!cuts.empty() && distLine(p, cuts) < band)) {
      continue;
    }
    size_t n = 0;
    for (auto&& q : parts) { if (inside(p, q)) { ++n; } }
    CHECK_EQ(n, inside(p, m) ? 1u : 0u, "parts that contain ", p.x, " ", p.y);
  }
}
// A cut that went all the way through separates: points of the chord are on
// the border of every part near them, and its two sides are different parts.
inline size_t checkCut(pbt::Gen& g, const Multi& m, const Multi& parts,
    const V& a, const V& b, double band) {
  size_t n = 0;
  const V d = (b - a) * (1 / dist(a, b)), nrm(-d.y, d.x);
  for (auto&& pc : ln::pieces(a, b, m, ln::eps(m))) {
    const double len = (pc.s1 - pc.s0) * dist(a, b);
    if (pc.where <= 0 || len < 100 * band) { continue; }
    if (pc.s0 <= 0 || pc.s1 >= 1) { continue; }   // ends inside
    ++n;
    const V q = a + (b - a) * (pc.s0 + (pc.s1 - pc.s0) * g.uniform(0.05, 0.95));
    const double off = std::min(10 * band, 0.1 * distBorder(q, m));
    if (off < 3 * band) { continue; }
    int l = -1, r = -1;
    for (size_t i = 0; i < parts.size(); ++i) {
      CHECK(!inside(q, parts[i]) || distBorder(q, parts[i]) < band,
          " the cut crosses a part at ", q.x, " ", q.y);
      if (inside(q + nrm * off, parts[i])) { l = (int)i; }
      if (inside(q - nrm * off, parts[i])) { r = (int)i; }
    }
    if (m.size() == 1 && m[0].holes.empty()) {
      CHECK(l != r || l < 0, " both sides of the cut are in one part at ", q.x,
          " ", q.y);
    }
  }
  return n;
}
}  // namespace pa
