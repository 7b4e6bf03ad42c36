// Oracle for lines against regions.
#pragma once
#include "f2c.hpp"

namespace ln {
using namespace orc;

struct Piece { double s0, s1; int where; };   // +1 inside, -1 outside, 0 border

// Splits the segment a-b at every contact with the border of m.
inline std::vector<Piece> pieces(const V& a, const V& b, const Multi& m,
    double eps) {
  std::vector<double> t{0, 1};
  const V d = b - a;
  const double len = norm(d);
  auto scan = [&](const Ring& q) {
    for (size_t i = 0; i < q.size(); ++i) {
      const V c = q[i], e = q[(i + 1) % q.size()] - c;
      const double den = cross(d, e);
      if (std::fabs(den) > 1e-13 * len * norm(e)) {
        const double s = cross(c - a, e) / den, u = cross(c - a, d) / den;
        if (s > 0 && s < 1 && u > -1e-9 && u < 1 + 1e-9) { t.push_back(s); }
      }
      const double s = dot(c - a, d) / (len * len);   // vertices on the line
      if (s > 0 && s < 1 && dist(a + d * s, c) < eps) { t.push_back(s); }
    }
  };
  for (auto&& p : m) { scan(p.outer); for (auto&& h : p.holes) { scan(h); } }
  std::sort(t.begin(), t.end());
  std::vector<Piece> r;
  double prev = 0;
  for (double x : t) {
    if ((x - prev) * len <= 1e-9) { continue; }
    const V mid = a + d * ((x + prev) / 2);
    r.push_back({prev, x, distBorder(mid, m) < eps ? 0 :
        (inside(mid, m) ? 1 : -1)});
    prev = x;
  }
  return r;
}
inline double distTo(const V& p, const std::vector<std::vector<V>>& ls) {
  double m = 1e300;
  for (auto&& l : ls) {
    for (size_t i = 1; i < l.size(); ++i) {
      m = std::min(m, distSeg(p, l[i - 1], l[i]));
    }
  }
  return m;
}
inline std::vector<std::vector<V>> raw(const F2CMultiLineString& l) {
  std::vector<std::vector<V>> o;
  for (int i = 0; i < l.get()->getNumGeometries(); ++i) {
    o.push_back(fx::line(l.get()->getGeometryRef(i)->toLineString()));
  }
  return o;
}
// The line parts of the intersection as the engine itself computes it.
inline void collect(const OGRGeometry* g, std::vector<std::vector<V>>* o) {
  if (!g) { return; }
  if (auto* l = dynamic_cast<const OGRLineString*>(g)) {
    if (!l->IsEmpty()) { o->push_back(fx::line(l)); }
  } else if (auto* c = dynamic_cast<const OGRGeometryCollection*>(g)) {
    for (int i = 0; i < c->getNumGeometries(); ++i) {
      collect(c->getGeometryRef(i), o);
    }
  }
}
inline std::vector<std::vector<V>> engine(const OGRGeometry* l,
    const OGRGeometry* c) {
  std::vector<std::vector<V>> o;
  OGRGeometry* g = l->Intersection(c);
  collect(g, &o);
  OGRGeometryFactory::destroyGeometry(g);
  return o;
}
// Runs fn on the library's result; a failure that the engine's own result for
// the same operands shows too (lines that run along a side up to rounding make
// it label parts wrongly) is discarded, unless the case is strict.
inline void judge(pbt::Gen& g, const std::vector<std::vector<V>>& got,
    const OGRGeometry* l, const OGRGeometry* c, bool strict,
    const std::function<void(pbt::Gen&, const std::vector<std::vector<V>>&)>&
    fn) {
  pbt::Gen copy = g;
  copy.shared = nullptr;
  copy.keep_notes = false;
  try {
    fn(g, got);
  } catch (const pbt::Failure&) {
    if (strict) { throw; }
    bool too = false;
    try { fn(copy, engine(l, c)); } catch (const pbt::Failure&) { too = true; }
    if (!too) { throw; }
    g.label("GEOS labels parts wrongly");
    throw pbt::Discard();
  }
}
// Coordinates resolve to about this much.
inline double eps(const Multi& m) {
  double k = 1;
  for (auto&& v : m[0].outer) {
    k = std::max(k, std::max(std::fabs(v.x), std::fabs(v.y)));
  }
  return 1e-9 + 1e-13 * k + 1e-11 * diam(m);
}
// Checks that got is exactly the part of the polyline l inside m (borders
// included where exact coordinates make them certain).
struct Clip { size_t runs = 0, border = 0, in = 0, touch = 0, tiny = 0; };
inline Clip checkClip(const std::vector<V>& l, const Multi& m,
    const std::vector<std::vector<V>>& got, bool exact, bool count_length) {
  Clip r;
  const double e = eps(m), big = 100 * e;
  double lo = 0, hi = 0, total = 0;
  for (size_t i = 1; i < l.size(); ++i) {
    const double len = dist(l[i - 1], l[i]);
    if (len < 1e-9) { continue; }
    int prev = -1;
    bool any = false;
    for (auto&& p : pieces(l[i - 1], l[i], m, e)) {
      const V mid = l[i - 1] + (l[i] - l[i - 1]) * ((p.s0 + p.s1) / 2);
      const double n = (p.s1 - p.s0) * len;
      if (p.where > 0 || (exact && p.where == 0)) {
        lo += n;
        hi += n;
        if (n > 10 * big) {
          CHECK(distTo(mid, got) < big, " the part around ", mid.x, " ",
              mid.y, " (", n, " long) is missing");
        }
      } else if (p.where == 0) {
        hi += n;
      }
      if (p.where == 0) { ++r.border; }
      if (n < 1000 * big) { ++r.tiny; }
      any = true;
      if (p.where > 0) {
        ++r.in;
        if (prev <= 0) { ++r.runs; } else { ++r.touch; }
      }
      prev = p.where;
    }
    if (!any) { ++r.tiny; }
  }
  for (auto&& s : got) {
    CHECK(s.size() >= 2, " piece with ", s.size(), " points");
    total += fx::lineLength(s);
    for (size_t i = 1; i < s.size(); ++i) {
      for (int k = 1; k < 12; ++k) {
        const V v = s[i - 1] + (s[i] - s[i - 1]) * (k / 12.0);
        CHECK(inside(v, m) || distBorder(v, m) < big, " ", v.x, " ", v.y,
            " is out of the region");
      }
    }
    for (auto&& v : s) {
      CHECK(inside(v, m) || distBorder(v, m) < big, " end ", v.x, " ", v.y,
          " is out of the region");
      double q = 1e300;
      for (size_t i = 1; i < l.size(); ++i) {
        q = std::min(q, distSeg(v, l[i - 1], l[i]));
      }
      CHECK(q < big, " end ", v.x, " ", v.y, " is not on the line");
    }
  }
  if (count_length) {
    CHECK(total > lo - big * 50 && total < hi + big * 50, " total length ",
        total, " is not in [", lo, ", ", hi, "]");
  }
  return r;
}
inline std::string str(const std::vector<V>& l) {
  std::ostringstream o;
  o.precision(17);
  for (size_t i = 0; i < l.size(); ++i) {
    o << (i ? ", " : "") << l[i].x << " " << l[i].y;
  }
  return o.str();
}
}  // namespace ln
