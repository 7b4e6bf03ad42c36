// Plain, independent geometry used as oracle and to build inputs.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <vector>

#include "pbt.hpp"

namespace orc {

typedef long double LD;

struct V {
  double x = 0, y = 0;
  V() = default;
  V(double a, double b) : x(a), y(b) {}
  V operator+(const V& o) const { return V(x + o.x, y + o.y); }
  V operator-(const V& o) const { return V(x - o.x, y - o.y); }
  V operator*(double k) const { return V(x * k, y * k); }
};
inline double dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y; }
inline double cross(const V& a, const V& b) { return a.x * b.y - a.y * b.x; }
inline double norm(const V& a) { return std::hypot(a.x, a.y); }
inline double dist(const V& a, const V& b) { return norm(a - b); }
inline V rot(const V& p, double a) {
  return V(p.x * std::cos(a) - p.y * std::sin(a),
           p.x * std::sin(a) + p.y * std::cos(a));
}

typedef std::vector<V> Ring;        // closed implicitly: first != last
struct Poly { Ring outer; std::vector<Ring> holes; };
typedef std::vector<Poly> Multi;

inline double signedArea(const Ring& r) {
  LD s = 0;
  if (r.empty()) { return 0; }
  const V o = r[0];
  for (size_t i = 0; i < r.size(); ++i) {
    const V a = r[i] - o, b = r[(i + 1) % r.size()] - o;
    s += (LD)a.x * b.y - (LD)a.y * b.x;
  }
  return static_cast<double>(s / 2);
}
inline double area(const Ring& r) { return std::fabs(signedArea(r)); }
inline double area(const Poly& p) {
  double s = area(p.outer);
  for (auto&& h : p.holes) { s -= area(h); }
  return s;
}
inline double area(const Multi& m) {
  double s = 0;
  for (auto&& p : m) { s += area(p); }
  return s;
}
inline double perimeter(const Ring& r) {
  double s = 0;
  for (size_t i = 0; i < r.size(); ++i) {
    s += dist(r[i], r[(i + 1) % r.size()]);
  }
  return s;
}

inline double distSeg(const V& p, const V& a, const V& b) {
  const V d = b - a;
  const double l2 = dot(d, d);
  double t = l2 > 0 ? dot(p - a, d) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return dist(p, a + d * t);
}
inline V closestSeg(const V& p, const V& a, const V& b) {
  const V d = b - a;
  const double l2 = dot(d, d);
  double t = l2 > 0 ? dot(p - a, d) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return a + d * t;
}
inline double segSeg(const V& a, const V& b, const V& c, const V& d) {
  const double d1 = cross(b - a, c - a), d2 = cross(b - a, d - a);
  const double d3 = cross(d - c, a - c), d4 = cross(d - c, b - c);
  if (((d1 > 0) != (d2 > 0)) && ((d3 > 0) != (d4 > 0)) &&
      d1 != 0 && d2 != 0 && d3 != 0 && d4 != 0) { return 0; }
  return std::min(std::min(distSeg(a, c, d), distSeg(b, c, d)),
      std::min(distSeg(c, a, b), distSeg(d, a, b)));
}
inline double distBorder(const V& p, const Ring& r) {
  double m = std::numeric_limits<double>::infinity();
  for (size_t i = 0; i < r.size(); ++i) {
    m = std::min(m, distSeg(p, r[i], r[(i + 1) % r.size()]));
  }
  return m;
}
inline double distBorder(const V& p, const Poly& q) {
  double m = distBorder(p, q.outer);
  for (auto&& h : q.holes) { m = std::min(m, distBorder(p, h)); }
  return m;
}
inline double distBorder(const V& p, const Multi& q) {
  double m = std::numeric_limits<double>::infinity();
  for (auto&& h : q) { m = std::min(m, distBorder(p, h)); }
  return m;
}
inline bool inRing(const V& p, const Ring& r) {   // even-odd, border undefined
  bool in = false;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) {
    if ((r[i].y > p.y) != (r[j].y > p.y)) {
      const LD x = (LD)(r[j].x - r[i].x) * (p.y - r[i].y) /
        (LD)(r[j].y - r[i].y) + r[i].x;
      if (p.x < x) { in = !in; }
    }
  }
  return in;
}
inline bool inside(const V& p, const Poly& q) {
  if (!inRing(p, q.outer)) { return false; }
  for (auto&& h : q.holes) { if (inRing(p, h)) { return false; } }
  return true;
}
inline bool inside(const V& p, const Multi& m) {
  for (auto&& q : m) { if (inside(p, q)) { return true; } }
  return false;
}

struct Box { double x0, y0, x1, y1; };
inline Box box(const Ring& r) {
  Box b{1e300, 1e300, -1e300, -1e300};
  for (auto&& p : r) {
    b.x0 = std::min(b.x0, p.x); b.x1 = std::max(b.x1, p.x);
    b.y0 = std::min(b.y0, p.y); b.y1 = std::max(b.y1, p.y);
  }
  return b;
}
inline Box box(const Multi& m) {
  Box b{1e300, 1e300, -1e300, -1e300};
  for (auto&& q : m) {
    const Box c = box(q.outer);
    b.x0 = std::min(b.x0, c.x0); b.x1 = std::max(b.x1, c.x1);
    b.y0 = std::min(b.y0, c.y0); b.y1 = std::max(b.y1, c.y1);
  }
  return b;
}
inline double diam(const Multi& m) {
  const Box b = box(m);
  return std::hypot(b.x1 - b.x0, b.y1 - b.y0);
}

inline Ring mapRing(const Ring& r, const std::function<V(V)>& f) {
  Ring o;
  for (auto&& p : r) { o.push_back(f(p)); }
  return o;
}
inline Poly mapPoly(const Poly& p, const std::function<V(V)>& f) {
  Poly o;
  o.outer = mapRing(p.outer, f);
  for (auto&& h : p.holes) { o.holes.push_back(mapRing(h, f)); }
  return o;
}
inline Multi mapMulti(const Multi& m, const std::function<V(V)>& f) {
  Multi o;
  for (auto&& p : m) { o.push_back(mapPoly(p, f)); }
  return o;
}

// Chords of {inside m} with the horizontal line y = c: sorted [x0, x1] pairs.
// `clear` is the distance from the line to the nearest vertex ordinate.
struct Chords { std::vector<std::pair<double, double>> segs; double clear; };
inline Chords chords(const Multi& m, double c) {
  Chords o;
  o.clear = std::numeric_limits<double>::infinity();
  for (auto&& q : m) {
    std::vector<double> xs;
    auto scan = [&](const Ring& r) {
      for (size_t i = 0; i < r.size(); ++i) {
        const V a = r[i], b = r[(i + 1) % r.size()];
        o.clear = std::min(o.clear, std::fabs(a.y - c));
        if ((a.y > c) != (b.y > c)) {
          xs.push_back(static_cast<double>(
                (LD)a.x + (LD)(b.x - a.x) * (c - a.y) / (LD)(b.y - a.y)));
        }
      }
    };
    scan(q.outer);
    for (auto&& h : q.holes) { scan(h); }
    std::sort(xs.begin(), xs.end());
    for (size_t i = 0; i + 1 < xs.size(); i += 2) {
      o.segs.emplace_back(xs[i], xs[i + 1]);
    }
  }
  std::sort(o.segs.begin(), o.segs.end());
  return o;
}

// True if no three consecutive vertices turn to opposite sides.
// margin: smallest |turn sine| seen (0 = some vertices are collinear).
inline bool convex(const Ring& r, double* margin) {
  int pos = 0, neg = 0;
  *margin = 1e300;
  const size_t n = r.size();
  for (size_t i = 0; i < n; ++i) {
    const V a = r[(i + 1) % n] - r[i], b = r[(i + 2) % n] - r[(i + 1) % n];
    const double s = cross(a, b) / (norm(a) * norm(b));
    *margin = std::min(*margin, std::fabs(s));
    if (s > 0) { ++pos; }
    if (s < 0) { ++neg; }
  }
  return pos == 0 || neg == 0;
}

inline double angNorm(double a) {
  const double t = 2 * M_PI;
  double r = std::fmod(a, t);
  if (r < 0) { r += t; }
  return r;
}
// smallest rotation between two directions
inline double angDiff(double a, double b) {
  const double d = angNorm(a - b);
  return std::min(d, 2 * M_PI - d);
}

// ---------------------------------------------------------------- generators

inline void reverseRing(Ring* r) { std::reverse(r->begin(), r->end()); }
inline void rotateRing(Ring* r, size_t k) {
  std::rotate(r->begin(), r->begin() + static_cast<long>(k % r->size()),
      r->end());
}

// Star shaped around c, radii in [rmin, rmax], gaps between angles >= minGap.
inline Ring star(pbt::Gen& g, V c, double rmin, double rmax, size_t n) {
  std::vector<double> w;
  double tot = 0;
  for (size_t i = 0; i < n; ++i) {
    w.push_back(1.0 + 0.25 * static_cast<double>(g.below(9)));
    tot += w.back();
  }
  Ring r;
  double a = g.unit() * 2 * M_PI;
  for (size_t i = 0; i < n; ++i) {
    const double rad = rmin + (rmax - rmin) *
      static_cast<double>(g.below(65)) / 64.0;
    r.push_back(c + V(rad * std::cos(a), rad * std::sin(a)));
    a += w[i] / tot * 2 * M_PI;
  }
  return r;
}

// Convex: points on an ellipse at sorted, separated angles.
inline Ring convexRing(pbt::Gen& g, V c, double rx, double ry, size_t n) {
  std::vector<double> w;
  double tot = 0;
  for (size_t i = 0; i < n; ++i) {
    w.push_back(1.0 + 0.25 * static_cast<double>(g.below(13)));
    tot += w.back();
  }
  Ring r;
  double a = g.unit() * 2 * M_PI;
  const double tilt = g.unit() * M_PI;
  for (size_t i = 0; i < n; ++i) {
    r.push_back(c + rot(V(rx * std::cos(a), ry * std::sin(a)), tilt));
    a += w[i] / tot * 2 * M_PI;
  }
  return r;
}

inline Ring rectRing(double x0, double y0, double w, double h) {
  return {V(x0, y0), V(x0 + w, y0), V(x0 + w, y0 + h), V(x0, y0 + h)};
}

struct ShapeOpt {
  double scale_lo = 10, scale_hi = 120;   // rough size of a field
  double big = 40;             // now and then up to so many times larger
  bool allow_holes = true;
  bool allow_concave = true;
  bool allow_offset = true;    // translate away from the origin
  bool allow_rect = true;      // axis aligned shapes with exact coordinates
  size_t max_vertices = 10;
  size_t max_holes = 2;
};

// A valid simple polygon, optionally with disjoint holes well inside.
inline Poly genPoly(pbt::Gen& g, const ShapeOpt& o = ShapeOpt()) {
  Poly p;
  const size_t size = g.below(o.big > 1 ? 9 : 2);
  const double s = size == 8 ? g.logReal(o.scale_hi, o.scale_hi * o.big) :
    size % 2 == 1 ? g.uniform(o.scale_lo, o.scale_hi)
    : static_cast<double>(g.integer(static_cast<int64_t>(o.scale_lo),
          static_cast<int64_t>(o.scale_hi)));
  if (size == 8) { g.label("large field"); }
  size_t kind = g.weighted({o.allow_rect ? 3 : 0, 3, o.allow_concave ? 5 : 0,
      o.allow_concave ? 2 : 0, 1});
  double core = 0;   // radius of a disc around `c` inside the outer ring
  V c(0, 0);
  if (!o.allow_rect && kind == 0) { kind = 1; }
  switch (kind) {
    case 0: {
      const double w = s, h = s * (0.25 + 0.25 * (double)g.below(8));
      p.outer = rectRing(0, 0, w, h);
      c = V(w / 2, h / 2);
      core = 0.5 * std::min(w, h);
      g.label("shape:rect");
      break;
    }
    case 1: {
      const size_t n = g.size(4, std::max<size_t>(4, o.max_vertices));
      const double ry = s * 0.5 * (0.4 + 0.15 * (double)g.below(5));
      p.outer = convexRing(g, V(0, 0), s * 0.5, ry, n);
      // inscribed radius around the centre: distance to the border if inside
      core = inRing(V(0, 0), p.outer) ? distBorder(V(0, 0), p.outer) : 0;
      g.label("shape:convex");
      break;
    }
    case 2: {
      const size_t n = g.size(5, std::max<size_t>(5, o.max_vertices));
      p.outer = star(g, V(0, 0), s * 0.2, s * 0.5, n);
      core = inRing(V(0, 0), p.outer) ? distBorder(V(0, 0), p.outer) : 0;
      g.label("shape:star");
      break;
    }
    case 3: {   // comb / L / U shapes
      const size_t teeth = g.size(1, 3);
      const double base = s * 0.3, step = s / static_cast<double>(teeth);
      Ring r;
      r.emplace_back(0, 0);
      r.emplace_back(s, 0);
      for (size_t i = teeth; i-- > 0;) {
        const double x1 = step * static_cast<double>(i + 1);
        const double x0 = x1 - step * 0.5;
        const double h = s * (0.4 + 0.1 * static_cast<double>(g.below(6)));
        r.emplace_back(x1, h);
        r.emplace_back(x0, h);
        r.emplace_back(x0, base);
        if (i > 0) { r.emplace_back(x0 - step * 0.5, base); }
      }
      r.emplace_back(0, base);
      // drop consecutive duplicates
      Ring q;
      for (auto&& v : r) {
        if (q.empty() || dist(q.back(), v) > 1e-9) { q.push_back(v); }
      }
      p.outer = q;
      c = V(s * 0.5, base * 0.5);
      core = base * 0.45;
      g.label("shape:comb");
      break;
    }
    default: {
      p.outer = {V(0, 0), V(s, 0),
        V(s * 0.1 * static_cast<double>(g.below(11)),
          s * (0.3 + 0.1 * static_cast<double>(g.below(8))))};
      g.label("shape:triangle");
      break;
    }
  }
  if (o.allow_holes && core > s * 0.1 && g.chance(1, 3)) {
    const double R = core * 0.85;
    const size_t how = g.below(o.max_holes > 2 ? 3 : 2);
    const bool many = how == 2;
    const size_t nh = many ? g.size(3, o.max_holes) : how + 1;
    if (many) {   // on a grid
      const size_t k = static_cast<size_t>(std::ceil(std::sqrt(nh - 0.5)));
      const double d = 1.4 * R / static_cast<double>(k);
      for (size_t i = 0; i < nh; ++i) {
        const V at = c + V((static_cast<double>(i % k) + 0.5) * d - 0.7 * R,
            (static_cast<double>(i / k) + 0.5) * d - 0.7 * R);
        p.holes.push_back(star(g, at, d * 0.15, d * 0.4, g.size(3, 5)));
      }
      g.label("many holes");
    } else if (nh == 1) {
      p.holes.push_back(star(g, c, R * 0.3, R * 0.8, g.size(3, 6)));
    } else {
      p.holes.push_back(star(g, c - V(R * 0.5, 0), R * 0.15, R * 0.4,
            g.size(3, 5)));
      p.holes.push_back(star(g, c + V(R * 0.5, 0), R * 0.15, R * 0.4,
            g.size(3, 5)));
    }
    g.label("holes");
  }
  // similarity that keeps the polygon valid
  double a = 0;
  const size_t turn = g.weighted({4, 1, 3});
  if (turn == 1) { a = static_cast<double>(g.integer(1, 3)) * M_PI / 2; }
  if (turn == 2) { a = g.uniform(0, 2 * M_PI); }
  V t(0, 0);
  if (o.allow_offset) {
    switch (g.weighted({4, 3, 1})) {
      case 0: break;
      case 1: t = V(g.real(-200, 200), g.real(-200, 200)); break;
      default: t = V(g.real(2e5, 8e5), g.real(1e6, 6e6));
               g.label("utm-like offset");
    }
  }
  p = mapPoly(p, [&](V v) { return (a == 0 ? v : rot(v, a)) + t; });
  auto fix = [&](Ring* r) {
    if (g.chance(1, 3)) { reverseRing(r); g.label("reversed ring"); }
    rotateRing(r, g.below(r->size()));
  };
  fix(&p.outer);
  for (auto&& h : p.holes) { fix(&h); }
  return p;
}

inline Multi genMulti(pbt::Gen& g, size_t max_cells,
    const ShapeOpt& o = ShapeOpt()) {
  Multi m;
  const size_t n = max_cells <= 1 ? 1 :
    max_cells > 3 && g.chance(1, 4) ? g.size(4, max_cells) :
    g.weighted({5, 3, 2}) + 1;
  double x = 0;
  for (size_t i = 0; i < std::min(n, max_cells); ++i) {
    Poly p = genPoly(g, o);
    if (i > 0) {   // put it to the right of the previous ones, with a gap
      const Box b = box(p.outer);
      const double dx = x - b.x0 + 1.0 + static_cast<double>(g.below(20));
      const double dy = box(m[0].outer).y0 - b.y0 +
        static_cast<double>(g.integer(-20, 20));
      p = mapPoly(p, [&](V v) { return v + V(dx, dy); });
      g.label("several cells");
    }
    x = box(p.outer).x1;
    m.push_back(p);
  }
  return m;
}
// Up to nine holes in a cell; with max_cells > 3 more cells too.
inline ShapeOpt sieve() { ShapeOpt o; o.max_holes = 9; return o; }
inline Multi genMany(pbt::Gen& g, size_t max_cells = 8) {
  return genMulti(g, max_cells, sieve());
}

// Polygons on the integer lattice (exact coordinates): histograms of columns,
// some with collinear vertices or a rectangular hole.
inline Poly latticePoly(pbt::Gen& g, int cell = 1, bool holes = true) {
  Poly p;
  const size_t n = g.size(1, 5);
  std::vector<int64_t> up, lo;
  for (size_t i = 0; i < n; ++i) {
    up.push_back(static_cast<int64_t>(g.below(4)) + 3);
    lo.push_back(-static_cast<int64_t>(g.below(3)));
  }
  const bool collinear = g.chance(1, 3);
  Ring r;
  auto add = [&](double x, double y) {
    if (!r.empty() && r.back().x == x && r.back().y == y) { return; }
    if (!collinear && r.size() >= 2) {
      const V a = r[r.size() - 2], b = r.back();
      if (cross(b - a, V(x, y) - b) == 0) { r.pop_back(); }
    }
    r.emplace_back(x, y);
  };
  for (size_t i = 0; i < n; ++i) {
    add(2.0 * (double)i, (double)lo[i]);
    add(2.0 * (double)(i + 1), (double)lo[i]);
  }
  for (size_t i = n; i-- > 0;) {
    add(2.0 * (double)(i + 1), (double)up[i]);
    add(2.0 * (double)i, (double)up[i]);
  }
  // close: drop collinear vertices over the seam
  if (!collinear) {
    for (int k = 0; k < 2 && r.size() > 4; ++k) {
      const size_t m = r.size();
      if (cross(r[m - 1] - r[m - 2], r[0] - r[m - 1]) == 0) { r.pop_back(); }
      else if (cross(r[0] - r[r.size() - 1], r[1] - r[0]) == 0) {
        r.erase(r.begin());
      }
    }
  } else {
    g.label("collinear vertices");
  }
  p.outer = r;
  if (holes && g.chance(1, 4)) {
    const double x = 2.0 * (double)g.below(n);
    p.holes.push_back(rectRing(x + 0.5, 1, 1, 1));
    g.label("holes");
  }
  const V t((double)g.integer(-4, 4), (double)g.integer(-4, 4));
  const bool swap = g.boolean();
  p = mapPoly(p, [&](V v) {
    v = v + t;
    if (swap) { v = V(v.y, v.x); }
    return v * (double)cell; });
  if (g.boolean()) { reverseRing(&p.outer); }
  rotateRing(&p.outer, g.below(p.outer.size()));
  g.label("shape:lattice");
  return p;
}

inline Ring hull(std::vector<V> p) {
  std::sort(p.begin(), p.end(), [](const V& a, const V& b) {
    return a.x < b.x || (a.x == b.x && a.y < b.y); });
  Ring h;
  for (int pass = 0; pass < 2; ++pass) {
    const size_t base = h.size();
    for (auto&& q : p) {
      while (h.size() >= base + 2 &&
          cross(h[h.size() - 1] - h[h.size() - 2], q - h[h.size() - 1]) <= 0) {
        h.pop_back();
      }
      h.push_back(q);
    }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  return h;
}

inline V pointNear(pbt::Gen& g, const Multi& m, double pad = 0.2) {
  const Box b = box(m);
  const double w = b.x1 - b.x0, h = b.y1 - b.y0;
  return V(g.uniform(b.x0 - pad * w, b.x1 + pad * w),
           g.uniform(b.y0 - pad * h, b.y1 + pad * h));
}
// Point in the interior (rejection on a bounded number of draws).
inline bool pointInside(pbt::Gen& g, const Multi& m, double clear, V* out) {
  for (int i = 0; i < 30; ++i) {
    const V p = pointNear(g, m, 0);
    if (inside(p, m) && distBorder(p, m) > clear) { *out = p; return true; }
  }
  return false;
}

inline std::string str(const Ring& r) {
  std::ostringstream o;
  o.precision(17);
  o << "(";
  for (size_t i = 0; i < r.size(); ++i) {
    o << (i ? ", " : "") << r[i].x << " " << r[i].y;
  }
  o << ")";
  return o.str();
}
inline std::string str(const Poly& p) {
  std::string s = "POLY " + str(p.outer);
  for (auto&& h : p.holes) { s += " hole " + str(h); }
  return s;
}
inline std::string str(const Multi& m) {
  std::string s;
  for (auto&& p : m) { s += (s.empty() ? "" : " + ") + str(p); }
  return s;
}

}  // namespace orc
