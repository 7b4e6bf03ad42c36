// C07 spatial queries agree with plane geometry.
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {

// Position of a segment with respect to a region: exact on the lattice.
struct Rel { bool in = false, out = false, border = false; bool sure = true; };
Rel relate(const V& a, const V& b, const Multi& m, double eps) {
  Rel r;
  std::vector<double> t{0, 1};
  const V d = b - a;
  const double len = norm(d);
  auto scan = [&](const Ring& q) {
    for (size_t i = 0; i < q.size(); ++i) {
      const V c = q[i], e = q[(i + 1) % q.size()] - c;
      const double den = cross(d, e);
      if (std::fabs(den) > 1e-12 * len * norm(e)) {
        const double s = cross(c - a, e) / den, u = cross(c - a, d) / den;
        if (s > -1e-9 && s < 1 + 1e-9 && u > -1e-9 && u < 1 + 1e-9) {
          t.push_back(s);
        }
      }
      t.push_back(dot(c - a, d) / (len * len));   // collinear ends
    }
  };
  for (auto&& p : m) { scan(p.outer); for (auto&& h : p.holes) { scan(h); } }
  std::sort(t.begin(), t.end());
  double prev = 0;
  for (double x : t) {
    if (x < 0 || x > 1) { continue; }
    const double db = distBorder(a + d * x, m);
    if (db < eps) { r.border = true; }
    if ((x - prev) * len > 1e-7) {
      const V mid = a + d * ((x + prev) / 2);
      if (distBorder(mid, m) < eps) { r.border = true; }
      else if (inside(mid, m)) { r.in = true; }
      else { r.out = true; }
    }
    prev = x;
  }
  return r;
}

template <class G> void queries(Gen& g, const G& c, const Multi& m,
    const V& p, double eps) {
  const F2CPoint q = fx::pt(p);
  const double db = distBorder(p, m);
  const bool in = inside(p, m);
  const double tol = 1e-9 * (1 + diam(m) + std::fabs(p.x) + std::fabs(p.y));
  CHECK_NEAR(c.distance(q), in ? 0 : db, tol);
  CHECK_NEAR(q.distance(c), in ? 0 : db, tol);
  const F2CPoint cb = c.closestPointOnBorderTo(q);
  CHECK(distBorder(fx::v(cb), m) <= tol, " closest point ", cb,
      " is not on the border");
  CHECK_NEAR(dist(fx::v(cb), p), db, tol, "distance to the closest point ", cb);
  if (db > eps) {
    CHECK_EQ(c.isPointIn(q), in, "point ", p.x, " ", p.y);
    CHECK(!c.isPointInBorder(q), " point ", p.x, " ", p.y);
    CHECK_EQ(q.within(c), in);
    CHECK_EQ(q.intersects(c), in);
    CHECK_EQ(c.intersects(q), in);
    CHECK_EQ(q.disjoint(c), !in);
    CHECK_EQ(c.disjoint(q), !in);
    CHECK(!q.touches(c) && !c.touches(q));
    CHECK(!c.within(q));
    g.label(in ? "inside" : "outside");
    if (in) { g.nontrivial(); }
  }
}
template <class G> void onBorder(Gen& g, const G& c, const V& p) {
  const F2CPoint q = fx::pt(p);
  CHECK(c.isPointInBorder(q), " border point ", p.x, " ", p.y);
  CHECK(!c.isPointIn(q), " border point ", p.x, " ", p.y);
  CHECK(q.touches(c) && c.touches(q));
  CHECK(q.intersects(c) && c.intersects(q));
  CHECK(!q.disjoint(c) && !c.disjoint(q));
  CHECK(c.distance(q) == 0);
  g.label("border");
  g.nontrivial();
}
void whichCell(Gen& g, const F2CCells& c, const Multi& m, const V& p,
    double eps) {
  if (distBorder(p, m) < eps) { return; }
  const F2CCell w = c.getCellWherePoint(fx::pt(p));
  size_t hit = m.size();
  for (size_t i = 0; i < m.size(); ++i) { if (inside(p, m[i])) { hit = i; } }
  if (hit == m.size()) {
    CHECK(w.isEmpty(), " a cell is said to contain an outside point");
  } else {
    std::string why;
    CHECK(gn::same(gn::snapOf(fx::cell(m[hit])), gn::snapOf(w), 0, &why),
        " wrong cell: ", why);
  }
  (void)g;
}

void pointsGeneral(Gen& g) {
  const F2CCells c = fx::cells(genMany(g));
  const Multi m = fx::multi(c);      // as stored (rounded for printing)
  g.note(str(m));
  const F2CCell c0 = fx::cell(m[0]);
  const double eps = 1e-8 * (1 + diam(m)) + 1e-9 * std::fabs(m[0].outer[0].y);
  for (int k = 0; k < 6; ++k) {
    const V p = pointNear(g, m, 0.3);
    g.note("point ", p.x, " ", p.y);
    queries(g, c, m, p, eps);
    queries(g, c0, Multi{m[0]}, p, eps);
    whichCell(g, c, m, p, eps);
  }
  // vertices are exactly on the border
  const Poly& q = g.pick(m);
  const V v = g.pick(q.outer);
  onBorder(g, c, v);
  const F2CCell w = c.getCellWherePoint(fx::pt(v));
  CHECK(!w.isEmpty() && w.isPointInBorder(fx::pt(v)), " cell of a vertex");
  if (!q.holes.empty()) { onBorder(g, c, g.pick(q.holes[0])); }
  // the enclosing box
  const Box b = box(m);
  CHECK_NEAR(c.getDimMinX(), b.x0, 0); CHECK_NEAR(c.getDimMaxX(), b.x1, 0);
  CHECK_NEAR(c.getDimMinY(), b.y0, 0); CHECK_NEAR(c.getDimMaxY(), b.y1, 0);
  CHECK_NEAR(c.getWidth(), b.x1 - b.x0, 0);
  CHECK_NEAR(c.getHeight(), b.y1 - b.y0, 0);
}
void pointsLattice(Gen& g) {
  const Multi m{latticePoly(g)};
  g.note(str(m));
  const F2CCells c = fx::cells(m);
  const F2CCell c0 = fx::cell(m[0]);
  const Box b = box(m);
  for (int k = 0; k < 6; ++k) {
    const V p(0.5 * (double)g.integer((int64_t)(2 * b.x0 - 3),
          (int64_t)(2 * b.x1 + 3)),
        0.5 * (double)g.integer((int64_t)(2 * b.y0 - 3),
          (int64_t)(2 * b.y1 + 3)));
    g.note("point ", p.x, " ", p.y);
    if (distBorder(p, m) == 0) {
      onBorder(g, c, p);
      onBorder(g, c0, p);
      CHECK(!c.getCellWherePoint(fx::pt(p)).isEmpty());
      queries(g, c, m, p, 1e-9);
    } else {
      queries(g, c, m, p, 1e-9);
      queries(g, c0, m, p, 1e-9);
      whichCell(g, c, m, p, 1e-9);
    }
  }
}
template <class G, class H> void relations(const G& l, const H& c,
    const Rel& r) {
  const bool meet = r.in || r.border;
  CHECK_EQ(l.intersects(c), meet); CHECK_EQ(c.intersects(l), meet);
  CHECK_EQ(l.disjoint(c), !meet); CHECK_EQ(c.disjoint(l), !meet);
  CHECK_EQ(l.within(c), r.in && !r.out);
  CHECK_EQ(l.crosses(c), r.in && r.out); CHECK_EQ(c.crosses(l), r.in && r.out);
  CHECK_EQ(l.touches(c), meet && !r.in); CHECK_EQ(c.touches(l), meet && !r.in);
  CHECK(!c.within(l));
}
void linesLattice(Gen& g) {
  const Multi m{latticePoly(g)};
  const Box b = box(m);
  auto pt = [&]() { return V(
      (double)g.integer((int64_t)b.x0 - 2, (int64_t)b.x1 + 2),
      (double)g.integer((int64_t)b.y0 - 2, (int64_t)b.y1 + 2)); };
  const V a = pt();
  V e = pt();
  if (g.boolean()) { e = g.boolean() ? V(a.x, e.y) : V(e.x, a.y); }
  discardIf(dist(a, e) == 0);
  g.note(str(m));
  g.note("line ", a.x, " ", a.y, " - ", e.x, " ", e.y);
  const Rel r = relate(a, e, m, 1e-9);
  const F2CLineString l(fx::pt(a), fx::pt(e));
  relations(l, fx::cell(m[0]), r);
  relations(l, fx::cells(m), r);
  if (r.border) { g.label("meets the border"); }
  if ((r.in && r.out) || (r.border && !r.in)) { g.nontrivial(); }
}
void linesGeneral(Gen& g) {
  const Multi m = genMany(g, 2);
  const V a = pointNear(g, m, 0.2), e = pointNear(g, m, 0.2);
  const double D = diam(m);
  discardIf(dist(a, e) < 1e-3 * D);
  g.note(str(m));
  g.note("line ", a.x, " ", a.y, " - ", e.x, " ", e.y);
  // distance of a line to the cells
  double d = 1e300;
  bool near_vertex = false;
  for (auto&& p : m) {
    auto scan = [&](const Ring& q) {
      for (size_t i = 0; i < q.size(); ++i) {
        d = std::min(d, segSeg(a, e, q[i], q[(i + 1) % q.size()]));
        near_vertex |= distSeg(q[i], a, e) < 1e-6 * D;
      }
    };
    scan(p.outer);
    for (auto&& h : p.holes) { scan(h); }
  }
  if (inside(a, m) || inside(e, m)) { d = 0; }
  const F2CCells c = fx::cells(m);
  const F2CLineString l(fx::pt(a), fx::pt(e));
  CHECK_NEAR(c.distance(l), d, 1e-8 * (1 + D) + 1e-14 * std::fabs(a.y) * 100);
  CHECK_NEAR(l.distance(c), d, 1e-8 * (1 + D) + 1e-14 * std::fabs(a.y) * 100);
  if (near_vertex || distBorder(a, m) < 1e-6 * D ||
      distBorder(e, m) < 1e-6 * D) { return; }
  Rel r = relate(a, e, m, 1e-9 * (1 + D) + 1e-15 * std::fabs(a.y) * 10);
  relations(l, c, r);
  if (r.in && r.out) { g.nontrivial(); }
}
// two regions
void regions(Gen& g) {
  const Multi a{latticePoly(g)}, b{latticePoly(g)};
  g.note(str(a)); g.note(str(b));
  const F2CCells x = fx::cells(a), y = fx::cells(b);
  // lattice of half cells: exact classification of both interiors
  Multi u = a;
  u.push_back(b[0]);
  const Box B = box(u);
  bool common = false, a_out = false, b_out = false, meet = false;
  for (double px = B.x0 + 0.25; px < B.x1; px += 0.5) {
    for (double py = B.y0 + 0.25; py < B.y1; py += 0.5) {
      const bool ia = inside(V(px, py), a), ib = inside(V(px, py), b);
      common |= ia && ib;
      a_out |= ia && !ib;
      b_out |= ib && !ia;
    }
  }
  double d = 1e300;
  auto rings = [](const Poly& p) {
    std::vector<Ring> r = p.holes;
    r.push_back(p.outer);
    return r;
  };
  for (auto&& r : rings(a[0])) {
    for (auto&& s : rings(b[0])) {
      for (size_t i = 0; i < r.size(); ++i) {
        for (size_t j = 0; j < s.size(); ++j) {
          d = std::min(d, segSeg(r[i], r[(i + 1) % r.size()], s[j],
                s[(j + 1) % s.size()]));
        }
      }
    }
  }
  meet = common || d == 0;
  CHECK_NEAR(x.distance(y), meet ? 0 : d, 1e-9);
  CHECK_EQ(x.intersects(y), meet);
  CHECK_EQ(x.disjoint(y), !meet);
  CHECK_EQ(x.touches(y), meet && !common);
  CHECK_EQ(x.within(y), common && !a_out);
  CHECK_EQ(y.within(x), common && !b_out);
  g.label(meet ? (common ? "overlap" : "touch") : "apart");
  if (meet) { g.nontrivial(); }
}
// points and lines among themselves, on a lattice
struct Shape {
  int kind = 0;                          // point(s), line(s)
  std::vector<V> pts;
  std::vector<std::vector<V>> lines;
};
Shape shape(Gen& g, int kind) {
  Shape s;
  s.kind = kind;
  auto pt = [&] { return V((double)g.integer(0, 6), (double)g.integer(0, 6)); };
  const size_t n = kind % 2 ? g.size(1, 3) : 1;
  for (size_t i = 0; i < n; ++i) {
    if (kind < 2) { s.pts.push_back(pt()); continue; }
    std::vector<V> l{pt()};
    for (size_t k = g.size(1, 3); k-- > 0;) {
      V v = pt();
      if (dist(v, l.back()) == 0) { v.x += 1; }
      l.push_back(v);
    }
    s.lines.push_back(l);
  }
  return s;
}
double shapeDist(const Shape& a, const Shape& b) {
  auto segs = [](const Shape& s) {
    std::vector<std::pair<V, V>> r;
    for (auto&& p : s.pts) { r.emplace_back(p, p); }
    for (auto&& l : s.lines) {
      for (size_t i = 1; i < l.size(); ++i) { r.emplace_back(l[i - 1], l[i]); }
    }
    return r;
  };
  double d = 1e300;
  for (auto&& x : segs(a)) {
    for (auto&& y : segs(b)) {
      d = std::min(d, segSeg(x.first, x.second, y.first, y.second));
    }
  }
  return d;
}
F2CLineString lineOf(const std::vector<V>& l) {
  F2CLineString r;
  for (auto&& p : l) { r.addPoint(p.x, p.y); }
  return r;
}
template <class F> void withShape(const Shape& s, F f) {
  if (s.kind == 0) { f(fx::pt(s.pts[0])); return; }
  if (s.kind == 2) { f(lineOf(s.lines[0])); return; }
  if (s.kind == 1) {
    F2CMultiPoint m;
    for (auto&& p : s.pts) { m.addPoint(p.x, p.y); }
    f(m);
    return;
  }
  F2CMultiLineString m;
  for (auto&& l : s.lines) { m.addGeometry(lineOf(l)); }
  f(m);
}
void shapes(Gen& g) {
  const Shape a = shape(g, (int)g.below(4)), b = shape(g, (int)g.below(4));
  withShape(a, [&](const auto& x) { withShape(b, [&](const auto& y) {
    g.note(x.exportToWkt(), " and ", y.exportToWkt());
    double d = shapeDist(a, b);
    if (d < 1e-12) { d = 0; }
    CHECK_NEAR(x.distance(y), d, 1e-9);
    CHECK_NEAR(y.distance(x), d, 1e-9);
    // off the lattice points a meeting place is rounded
    CHECK_EQ(x.intersects(y), d == 0); CHECK_EQ(y.intersects(x), d == 0);
    CHECK_EQ(x.disjoint(y), d != 0); CHECK_EQ(y.disjoint(x), d != 0);
    if (d != 0) {
      CHECK(!x.touches(y) && !x.crosses(y) && !x.within(y));
    } else {
      g.nontrivial();
    }
    if (a.kind < 2 && b.kind < 2) {
      auto all = [](const Shape& p, const Shape& q) {
        for (auto&& v : p.pts) {
          bool in = false;
          for (auto&& w : q.pts) { in |= dist(v, w) == 0; }
          if (!in) { return false; }
        }
        return true;
      };
      CHECK_EQ(x.within(y), all(a, b));
      CHECK_EQ(y.within(x), all(b, a));
      CHECK(!x.touches(y) && !y.touches(x));
    }
    if (a.kind == 0 && b.kind == 2) {   // a point and a line
      const auto& l = b.lines[0];
      const V p = a.pts[0];
      const bool tip = dist(l.front(), l.back()) != 0 &&
        (dist(p, l.front()) == 0 || dist(p, l.back()) == 0);
      CHECK_EQ(x.touches(y), tip); CHECK_EQ(y.touches(x), tip);
      CHECK_EQ(x.within(y), d == 0 && !tip);
      g.label(tip ? "tip" : d == 0 ? "on the line" : "off the line");
    }
    if (a.kind == 2 && b.kind == 2 && a.lines[0].size() == 2 &&
        b.lines[0].size() == 2) {       // two segments
      const V p = a.lines[0][0], q = a.lines[0][1];
      const V r = b.lines[0][0], t = b.lines[0][1];
      const V u = q - p, w = t - r;
      if (cross(u, w) != 0) {
        const bool tip = cross(u, r - p) == 0 || cross(u, t - p) == 0 ||
          cross(w, p - r) == 0 || cross(w, q - r) == 0;
        CHECK_EQ(x.crosses(y), d == 0 && !tip);
        CHECK_EQ(x.touches(y), d == 0 && tip);
        CHECK(!x.within(y) && !y.within(x));
      } else {
        CHECK(!x.crosses(y) && !y.crosses(x));
        const bool line = cross(u, r - p) == 0;
        auto on = [](const V& v, const V& s, const V& e) {
          return dot(v - s, v - e) <= 0; };
        CHECK_EQ(x.within(y), line && on(p, r, t) && on(q, r, t));
        CHECK_EQ(y.within(x), line && on(r, p, q) && on(t, p, q));
      }
      g.label("two segments");
    }
  }); });
}
void isConvex(Gen& g) {
  Poly p;
  bool lattice = false;
  if (g.chance(1, 3)) {
    p = latticePoly(g);
    lattice = true;
  } else {
    ShapeOpt o;
    p = genPoly(g, o);
    if (g.chance(1, 3)) {    // extra vertices on the sides
      Ring r;
      for (size_t i = 0; i < p.outer.size(); ++i) {
        const V a = p.outer[i], b = p.outer[(i + 1) % p.outer.size()];
        r.push_back(a);
        if (g.chance(1, 3)) { r.push_back((a + b) * 0.5); }
      }
      p.outer = r;
      g.label("midpoints");
    }
  }
  g.note(str(p));
  // margin over the turns that are not collinear
  bool pos = false, neg = false;
  const size_t n = p.outer.size();
  for (size_t i = 0; i < n; ++i) {
    const V a = p.outer[(i + 1) % n] - p.outer[i],
      b = p.outer[(i + 2) % n] - p.outer[(i + 1) % n];
    const double s = cross(a, b) / (norm(a) * norm(b));
    if (std::fabs(s) < 1e-7) { continue; }     // straight on
    discardIf(std::fabs(s) < 1e-4);
    pos |= s > 0;
    neg |= s < 0;
  }
  const bool conv = p.holes.empty() && !(pos && neg);
  CHECK_EQ(fx::cell(p).isConvex(), conv, str(p));
  CHECK_EQ(fx::cells(Multi{p}).isConvex(), conv, str(p));
  // several cells, apart, are not convex together, and nothing is not either
  const double far = 3 * diam(Multi{p});
  const Poly q = mapPoly(p, [&] (V v) { return v + V(far, 0); });
  CHECK_EQ(fx::cells(Multi{p, q}).isConvex(), false, "two cells like ", str(p));
  CHECK_EQ(F2CCells().isConvex(), false, "no cells");
  g.label(conv ? "convex" : "not convex");
  (void)lattice;
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C07",
    "multi-polygons with holes and lattice polygons, probe points in, out and "
    "exactly on borders, segments and second regions; non-trivial: inside or "
    "border points, lines that cross or touch, regions that meet",
    {{"points", 5000, 60000, pointsGeneral},
     {"points-lattice", 8000, 80000, pointsLattice},
     {"lines", 8000, 80000, linesGeneral},
     {"lines-lattice", 15000, 150000, linesLattice},
     {"regions", 10000, 100000, regions},
     {"shapes", 20000, 200000, shapes},
     {"convexity", 20000, 200000, isConvex}}};
  return p;
}
