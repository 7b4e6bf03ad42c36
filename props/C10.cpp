// C10 lines clipped to a field are exactly its chords.
#include "gens.hpp"
#include "lines.hpp"
using namespace pbt;
using namespace orc;
namespace {
V vertexOf(Gen& g, const Multi& m) {
  const Poly& q = g.pick(m);
  const Ring& r = q.holes.empty() || g.boolean() ? q.outer : q.holes[0];
  return g.pick(r);
}
// A straight line over the region: anywhere, through one or two vertices,
// along a side.  With lattice coordinates every contact is exact.
std::vector<V> lineOver(Gen& g, const Multi& m, bool lattice) {
  const double D = diam(m);
  auto far = [&](V a, V b) {   // prolonged over both ends
    const V d = b - a;
    if (norm(d) == 0) { return std::vector<V>{a - V(D, 0), a + V(D, 0)}; }
    const double k = lattice ? std::ceil(2 * D / norm(d)) : 2 * D / norm(d);
    return std::vector<V>{a - d * k, b + d * k};
  };
  auto end = [&]() {
    const Box b = box(m);
    if (lattice) {
      return V((double)g.integer((int64_t)b.x0 - 2, (int64_t)b.x1 + 2),
               (double)g.integer((int64_t)b.y0 - 2, (int64_t)b.y1 + 2));
    }
    return pointNear(g, m, 0.2);
  };
  switch (g.weighted({3, 3, 3, 2, 2})) {
    case 0: return {end(), end()};
    case 1: {
      const V v = vertexOf(g, m);
      if (lattice) {
        const double dx = (double)g.integer(-3, 3), dy = (double)g.integer(-3, 3);
        return far(v, v + V(dx, dy));
      }
      const double a = g.angle(1);
      return far(v, v + V(std::cos(a), std::sin(a)));
    }
    case 2: {
      const V a = vertexOf(g, m), b = vertexOf(g, m);
      g.label("through two vertices");
      return far(a, b);
    }
    case 3: {   // along a side
      const Poly& q = g.pick(m);
      const Ring& r = q.holes.empty() || g.boolean() ? q.outer : q.holes[0];
      const size_t i = g.below(r.size());
      g.label("along a side");
      return far(r[i], r[(i + 1) % r.size()]);
    }
    default: return {vertexOf(g, m), end()};
  }
}
struct In { Multi m; F2CCells c; bool exact; };
In region(Gen& g) {
  In r;
  r.exact = g.boolean();
  r.m = r.exact ? Multi{latticePoly(g)} : genMany(g, 3);
  if (r.exact && g.boolean()) {   // a second cell beside, maybe touching line
    Poly q = latticePoly(g);
    const double dx = box(r.m).x1 - box(q.outer).x0 + 1 + (double)g.below(3);
    r.m.push_back(mapPoly(q, [&](V v) { return v + V(dx, 0); }));
  }
  r.c = fx::cells(r.m);
  r.m = fx::multi(r.c);
  return r;
}
F2CLineString toLine(const std::vector<V>& l) {
  F2CLineString o;
  for (auto&& v : l) { o.addPoint(v.x, v.y); }
  return o;
}
void oneLineOf(Gen& g, bool strict) {
  const In r = region(g);
  std::vector<V> l = lineOver(g, r.m, r.exact);
  if (g.chance(1, 4)) {   // polyline
    for (size_t k = g.size(1, 2); k-- > 0;) {
      l.push_back(r.exact ? vertexOf(g, r.m) : pointNear(g, r.m, 0.2));
    }
    g.label("polyline");
  }
  for (size_t i = 1; i < l.size(); ++i) { discardIf(dist(l[i - 1], l[i]) < 0.01); }
  const bool simple = l.size() == 2;
  const bool whole = g.boolean() || r.m.size() > 1;
  g.note("line ", ln::str(l), " in ", str(r.m));
  const F2CLineString line = toLine(l);
  const auto got = whole ? r.c.getLinesInside(line) :
    r.c.getGeometry(0).getLinesInside(line);
  ln::Clip c;
  ln::judge(g, ln::raw(got), line.get(), r.c.get(), strict,
      [&](Gen&, const std::vector<std::vector<V>>& x) {
    c = ln::checkClip(l, r.m, x, r.exact, simple);
    if (simple && !r.exact && c.border == 0 && c.touch == 0 && c.tiny == 0) {
      size_t n = 0;
      for (auto&& s : x) {
        if (fx::lineLength(s) > 1e4 * ln::eps(r.m)) { ++n; }
      }
      CHECK_EQ(n, c.runs, "pieces of the line");
    }
  });
  CHECK_EQ(ln::raw(r.c.getLinesInside(F2CMultiLineString(line))).size(),
      ln::raw(r.c.getLinesInside(line)).size());
  if (c.in > 1 || c.border > 0) { g.nontrivial(); }
  if (c.border > 0) { g.label("runs along the border"); }
  if (c.touch > 0) { g.label("touches a corner inside"); }
  if (c.in == 0) { g.label("nothing inside"); }
}
void oneLine(Gen& g) { oneLineOf(g, false); }
void oneLineStrict(Gen& g) { oneLineOf(g, true); }
void manyLines(Gen& g) {
  const In r = region(g);
  std::vector<V> l = lineOver(g, r.m, r.exact);
  discardIf(dist(l[0], l[1]) < 0.01);
  const V d = l[1] - l[0];
  const double step = r.exact ? 1 : diam(r.m) * g.uniform(0.05, 0.3);
  const V n = r.exact ? V(-d.y, d.x) : V(-d.y, d.x) * (step / norm(d));
  const size_t k = g.size(1, 5);
  F2CMultiLineString lines;
  std::vector<std::vector<V>> all;
  double total = 0;
  const V shift = r.exact && norm(n) > 8 ? V(g.integer(0, 1), 1) : n;
  discardIf(std::fabs(cross(shift, d)) < 1e-9);
  for (size_t i = 0; i < k; ++i) {
    const V o = shift * (double)i;
    all.push_back({l[0] + o, l[1] + o});
    lines.addGeometry(toLine(all.back()));
  }
  g.note(lines.exportToWkt(), " in ", str(r.m));
  const auto got = r.c.getLinesInside(lines);
  size_t in = 0;
  ln::judge(g, ln::raw(got), lines.get(), r.c.get(), false,
      [&](Gen&, const std::vector<std::vector<V>>& raw) {
  in = 0;
  total = 0;
  for (auto&& x : all) {
    std::vector<std::vector<V>> mine;
    for (auto&& s : raw) {
      if (distSeg(s[0], x[0], x[1]) < 1e-6 &&
          distSeg(s.back(), x[0], x[1]) < 1e-6) { mine.push_back(s); }
    }
    in += ln::checkClip(x, r.m, mine, r.exact, true).in;
    for (auto&& s : mine) { total += fx::lineLength(s); }
  }
  });
  CHECK_NEAR(total, got.length(), 1e-6 * (1 + total));
  if (r.m.size() == 1) {
    CHECK_NEAR(r.c.getGeometry(0).getLinesInside(lines).length(), got.length(),
        1e-9 * (1 + total));
  }
  if (in > 1) { g.nontrivial(); }
}
void untilBorder(Gen& g) {
  const In r = region(g);
  V p;
  if (r.exact && g.boolean()) {   // lattice points
    const Box b = box(r.m);
    p = V((double)g.integer((int64_t)b.x0, (int64_t)b.x1),
          (double)g.integer((int64_t)b.y0, (int64_t)b.y1));
    discardIf(!inside(p, r.m) || distBorder(p, r.m) < 1e-6);
  } else {
    discardIf(!pointInside(g, r.m, 1e-3, &p));
  }
  double a;
  if (g.chance(1, 3)) {     // at a vertex
    const V v = vertexOf(g, r.m) - p;
    a = std::atan2(v.y, v.x);
    g.label("towards a vertex");
  } else {
    a = g.angle(2);
  }
  g.note("from ", p.x, " ", p.y, " angle ", a, " in ", str(r.m));
  F2CLineString l = r.c.createLineUntilBorder(fx::pt(p), a);
  size_t mine = 0;
  for (size_t i = 0; i < r.m.size(); ++i) {
    if (inside(p, r.m[i])) { mine = i; }
  }
  CHECK_EQ(l.size(), 2u);
  const auto v = fx::line(l);
  const double len = dist(v[0], v[1]);
  const double e = 1e-6 + 100 * ln::eps(r.m);
  CHECK_NEAR(dist(v[0], p), 0, 1e-9 * (1 + norm(p)), "starts elsewhere");
  const double off = std::fabs(cross(V(std::cos(a), std::sin(a)), v[1] - p));
  CHECK(off < e && dot(V(std::cos(a), std::sin(a)), v[1] - p) > 0,
      " is off the direction by ", off);
  CHECK(distBorder(v[1], r.m) < e, " ends ", distBorder(v[1], r.m),
      " away from the border");
  // nothing of the border is met before its end
  for (int k = 1; k < 40; ++k) {
    const V q = p + (v[1] - p) * (k / 40.0);
    CHECK(inside(q, r.m[mine]) || distBorder(q, r.m) < e,
        " leaves the cell before the end");
  }
  const auto ps = ln::pieces(p, p + V(std::cos(a), std::sin(a)) * (2 * diam(r.m)),
      Multi{r.m[mine]}, ln::eps(r.m));
  const double first = ps[0].s1 * 2 * diam(r.m);
  CHECK(len > first - e || first < 1e-4, " stops at ", len,
      " before the border at ", first);
  if (ps.size() > 1 && ps[1].where < 0 &&
      (ps[1].s1 - ps[1].s0) * diam(r.m) > 1e-4) {
    CHECK_NEAR(len, first, e, "runs past the border");
    g.nontrivial();
  }
  const F2CLineString l2 =
    r.c.getGeometry(mine).createLineUntilBorder(fx::pt(p), a);
  CHECK_EQ(l2.size(), 2u);
  CHECK_NEAR(l2.length(), len, 1e-9 * (1 + len));
}
// From the border itself: into the cell, or nothing if the ray leaves it.
void fromBorder(Gen& g) {
  const In r = region(g);
  const Multi one{g.pick(r.m)};
  const F2CCell c = fx::cell(one[0]);
  const V p = vertexOf(g, one);
  double a;
  if (g.boolean()) {
    const V v = vertexOf(g, one) - p;
    discardIf(norm(v) == 0);
    a = std::atan2(v.y, v.x);
  } else {
    a = g.angle(1);
  }
  g.note("from the vertex ", p.x, " ", p.y, " angle ", a, " in ", str(one));
  const double D = 2 * diam(one), e = 1e-6 + 100 * ln::eps(one);
  const auto ps = ln::pieces(p, p + V(std::cos(a), std::sin(a)) * D, one,
      ln::eps(one));
  discardIf((ps[0].s1 - ps[0].s0) * D < 1e-3);
  const V mid = p + V(std::cos(a), std::sin(a)) * (ps[0].s1 * D / 2);
  discardIf(ps[0].where == 0 || distBorder(mid, one) < 1e-4);
  for (int whole = 0; whole < 2; ++whole) {
    const F2CLineString l = whole ?
      F2CCells(c).createLineUntilBorder(fx::pt(p), a) :
      c.createLineUntilBorder(fx::pt(p), a);
    if (ps[0].where < 0) {
      CHECK(l.size() == 0, " leaves the cell up to ", l.exportToWkt());
      g.label("leaves at once");
    } else {
      CHECK_EQ(l.size(), 2u);
      CHECK_NEAR(dist(fx::v(l.getGeometry(0)), p), 0, e);
      bool sure = ps.size() > 1 && ps[1].where < 0 &&
        (ps[1].s1 - ps[1].s0) * D > 1e-3;
      if (sure) {
        CHECK_NEAR(l.length(), ps[0].s1 * D, e);
      } else {
        CHECK(l.length() > ps[0].s1 * D - e, " stops before the border");
      }
      for (int k = 1; k < 20; ++k) {
        const V v = fx::v(l.getGeometry(1));
        const V q = p + (v - p) * (k / 20.0);
        CHECK(inside(q, one) || distBorder(q, one) < e, " leaves the cell");
      }
      g.nontrivial();
    }
  }
}
void longLines(Gen& g) {
  const In r = region(g);
  const V p = g.boolean() ? vertexOf(g, r.m) : pointNear(g, r.m, 0);
  const double a = g.angle(2);
  g.note("through ", p.x, " ", p.y, " angle ", a, " in ", str(r.m));
  const bool whole = g.boolean() || r.m.size() > 1;
  const F2CCell c0 = r.c.getGeometry(0);
  const auto full = fx::line(whole ? r.c.createStraightLongLine(fx::pt(p), a) :
      c0.createStraightLongLine(fx::pt(p), a));
  const auto semi = fx::line(whole ? r.c.createSemiLongLine(fx::pt(p), a) :
      c0.createSemiLongLine(fx::pt(p), a));
  CHECK(full.size() == 2 && semi.size() == 2);
  const V d(std::cos(a), std::sin(a));
  const double e = 1e-9 * (1 + norm(p) + diam(r.m));
  const double D = diam(r.m);
  CHECK_NEAR(cross(full[0] - p, d), 0, e);
  CHECK_NEAR(cross(full[1] - p, d), 0, e);
  CHECK_NEAR(cross(semi[1] - p, d), 0, e);
  CHECK(dist(semi[0], p) <= e, " the half line starts elsewhere");
  // further than anything in the region, in the direction asked for
  CHECK(dot(full[1] - p, d) >= D - e && dot(p - full[0], d) >= D - e &&
      dot(semi[1] - p, d) >= D - e, " too short to cross");
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C10",
    "one to three cells with holes, or lattice cells with exact coordinates, "
    "lines anywhere, through vertices and along sides; non-trivial: more than "
    "one part inside, or a part along the border",
    {{"line", 20000, 200000, oneLine},
     // only run by the replay of the known finding
     {"line_strict", 0, 0, oneLineStrict},
     {"lines", 12000, 120000, manyLines},
     {"until_border", 12000, 120000, untilBorder},
     {"from_border", 12000, 120000, fromBorder},
     {"long_lines", 8000, 80000, longLines}}};
  return p;
}
