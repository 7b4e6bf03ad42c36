// C06 boolean operations on cells are exact set operations.
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {

Multi place(Gen& g, const Multi& a, Multi b) {
  // overlap, touch or miss: shift b so that its box meets a's box
  const Box A = box(a), B = box(b);
  const double fx = g.uniform(-0.6, 0.6), fy = g.uniform(-0.6, 0.6);
  const V t((A.x0 + A.x1 - B.x0 - B.x1) / 2 + fx * (A.x1 - A.x0),
            (A.y0 + A.y1 - B.y0 - B.y1) / 2 + fy * (A.y1 - A.y0));
  return mapMulti(b, [&](V v) { return v + t; });
}
struct Ops { F2CCells uni, inter, ab, ba; };

// points away from both borders, in and around the two operands
void members(Gen& g, const Multi& a, const Multi& b, const Ops& o,
    size_t n, double eps) {
  Multi all = a;
  all.insert(all.end(), b.begin(), b.end());
  const Multi u = fx::multi(o.uni), i = fx::multi(o.inter),
    d = fx::multi(o.ab), e = fx::multi(o.ba);
  for (size_t k = 0; k < n; ++k) {
    const V p = pointNear(g, all, 0.05);
    if (distBorder(p, a) < eps || distBorder(p, b) < eps) { continue; }
    const bool ia = inside(p, a), ib = inside(p, b);
    CHECK(inside(p, u) == (ia || ib), " union at ", p.x, " ", p.y);
    CHECK(inside(p, i) == (ia && ib), " intersection at ", p.x, " ", p.y);
    CHECK(inside(p, d) == (ia && !ib), " difference at ", p.x, " ", p.y);
    CHECK(inside(p, e) == (ib && !ia), " difference at ", p.x, " ", p.y);
  }
}
void areas(const Multi& a, const Multi& b, const Ops& o) {
  const double A = area(a), B = area(b), t = 1e-6 * (A + B) + 1e-7;
  CHECK_NEAR(o.uni.area() + o.inter.area(), A + B, t);
  CHECK_NEAR(o.ab.area(), A - o.inter.area(), t);
  CHECK_NEAR(o.ba.area(), B - o.inter.area(), t);
  CHECK_NEAR(area(fx::multi(o.uni)), o.uni.area(), t);
  CHECK_NEAR(area(fx::multi(o.inter)), o.inter.area(), t);
}
void run(Gen& g, const Multi& a, const Multi& b) {
  g.note("A = ", str(a));
  g.note("B = ", str(b));
  const F2CCells ca = fx::cells(a), cb = fx::cells(b);
  const gn::Snap sa = gn::snapOf(ca), sb = gn::snapOf(cb);
  Ops o{ca.unionOp(cb), ca.intersection(cb), ca.difference(cb),
    cb.difference(ca)};
  areas(a, b, o);
  const double eps = 1e-5 * (1 + 1e-4 * diam(a));
  members(g, a, b, o, 40, eps);
  CHECK_NEAR(ca.getCellsInside(cb).area(), o.inter.area(),
      1e-6 * (1 + ca.area()));
  // single-cell overloads
  if (b.size() == 1) {
    const F2CCell c = fx::cell(b[0]);
    Ops s{ca.unionOp(c), ca.intersection(c), ca.difference(c),
      F2CCells(c).difference(ca)};
    areas(a, b, s);
    members(g, a, b, s, 15, eps);
    if (a.size() == 1) {
      const F2CCells i = F2CCells::intersection(fx::cell(a[0]), c);
      CHECK_NEAR(i.area(), o.inter.area(), 1e-6 * (1 + ca.area()));
    }
  }
  std::string why;
  CHECK(gn::same(sa, gn::snapOf(ca), 0, &why), " operand changed: ", why);
  CHECK(gn::same(sb, gn::snapOf(cb), 0, &why), " operand changed: ", why);
  const double ia = o.inter.area();
  // The results are geometries of their own.
  for (F2CCells* r : {&o.uni, &o.inter, &o.ab, &o.ba}) { *r *= 3.0; }
  CHECK(gn::same(sa, gn::snapOf(ca), 0, &why), " operand changed with a result: ", why);
  CHECK(gn::same(sb, gn::snapOf(cb), 0, &why), " operand changed with a result: ", why);
  if (ia > 1e-6 && ia < 0.999 * std::min(area(a), area(b))) { g.nontrivial(); }
  if (ia <= 1e-6) { g.label("apart or touching"); }
}
void general(Gen& g) {
  const Multi a = genMany(g);
  const Multi b = place(g, a, genMany(g, 2));
  run(g, a, b);
}
void lattice(Gen& g) {      // shared edges and corners
  const Multi a{latticePoly(g)}, b{latticePoly(g)};
  run(g, a, b);
}
void cascaded(Gen& g) {     // overlapping cells in one collection
  Multi m;
  const bool lat = g.boolean();
  for (size_t k = g.size(1, 4); k-- > 0;) {
    Multi one{lat ? latticePoly(g) : genPoly(g, sieve())};
    if (!lat && !m.empty()) { one = place(g, m, one); }
    m.push_back(one[0]);
  }
  g.note(str(m));
  const F2CCells c = fx::cells(m);
  const gn::Snap s = gn::snapOf(c);
  F2CCells u = c.unionCascaded();
  const Multi um = fx::multi(u);
  const double eps = 1e-5 * (1 + 1e-4 * diam(m));
  for (size_t k = 0; k < 40; ++k) {
    const V p = pointNear(g, m, 0.05);
    if (distBorder(p, m) < eps) { continue; }
    CHECK(inside(p, um) == inside(p, m), " union of all at ", p.x, " ", p.y);
  }
  // same set as uniting one by one
  F2CCells step(fx::cell(m[0]));
  for (size_t i = 1; i < m.size(); ++i) {
    step = step.unionOp(fx::cell(m[i]));
  }
  CHECK_NEAR(step.area(), u.area(), 1e-6 * (1 + u.area()));
  std::string why;
  CHECK(gn::same(s, gn::snapOf(c), 0, &why), " operand changed: ", why);
  u *= 3.0;
  CHECK(gn::same(s, gn::snapOf(c), 0, &why), " operand changed with the union: ", why);
  if (m.size() > 1) { g.nontrivial(); }
}
void hulls(Gen& g) {
  const Multi m = genMany(g);
  g.note(str(m));
  std::vector<V> all, first;
  for (auto&& p : m) {
    for (auto&& v : p.outer) {
      all.push_back(v);
      if (first.size() < m[0].outer.size()) { first.push_back(v); }
    }
  }
  auto check = [&](const F2CCell& h, const std::vector<V>& pts, const char* w) {
    const Ring o = hull(pts);
    const double t = 1e-7 * (1 + area(o));
    CHECK(std::fabs(h.area() - area(o)) <= t, " ", w, ": area ", h.area(),
        " expected ", area(o));
    const Poly hp = fx::poly(h.get());
    CHECK_EQ(hp.holes.size(), 0u);
    for (auto&& v : pts) {
      CHECK(inRing(v, hp.outer) || distBorder(v, hp.outer) < 1e-6, " ", w,
          " misses ", v.x, " ", v.y);
    }
    for (auto&& v : hp.outer) {
      double d = 1e300;
      for (auto&& q : pts) { d = std::min(d, dist(v, q)); }
      CHECK(d < 1e-7, " ", w, " has a vertex of its own");
    }
  };
  check(fx::cells(m).convexHull(), all, "hull of cells");
  check(fx::cell(m[0]).convexHull(), first, "hull of a cell");
  check(F2CCell::convexHull(fx::cells(m)), all, "hull of a geometry");
  F2CMultiPoint mp;
  F2CLineString l;
  for (auto&& v : all) { mp.addPoint(v.x, v.y); l.addPoint(v.x, v.y); }
  check(F2CCell::convexHull(mp), all, "hull of points");
  check(F2CCell::convexHull(l), all, "hull of a line");
  g.nontrivial();
}
// A geometry with several kinds of parts becomes exactly its polygons.
void collections(Gen& g) {
  const Multi m = genMany(g);
  g.note(str(m));
  OGRGeometryCollection gc;
  size_t other = 0;
  std::vector<size_t> order;
  for (size_t i = 0; i < m.size(); ++i) {
    while (g.chance(1, 3)) {
      if (g.boolean()) { OGRPoint p(1, 2); gc.addGeometry(&p); }
      else { OGRLineString l; l.addPoint(0, 0); l.addPoint(3, 4);
             gc.addGeometry(&l); }
      ++other;
    }
    gc.addGeometry(fx::cell(m[i]).get());
  }
  auto eq = [&](const F2CCells& c, const Multi& e) {
    std::string why;
    CHECK(gn::same(gn::snapOf(fx::cells(e)), gn::snapOf(c), 0, &why), " ", why);
  };
  eq(F2CCells(static_cast<const OGRGeometry*>(&gc)), m);
  const F2CCells c = fx::cells(m);
  eq(F2CCells(static_cast<const OGRGeometry*>(c.get())), m);
  const F2CCell one = fx::cell(m[0]);
  eq(F2CCells(static_cast<const OGRGeometry*>(one.get())), Multi{m[0]});
  eq(F2CCells(one), Multi{m[0]});
  OGRPoint p(1, 2);
  CHECK_EQ(F2CCells(static_cast<const OGRGeometry*>(&p)).size(), 0u);
  CHECK_THROWS(F2CCell(static_cast<const OGRGeometry*>(&p)));
  CHECK_THROWS(F2CCell(static_cast<const OGRGeometry*>(c.get())));
  eq(F2CCells(F2CCell(static_cast<const OGRGeometry*>(one.get()))), Multi{m[0]});
  if (m.size() > 1 || other > 0) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C06",
    "pairs of multi-polygons (convex, concave, with holes, lattice shapes that "
    "share edges and corners); 40 probe points each; non-trivial: the operands "
    "overlap and neither contains the other / several cells",
    {{"general", 6000, 60000, general},
     {"lattice", 8000, 80000, lattice},
     {"cascaded", 4000, 40000, cascaded},
     {"hulls", 5000, 50000, hulls},
     {"collections", 8000, 80000, collections}}};
  return p;
}
