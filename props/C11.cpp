// C11 splitting cells by lines partitions them.
#include "gens.hpp"
#include "parts.hpp"
using namespace pbt;
using namespace orc;
namespace {
const double kBand = 1e-6;
struct In { Multi m; F2CCells c; bool far = false; };
In region(Gen& g, bool convex_only) {
  ShapeOpt o;
  if (convex_only) { o.allow_concave = false; o.allow_holes = false; }
  In r;
  Multi m = convex_only ? Multi{genPoly(g, o)} :
    g.chance(1, 3) ? Multi{latticePoly(g, 1 + (int)g.below(5))} : genMany(g, 3);
  r.c = fx::cells(m);
  r.m = fx::multi(r.c);
  r.far = std::fabs(r.m[0].outer[0].x) > 1e4;
  return r;
}
F2CLineString toLine(const std::vector<V>& l) {
  F2CLineString o;
  for (auto&& v : l) { o.addPoint(v.x, v.y); }
  return o;
}
V vertexOf(Gen& g, const Multi& m) {
  const Poly& q = g.pick(m);
  return g.pick(q.holes.empty() || g.boolean() ? q.outer : q.holes[0]);
}
std::vector<V> through(const Multi& m, const V& p, double a) {
  const V d = V(std::cos(a), std::sin(a)) * (2 * diam(m));
  return {p - d, p + d};
}
double band(const Multi& m) { return std::max(kBand, 1e3 * ln::eps(m)); }
void cutsAt(Gen& g, bool far) {
  const In r = region(g, false);
  discardIf(r.far && !far);
  std::vector<std::vector<V>> ls;
  for (size_t k = g.size(1, 4); k-- > 0;) {
    const V p = pointNear(g, r.m, 0.1);
    switch (g.weighted({5, 2, 2, 2, 1})) {
      case 0: ls.push_back(through(r.m, p, g.angle(1))); break;
      case 1: ls.push_back({p, pointNear(g, r.m, 0.1)});
              g.label("partial"); break;
      case 2: ls.push_back({p, pointNear(g, r.m, 0.1), pointNear(g, r.m, 0.1)});
              g.label("bent"); break;
      case 3: ls.push_back(through(r.m, vertexOf(g, r.m), g.angle(1)));
              g.label("through a vertex"); break;
      default: if (!ls.empty()) { ls.push_back(ls.back()); }
               else { ls.push_back(through(r.m, p, 0)); }
               g.label("repeated");
    }
    for (size_t i = 1; i < ls.back().size(); ++i) {
      discardIf(dist(ls.back()[i - 1], ls.back()[i]) < 0.1);
    }
  }
  F2CMultiLineString lines;
  for (auto&& l : ls) { lines.addGeometry(toLine(l)); }
  g.note(lines.exportToWkt(), " cuts ", str(r.m));
  const gn::Snap s = gn::snapOf(r.c);
  const F2CCells got = g.boolean() || ls.size() > 1 ? r.c.splitByLine(lines) :
    r.c.splitByLine(toLine(ls[0]));
  std::string why;
  CHECK(gn::same(s, gn::snapOf(r.c), 0, &why), " the cells changed: ", why);
  const Multi parts = fx::multi(got);
  CHECK_EQ(got.size(), parts.size());
  pa::checkPartition(g, r.m, parts, ls, band(r.m), 30);
  size_t n = 0;
  for (auto&& l : ls) {
    if (l.size() == 2) {
      n += pa::checkCut(g, r.m, parts, l[0], l[1], band(r.m));
    }
  }
  // no part lies on both sides of a line at a point of it, bent and partial
  // lines included: a part is at most slit there
  for (auto&& l : ls) {
    for (size_t i = 1; i < l.size(); ++i) {
      const V q = l[i - 1] + (l[i] - l[i - 1]) * g.uniform(0, 1);
      for (auto&& p : parts) {
        CHECK(!inside(q, p) || distBorder(q, p) < band(r.m),
            " a line crosses a part at ", q.x, " ", q.y);
      }
    }
  }
  if (n > 0 && parts.size() > r.m.size()) { g.nontrivial(); }
}
// A bent line through a convex cell, from outside to outside: as many parts
// more as it has stretches inside.
void bent(Gen& g) {
  const In r = region(g, true);
  discardIf(r.far);
  const double b = band(r.m), D = diam(r.m);
  const V c = pointNear(g, r.m, 0.1);
  std::vector<V> l;
  const size_t k = g.size(1, 3);   // points between the ends
  const double a0 = g.angle(1);
  l.push_back(c + V(std::cos(a0), std::sin(a0)) * (2 * D));
  for (size_t i = 0; i < k; ++i) { l.push_back(pointNear(g, r.m, 0.3)); }
  const double a1 = a0 + g.uniform(1, 5);
  l.push_back(c + V(std::cos(a1), std::sin(a1)) * (2 * D));
  size_t stretches = 0;
  bool was = false;
  for (size_t i = 1; i < l.size(); ++i) {
    discardIf(dist(l[i - 1], l[i]) < 0.1);
    for (size_t j = 1; j + 1 < i; ++j) {   // crosses or meets itself
      discardIf(segSeg(l[i - 1], l[i], l[j - 1], l[j]) < 1e3 * b);
    }
    if (i >= 2) {   // spikes
      const V u = l[i - 1] - l[i - 2], w = l[i] - l[i - 1];
      discardIf(dot(u, w) < 0 &&
          std::fabs(cross(u, w)) < 0.05 * norm(u) * norm(w));
    }
    discardIf(distBorder(l[i], r.m) < 1e3 * b);
    for (auto&& p : ln::pieces(l[i - 1], l[i], r.m, ln::eps(r.m))) {
      const double len = (p.s1 - p.s0) * dist(l[i - 1], l[i]);
      discardIf(p.where == 0 && len > 1e-9);
      if (len <= 1e-9) { continue; }
      discardIf(len < 1e3 * b);
      if (p.where > 0 && !was) { ++stretches; }
      was = p.where > 0;
    }
  }
  for (auto&& q : r.m[0].outer) { discardIf(ln::distTo(q, {l}) < 1e3 * b); }
  F2CMultiLineString lines;
  lines.addGeometry(toLine(l));
  g.note(lines.exportToWkt(), " cuts ", str(r.m));
  CHECK_EQ(r.c.splitByLine(toLine(l)).size(), 1 + stretches, "parts");
  const F2CCells got = r.c.splitByLine(lines);
  CHECK_EQ(got.size(), 1 + stretches, "parts");
  pa::checkPartition(g, r.m, fx::multi(got), {l}, b, 10);
  if (stretches > 0) { g.nontrivial(); }
}
void cuts(Gen& g) { cutsAt(g, false); }
// replay only: the known finding
void cutsFar(Gen& g) { cutsAt(g, true); }
// Straight cuts of a convex cell: the number of regions is known.
void count(Gen& g) {
  const In r = region(g, true);
  discardIf(r.far);
  const double b = band(r.m);
  std::vector<std::vector<V>> ls;
  size_t expect = 1;
  struct Chord { V a, d; double s0, s1; };
  std::vector<Chord> cs;
  for (size_t k = g.size(1, 4); k-- > 0;) {
    const auto l = through(r.m, pointNear(g, r.m, 0.1), g.angle(1));
    ls.push_back(l);
    bool in = false;
    for (auto&& p : ln::pieces(l[0], l[1], r.m, ln::eps(r.m))) {
      discardIf(p.where == 0 && (p.s1 - p.s0) * diam(r.m) > 1e-9);
      if (p.where > 0) {
        discardIf((p.s1 - p.s0) * dist(l[0], l[1]) < 1e3 * b || in);
        in = true;
        cs.push_back({l[0], l[1] - l[0], p.s0, p.s1});
      }
    }
    if (in) { ++expect; }
    for (auto&& q : r.m[0].outer) {
      discardIf(distSeg(q, l[0], l[1]) < 100 * b);
    }
  }
  std::vector<V> xs;
  for (size_t i = 0; i < cs.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      const double den = cross(cs[i].d, cs[j].d);
      const double nn = norm(cs[i].d) * norm(cs[j].d);
      if (std::fabs(den) < 1e-3 * nn) {   // (nearly) parallel: keep apart
        discardIf(segSeg(cs[i].a + cs[i].d * cs[i].s0,
              cs[i].a + cs[i].d * cs[i].s1, cs[j].a + cs[j].d * cs[j].s0,
              cs[j].a + cs[j].d * cs[j].s1) < 1e3 * b);
        continue;
      }
      const double s = cross(cs[j].a - cs[i].a, cs[j].d) / den;
      const V x = cs[i].a + cs[i].d * s;
      discardIf(distBorder(x, r.m) < 1e3 * b);
      if (inside(x, r.m)) {
        for (auto&& y : xs) { discardIf(dist(x, y) < 1e3 * b); }
        xs.push_back(x);
        ++expect;
      }
    }
  }
  F2CMultiLineString lines;
  for (auto&& l : ls) { lines.addGeometry(toLine(l)); }
  g.note(lines.exportToWkt(), " cuts ", str(r.m));
  const F2CCells got = r.c.splitByLine(lines);
  CHECK_EQ(got.size(), expect, "parts");
  pa::checkPartition(g, r.m, fx::multi(got), ls, b, 10);
  // line by line gives the same
  F2CCells seq = r.c;
  for (auto&& l : ls) { seq = seq.splitByLine(toLine(l)); }
  CHECK_EQ(seq.size(), expect, "parts, one line at a time");
  if (expect > 2) { g.nontrivial(); }
}
// The same far from the origin (UTM coordinates), one straight line.  The
// gap the library leaves is 1e-8, a few ulps there: a line that is cut twice
// is left to the facets above.
void projected(Gen& g) {
  In r = region(g, false);
  if (!r.far) {
    const V o(200000 + g.real(0, 600000), 1e6 * (double)g.integer(1, 9));
    r.m = mapMulti(r.m, [&] (V p) { return p + o; });
    r.c = fx::cells(r.m);
    r.m = fx::multi(r.c);
  }
  const auto l = through(r.m, pointNear(g, r.m, 0.1), g.angle(1));
  for (auto&& q : r.m) {
    for (auto&& p : q.outer) { discardIf(distSeg(p, l[0], l[1]) < 1e-3); }
    for (auto&& h : q.holes) {
      for (auto&& p : h) { discardIf(distSeg(p, l[0], l[1]) < 1e-3); }
    }
  }
  g.note(ln::str(l), " cuts ", str(r.m));
  const Multi parts = fx::multi(r.c.splitByLine(toLine(l)));
  pa::checkPartition(g, r.m, parts, {l}, band(r.m), 20);
  if (pa::checkCut(g, r.m, parts, l[0], l[1], band(r.m)) > 0 &&
      parts.size() > r.m.size()) { g.nontrivial(); }
}
// Lines that do not enter the cells leave them alone.
void apart(Gen& g) {
  const In r = region(g, false);
  const Box b = box(r.m);
  const double gap = 0.5 + g.real(0, 30);
  const double t = g.uniform(0, 1), u = g.uniform(0, 1);
  std::vector<V> l;
  if (g.boolean()) {
    l = {V(b.x0 - gap, b.y0 + t * (b.y1 - b.y0)),
         V(b.x0 - gap * 0.5, b.y0 + u * (b.y1 - b.y0))};
  } else {
    l = {V(b.x0 + t * (b.x1 - b.x0), b.y1 + gap),
         V(b.x0 + u * (b.x1 - b.x0), b.y1 + gap)};
  }
  discardIf(dist(l[0], l[1]) < 0.01);
  g.note(ln::str(l), " beside ", str(r.m));
  const F2CCells got = r.c.splitByLine(toLine(l));
  CHECK_EQ(got.size(), r.c.size());
  CHECK_NEAR(got.area(), r.c.area(), 1e-9 * (1 + r.c.area()));
  for (size_t i = 0; i < got.size(); ++i) {
    CHECK_EQ(got.getGeometry(i).size(), r.c.getGeometry(i).size(), "rings");
  }
  pa::checkPartition(g, r.m, fx::multi(got), {}, 1e-6, 10);
  const F2CCells none = r.c.splitByLine(F2CMultiLineString());
  CHECK_EQ(none.size(), r.c.size());
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C11",
    "fields of one to three cells with holes, up to four lines (through, "
    "partial, bent, through vertices, repeated); non-trivial: a cut went "
    "through and made more parts",
    {{"cuts", 5000, 50000, cuts},
     {"count", 5000, 50000, count},
     {"bent", 5000, 50000, bent},
     {"projected", 3000, 30000, projected},
     {"far_strict", 0, 0, cutsFar},
     {"apart", 3000, 30000, apart}}};
  return p;
}
