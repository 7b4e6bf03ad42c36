// C12 decompositions partition the field into simpler cells.
#include <memory>

#include "fields2cover/decomposition/boustrophedon_decomp.h"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "gens.hpp"
#include "parts.hpp"
using namespace pbt;
using namespace orc;
namespace {
typedef std::vector<std::vector<V>> Cuts;
const double kBand = 1e-6;

// Coordinates of the local frame (see C11 about projected ones).
Multi field(Gen& g, bool single) {
  ShapeOpt o;
  o.allow_offset = false;
  o.max_vertices = 9;
  o.max_holes = 5;
  Multi m;
  if (g.chance(1, 3)) {
    m = Multi{latticePoly(g, 1 + (int)g.below(9))};
  } else {
    m = genMulti(g, single ? 1 : 2, o);
  }
  if (g.chance(1, 5)) {    // narrow ones
    const double k = g.uniform(0.03, 0.3);
    m = mapMulti(m, [&] (V p) { return p * k; });
  }
  if (g.boolean()) {
    const V t(g.real(-300, 300), g.real(-300, 300));
    m = mapMulti(m, [&] (V p) { return p + t; });
  }
  return m;
}
std::vector<V> vertices(const Multi& m) {
  std::vector<V> o;
  for (auto&& q : m) {
    o.insert(o.end(), q.outer.begin(), q.outer.end());
    for (auto&& h : q.holes) { o.insert(o.end(), h.begin(), h.end()); }
  }
  return o;
}
// All lines that a decomposition at that angle may cut along.
Cuts vertexLines(const Multi& m, double a) {
  Cuts c;
  const V d = V(std::cos(a), std::sin(a)) * (2 * diam(m));
  for (auto&& p : vertices(m)) { c.push_back({p - d, p + d}); }
  return c;
}
// No two vertices (nearly) on one line along the angle.
bool generic(const Multi& m, double a, double tol) {
  std::vector<double> s;
  for (auto&& p : vertices(m)) { s.push_back(rot(p, -a).y); }
  std::sort(s.begin(), s.end());
  for (size_t i = 1; i < s.size(); ++i) {
    if (s[i] - s[i - 1] < tol) { return false; }
  }
  return true;
}
struct In {
  Multi m;
  F2CCells c;
  double a;
  bool trap;
  std::unique_ptr<f2c::decomp::TrapezoidalDecomp> d;
};
In input(Gen& g, bool single) {
  In r;
  r.c = fx::cells(field(g, single));
  r.m = fx::multi(r.c);
  r.trap = g.boolean();
  r.a = g.angle(1);
  if (g.chance(1, 4)) {   // along a side
    const Poly& q = g.pick(r.m);
    const Ring& o = q.holes.empty() || g.boolean() ? q.outer : q.holes[0];
    const size_t i = g.below(o.size());
    const V d = o[(i + 1) % o.size()] - o[i];
    r.a = std::atan2(d.y, d.x);
    g.label("along a side");
  }
  if (r.trap) { r.d.reset(new f2c::decomp::TrapezoidalDecomp()); }
  else { r.d.reset(new f2c::decomp::BoustrophedonDecomp()); }
  if (r.a == 0 && g.boolean()) {
    CHECK_EQ(r.d->getSplitAngle(), 0.0, "default angle");
  } else {
    r.d->setSplitAngle(r.a);
    CHECK_EQ(r.d->getSplitAngle(), r.a);
  }
  g.note(r.trap ? "trapezoidal" : "boustrophedon", " at ", r.a, " of ",
      str(r.m));
  return r;
}
void partition(Gen& g) {
  In r = input(g, false);
  const gn::Snap s = gn::snapOf(r.c);
  const F2CCells got = r.d->decompose(r.c);
  std::string why;
  CHECK(gn::same(s, gn::snapOf(r.c), 0, &why), " the field changed: ", why);
  const Multi parts = fx::multi(got);
  CHECK_EQ(got.size(), parts.size());
  const Cuts cs = vertexLines(r.m, r.a);
  pa::checkPartition(g, r.m, parts, cs, kBand, 40);
  // sides of the parts: of the field, or along the angle through a vertex
  const V u(std::cos(r.a), std::sin(r.a));
  for (auto&& q : parts) {
    CHECK(q.outer.size() >= 3, " part without area");
    auto side = [&] (const V& a, const V& b) {
      const V mid = (a + b) * 0.5;
      if (dist(a, b) < 1e-4) { return; }
      CHECK(inside(mid, r.m) || distBorder(mid, r.m) < kBand,
          " part out of the field at ", mid.x, " ", mid.y);
      if (distBorder(mid, r.m) > kBand) {
        CHECK(std::fabs(cross(b - a, u)) < 1e-4 * dist(a, b) + kBand &&
            pa::distLine(mid, cs) < kBand,
            " cut that is not along the angle from a vertex: ", a.x, " ", a.y,
            " - ", b.x, " ", b.y);
      }
    };
    for (size_t i = 0; i < q.outer.size(); ++i) {
      side(q.outer[i], q.outer[(i + 1) % q.outer.size()]);
    }
    for (auto&& h : q.holes) {
      for (size_t i = 0; i < h.size(); ++i) { side(h[i], h[(i + 1) % h.size()]); }
    }
  }
  // the steps compose, and merging keeps the partition
  f2c::obj::DecompObjective obj;
  const F2CCells sp = r.d->split(r.c, obj);
  const Multi ps = fx::multi(sp), pm = fx::multi(r.d->merge(sp, obj));
  CHECK_NEAR(area(ps), area(parts), 1e-6 * (1 + area(r.m)));
  pa::checkPartition(g, r.m, pm, cs, kBand, 10);
  CHECK(pm.size() <= ps.size(), " merging made more cells");
  if (parts.size() > r.m.size()) { g.nontrivial(); }
  g.label(r.trap ? "trapezoidal" : "boustrophedon");
}
// Shape of the pieces, for angles with no side along them.
void shape(Gen& g) {
  In r = input(g, false);
  discardIf(!generic(r.m, r.a, 1e-3));
  const Multi parts = fx::multi(r.d->decompose(r.c));
  size_t convex_in = 0;
  for (auto&& q : r.m) {
    double mg = 0;
    if (q.holes.empty() && convex(q.outer, &mg)) { ++convex_in; }
  }
  for (auto&& q : parts) {
    CHECK(q.holes.empty(), " a part has a hole");
    const double A = area(q), tol = 1e-5 * (1 + perimeter(q.outer));
    if (r.trap) {
      CHECK(area(hull(q.outer)) - A < tol, " a part is not convex: ", str(q));
      // a trapezoid: at most two sides that are not along the angle
      const V u(std::cos(r.a), std::sin(r.a));
      std::vector<double> dirs;
      for (size_t i = 0; i < q.outer.size(); ++i) {
        const V a = q.outer[i], b = q.outer[(i + 1) % q.outer.size()];
        const double l = dist(a, b);
        if (l < 0.05 || std::fabs(cross(b - a, u)) < 1e-3 * l) { continue; }
        const double t = std::atan2(b.y - a.y, b.x - a.x);
        bool seen = false;
        for (double o : dirs) { seen |= angDiff(o, t) < 1e-4; }
        if (!seen) { dirs.push_back(t); }
      }
      CHECK(dirs.size() <= 2, " a part has ", dirs.size(), " slanted sides: ",
          str(q));
    }
    // one pass per track: a line along the angle crosses it only once
    const Ring z = mapRing(q.outer, [&] (V p) { return rot(p, -r.a); });
    const Multi zm{Poly{z, {}}};
    const Box b = box(zm);
    for (int k = 0; k < 8; ++k) {
      const Chords ch = chords(zm, g.uniform(b.y0, b.y1));
      if (ch.clear < 1e-4) { continue; }
      size_t n = 0;
      for (auto&& s : ch.segs) { if (s.second - s.first > 1e-4) { ++n; } }
      CHECK(n <= 1, " a track crosses a part ", n, " times: ", str(q));
    }
  }
  if (!r.trap && r.m.size() == 1 && convex_in == 1) {
    CHECK_EQ(parts.size(), 1u, "parts of a convex field");
    g.label("convex field");
  }
  if (parts.size() > r.m.size()) { g.nontrivial(); }
}
// Field and angle turned together.
void covariance(Gen& g) {
  In r = input(g, false);
  discardIf(!generic(r.m, r.a, 1e-3));
  const double t = g.angle(1);
  const V o(g.real(-100, 100), g.real(-100, 100));
  const Multi m2 = mapMulti(r.m, [&] (V p) { return rot(p, t) + o; });
  const F2CCells c2 = fx::cells(m2);
  Multi p1 = fx::multi(r.d->decompose(r.c));
  r.d->setSplitAngle(r.a + t);
  Multi p2 = fx::multi(r.d->decompose(c2));
  g.note("turned ", t, " moved ", o.x, " ", o.y);
  auto areas = [] (const Multi& m) {
    std::vector<double> a;
    for (auto&& q : m) { const double x = area(q);
      if (x > 1e-3) { a.push_back(x); } }
    std::sort(a.begin(), a.end());
    return a;
  };
  const auto a1 = areas(p1), a2 = areas(p2);
  CHECK_EQ(a1.size(), a2.size(), "parts");
  for (size_t i = 0; i < a1.size(); ++i) {
    CHECK_NEAR(a1[i], a2[i], 1e-5 * (1 + diam(r.m)));
  }
  // points that share a part still do
  for (int k = 0; k < 10; ++k) {
    const V p = pointNear(g, r.m, 0), q = pointNear(g, r.m, 0);
    int i1 = -1, j1 = -1, i2 = -1, j2 = -1;
    auto find = [&] (const Multi& m, const V& v, int* i) {
      for (size_t n = 0; n < m.size(); ++n) {
        if (inside(v, m[n])) { *i = (int)n; }
        if (distBorder(v, m[n]) < 1e-4) { return false; }
      }
      return true;
    };
    if (!find(p1, p, &i1) || !find(p1, q, &j1) ||
        !find(p2, rot(p, t) + o, &i2) || !find(p2, rot(q, t) + o, &j2)) {
      continue;
    }
    CHECK_EQ(i1 == j1, i2 == j2, "points share a part");
    CHECK_EQ(i1 < 0, i2 < 0, "point in the field");
  }
  // half a turn is the same direction
  r.d->setSplitAngle(r.a + M_PI);
  const auto a3 = areas(fx::multi(r.d->decompose(r.c)));
  CHECK_EQ(a1.size(), a3.size(), "parts after half a turn of the angle");
  for (size_t i = 0; i < a1.size(); ++i) {
    CHECK_NEAR(a1[i], a3[i], 1e-5 * (1 + diam(r.m)));
  }
  if (a1.size() > r.m.size()) { g.nontrivial(); }
}
// The pieces do not depend on where the outline of a field starts or on the
// way round it is written.
void rewritten(Gen& g) {
  In r = input(g, false);
  auto turn = [&] (const Ring& o) {
    Ring q = o;
    std::rotate(q.begin(), q.begin() + g.below(q.size()), q.end());
    if (g.boolean()) { std::reverse(q.begin(), q.end()); }
    return q;
  };
  Multi m2;
  for (auto&& q : r.m) {
    Poly p{turn(q.outer), {}};
    for (auto&& h : q.holes) { p.holes.push_back(turn(h)); }
    m2.push_back(p);
  }
  g.note("rewritten as ", str(m2));
  auto areas = [] (const Multi& m) {
    std::vector<double> a;
    for (auto&& q : m) { const double x = area(q);
      if (x > 1e-3) { a.push_back(x); } }
    std::sort(a.begin(), a.end());
    return a;
  };
  const auto a1 = areas(fx::multi(r.d->decompose(r.c)));
  const auto a2 = areas(fx::multi(r.d->decompose(fx::cells(m2))));
  CHECK_EQ(a1.size(), a2.size(), "parts");
  for (size_t i = 0; i < a1.size(); ++i) {
    CHECK_NEAR(a1[i], a2[i], 1e-5 * (1 + diam(r.m)));
  }
  if (a1.size() > r.m.size()) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C12",
    "fields of one or two cells (star, comb, lattice, holes) at random angles, "
    "grid angles and along sides, both decompositions; non-trivial: the field "
    "was cut",
    {{"partition", 1500, 20000, partition},
     {"shape", 2000, 25000, shape},
     {"covariance", 1200, 15000, covariance},
     {"rewritten", 1000, 12000, rewritten}}};
  return p;
}
