// C15 swath objectives measure what they name.
#include <ogr_api.h>
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "gens.hpp"
#include "slab.hpp"
using namespace pbt;
using namespace orc;
namespace {
struct S { V a, b; double w; };
struct In { Multi m; F2CCells c; std::vector<S> s; F2CSwaths f; };
F2CSwaths swathsOf(const std::vector<S>& v) {
  F2CSwaths o;
  for (size_t i = 0; i < v.size(); ++i) {
    o.emplace_back(F2CLineString(fx::pt(v[i].a), fx::pt(v[i].b)), v[i].w,
        (int)i);
  }
  return o;
}
In input(Gen& g, size_t lo) {
  In r;
  ShapeOpt o;
  o.max_vertices = 7;
  o.max_holes = 5;
  r.c = fx::cells(g.chance(1, 3) ? Multi{latticePoly(g, 1 + (int)g.below(6))} :
    genMulti(g, 2, o));
  r.m = fx::multi(r.c);
  const double D = diam(r.m), w0 = D * g.uniform(0.01, 0.3);
  const size_t n = g.size(lo, 6);
  const bool parallel = g.boolean();
  const double a0 = g.angle(1);
  for (size_t i = 0; i < n; ++i) {
    if (!r.s.empty() && g.chance(1, 5)) {
      r.s.push_back(g.pick(r.s));
      g.label("repeated swath");
      continue;
    }
    const V p = pointNear(g, r.m, 0.1);
    const V q = parallel ? p + V(std::cos(a0), std::sin(a0)) *
      (D * g.uniform(0.05, 0.9)) : pointNear(g, r.m, 0.1);
    if (dist(p, q) < 0.05) { continue; }
    r.s.push_back({p, q, w0});
    if (g.chance(1, 6)) { r.s.back().w = w0 * g.uniform(0.3, 2);
      g.label("different widths"); }
    if (g.chance(1, 8)) {
      r.s.back().a = r.s.back().a + V(5 * D, 0);
      r.s.back().b = r.s.back().b + V(5 * D, 0);
      g.label("swath out of the field");
    }
  }
  r.f = swathsOf(r.s);
  std::string t;
  for (auto&& s : r.s) {
    std::ostringstream k;
    k.precision(17);
    k << s.a.x << " " << s.a.y << ", " << s.b.x << " " << s.b.y << " width "
      << s.w << "; ";
    t += k.str();
  }
  g.note("field ", str(r.m), " swaths ", t);
  return r;
}
std::vector<Multi> shapes(const In& r) {
  std::vector<Multi> o{r.m};
  for (auto&& s : r.s) { o.push_back(slab::strip(s.a, s.b, s.w)); }
  return o;
}
double tolOf(const In& r) {
  double k = 1;
  for (auto&& v : r.m[0].outer) {
    k = std::max(k, std::max(std::fabs(v.x), std::fabs(v.y)));
  }
  return (1e-7 + 1e-11 * k) * (1 + diam(r.m)) * (2 + r.s.size()) *
    (2 + r.s.size()) / area(r.m);
}
void signs(f2c::obj::SGObjective& o, bool minimizing, const In& r) {
  CHECK_EQ(o.isMinimizing(), minimizing, "minimizing");
  CHECK_EQ(o.isMaximizing(), !minimizing, "maximizing");
  const double k = minimizing ? 1 : -1;
  CHECK_EQ(o.computeCostWithMinimizingSign(r.c, r.f),
      k * o.computeCost(r.c, r.f), "sign");
  CHECK_EQ(o.computeCostWithMinimizingSign(r.f), k * o.computeCost(r.f));
  const F2CCell c0 = r.c.getGeometry(0);
  CHECK_EQ(o.computeCostWithMinimizingSign(0.3, 1.7, c0),
      k * o.computeCost(0.3, 1.7, c0));
}
template <class F> void anyOrder(Gen& g, const In& r, double tol, F&& f) {
  In q = r;
  for (size_t i = q.s.size(); i > 1; --i) {
    std::swap(q.s[i - 1], q.s[g.below(i)]);
  }
  for (auto&& s : q.s) { if (g.boolean()) { std::swap(s.a, s.b); } }
  q.f = swathsOf(q.s);
  CHECK_NEAR(f(q), f(r), tol, "another order or direction of the swaths");
}
// GEOS now and then loses (part of) the region that two polygons share, when
// sides of both run along each other up to rounding.  Only its own answers, on
// strips that are right, are asked here; see DESIGN.md and known_findings.json.
double rawArea(OGRGeometry* o) {
  double a = 0;
  if (o) {
    a = OGR_G_Area(OGRGeometry::ToHandle(o));
    OGRGeometryFactory::destroyGeometry(o);
  }
  return a;
}
bool rightStrips(const In& q) {
  for (size_t i = 0; i < q.s.size(); ++i) {
    const double a = dist(q.s[i].a, q.s[i].b) * q.s[i].w;
    if (!(std::fabs(q.f[i].areaCovered().area() - a) <= 1e-9 * (1 + a))) { return false; }
  }
  return true;
}
bool engineOffPairs(const In& q, double tol) {
  if (!rightStrips(q)) { return false; }
  const auto all = shapes(q);
  for (size_t i = 0; i < q.s.size(); ++i) {
    const F2CCells a = q.f[i].areaCovered();
    OGRGeometry* ai = q.c.get()->Intersection(a.get());
    for (size_t j = 0; j < q.s.size(); ++j) {
      const F2CCells b = q.f[j].areaCovered();
      OGRGeometry* bj = q.c.get()->Intersection(b.get());
      const double want = slab::integrate({all[0], all[i + 1], all[j + 1]},
          [] (const std::vector<slab::Ivs>& v) {
            return slab::length(slab::meet(v[0], slab::meet(v[1], v[2]))); });
      const double got = ai && bj ? rawArea(ai->Intersection(bj)) : 0;
      if (bj) { OGRGeometryFactory::destroyGeometry(bj); }
      if (std::fabs(got - want) > tol * area(q.m) / (1 + q.s.size() * q.s.size())) {
        if (ai) { OGRGeometryFactory::destroyGeometry(ai); }
        return true;
      }
    }
    if (ai) { OGRGeometryFactory::destroyGeometry(ai); }
  }
  return false;
}
void coverage(Gen& g) {
  const In r = input(g, 1);
  discardIf(r.s.empty());
  f2c::obj::FieldCoverage o;
  signs(o, false, r);
  CHECK(!o.isFastCompAvailable());
  const double covered = slab::integrate(shapes(r),
    [] (const std::vector<slab::Ivs>& v) {
      return slab::length(slab::meet(v[0],
          slab::unite(std::vector<slab::Ivs>(v.begin() + 1, v.end())))); });
  const double tol = tolOf(r);
  CHECK_NEAR(o.computeCost(r.c, r.f), covered / area(r.m), tol, "covered");
  if (r.m.size() == 1) {
    CHECK_NEAR(o.computeCost(r.c.getGeometry(0), r.f), covered / area(r.m),
        tol, "covered, as a cell");
  }
  anyOrder(g, r, tol, [&] (const In& q) { return o.computeCost(q.c, q.f); });
  if (covered > 0.01 * area(r.m) && covered < 0.99 * area(r.m) &&
      r.s.size() > 1) { g.nontrivial(); }
}
void overlapsOf(Gen& g, bool strict) {
  const In r = input(g, 1);
  f2c::obj::Overlaps o;
  signs(o, true, r);
  CHECK(!o.isFastCompAvailable());
  const double shared = slab::integrate(shapes(r),
    [] (const std::vector<slab::Ivs>& v) {
      double s = 0;
      for (size_t i = 1; i < v.size(); ++i) {
        for (size_t j = 1; j < i; ++j) {
          s += slab::length(slab::meet(v[0], slab::meet(v[i], v[j])));
        }
      }
      return s; });
  const double tol = tolOf(r);
  auto off = [&] (const In& q) {
    return !strict && std::fabs(o.computeCost(q.c, q.f) - shared / area(r.m)) > tol &&
        engineOffPairs(q, tol);
  };
  if (off(r)) { g.label("engine lost a shared region"); return; }
  CHECK_NEAR(o.computeCost(r.c, r.f), shared / area(r.m), tol, "overlap");
  if (r.m.size() == 1) {
    CHECK_NEAR(o.computeCost(r.c.getGeometry(0), r.f), shared / area(r.m), tol,
        "overlap, as a cell");
  }
  bool lost = false;
  anyOrder(g, r, tol, [&] (const In& q) {
    if (off(q)) { lost = true; return shared / area(r.m); }
    return o.computeCost(q.c, q.f);
  });
  if (lost) { g.label("engine lost a shared region"); return; }
  if (shared > 0 && r.s.size() > 2) { g.nontrivial(); }
}
void overlaps(Gen& g) { overlapsOf(g, false); }
void overlapsStrict(Gen& g) { overlapsOf(g, true); }
void sums(Gen& g) {
  const In r = input(g, 0);
  f2c::obj::NSwath n;
  f2c::obj::SwathLength l;
  signs(n, true, r);
  signs(l, true, r);
  double len = 0;
  for (auto&& s : r.s) { len += dist(s.a, s.b); }
  const double tol = 1e-9 * (1 + len + std::fabs(r.m[0].outer[0].y));
  CHECK_EQ(n.computeCost(r.f), (double)r.s.size(), "number of swaths");
  CHECK_NEAR(l.computeCost(r.f), len, tol, "length of the swaths");
  CHECK_EQ(n.computeCost(r.c, r.f), (double)r.s.size());
  CHECK_NEAR(l.computeCost(r.c, r.f), len, tol);
  const F2CCell c0 = r.c.getGeometry(0);
  CHECK_EQ(n.computeCost(c0, r.f), (double)r.s.size());
  CHECK_NEAR(l.computeCost(c0, r.f), len, tol);
  F2CSwathsByCells by;
  double len2 = 0;
  size_t cnt = 0;
  for (size_t k = g.size(0, 3); k-- > 0;) {
    std::vector<S> sub;
    for (auto&& s : r.s) { if (g.boolean()) { sub.push_back(s);
      len2 += dist(s.a, s.b); ++cnt; } }
    by.emplace_back(swathsOf(sub));
  }
  CHECK_EQ(n.computeCost(by), (double)cnt, "number of swaths of all cells");
  CHECK_EQ(n.computeCost(r.c, by), (double)cnt);
  CHECK_EQ(n.computeCost(c0, by), (double)cnt);
  CHECK_NEAR(l.computeCost(by), len2, tol * 3, "length of all cells");
  CHECK_NEAR(l.computeCost(r.c, by), len2, tol * 3);
  CHECK_NEAR(l.computeCost(c0, by), len2, tol * 3);
  if (!r.s.empty()) {
    CHECK_EQ(n.computeCost(r.f[0]), 1.0);
    CHECK_NEAR(l.computeCost(r.f[0]), dist(r.s[0].a, r.s[0].b), tol);
    CHECK_EQ(n.computeCost(r.c, r.f[0]), 1.0);
    CHECK_NEAR(l.computeCost(c0, r.f[0]), dist(r.s[0].a, r.s[0].b), tol);
  }
  // bent swaths too
  const F2CSwath b = gn::swath(g);
  const double bl = fx::lineLength(fx::line(b.getPath()));
  CHECK_NEAR(l.computeCost(b), bl, 1e-9 * (1 + bl));
  if (r.s.size() > 1) { g.nontrivial(); }
}
void modified(Gen& g) {
  In r;
  ShapeOpt o;
  o.max_vertices = 12;
  o.max_holes = 9;
  r.c = fx::cells(g.chance(1, 3) ? Multi{latticePoly(g, 1 + (int)g.below(6))} :
    genMulti(g, 2, o));
  r.m = fx::multi(r.c);
  const double a = g.angle(2), w = g.real(0.1, 20);
  g.note("angle ", a, " width ", w, " field ", str(r.m));
  f2c::obj::NSwathModified n;
  CHECK(n.isFastCompAvailable());
  signs(n, true, r);
  for (size_t i = 0; i < r.m.size(); ++i) {
    LD across = 0;
    auto add = [&] (const Ring& q) {
      for (size_t k = 0; k < q.size(); ++k) {
        across += std::fabs(rot(q[(k + 1) % q.size()] - q[k], -a).y);
      }
    };
    add(r.m[i].outer);
    for (auto&& h : r.m[i].holes) { add(h); }
    const double want = (double)across / (2 * w);
    const F2CCell c = r.c.getGeometry(i);
    CHECK_NEAR(n.computeCost(a, w, c), want, 1e-8 * (1 + want), "cell ", i);
    CHECK_NEAR(n.computeCost(a + M_PI, w, c), want, 1e-8 * (1 + want));
    CHECK_EQ(n.computeCost(a, 0.0, c), 0.0, "no width");
    CHECK_EQ(n.computeCost(a, -w, c), 0.0, "negative width");
    if (r.m[i].holes.size() + r.m[i].outer.size() > 4) { g.nontrivial(); }
  }
  CHECK_EQ(n.computeCost(a, w, F2CCell()), 0.0, "empty cell");
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C15",
    "fields of one or two cells, none to six swaths (parallel or not, "
    "repeated, outside, of different widths); non-trivial: partial coverage "
    "by two swaths or more, overlap among three or more, several swaths, or a "
    "polygon of more than four sides",
    {{"coverage", 2500, 25000, coverage},
     {"overlaps", 2500, 25000, overlaps},
     // only run by the replay of the known finding
     {"overlaps_strict", 0, 0, overlapsStrict},
     {"sums", 3000, 30000, sums},
     {"modified", 4000, 40000, modified}}};
  return p;
}
