// C09 headlands keep the requested distance from every border.
#include "buf.hpp"
#include "fields2cover/headland_generator/constant_headland.h"
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {
Multi opt(Gen& g, size_t n) {
  if (g.chance(1, 4)) { return Multi{latticePoly(g, 1 + (int)g.below(8))}; }
  return genMany(g, n);
}
// A probe point in the frame, or aimed at the line offset by d.
V aim(Gen& g, const Multi& m, double d) {
  if (g.boolean()) { return pointNear(g, m, 0.05); }
  const Poly& q = g.pick(m);
  const Ring& r = q.holes.empty() || g.boolean() ? q.outer : q.holes[0];
  const size_t i = g.below(r.size());
  const V a = r[i], b = r[(i + 1) % r.size()];
  const V t = (b - a) * (1 / dist(a, b));
  const double off = d * g.pick(std::vector<double>{0.5, 0.9, 0.96, 1.08, 1.15});
  return a + (b - a) * g.uniform(-0.1, 1.1) +
    V(-t.y, t.x) * (off * (g.boolean() ? 1 : -1));
}
void probe(Gen& g, const Multi& m, double w, const Multi& r, size_t n) {
  size_t in = 0, out = 0;
  for (size_t k = 0; k < n; ++k) {
    const V p = aim(g, m, w);
    const int e = buf::expected(p, m, -w);
    const bool got = inside(p, r);
    if (distBorder(p, r) < 1e-6) { continue; }
    if (e > 0) {
      ++in;
      CHECK(got, " headland ", w, " takes ", p.x, " ", p.y, " which is ",
          distBorder(p, m), " away from the border of ", str(m));
    } else if (e < 0) {
      ++out;
      CHECK(!got, " mainland for headland ", w, " has ", p.x, " ", p.y,
          " which is ", inside(p, m) ? distBorder(p, m) : -1.0,
          " away from the border of ", str(m));
    }
  }
  // every vertex of the mainland keeps the distance
  const double eps = buf::kSlack * w + 1e-7 * (1 + diam(m)) +
    1e-12 * std::fabs(m[0].outer[0].y);
  for (auto&& q : r) {
    for (auto&& v : q.outer) {
      CHECK(inside(v, m), " mainland vertex outside of the field");
      CHECK(distBorder(v, m) >= w - eps, " mainland vertex at ",
          distBorder(v, m), " instead of ", w);
    }
    for (auto&& h : q.holes) {
      for (auto&& v : h) { CHECK(distBorder(v, m) >= w - eps); }
    }
  }
  if (in > 0 && out > 0) { g.nontrivial(); }
  if (r.empty()) { g.label("nothing left"); }
}
void checkMainland(Gen& g, const Multi& m, double w, const F2CCells& res,
    size_t n) {
  const Multi exact = fx::multi(fx::cells(m));   // as the library stores it
  buf::judge(g, exact, -w, fx::multi(res), [&](Gen& h, const Multi& r) {
    probe(h, exact, w, r, n); });
}
double width(Gen& g, const Multi& m) {
  const double D = diam(m);
  return g.boolean() ? g.grid(0.5, std::max(1.0, D * 0.25), 0.5)
                     : g.uniform(0.01, 0.25) * D;
}
void mainland(Gen& g) {
  const Multi m = opt(g, 3);
  const double w = width(g, m);
  g.note("headland ", w, " of ", str(m));
  const F2CCells f = fx::cells(m);
  const gn::Snap s = gn::snapOf(f);
  f2c::hg::ConstHL hl;
  buf::guard(g, fx::multi(f), {-w}, [&] {
  checkMainland(g, m, w, hl.generateHeadlands(f, w), 40);
  std::string why;
  CHECK(gn::same(s, gn::snapOf(f), 0, &why), " field changed: ", why);
  // the whole is the sum of its cells
  if (m.size() > 1) {
    const Multi one{g.pick(m)};
    checkMainland(g, one, w, hl.generateHeadlands(fx::cells(one), w), 20);
  }
  });
}
void swathArea(Gen& g) {
  const Multi m = opt(g, 2);
  const int n = static_cast<int>(g.integer(0, 4));
  const double w = width(g, m) / std::max(1, n);
  g.note("area of ", n, " headland swaths of ", w, " in ", str(m));
  const F2CCells f = fx::cells(m);
  f2c::hg::ConstHL hl;
  const F2CCells a = hl.generateHeadlandArea(f, w, n);
  if (n == 0) {
    CHECK_NEAR(a.area(), f.area(), 1e-7 * f.area());
    return;
  }
  buf::guard(g, fx::multi(f), {-w * n}, [&] {
  checkMainland(g, m, w * n, a, 25);
  CHECK_NEAR(a.area(), hl.generateHeadlands(f, w * n).area(),
      1e-7 * (1 + f.area()));
  });
}
// Every side of m still has its image, off further in, among the sides of p.
bool keepsSides(const Multi& m, const Multi& p, double off, double w) {
  const double eps = 1e-6 * (1 + diam(m)) + 1e-9 * std::fabs(m[0].outer[0].y);
  auto each = [](const Multi& x, const std::function<bool(V, V)>& f) {
    for (auto&& q : x) {
      for (size_t h = 0; h <= q.holes.size(); ++h) {
        const Ring& r = h ? q.holes[h - 1] : q.outer;
        for (size_t i = 0; i < r.size(); ++i) {
          if (!f(r[i], r[(i + 1) % r.size()])) { return false; }
        }
      }
    }
    return true;
  };
  return each(m, [&](V a, V b) {
    const V t = (b - a) * (1 / dist(a, b));
    return !each(p, [&](V c, V d) {
      const double x = cross(t, c - a), y = cross(t, d - a);
      const double from = std::min(dot(c - a, t), dot(d - a, t));
      const double to = std::max(dot(c - a, t), dot(d - a, t));
      return !(std::fabs(x - y) < eps &&
          std::fabs(std::fabs(x) - off) < eps && to - from > 2.5 * w &&
          from < dist(a, b) && to > 0);
    });
  });
}
// Convex cells that keep all their sides: growing them again is exact.
bool rounded(const Multi& m, const Multi& p, double off, double w) {
  for (auto&& q : m) {
    double margin;
    if (!q.holes.empty() || !convex(q.outer, &margin)) { return false; }
  }
  return keepsSides(m, p, off, w);
}
void ringsOf(Gen& g, bool strict) {
  const Multi m = opt(g, 2);
  const int n = static_cast<int>(g.integer(0, 4));
  const double w = width(g, m) / std::max(1, n);
  const bool out2in = g.boolean();
  g.note(n, " headland swaths of ", w, out2in ? " outwards in" :
      " from the inside", " of ", str(m));
  const F2CCells f = fx::cells(m);
  const gn::Snap s = gn::snapOf(f);
  f2c::hg::ConstHL hl;
  const std::vector<F2CCells> r = g.boolean() && out2in ?
    hl.generateHeadlandSwaths(f, w, n) :
    hl.generateHeadlandSwaths(f, w, n, out2in);
  std::string why;
  CHECK(gn::same(s, gn::snapOf(f), 0, &why), " field changed: ", why);
  CHECK_EQ(r.size(), static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) {
    const double d = (out2in ? i + 0.5 : n - i - 0.5) * w;
    const F2CCells& ri = r[static_cast<size_t>(i)];
    if (out2in || i == 0) {
      buf::guard(g, fx::multi(f), {-d}, [&] { checkMainland(g, m, d, ri, 12); });
      continue;
    }
    // one width around the previous ring
    const Multi prev = fx::multi(r[static_cast<size_t>(i) - 1]);
    const Multi cur = fx::multi(ri);
    if (prev.empty()) { CHECK(cur.empty()); continue; }
    buf::guard(g, prev, {w}, [&] {
      buf::judge(g, prev, w, cur, [&](Gen& h, const Multi& c) {
        for (int k = 0; k < 12; ++k) {
          const V p = h.boolean() ? aim(h, m, d) : aim(h, prev, w);
          if (distBorder(p, c) < 1e-6) { continue; }
          const int b = buf::expected(p, prev, w);
          if (b < 0) { CHECK(!inside(p, c), " ring ", i); }
          if (b > 0) { CHECK(inside(p, c), " ring ", i); }
        }
      });
    });
    // no closer to the border than asked for (corners that the innermost
    // ring has lost come back with the wrong shape: known finding, unless
    // the case asks for it)
    if (!strict && !rounded(m, fx::multi(r[0]), (n - 0.5) * w, w)) {
      g.label("corners lost");
      continue;
    }
    const double eps = 2 * buf::kSlack * n * w + 1e-7 * (1 + diam(m)) +
      1e-12 * std::fabs(m[0].outer[0].y);
    for (auto&& q : cur) {
      for (auto&& v : q.outer) {
        CHECK(inside(v, m) && distBorder(v, m) >= d - eps, " ring ", i,
            " has a vertex at ", inside(v, m) ? distBorder(v, m) :
            -distBorder(v, m), " instead of ", d);
      }
    }
  }
  if (n == 0) { g.label("no swaths"); }
}
void rings(Gen& g) { ringsOf(g, false); }
void ringsStrict(Gen& g) { ringsOf(g, true); }
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C09",
    "fields of up to three cells with holes, headlands up to a quarter of the "
    "diameter, 0 to 4 headland swaths both ways; non-trivial: probe points "
    "were decided both inside and outside of the mainland",
    {{"mainland", 6000, 60000, mainland},
     {"area", 4000, 40000, swathArea},
     {"rings", 5000, 50000, rings},
     // only run by the replay of the known finding
     {"rings_strict", 0, 0, ringsStrict}}};
  return p;
}
