// C08 buffers grow and shrink by the requested distance.
#include "buf.hpp"
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {
Multi opt(Gen& g, size_t n) {
  if (g.chance(1, 3)) { return Multi{latticePoly(g, 1 + (int)g.below(8))}; }
  return genMulti(g, n > 2 ? 6 : n, sieve());
}
double width(Gen& g, const Multi& m, bool neg) {
  const double D = diam(m);
  const double w = g.boolean() ? g.grid(0.5, std::max(1.0, D * 0.3), 0.5)
                               : g.uniform(0.01, 0.3) * D;
  return neg ? -w : w;
}
// points in a frame around m, and points aimed at the offset curve
void probeOf(Gen& g, const Multi& m, double d, const Multi& res, size_t n) {
  const double D = diam(m);
  const double pad = std::min(1.0, 0.1 + 2 * std::fabs(d) / D);
  size_t sure_in = 0, sure_out = 0;
  for (size_t k = 0; k < n; ++k) {
    V p;
    if (k % 2 == 0) {
      p = pointNear(g, m, pad);
    } else {   // near the offset line of some side
      const Poly& q = g.pick(m);
      const Ring& r = q.holes.empty() || g.boolean() ? q.outer : q.holes[0];
      const size_t i = g.below(r.size());
      const V a = r[i], b = r[(i + 1) % r.size()];
      const V t = (b - a) * (1 / dist(a, b));
      const double off = d * g.pick(std::vector<double>{0.9, 0.96, 1.04, 1.1, 1.15});
      const double s = g.boolean() ? 1 : -1;
      p = a + (b - a) * g.uniform(0, 1) + V(-t.y, t.x) * (off * s);
    }
    const int e = buf::expected(p, m, d);
    if (e > 0) {
      ++sure_in;
      CHECK(inside(p, res) || distBorder(p, res) < 1e-6, " buffer ", d,
          " misses ", p.x, " ", p.y, " at ", distBorder(p, m), " of ", str(m));
    } else if (e < 0) {
      ++sure_out;
      CHECK(!inside(p, res) || distBorder(p, res) < 1e-6, " buffer ", d,
          " covers ", p.x, " ", p.y, " at ", distBorder(p, m), " of ", str(m));
    }
  }
  if (sure_in > 2 && sure_out > 2) { g.nontrivial(); }
}
void probe(Gen& g, const Multi& m, double d, const Multi& res, size_t n) {
  const Multi exact = fx::multi(fx::cells(m));   // as the library stores it
  buf::judge(g, exact, d, res, [&](Gen& h, const Multi& r) {
    probeOf(h, exact, d, r, n); });
}
void cellBuffer(Gen& g) {
  const bool neg = g.boolean();
  const Multi m{opt(g, 1)[0]};
  const double w = width(g, m, neg);
  g.note("buffer ", w, " of ", str(m));
  const F2CCell c = fx::cell(m[0]);
  const gn::Snap s = gn::snapOf(c);
  std::string why;
  buf::guard(g, fx::multi(c), {w}, [&] {
  const F2CCells b2 = F2CCells::buffer(c, w);
  const Multi r2 = fx::multi(b2);
  probe(g, m, w, r2, 30);
  if (r2.size() <= 1) {
    const F2CCell b = F2CCell::buffer(c, w);
    CHECK_NEAR(b.area(), b2.area(), 1e-9 * (1 + b2.area()));
    probe(g, m, w, fx::multi(b), 10);
  } else {     // several parts do not fit in one cell
    CHECK_THROWS(F2CCell::buffer(c, w));
    g.label("falls apart");
  }
  if (r2.empty()) { g.label("vanishes"); }
  });
  CHECK(gn::same(s, gn::snapOf(c), 0, &why), " argument changed: ", why);
}
void cellsBuffer(Gen& g) {
  const bool neg = g.boolean();
  const Multi m = opt(g, 3);
  const double w = width(g, m, neg), k = g.uniform(1.1, 2);
  g.note("buffer ", w, " of ", str(m));
  const F2CCells c = fx::cells(m);
  const gn::Snap s = gn::snapOf(c);
  std::string why;
  buf::guard(g, fx::multi(c), {w, w * k}, [&] {
  const F2CCells b = c.buffer(w);
  probe(g, m, w, fx::multi(b), 30);
  const F2CCells b2 = F2CCells::buffer(c, w);
  CHECK_NEAR(b.area(), b2.area(), 1e-9 * (1 + b.area()));
  const F2CCells more = c.buffer(w * k);
  const double A = c.area(), t = 1e-7 * (1 + b.area() + A);
  if (neg) {
    CHECK(b.area() <= A + t && more.area() <= b.area() + t, " area not "
        "monotone: ", A, " ", b.area(), " ", more.area());
  } else {
    CHECK(b.area() >= A - t && more.area() >= b.area() - t, " area not "
        "monotone: ", A, " ", b.area(), " ", more.area());
  }
  CHECK_NEAR(c.buffer(0).area(), A, t);
  });
  CHECK(gn::same(s, gn::snapOf(c), 0, &why), " argument changed: ", why);
}
// Sharp corners keep their whole tip, up to the mitre limit.
void tips(Gen& g) {
  const double a = g.uniform(0.43, 1.5), b = g.uniform(0.43, 1.5);
  const double base = g.real(5, 80), turn = g.angle(1);
  const double x = base * std::tan(b) / (std::tan(a) + std::tan(b));
  const V o(g.real(-90, 90), g.real(-90, 90));
  Ring r{V(0, 0), V(base, 0), V(x, x * std::tan(a))};
  const double corner[] = {a, b, M_PI - a - b};
  discardIf(corner[2] < 0.43);
  r = mapRing(r, [&](V v) { return rot(v, turn) + o; });
  const Poly p{r, {}};
  const double A = area(p), P = perimeter(r), in = 2 * A / P;
  double cot = 0;
  for (double c : corner) { cot += 1 / std::tan(c / 2); }
  const double d = g.uniform(0.05, 0.9) * in;
  g.note(str(p), " buffer ", d);
  const F2CCell c = fx::cell(p);
  CHECK_NEAR(F2CCell::buffer(c, d).area(), A + P * d + d * d * cot,
      1e-6 * (A + P * d));
  CHECK_NEAR(F2CCell::buffer(c, -d).area(), A - P * d + d * d * cot,
      1e-6 * (A + P * d));
  CHECK_NEAR(F2CCells(c).buffer(d).area(), A + P * d + d * d * cot,
      1e-6 * (A + P * d));
  CHECK_NEAR(F2CCell::buffer(c.getExteriorRing(), d).area(),
      2 * P * d, 1e-6 * (A + P * d));
  // a bent line: its outer corner is whole too
  const double w = std::min(d, 0.4 * in);
  const F2CLineString l({fx::pt(r[0]), fx::pt(r[1]), fx::pt(r[2])});
  const double len = dist(r[0], r[1]) + dist(r[1], r[2]);
  CHECK_NEAR(F2CCell::buffer(l, w).area(), 2 * w * len, 1e-6 * (A + P * d));
  g.nontrivial();
}
// The corner of a rectangle-like turn reaches sqrt(2) d: joins are mitred.
void mitre(Gen& g) {
  const double w = g.real(4, 60), h = g.real(4, 60), d = g.uniform(0.1, 1.9);
  const double a = g.angle(1);
  const V t(g.real(-90, 90), g.real(-90, 90));
  const Poly p = mapPoly(Poly{rectRing(0, 0, w, h), {}},
      [&](V v) { return rot(v, a) + t; });
  g.note(str(p), " buffer ", d);
  const F2CCell c = fx::cell(p);
  CHECK_NEAR(F2CCell::buffer(c, d).area(), (w + 2 * d) * (h + 2 * d),
      1e-7 * w * h);
  CHECK_NEAR(F2CCell::buffer(c, -d).area(),
      std::max(0.0, w - 2 * d) * std::max(0.0, h - 2 * d), 1e-7 * w * h);
  const F2CLinearRing r = c.getExteriorRing();
  const double in = std::max(0.0, w - 2 * d) * std::max(0.0, h - 2 * d);
  for (int s = -1; s <= 1; s += 2) {    // the sign is ignored for a ring
    const F2CCell band = F2CCell::buffer(r, s * d);
    CHECK_NEAR(band.area(), (w + 2 * d) * (h + 2 * d) - in, 1e-7 * w * h);
  }
  // one straight line: exactly a rectangle with flat ends
  const V q(w * std::cos(a), w * std::sin(a));
  const F2CLineString l(fx::pt(t), fx::pt(t + q));
  CHECK_NEAR(F2CCell::buffer(l, d).area(), 2 * d * w, 1e-7 * (1 + w));
  CHECK_NEAR(F2CCells::buffer(l, d).area(), 2 * d * w, 1e-7 * (1 + w));
  const V u = q * (1 / w), n(-u.y, u.x);
  const Poly b = fx::poly(F2CCell::buffer(l, d).get());
  for (int i = 0; i < 12; ++i) {
    const double x = g.uniform(-0.2, 1.2) * w, y = g.uniform(-1.5, 1.5) * d;
    if (std::fabs(x) < 1e-4 || std::fabs(x - w) < 1e-4 ||
        std::fabs(std::fabs(y) - d) < 1e-4) { continue; }
    CHECK_EQ(inside(t + u * x + n * y, b), x > 0 && x < w && std::fabs(y) < d);
  }
  // one side only: the left one for positive sides, right for negative ones
  for (int side = -1; side <= 1; side += 2) {
    const F2CCells os = F2CCells::buffer(l, d, side);
    CHECK_NEAR(os.area(), d * w, 1e-7 * (1 + w));
    const Multi om = fx::multi(os);
    CHECK(inside(t + u * (w / 2) + n * (side * d / 2), om), " side ", side);
    CHECK(!inside(t + u * (w / 2) - n * (side * d / 2), om), " side ", side);
  }
  // disc around a point
  const double far = g.logReal(0.1, 2000);
  for (const double r0 : {d, far}) {
    const F2CCell disc = F2CCell::buffer(fx::pt(t), r0);
    const Poly dp = fx::poly(disc.get());
    for (int i = 0; i < 8; ++i) {
      const double f = g.angle(1);
      const V e(std::cos(f), std::sin(f));
      CHECK(inRing(t + e * (r0 * 0.98), dp.outer), " disc of ", r0, " misses angle ", f);
      CHECK(!inRing(t + e * (r0 * 1.0001), dp.outer), " disc of ", r0, " exceeds at ", f);
    }
  }
  g.nontrivial();
}
// Polylines with gentle turns.
void lineBuffer(Gen& g) {
  std::vector<V> l{V(g.real(-50, 50), g.real(-50, 50))};
  double a = g.angle(1);
  const double sc = g.chance(1, 4) ? g.logReal(0.05, 50) : 1;
  const double d = g.uniform(0.1, 3) * sc;
  for (size_t k = g.chance(1, 3) ? g.size(5, 14) : g.size(1, 4); k-- > 0;) {
    const double len = g.real(12, 40) * sc;
    l.push_back(l.back() + V(std::cos(a), std::sin(a)) * len);
    a += g.uniform(-0.5, 0.5);
  }
  F2CLineString fl;
  for (auto&& p : l) { fl.addPoint(p.x, p.y); }
  g.note("line ", fl.exportToWkt(), " d ", d);
  const F2CCell b = F2CCell::buffer(fl, d);
  const F2CCells bs = F2CCells::buffer(fl, d);
  CHECK_NEAR(b.area(), bs.area(), 1e-7 * (1 + b.area()));
  const Poly p = fx::poly(b.get());
  const double eps = 0.02 * d;
  for (int k = 0; k < 30; ++k) {
    const size_t i = g.below(l.size() - 1);
    const V t = (l[i + 1] - l[i]) * (1 / dist(l[i], l[i + 1]));
    const double x = g.uniform(-0.1, 1.1) * dist(l[i], l[i + 1]),
      y = g.uniform(-1.6, 1.6) * d;
    const V q = l[i] + t * x + V(-t.y, t.x) * y;
    double m = 1e300, rest0 = 1e300, rest1 = 1e300;   // without first, last
    bool foot = false;     // nearest point is not one of the line's ends
    for (size_t j = 0; j + 1 < l.size(); ++j) {
      const double s = distSeg(q, l[j], l[j + 1]);
      if (j > 0) { rest0 = std::min(rest0, s); }
      if (j + 2 < l.size()) { rest1 = std::min(rest1, s); }
      if (s < m) {
        m = s;
        const V c = closestSeg(q, l[j], l[j + 1]);
        foot = dist(c, l.front()) > eps && dist(c, l.back()) > eps;
      }
    }
    if (foot && m < d - eps) {
      CHECK(inside(q, p), " buffer misses a point at ", m);
    }
    const double e0 = dot(q - l.front(), l[1] - l[0]) / dist(l[0], l[1]);
    const size_t n = l.size();
    const double e1 = dot(q - l.back(), l[n - 1] - l[n - 2]) /
      dist(l[n - 2], l[n - 1]);
    const double out = d / std::cos(0.25) + eps;
    const bool beyond =
      (e0 < -eps && dist(q, l.front()) < 3 * d && rest0 > out) ||
      (e1 > eps && dist(q, l.back()) < 3 * d && rest1 > out);
    if (m > out || beyond) {
      CHECK(!inside(q, p), " buffer covers a point at ", m,
          beyond ? " beyond an end" : "");
    }
  }
  g.nontrivial();
}
// Several lines or points at once: covered is what one of them covers.
void several(Gen& g) {
  const double d = g.uniform(0.1, 3);
  const size_t n = g.size(1, 3);
  F2CMultiLineString ml;
  F2CMultiPoint mp;
  std::vector<Poly> each, discs;
  double sum = 0, most = 0;
  for (size_t i = 0; i < n; ++i) {
    V p(g.real(-25, 25), g.real(-25, 25));
    mp.addPoint(p.x, p.y);
    discs.push_back(fx::poly(F2CCell::buffer(fx::pt(p), d).get()));
    F2CLineString l;
    double a = g.angle(1);
    l.addPoint(p.x, p.y);
    for (size_t k = g.size(1, 3); k-- > 0;) {
      p = p + V(std::cos(a), std::sin(a)) * g.real(12, 30);
      a += g.uniform(-0.5, 0.5);
      l.addPoint(p.x, p.y);
    }
    ml.addGeometry(l);
    each.push_back(fx::poly(F2CCell::buffer(l, d).get()));
    sum += area(each.back());
    most = std::max(most, area(each.back()));
  }
  g.note(ml.exportToWkt(), " d ", d);
  const Multi got = fx::multi(F2CCells::buffer(ml, d));
  CHECK(area(got) < sum * (1 + 1e-6) + 1e-6 && area(got) > most * (1 - 1e-6) - 1e-6,
      " area ", area(got), " of lines with ", sum, " together");
  if (n == 1) { CHECK_NEAR(area(got), sum, 1e-6 * (1 + sum)); }
  for (int k = 0; k < 30; ++k) {
    const Poly& e = g.pick(each);
    const V q = g.pick(e.outer) + V(g.uniform(-1, 1), g.uniform(-1, 1)) * d;
    bool in = false, close = distBorder(q, got) < 1e-3;
    for (auto&& x : each) {
      close |= distBorder(q, x) < 1e-3;
      in |= inside(q, x);
    }
    if (!close) { CHECK_EQ(inside(q, got), in, "lines, point ", q.x, " ", q.y); }
  }
  const Multi pts = fx::multi(F2CCells::buffer(mp, d));
  CHECK_NEAR(area(fx::multi(F2CCells::buffer(mp.getGeometry(0), d))), M_PI * d * d,
      0.03 * M_PI * d * d, "area around one point");
  for (int k = 0; k < 15; ++k) {
    const V q = V(fx::v(mp.getGeometry(g.below(n)))) +
      V(g.uniform(-1.5, 1.5), g.uniform(-1.5, 1.5)) * d;
    double m = 1e300;
    for (size_t i = 0; i < n; ++i) { m = std::min(m, dist(q, fx::v(mp.getGeometry(i)))); }
    if (m < 0.95 * d) { CHECK(inside(q, pts), " a point at ", m, " is left out"); }
    if (m > 1.01 * d) { CHECK(!inside(q, pts), " a point at ", m, " is in"); }
  }
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C08",
    "cells with holes and concave corners, distances up to 0.3 of the "
    "diameter both ways, 30 probe points of which half aim at the offset "
    "line; non-trivial: more than two probes decided each way",
    {{"cell", 5000, 50000, cellBuffer},
     {"cells", 5000, 50000, cellsBuffer},
     {"exact", 6000, 60000, mitre},
     {"tips", 4000, 40000, tips},
     {"several", 4000, 40000, several},
     {"line", 6000, 60000, lineBuffer}}};
  return p;
}
