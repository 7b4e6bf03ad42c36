// C27 random fields satisfy what was asked for, reproducibly.
#include "gens.hpp"
#include "fields2cover/utils/random.h"
using namespace pbt;
using namespace orc;
using R = f2c::Random;
namespace {
uint32_t seed(Gen& g) {
  return g.chance(1, 6) ? g.pick(std::vector<uint32_t>{0, 1, 0xffffffffu}) : (uint32_t)g.below(1u << 31);
}
double someArea(Gen& g) { return g.chance(1, 4) ? g.pick(std::vector<double>{1e-2, 1, 100, 1e6}) : g.logReal(1e-3, 1e7); }
void isCell(const F2CCell& c, double area, size_t sides, double lo, double hi, const std::string& what) {
  CHECK_EQ(c.size(), (size_t)1, "rings of ", what);
  const Multi m = fx::multi(c);
  CHECK_EQ(m.size(), (size_t)1, "polygons of ", what);
  const Ring r = m[0].outer;
  CHECK_EQ(r.size(), sides, "sides of ", what);
  CHECK_EQ((size_t)c.get()->getExteriorRing()->getNumPoints(), sides + 1, "points of ", what);
  CHECK(c.get()->getExteriorRing()->get_IsClosed(), " open ring of ", what);
  for (size_t i = 0; i < r.size(); ++i) {
    for (size_t j = i + 2; j < r.size(); ++j) {
      if (i == 0 && j + 1 == r.size()) { continue; }
      CHECK(segSeg(r[i], r[i + 1], r[j], r[(j + 1) % r.size()]) > 0, " boundary crosses itself: ", what);
    }
  }
  CHECK_NEAR(orc::area(r), area, 1e-9 * area, "area of ", what);
  CHECK_NEAR(c.area(), area, 1e-9 * area, "area told of ", what);
  double a = INFINITY, b = 0;
  for (auto&& v : r) { a = std::min(a, norm(v)); b = std::max(b, norm(v)); }
  CHECK(b <= a * hi / lo * (1 + 1e-9), " vertices between ", a, " and ", b, " from the centre of ", what);
}
// every turn strictly to the same side?  0: too close to tell
int convexity(const Ring& r) {
  bool l = false, m = false;
  for (size_t i = 0; i < r.size(); ++i) {
    const V a = r[(i + 1) % r.size()] - r[i], b = r[(i + 2) % r.size()] - r[(i + 1) % r.size()];
    const double s = cross(a, b) / (norm(a) * norm(b));
    if (std::fabs(s) < 1e-7) { return 0; }
    (s > 0 ? l : m) = true;
  }
  return l && m ? -1 : 1;
}
void sameCells(const F2CCells& a, const F2CCell& b, double area, const char* what) {
  const Multi x = fx::multi(a), y = fx::multi(b);
  CHECK_EQ(x.size(), (size_t)1, "cells of ", what);
  CHECK_EQ(x[0].outer.size(), y[0].outer.size(), "sides of ", what);
  for (size_t i = 0; i < y[0].outer.size(); ++i) {
    CHECK(dist(x[0].outer[i], y[0].outer[i]) < 1e-9 * std::sqrt(area), " vertex ", i, " of ", what);
  }
}
void cells(Gen& g) {
  const uint32_t s = seed(g);
  R a(s), b(s);
  const bool dflt = g.boolean();
  for (size_t k = g.size(1, 4); k-- > 0;) {
    const double area = someArea(g);
    switch (g.below(4)) {
      case 0: {
        const int n = (int)(g.chance(1, 8) ? g.integer(40, 150) : g.integer(3, 40));
        const double sc = g.chance(1, 3) ? g.logReal(1e-3, 1e3) : 1;
        const double lo = dflt ? 0.5 : sc * g.real(0.05, 3), hi = dflt ? 1.0 : lo + sc * g.real(0.01, 3);
        g.note(n, " sides, area ", area);
        const F2CCell c = dflt ? a.generateRandCell(area, n) : a.generateRandCell(area, n, lo, hi);
        isCell(c, area, n, lo, hi, "generateRandCell");
        const F2CField f = dflt ? b.generateRandField(area, n) : b.generateRandField(area, n, lo, hi);
        CHECK_NEAR(f.area(), area, 1e-8 * area, "area of generateRandField");
        sameCells(f.getCellsAbsPosition(), c, area, "generateRandField");
        break;
      }
      case 1: {
        const size_t n = g.below(3) == 0 ? 4 : (size_t)g.integer(3, 6);
        g.note("convex, ", n, " sides, area ", area);
        const F2CCell c = n == 4 ? a.genConvexCell(area) : a.genConvexCell(area, n);
        isCell(c, area, n, 0.5, 1, "genConvexCell");
        CHECK(convexity(fx::multi(c)[0].outer) >= 0, " genConvexCell is not convex");
        CHECK(c.isConvex(), " genConvexCell does not tell it is convex");
        const F2CField f = b.genConvexField(area, n);
        sameCells(f.getCellsAbsPosition(), c, area, "genConvexField");
        break;
      }
      case 2: {
        g.note("not convex, area ", area);
        const F2CCell c = a.genNonConvexCell(area);
        isCell(c, area, 9, 0.5, 1, "genNonConvexCell");
        CHECK(convexity(fx::multi(c)[0].outer) <= 0, " genNonConvexCell is convex");
        CHECK(!c.isConvex(), " genNonConvexCell tells it is convex");
        const F2CField f = b.genNonConvexField(area);
        sameCells(f.getCellsAbsPosition(), c, area, "genNonConvexField");
        break;
      }
      default: {   // impossible
        const int n = (int)g.integer(-5, 2);
        const double neg = g.pick(std::vector<double>{0, -1, -1e-9, -1e4});
        CHECK_THROWS(a.generateRandCell(area, n), " cell with ", n, " sides");
        CHECK_THROWS(a.generateRandField(area, n), " field with ", n, " sides");
        CHECK_THROWS(a.generateRandCell(neg, 5), " cell with area ", neg);
        CHECK_THROWS(a.generateRandField(neg, 5), " field with area ", neg);
        CHECK_THROWS(a.genConvexCell(neg), " convex cell with area ", neg);
        CHECK_THROWS(a.genConvexField(neg), " convex field with area ", neg);
        CHECK_THROWS(a.genNonConvexCell(neg), " non-convex cell with area ", neg);
        CHECK_THROWS(a.genConvexCell(area, n < 0 ? 0 : n), " convex cell with too few sides");
      }
    }
  }
  CHECK_EQ(a.getRandomDouble(), b.getRandomDouble(), "number after the same calls");
  g.nontrivial();
}
// Copies and equal seeds go on alike; other seeds do not.
void sequences(Gen& g) {
  const uint32_t s = seed(g);
  std::vector<R> gens{R(s), R(s)};
  if (g.boolean()) { gens.emplace_back(gens[0]); } else { gens.push_back(gens[1]); }
  std::vector<double> first;
  size_t calls = g.size(1, 30);
  while (calls-- > 0) {
    const size_t what = g.below(6);
    const double lo = g.uniform(-50, 50), w = g.logReal(1e-6, 1e4), pos = g.logReal(1e-4, 1e3);
    double was = 0;
    for (size_t i = 0; i < gens.size(); ++i) {
      R& r = gens[i];
      double d = 0;
      switch (what) {
        case 0: d = r.getRandomDouble(); CHECK(d >= 0 && d <= 1, " getRandomDouble is ", d); break;
        case 1: d = r.getRandomLinear(lo, lo + w); CHECK(d >= lo && d <= lo + w, " getRandomLinear(", lo, ", ", lo + w, ") is ", d); break;
        case 2: d = r.getRandomExp(pos, pos + w); CHECK(d >= pos * (1 - 1e-12) && d <= (pos + w) * (1 + 1e-12), " getRandomExp(", pos, ", ", pos + w, ") is ", d); break;
        case 3: d = r.getRandomExpDist(pos); CHECK(d >= 0 && std::isfinite(d), " getRandomExpDist is ", d); break;
        case 4: d = r.getAngleRandom(); CHECK(d >= 0 && d <= 2 * M_PI, " getAngleRandom is ", d); break;
        default: d = r.generateRandCell(1, 3 + (int)(pos) % 5).area();
      }
      if (i > 0) { CHECK(d == was, " two generators of the same history differ: ", d, " and ", was); }
      was = d;
    }
    if (g.chance(1, 5)) {   // copies, moves, assignments on the way
      R t = gens[0];
      switch (g.below(3)) {
        case 0: gens[1] = t; break;
        case 1: gens[1] = std::move(t); break;
        default: gens.back() = gens[0]; t.getRandomDouble();
      }
    }
    first.push_back(was);
  }
  g.nontrivial();
}
// Numbers spread as they are said to.
void spread(Gen& g) {
  R r(seed(g)), other(seed(g) + 1);
  const int N = 4000;
  const double lo = g.uniform(-50, 50), w = g.logReal(1e-2, 1e3), emin = g.logReal(1e-3, 10), efac = g.logReal(1.5, 1e4), lam = g.logReal(1e-2, 1e2);
  const size_t what = g.below(5);
  g.note("what ", what);
  std::vector<double> u;
  for (int i = 0; i < N; ++i) {
    double d = 0;
    switch (what) {
      case 0: d = r.getRandomDouble(); break;
      case 1: d = (r.getRandomLinear(lo, lo + w) - lo) / w; break;
      case 2: d = std::log(r.getRandomExp(emin, emin * efac) / emin) / std::log(efac); break;
      case 3: d = 1 - std::exp(-lam * r.getRandomExpDist(lam)); break;
      default: d = r.getAngleRandom() / (2 * M_PI);
    }
    u.push_back(d);
  }
  std::sort(u.begin(), u.end());
  double ks = 0;
  for (int i = 0; i < N; ++i) { ks = std::max(ks, std::fabs(u[i] - (i + 0.5) / N)); }
  // above 3.2 / sqrt(N) about once in 4e8 samples
  CHECK(ks < 3.2 / std::sqrt((double)N), " distribution is ", ks, " off");
  int rep = 0;
  for (int i = 1; i < N; ++i) { rep += u[i] == u[i - 1]; }
  CHECK(rep < 3, " ", rep, " numbers repeat");
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C27",
    "sequences of requests with any seed, area 1e-3 to 1e7, 3 to 150 sides "
    "(3 to 6 when convex), distance ranges; impossible requests; copies of "
    "generators; samples of 4000 numbers; non-trivial: every case",
    {{"cells", 3000, 30000, cells}, {"sequences", 2500, 40000, sequences}, {"spread", 300, 3000, spread}}};
  return p;
}
