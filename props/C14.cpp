// C14 the best-angle search returns the cheapest angle.
#include <map>

#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {
struct In { Multi m; F2CCells c; double w, step; long n; };
In input(Gen& g, size_t cells, long nmax, bool fine = false) {
  In r;
  ShapeOpt o;
  o.max_vertices = 7;
  o.allow_holes = false;
  Multi m = g.chance(1, 4) ? Multi{latticePoly(g, 4)} : genMulti(g, cells, o);
  // a common size, so that one width suits all cells
  r.c = fx::cells(m);
  r.m = fx::multi(r.c);
  r.w = diam(Multi{r.m[0]}) * g.uniform(0.08, 0.7);
  for (auto&& q : r.m) { r.w = std::max(r.w, diam(Multi{q}) / 12); }
  r.n = (long)g.integer(1, nmax);
  if (fine && g.chance(1, 5)) {
    r.n = g.integer(25, 4000);
    g.label("fine steps");
  }
  if (g.chance(1, 5)) { r.n = g.pick(std::vector<long>{25, 41, 36, 12}); }
  r.step = 2 * M_PI / (double)r.n;
  if (g.chance(1, 3)) {   // does not divide the turn
    r.step = g.uniform(2 * M_PI / (double)(r.n + 1), 2 * M_PI / (double)r.n);
    g.label("step that does not divide the turn");
  }
  r.n = (long)std::floor(2 * M_PI / r.step + 1e-7);
  g.note("step ", r.step, " width ", r.w, " field ", str(r.m));
  return r;
}
void onGrid(double a, const In& r) {
  const double k = a / r.step;
  CHECK_NEAR(k, std::round(k), 1e-9, "the angle ", a, " is not on the grid");
  CHECK(std::round(k) >= 0 && std::round(k) < r.n, " angle ", a,
      " is not on the grid");
}
// An objective that knows nothing but the angle: any cost, for either sign.
class Table : public f2c::obj::SGObjective {
 public:
  using f2c::obj::SGObjective::computeCost;
  std::vector<double> costs;
  double step = 1, width = 0;
  bool fast = false, minimizing = true;
  mutable std::vector<int> asked;
  bool isFastCompAvailable() const override { return fast; }
  bool isMinimizing() const override { return minimizing; }
  double at(double ang) const {
    const long n = (long)costs.size();
    long k = std::lround(angNorm(ang + 1e-9) / step);
    return costs[(size_t)((k % n + n) % n)];
  }
  double computeCost(double ang, double w, const F2CCell&) override {
    CHECK(fast, " the fast cost was used though not available");
    CHECK_EQ(w, width, "width given to the objective");
    return at(ang);
  }
  double computeCost(const F2CCell&, const F2CSwaths& s) override {
    CHECK(!fast, " the slow cost was used though the fast one is available");
    if (s.size() == 0) { return minimizing ? 1e9 : -1e9; }
    const V d = fx::v(s[0].endPoint()) - fx::v(s[0].startPoint());
    return at(std::atan2(d.y, d.x));
  }
};
void table(Gen& g) {
  Table o;
  o.fast = g.boolean();
  const In r = input(g, 1, 24, o.fast);
  o.minimizing = g.boolean();
  o.step = r.step;
  o.width = r.w;
  const uint64_t salt = r.n > 64 ? g.below(1000000) : 0;
  for (long i = 0; i < r.n; ++i) {
    if (r.n > 64) {
      o.costs.push_back((double)((salt + (uint64_t)i * 2654435761u) % 1009) / 101);
      continue;
    }
    o.costs.push_back(g.chance(1, 4) ? g.real(-9, 9) :
        (double)g.integer(-5, 5));
  }
  if (g.boolean()) {   // one clear winner
    const size_t n = o.costs.size();
    o.costs[g.chance(1, 6) ? n - 1 : g.below(n)] = o.minimizing ? -50 : 50;
    g.label("one best angle");
  }
  f2c::sg::BruteForce b;
  b.setStepAngle(r.step);
  CHECK_EQ(b.getStepAngle(), r.step);
  const F2CCell c = r.c.getGeometry(0);
  if (!o.fast) {   // every track direction has to give a swath
    for (long i = 0; i < r.n; ++i) {
      discardIf(b.generateSwaths((double)i * r.step, r.w, c).size() == 0 ||
          b.generateSwaths((double)i * r.step, r.w, c)[0].length() < 1e-3);
    }
    discardIf(r.n > 1 && r.step < 1e-3);
  }
  const double a = b.computeBestAngle(o, r.w, c);
  onGrid(a, r);
  double best = o.costs[0];
  for (double k : o.costs) {
    best = o.minimizing ? std::min(best, k) : std::max(best, k);
  }
  CHECK_EQ(o.costs[(size_t)std::lround(a / r.step)], best,
      o.minimizing ? "minimum" : "maximum", " at angle ", a);
  CHECK_EQ(b.computeBestAngle(o, r.w, c), a, "asked again");
  std::string why;
  CHECK(gn::same(gn::snapOf(b.generateBestSwaths(o, r.w, c)),
        gn::snapOf(b.generateSwaths(a, r.w, c)), 0, &why),
      " swaths of another angle: ", why);
  g.label(o.fast ? "fast cost" : "cost of the swaths");
  if (r.n > 2) { g.nontrivial(); }
}
void library(Gen& g) {
  const In r = input(g, 2, 16);
  f2c::obj::NSwath o0;
  f2c::obj::SwathLength o1;
  f2c::obj::FieldCoverage o2;
  f2c::obj::NSwathModified o3;
  f2c::obj::Overlaps o4;
  f2c::obj::SGObjective* os[] = {&o0, &o1, &o2, &o3, &o4};
  const size_t which = g.below(5);
  f2c::obj::SGObjective& o = *os[which];
  f2c::sg::BruteForce b;
  b.setStepAngle(r.step);
  if (g.chance(1, 4)) { b.setAllowOverlap(true); }
  const F2CSwathsByCells all = b.generateBestSwaths(o, r.w, r.c);
  CHECK_EQ(all.size(), r.c.size(), "groups");
  size_t distinct = 0;
  for (size_t i = 0; i < r.c.size(); ++i) {
    const F2CCell c = r.c.getGeometry(i);
    const double a = b.computeBestAngle(o, r.w, c);
    onGrid(a, r);
    std::map<double, int> seen;
    double at = 0, best = 1e300;
    for (long k = 0; k < r.n; ++k) {
      const double ang = (double)k * r.step;
      const double cost = which == 3 ? o.computeCost(ang, r.w, c) :
        o.computeCost(c, b.generateSwaths(ang, r.w, c));
      const double key = which == 2 ? -cost : cost;
      CHECK_NEAR(b.computeCostOfAngle(o, ang, r.w, c), key,
          1e-9 * (1 + std::fabs(key)), "cost of angle ", ang);
      best = std::min(best, key);
      if (k == std::lround(a / r.step)) { at = key; }
      ++seen[key];
    }
    distinct += seen.size() > 2;
    CHECK(at <= best + 1e-9 * (1 + std::fabs(best)), " the chosen angle ", a,
        " costs ", at, " but the best ", best, ", objective ", which);
    std::string why;
    CHECK(gn::same(gn::snapOf(b.generateSwaths(a, r.w, c)),
          gn::snapOf(all[i]), 0, &why), " swaths of cell ", i,
        " are not those of its best angle: ", why);
  }
  if (distinct > 0) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C14",
    "fields of one or two cells, steps that divide the turn or not, all "
    "library objectives and arbitrary tables of costs (minimised, maximised, "
    "fast or not); non-trivial: three angles or more, with different costs",
    {{"table", 1500, 20000, table},
     {"library", 600, 6000, library}}};
  return p;
}
