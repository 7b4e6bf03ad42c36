// C20 order patterns visit every swath once in the named pattern.
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
#include "orders.hpp"
using namespace pbt;
namespace {
typedef std::vector<int> Ids;
// Out on every second one, back on the others.
Ids snake(const Ids& v) {
  Ids o;
  for (size_t i = 0; i < v.size(); i += 2) { o.push_back(v[i]); }
  for (size_t i = v.size() - v.size() % 2; i-- > 0;) {
    if (i % 2 == 1) { o.push_back(v[i]); }
  }
  return o;
}
// Groups of k; each from both its sides in turns, inwards.  A group that
// starts at an even place starts with its first swath, else with its last.
Ids spiral(const Ids& v, size_t k) {
  Ids o;
  for (size_t i = 0; i < v.size(); i += k) {
    size_t a = i, b = std::min(i + k, v.size());
    for (bool front = i % 2 == 0; a < b; front = !front) {
      o.push_back(front ? v[a++] : v[--b]);
    }
  }
  return o;
}
void empty(const f2c::rp::SingleCellSwathsOrderBase& o, uint32_t v) {
  CHECK_EQ(o.genSortedSwaths(F2CSwaths(), v).size(), 0u, "order of no swaths");
}
void boustro(Gen& g) {
  const ord::In in = ord::input(g, g.chance(1, 12) ? 90 : 24);
  g.note(in.v.size(), " swaths");
  f2c::rp::BoustrophedonOrder o;
  ord::variants(g, o, in, [] (Ids v) { return v; });
  empty(o, (uint32_t)g.below(8));
  if (in.v.size() >= 4) { g.nontrivial(); }
}
void snakes(Gen& g) {
  const ord::In in = ord::input(g, g.chance(1, 12) ? 90 : 24);
  g.note(in.v.size(), " swaths");
  f2c::rp::SnakeOrder o;
  ord::variants(g, o, in, [] (Ids v) { return snake(v); });
  empty(o, (uint32_t)g.below(8));
  if (in.v.size() >= 4) { g.nontrivial(); }
}
void spirals(Gen& g) {
  const ord::In in = ord::input(g, g.chance(1, 12) ? 90 : 24);
  size_t k = g.chance(1, 8) ? 20 + g.below(300) : g.below(14);
  if (g.chance(1, 30)) { k = (size_t)-1 - g.below(3); g.label("huge size"); }
  const bool ctor = g.boolean();
  f2c::rp::SpiralOrder o = ctor ? f2c::rp::SpiralOrder(k) : f2c::rp::SpiralOrder();
  if (!ctor) { o.setSpiralSize(k); }
  g.note(in.v.size(), " swaths, spirals of ", k);
  k = std::min<size_t>(std::max<size_t>(k, 2), 1u << 20);
  ord::variants(g, o, in, [k] (Ids v) { return spiral(v, k); });
  empty(o, (uint32_t)g.below(8));
  if (in.v.size() > k && in.v.size() % k > 1 && k > 2) { g.nontrivial(); }
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C20",
    "lists of 1 to 24 (sometimes 90) parallel swaths (of a field in one of five cases) with ids "
    "in any order; non-trivial: four swaths or more; spirals of three or more "
    "with an incomplete last group",
    {{"boustrophedon", 3000, 40000, boustro}, {"snake", 3000, 40000, snakes},
     {"spiral", 6000, 80000, spirals}}};
  return p;
}
