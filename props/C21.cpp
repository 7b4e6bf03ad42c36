// C21 a custom order is applied exactly or rejected.
#include "fields2cover/route_planning/custom_order.h"
#include "orders.hpp"
using namespace pbt;
namespace {
typedef std::vector<size_t> Order;
Order permutation(Gen& g, size_t n) {
  Order p(n);
  for (size_t i = 0; i < n; ++i) { p[i] = i; }
  for (size_t i = n; i > 1; --i) { std::swap(p[i - 1], p[g.below(i)]); }
  return p;
}
std::string str(const Order& o) {
  std::ostringstream s;
  for (size_t i : o) { s << " " << i; }
  return s.str();
}
void applied(Gen& g) {
  const ord::In in = ord::input(g, 14);
  const Order p = permutation(g, in.v.size());
  g.note("order", str(p));
  f2c::rp::CustomOrder o = g.boolean() ? f2c::rp::CustomOrder(p) :
    f2c::rp::CustomOrder(permutation(g, g.below(5)));
  o.setCustomOrder(p);
  ord::variants(g, o, in, [&] (std::vector<int> v) {
    std::vector<int> r;
    for (size_t i : p) { r.push_back(v[i]); }
    return r;
  });
  if (in.v.size() > 2 && p[0] != 0) { g.nontrivial(); }
}
void rejected(Gen& g) {
  const ord::In in = ord::input(g, 10);
  const size_t n = in.v.size();
  Order p = permutation(g, n);
  switch (g.below(6)) {
    case 0: p.erase(p.begin() + (long)g.below(n)); break;
    case 1: p.insert(p.begin() + (long)g.below(n + 1), g.below(n)); break;
    case 2: p.insert(p.begin() + (long)g.below(n + 1), n); break;
    case 3: {
      if (n < 2) { p.clear(); break; }
      const size_t i = g.below(n), j = (i + 1 + g.below(n - 1)) % n;
      p[i] = p[j];
      g.label("repeated entry");
      break;
    }
    case 4: p[g.below(n)] = g.chance(1, 3) ? (size_t)-1 - g.below(2) : n + g.below(4);
      g.label("entry out of range"); break;
    default: p = permutation(g, n + 1 + g.below(3)); g.label("too long");
  }
  g.note("order", str(p), " for ", n, " swaths");
  const gn::Snap before = gn::snapOf(in.s);
  f2c::rp::CustomOrder o(p);
  const uint32_t v = (uint32_t)g.below(4);
  CHECK_THROWS(o.genSortedSwaths(in.s, v), "the order", str(p), " of ", n, " swaths");
  std::string why;
  CHECK(gn::same(before, gn::snapOf(in.s), 0, &why), " the input changed: ", why);
  // and the object is of use with a right order
  const Order q = permutation(g, n);
  o.setCustomOrder(q);
  ord::variants(g, o, in, [&] (std::vector<int> w) {
    std::vector<int> r;
    for (size_t i : q) { r.push_back(w[i]); }
    return r;
  });
  CHECK_EQ(f2c::rp::CustomOrder().genSortedSwaths(F2CSwaths(), v).size(), 0u,
      "no order of no swaths");
  if (n > 2) { g.nontrivial(); }
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C21",
    "permutations of up to 14 swaths, and orders that are no permutations "
    "(missing, repeated, out-of-range entries); non-trivial: more than two "
    "swaths and an order that does not start with the first",
    {{"applied", 5000, 60000, applied}, {"rejected", 5000, 60000, rejected}}};
  return p;
}
