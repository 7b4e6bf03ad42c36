// Lists of parallel swaths and what an order may do with them.
#pragma once
#include "fields2cover/swath_generator/brute_force.h"
#include "gens.hpp"

namespace ord {
using namespace orc;
using pbt::Gen;

struct Sw {
  V a, b;
  int id;
  double w;
  int type;
  size_t n;
  bool dir;
};
inline Sw sw(const F2CSwath& s) {
  const auto l = fx::line(s.getPath());
  return {l.front(), l.back(), s.getId(), s.getWidth(), (int)s.getType(),
    l.size(), s.getCreationDir()};
}
inline std::vector<Sw> list(const F2CSwaths& s) {
  std::vector<Sw> v;
  for (auto&& x : s) { v.push_back(sw(x)); }
  return v;
}
inline bool near(const V& a, const V& b) {   // copies go through 15 digits
  return std::fabs(a.x - b.x) <= 1e-12 * (1 + std::fabs(a.x)) &&
    std::fabs(a.y - b.y) <= 1e-12 * (1 + std::fabs(a.y));
}
struct In { F2CSwaths s; std::vector<Sw> v; V dir; bool uniform; };
// Parallel swaths, all in one direction, ids apart, the list in any order;
// or what the swath generator makes of a field.
inline In input(Gen& g, size_t nmax) {
  In r;
  r.uniform = true;
  const double a = g.angle(1);
  r.dir = V(std::cos(a), std::sin(a));
  if (g.chance(1, 5)) {
    ShapeOpt o;
    o.max_vertices = 7;
    const F2CCells c = fx::cells(Multi{genPoly(g, o)});
    const double d = diam(fx::multi(c));
    f2c::sg::BruteForce bf;
    r.s = bf.generateSwaths(a, d / (double)g.integer(2, 25), c.getGeometry(0));
    g.label("swaths of a field");
    pbt::discardIf(r.s.size() == 0 || r.s.size() > 4 * nmax);
  } else {
    const size_t n = g.size(1, nmax);
    const double w = g.real(0.5, 9), off = g.chance(1, 4) ? 3e6 : 0;
    const V perp(-r.dir.y, r.dir.x);
    int id = (int)g.integer(-5, 5);
    const bool rev = g.boolean();
    std::vector<F2CSwath> v;
    for (size_t i = 0; i < n; ++i) {
      const V p = V(off, -off) + perp * (w * (double)i) + r.dir * g.uniform(-2, 2);
      const V q = p + r.dir * g.uniform(3, 40);
      F2CLineString l;
      l.addPoint(p.x, p.y);
      if (g.chance(1, 6)) { l.addPoint((p.x + q.x) / 2, (p.y + q.y) / 2); }
      l.addPoint(q.x, q.y);
      F2CSwath s(l, w, id, g.chance(1, 4) ? f2c::types::SwathType::HEADLAND :
          f2c::types::SwathType::MAINLAND);
      if (rev) { s.setCreationDir(false); }
      id += g.chance(1, 4) ? (int)g.integer(1, 9) : 1;
      v.push_back(s);
    }
    if (g.boolean()) {   // the list in any order
      for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[g.below(i)]); }
      g.label("ids out of order");
    }
    for (auto&& s : v) { r.s.push_back(s); }
    if (g.chance(1, 8)) {   // some driven the other way already
      for (auto&& s : r.s) { if (g.boolean()) { s.reverse(); } }
      g.label("mixed directions");
    }
  }
  r.v = list(r.s);
  return r;
}
// got must be the swaths of want with the ids in this order, otherwise
// unchanged, with alternating directions.
inline void check(const In& in, const std::vector<int>& ids, const F2CSwaths& s,
    const std::string& what) {
  const auto got = list(s);
  auto str = [] (const std::vector<int>& v) {
    std::ostringstream o;
    for (int i : v) { o << " " << i; }
    return o.str();
  };
  std::vector<int> have;
  for (auto&& x : got) { have.push_back(x.id); }
  CHECK(have == ids, " ", what, " gives", str(have), ", expected", str(ids));
  for (size_t i = 0; i < got.size(); ++i) {
    const Sw& x = got[i];
    const Sw* y = nullptr;
    for (auto&& z : in.v) { if (z.id == x.id) { y = &z; } }
    CHECK(x.w == y->w && x.type == y->type && x.n == y->n, " ", what,
        " changed swath ", x.id);
    const bool same = x.dir == y->dir;
    CHECK(same ? near(x.a, y->a) && near(x.b, y->b) :
        near(x.a, y->b) && near(x.b, y->a), " ", what, " changed the path of ",
        "swath ", x.id, " (or its flag does not tell its direction)");
    const double d = dot(x.b - x.a, in.dir);
    if (i > 0 && in.uniform) {
      const double e = dot(got[i - 1].b - got[i - 1].a, in.dir);
      if (std::fabs(d) > 1e-6 && std::fabs(e) > 1e-6) {
        CHECK(d * e < 0, " ", what, ": swaths ", got[i - 1].id, " and ", x.id,
            " are driven in the same direction");
      }
      CHECK(x.dir != got[i - 1].dir, " direction flags of neighbours");
    }
  }
}
// Ids as the orders see them: sorted, or from the other side.
inline std::vector<int> base(const In& in, uint32_t variant) {
  std::vector<int> v;
  for (auto&& x : in.v) { v.push_back(x.id); }
  std::sort(v.begin(), v.end());
  if (variant & 1) { std::reverse(v.begin(), v.end()); }
  return v;
}
// Variants of any order: the first swath starts at its lesser end, or at the
// other one; they repeat; the input stays.
inline void variants(Gen& g, const f2c::rp::SingleCellSwathsOrderBase& o,
    const In& in, const std::function<std::vector<int>(std::vector<int>)>& fn) {
  const gn::Snap before = gn::snapOf(in.s);
  std::string why;
  std::vector<Sw> first;
  for (uint32_t v = 0; v < 4; ++v) {
    const F2CSwaths s = o.genSortedSwaths(in.s, v);
    const std::string what = "variant " + std::to_string(v);
    check(in, fn(base(in, v)), s, what);
    const Sw x = sw(s.at(0));
    const double dx = x.b.x - x.a.x, dy = x.b.y - x.a.y;
    const double tol = 1e-9 * (1 + std::fabs(x.a.x) + std::fabs(x.a.y));
    if (std::fabs(dx) > tol || (dx == 0 && std::fabs(dy) > tol)) {
      const bool up = dx > tol || (dx == 0 && dy > 0);
      CHECK_EQ(up, !(v & 2), "direction of the first swath of ", what);
    }
    first.push_back(x);
    if (v >= 2) {
      CHECK(first[v - 2].dir != x.dir, " ", what, " starts in the direction of ",
          "variant ", v - 2);
    }
    CHECK(gn::same(before, gn::snapOf(in.s), 0, &why), " the input changed: ", why);
    const uint32_t r = v + 4 * (uint32_t)g.below(1u << 29);
    const F2CSwaths t = o.genSortedSwaths(in.s, r);
    CHECK(gn::same(gn::snapOf(s), gn::snapOf(t), 0, &why), " variant ", r,
        " differs from variant ", v, ": ", why);
  }
  const F2CSwaths d = o.genSortedSwaths(in.s);
  CHECK(gn::same(gn::snapOf(d), gn::snapOf(o.genSortedSwaths(in.s, 0)), 0, &why),
      " default variant: ", why);
  // the result is the caller's own
  F2CSwaths e = o.genSortedSwaths(in.s, (uint32_t)g.below(4));
  for (auto&& x : e) { x.reverse(); x.setId(-77); }
  e.moveTo(F2CPoint(5, 6));
  CHECK(gn::same(before, gn::snapOf(in.s), 0, &why), " the input is shared: ", why);
}
}  // namespace ord
