// C16 headland and route objectives measure what they name.
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/pp_obj/path_length.h"
#include "fields2cover/objectives/rp_obj/complete_turn_path_obj.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "gens.hpp"
#include "slab.hpp"
using namespace pbt;
using namespace orc;
namespace {
void remArea(Gen& g) {
  ShapeOpt o;
  o.max_vertices = 7;
  o.max_holes = 6;
  const F2CCells c = fx::cells(g.chance(1, 3) ?
      Multi{latticePoly(g, 1 + (int)g.below(6))} : genMulti(g, 2, o));
  const Multi m = fx::multi(c);
  Multi rem;
  const size_t kind = g.weighted({4, 3, 2, 1});
  if (kind == 0) {   // a shrunk copy of some cells
    for (auto&& q : m) {
      if (m.size() > 1 && g.chance(1, 4)) { continue; }
      const Box b = box(q.outer);
      const V ctr(0.5 * (b.x0 + b.x1), 0.5 * (b.y0 + b.y1));
      const double k = g.uniform(0.05, 1.0);
      rem.push_back(mapPoly(q, [&] (V p) { return ctr + (p - ctr) * k; }));
    }
  } else if (kind == 1) {   // anything nearby
    const Box b = box(m);
    const double w = (b.x1 - b.x0) * g.uniform(0.05, 1.2);
    const double h = (b.y1 - b.y0) * g.uniform(0.05, 1.2);
    const V p = pointNear(g, m, 0.2);
    rem.push_back(Poly{rectRing(p.x, p.y, w, h), {}});
  } else if (kind == 2) {
    rem = m;
  }
  const F2CCells r = fx::cells(rem);
  rem = fx::multi(r);
  g.note("left ", str(rem), " of ", str(m));
  const double A = area(m);
  double left = 0;
  if (!rem.empty()) {
    left = slab::integrate({m, rem}, [] (const std::vector<slab::Ivs>& v) {
      return slab::length(slab::meet(v[0], v[1])); });
  }
  double k = 1;
  for (auto&& v : m[0].outer) {
    k = std::max(k, std::max(std::fabs(v.x), std::fabs(v.y)));
  }
  const double tol = (1e-8 + 1e-12 * k) * (1 + diam(m)) * 10 / A;
  f2c::obj::RemArea obj;
  CHECK(obj.isMaximizing() && !obj.isMinimizing());
  auto one = [&] (double got, double neg) {
    CHECK_NEAR(got, left / A, tol, "share of the area left");
    CHECK_EQ(neg, -got, "minimising sign");
  };
  one(obj.computeCost(c, r), obj.computeCostWithMinimizingSign(c, r));
  if (m.size() == 1) {
    const F2CCell c0 = c.getGeometry(0);
    one(obj.computeCost(c0, r), obj.computeCostWithMinimizingSign(c0, r));
  }
  if (rem.size() == 1) {
    const F2CCell r0 = r.getGeometry(0);
    one(obj.computeCost(c, r0), obj.computeCostWithMinimizingSign(c, r0));
    if (m.size() == 1) {
      const F2CCell c0 = c.getGeometry(0);
      one(obj.computeCost(c0, r0), obj.computeCostWithMinimizingSign(c0, r0));
    }
  }
  if (left > 0.01 * A && left < 0.99 * A) { g.nontrivial(); }
}
F2CSwath swathOf(Gen& g) {   // points apart, so that headings are defined
  F2CSwath s = gn::swath(g);
  const auto l = fx::line(s.getPath());
  for (size_t i = 1; i < l.size(); ++i) { discardIf(dist(l[i - 1], l[i]) < 1e-3); }
  return s;
}
F2CSwaths swathsOf(Gen& g, size_t lo, size_t hi) {
  F2CSwaths m;
  for (size_t k = g.size(lo, hi); k-- > 0;) { m.push_back(swathOf(g)); }
  return m;
}
// A cost that tells its arguments apart.
class Probe : public f2c::obj::RPObjective {
 public:
  using f2c::obj::RPObjective::computeCost;
  static double f(const V& p, const V& q) {
    return 1 + std::sin(p.x + 2 * p.y) * 3 + std::cos(q.x * 3 - q.y) * 2;
  }
  double computeCost(const F2CPoint& p, const F2CPoint& q) override {
    return f(fx::v(p), fx::v(q));
  }
  double computeCost(const F2CPoint& p, double a, const F2CPoint& q) override {
    return 10 + f(fx::v(p), fx::v(q)) + std::cos(a - 0.3);
  }
  double computeCost(const F2CPoint& p, const F2CPoint& q, double b) override {
    return 20 + f(fx::v(p), fx::v(q)) + std::cos(b + 0.7);
  }
  double computeCost(const F2CPoint& p, double a, const F2CPoint& q,
      double b) override {
    return 40 + f(fx::v(p), fx::v(q)) + std::cos(a - 0.3) +
      2 * std::cos(b + 0.7);
  }
};
struct Sw { std::vector<V> p; double in, out; };
Sw read(const F2CSwath& s) {
  Sw r{fx::line(s.getPath()), 0, 0};
  const V a = r.p[1] - r.p[0], b = r.p.back() - r.p[r.p.size() - 2];
  r.in = std::atan2(a.y, a.x);
  r.out = std::atan2(b.y, b.x);
  return r;
}
std::vector<V> read(const F2CMultiPoint& m) {
  std::vector<V> o;
  for (size_t i = 0; i < m.size(); ++i) { o.push_back(fx::v(m.getGeometry(i))); }
  return o;
}
double pp(const V& p, const V& q) { return Probe::f(p, q); }
double ss(const Sw& s, const Sw& t) {
  return 40 + pp(s.p.back(), t.p[0]) + std::cos(s.out - 0.3) +
    2 * std::cos(t.in + 0.7);
}
double sp(const Sw& s, const V& q) {
  return 10 + pp(s.p.back(), q) + std::cos(s.out - 0.3);
}
double ps(const V& p, const Sw& t) {
  return 20 + pp(p, t.p[0]) + std::cos(t.in + 0.7);
}
struct Item { bool sw; Sw s; V p; };
double cost(const std::vector<Item>& v) {   // of the whole sequence
  double c = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i].sw) {
      for (size_t k = 1; k < v[i].s.p.size(); ++k) {
        c += pp(v[i].s.p[k - 1], v[i].s.p[k]);
      }
    }
    if (i == 0) { continue; }
    const Item& a = v[i - 1];
    const Item& b = v[i];
    c += a.sw ? (b.sw ? ss(a.s, b.s) : sp(a.s, b.p)) :
      (b.sw ? ps(a.p, b.s) : pp(a.p, b.p));
  }
  return c;
}
std::vector<Item> items(const F2CRoute& r) {
  std::vector<Item> v;
  for (size_t i = 0; i < std::max(r.sizeConnections(), r.sizeVectorSwaths());
      ++i) {
    if (i < r.sizeConnections()) {
      for (auto&& p : read(r.getConnection(i))) { v.push_back({false, {}, p}); }
    }
    if (i < r.sizeVectorSwaths()) {
      for (size_t k = 0; k < r.getSwaths(i).size(); ++k) {
        v.push_back({true, read(r.getSwaths(i)[k]), V()});
      }
    }
  }
  return v;
}
F2CRoute route(Gen& g) {
  F2CRoute r;
  for (size_t k = g.size(0, 5); k-- > 0;) {
    switch (g.below(4)) {
      case 0: r.addConnection(gn::multiPoint(g, 0, 3)); break;
      case 1: r.addSwaths(swathsOf(g, 0, 3)); break;
      case 2: r.addConnectedSwaths(gn::multiPoint(g, 0, 2), swathsOf(g, 0, 2));
              break;
      default: r.addSwath(swathOf(g));
    }
  }
  return r;
}
void routes(Gen& g) {
  const F2CRoute r = route(g);
  const auto v = items(r);
  double n = 1, len = 0, empty = 0;
  std::vector<V> way;
  for (auto&& i : v) {
    if (i.sw) { way.insert(way.end(), i.s.p.begin(), i.s.p.end()); }
    else { way.push_back(i.p); }
  }
  for (auto&& p : way) { n = std::max(n, std::max(std::fabs(p.x), std::fabs(p.y))); }
  len = fx::lineLength(way);
  for (auto&& s : r.getVectorSwaths()) { empty += s.size() == 0; }
  for (size_t i = 1; i < r.sizeConnections(); ++i) {
    empty += r.getConnection(i).isEmpty();
  }
  g.note(r.sizeVectorSwaths(), " groups of swaths, ", r.sizeConnections(),
      " connections: ", r.asLineString().exportToWkt());
  f2c::obj::DirectDistPathObj d;
  f2c::obj::RPObjective b;
  Probe q;
  const double tol = 1e-9 * (1 + len + n);
  CHECK_NEAR(d.computeCost(r), len, tol, "distance of the route");
  CHECK_NEAR(b.computeCost(r), len, tol, "distance of the route");
  CHECK_NEAR(r.length(), len, tol, "length of the route");
  CHECK_EQ(d.computeCostWithMinimizingSign(r), d.computeCost(r));
  CHECK_NEAR(q.computeCost(r), cost(v), 1e-7 * (1 + (double)v.size()),
      "cost of the route");
  if (empty > 0) { g.label("empty part inside"); }
  if (v.size() > 4) { g.nontrivial(); }
}
void overloads(Gen& g) {
  const F2CSwaths s = swathsOf(g, 0, 4);
  const F2CMultiPoint m = gn::multiPoint(g, 0, 4);
  const F2CPoint p = gn::point(g);
  const double a = g.angle(1);
  Probe q;
  f2c::obj::DirectDistPathObj d;
  std::vector<Sw> sw;
  for (size_t i = 0; i < s.size(); ++i) { sw.push_back(read(s[i])); }
  const auto mp = read(m);
  g.note(s.size(), " swaths, ", m.size(), " points");
  const double tol = 1e-7;
  std::vector<Item> v;
  for (auto&& x : sw) { v.push_back({true, x, V()}); }
  CHECK_NEAR(q.computeCost(s), cost(v), tol * (1 + (double)v.size()), "swaths");
  v.clear();
  for (auto&& x : mp) { v.push_back({false, {}, x}); }
  CHECK_NEAR(q.computeCost(m), cost(v), tol, "points");
  std::vector<F2CPoint> vp;
  for (auto&& x : mp) { vp.push_back(fx::pt(x)); }
  CHECK_NEAR(q.computeCost(vp), cost(v), tol, "vector of points");
  CHECK_NEAR(d.computeCost(m), fx::lineLength(mp),
      1e-9 * (1 + fx::lineLength(mp)));
  if (!mp.empty() && !sw.empty()) {
    CHECK_NEAR(q.computeCost(s, m), sp(sw.back(), mp[0]), tol, "swaths, points");
    CHECK_NEAR(q.computeCost(s[0], m), sp(sw[0], mp[0]), tol, "swath, points");
    CHECK_NEAR(q.computeCost(m, s), ps(mp.back(), sw[0]), tol, "points, swaths");
    CHECK_NEAR(q.computeCost(m, s[0]), ps(mp.back(), sw[0]), tol,
        "points, swath");
    g.nontrivial();
  } else {
    CHECK_EQ(q.computeCost(s, m), 0.0, "nothing to connect");
    CHECK_EQ(q.computeCost(m, s), 0.0, "nothing to connect");
  }
  if (!sw.empty()) {
    const V o = fx::v(p);
    CHECK_NEAR(q.computeCost(s[0], p), sp(sw[0], o), tol, "swath, point");
    CHECK_NEAR(q.computeCost(p, s[0]), ps(o, sw[0]), tol, "point, swath");
    CHECK_NEAR(q.computeCost(s[0], p, a),
        q.computeCost(fx::pt(sw[0].p.back()), sw[0].out, p, a), tol,
        "swath, pose");
    CHECK_NEAR(q.computeCost(p, a, s[0]),
        q.computeCost(p, a, fx::pt(sw[0].p[0]), sw[0].in), tol, "pose, swath");
    CHECK_NEAR(q.computeCost(s[0], s[s.size() - 1]), ss(sw[0], sw.back()), tol,
        "swath, swath");
    CHECK_NEAR(d.computeCost(s[0], s[s.size() - 1]),
        dist(sw[0].p.back(), sw.back().p[0]),
        1e-9 * (1 + norm(sw[0].p.back()) + norm(sw.back().p[0])));
    CHECK_NEAR(d.computeCost(s[0]), fx::lineLength(sw[0].p),
        1e-9 * (1 + fx::lineLength(sw[0].p)));
  }
  const F2CPoint z = gn::point(g);
  const double pz = dist(fx::v(p), fx::v(z)) ;
  CHECK_NEAR(d.computeCost(p, a, z), d.computeCost(p, z), 0);
  CHECK_NEAR(d.computeCost(p, z, a), d.computeCost(p, z), 0);
  CHECK_NEAR(d.computeCost(p, a, z, a + 1), d.computeCost(p, z), 0);
  if (p.getZ() == z.getZ()) {
    CHECK_NEAR(d.computeCost(p, z), pz, 1e-9 * (1 + pz));
  }
}
// With real turns the cost between poses is the length of the turn.
void turns(Gen& g) {
  F2CRobot robot(2.0, 6.0);
  robot.setMinTurningRadius(g.uniform(0.5, 4));
  robot.setMaxDiffCurv(0.1);
  f2c::pp::DubinsCurves dub;
  f2c::obj::CompleteTurnPathObj<f2c::pp::DubinsCurves> o(robot);
  f2c::obj::PathLength pl;
  const F2CPoint p(g.real(-20, 20), g.real(-20, 20));
  const F2CPoint q(g.real(-20, 20), g.real(-20, 20));
  discardIf(p.distance(q) < 0.01);
  const double a = g.uniform(0, 2 * M_PI), b = g.uniform(0, 2 * M_PI);
  g.note(p.exportToWkt(), " ", a, " to ", q.exportToWkt(), " ", b, " radius ",
      robot.getMinTurningRadius());
  F2CPath t = dub.createTurn(robot, p, a, q, b);
  double len = 0;
  for (size_t i = 0; i < t.size(); ++i) { len += t[i].len; }
  CHECK_NEAR(pl.computeCost(t), len, 1e-9 * (1 + len), "length of a path");
  CHECK_NEAR(o.computeCost(p, a, q, b), len, 1e-6 * (1 + len), "turn");
  CHECK(len > p.distance(q) - 0.2, " the turn is shorter than the way: ", len);
  CHECK_EQ(pl.isMinimizing(), true);
  f2c::obj::CompleteTurnPathObj<f2c::pp::DubinsCurves> o2(robot, dub);
  CHECK_NEAR(o2.computeCost(p, a, q, b), len, 1e-6 * (1 + len), "turn");
  F2CRobot wide(2.0, 6.0);
  wide.setMinTurningRadius(robot.getMinTurningRadius() * 2);
  wide.setMaxDiffCurv(0.1);
  o2.setRobot(wide);
  f2c::pp::DubinsCurves fresh;
  CHECK_NEAR(o2.computeCost(p, a, q, b),
      fresh.createTurn(wide, p, a, q, b).length(), 1e-6 * (1 + len),
      "turn of another robot");
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C16",
    "fields with what the headlands leave; routes of up to five steps with "
    "empty parts, swaths of two to four points; non-trivial: part of the area "
    "left, a route of more than four way points, swaths and points",
    {{"rem_area", 4000, 40000, remArea},
     {"routes", 5000, 50000, routes},
     {"overloads", 5000, 50000, overloads},
     {"turns", 300, 4000, turns}}};
  return p;
}
