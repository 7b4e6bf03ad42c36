// C17 a swath keeps its geometry through every operation.
#include "gens.hpp"
#include "slab.hpp"
using namespace pbt;
using namespace orc;
using f2c::types::SwathType;
namespace {
struct P3 { double x, y, z; };
struct Model {
  std::vector<P3> p;
  double w = 0;
  int id = 0;
  bool dir = true;
  SwathType type = SwathType::MAINLAND;
  void reverse() { std::reverse(p.begin(), p.end()); dir = !dir; }
  double length() const {
    double s = 0;
    for (size_t i = 1; i < p.size(); ++i) {
      s += std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y);
    }
    return s;
  }
};
double heading(const P3& a, const P3& b) { return std::atan2(b.y - a.y, b.x - a.x); }
void same(const F2CSwath& s, const Model& m, const std::string& after) {
  const auto* raw = s.getPath().get();
  CHECK_EQ((size_t)raw->getNumPoints(), m.p.size(), "points after ", after);
  CHECK_EQ(s.numPoints(), m.p.size(), "numPoints after ", after);
  double k = 1;
  for (size_t i = 0; i < m.p.size(); ++i) {
    const F2CPoint q = s.getPoint((int)i);
    F2CSwath mut(s);
    const F2CPoint q2 = mut.getPoint((int)i);
    const double t = 1e-9 * (1 + std::fabs(m.p[i].x) + std::fabs(m.p[i].y));
    CHECK_NEAR(raw->getX((int)i), m.p[i].x, t, "x of point ", i, " after ", after);
    CHECK_NEAR(raw->getY((int)i), m.p[i].y, t, "y of point ", i, " after ", after);
    CHECK_NEAR(raw->getZ((int)i), m.p[i].z, t, "z of point ", i, " after ", after);
    CHECK(q.getX() == raw->getX((int)i) && q.getY() == raw->getY((int)i) &&
        q.getZ() == raw->getZ((int)i) && q2.getX() == q.getX() &&
        q2.getY() == q.getY(), " getPoint(", i, ") after ", after);
    k = std::max(k, std::fabs(m.p[i].x) + std::fabs(m.p[i].y));
  }
  CHECK_EQ(s.getId(), m.id, "id after ", after);
  CHECK_EQ(s.getWidth(), m.w, "width after ", after);
  CHECK_EQ(s.getCreationDir(), m.dir, "direction after ", after);
  CHECK(s.getType() == m.type, " type after ", after);
  CHECK_NEAR(s.length(), m.length(), 1e-9 * k * (double)m.p.size(),
      "length after ", after);
  if (m.p.empty()) {
    CHECK_EQ(s.getInAngle(), -1.0, "angle without a path");
    CHECK_EQ(s.getOutAngle(), -1.0, "angle without a path");
    return;
  }
  const F2CPoint a = s.startPoint(), b = s.endPoint();
  CHECK(a.getX() == raw->getX(0) && a.getY() == raw->getY(0),
      " startPoint after ", after);
  const int n = raw->getNumPoints();
  CHECK(b.getX() == raw->getX(n - 1) && b.getY() == raw->getY(n - 1),
      " endPoint after ", after);
  auto ang = [&] (double got, const P3& u, const P3& v, const char* what) {
    const double l = std::hypot(u.x - v.x, u.y - v.y);
    if (l < 1e-3) { return; }
    CHECK(got >= 0 && got < 2 * M_PI + 1e-12, " ", what, " ", got,
        " is not in [0, 2 pi)");
    CHECK(angDiff(got, heading(u, v)) < 1e-12 + 1e-9 * k / l, " ", what, " ",
        got, " after ", after, ", expected ", heading(u, v));
  };
  ang(s.getInAngle(), m.p[0], m.p[1], "in angle");
  ang(s.getOutAngle(), m.p[m.p.size() - 2], m.p.back(), "out angle");
}
Model modelOf(const F2CLineString& l) {
  Model m;
  for (int i = 0; i < l.get()->getNumPoints(); ++i) {
    m.p.push_back({l.get()->getX(i), l.get()->getY(i), l.get()->getZ(i)});
  }
  return m;
}
// Any history of operations, on a few swaths that align with each other.
void history(Gen& g) {
  std::vector<F2CSwath> s;
  std::vector<Model> m;
  const size_t n = g.size(1, 4);
  for (size_t i = 0; i < n; ++i) {
    if (g.chance(1, 8)) {
      Model x;
      if (g.boolean()) {
        s.emplace_back();
      } else {
        x.w = g.real(0.1, 12);
        s.emplace_back(x.w);
      }
      m.push_back(x);
      continue;
    }
    const F2CLineString l = gn::lineString(g, 2, 5);
    Model x = modelOf(l);
    if (g.chance(1, 6)) {
      s.emplace_back(l);
    } else {
      x.w = g.real(0.1, 12);
      x.id = (int)g.integer(-3, 40);
      x.type = g.chance(1, 3) ? SwathType::HEADLAND : SwathType::MAINLAND;
      s.emplace_back(l, x.w, x.id, x.type);
    }
    m.push_back(x);
  }
  for (size_t i = 0; i < n; ++i) { same(s[i], m[i], "construction"); }
  size_t moved = 0;
  for (size_t k = g.size(1, 14); k-- > 0;) {
    const size_t i = g.below(n), j = g.below(n);
    std::ostringstream o;
    switch (g.weighted({4, 3, 3, 1, 1, 1, 1, 1, 2, 2, 2, 2})) {
      case 0:
        o << "reverse " << i;
        s[i].reverse();
        m[i].reverse();
        ++moved;
        break;
      case 1: {
        o << "align " << i << " with " << j;
        const bool d = m[i].dir != m[j].dir;
        CHECK_EQ(s[i].hasSameDir(s[j]), !d, "hasSameDir");
        s[i].targetSameDirAs(s[j]);
        if (d) { m[i].reverse(); ++moved; }
        CHECK(s[i].hasSameDir(s[j]), " not aligned");
        break;
      }
      case 2: {
        if (i == j) { continue; }
        o << "align " << i << " against " << j;
        const bool d = m[i].dir == m[j].dir;
        s[i].targetOppositeDirAs(s[j]);
        if (d) { m[i].reverse(); ++moved; }
        CHECK(!s[i].hasSameDir(s[j]), " not opposite");
        break;
      }
      case 3: m[i].id = (int)g.integer(-9, 99); s[i].setId(m[i].id); o << "setId"; break;
      case 4: m[i].w = g.real(0.01, 30); s[i].setWidth(m[i].w); o << "setWidth"; break;
      case 5: {
        o << "setWidth to a wrong value";
        const double w = -g.real(0, 5);
        CHECK_THROWS(s[i].setWidth(w), "a width that is not positive");
        CHECK_THROWS(F2CSwath{w}, "a width that is not positive");
        CHECK_THROWS(F2CSwath(s[i].getPath(), w), "a width that is not positive");
        break;
      }
      case 6:
        m[i].type = g.boolean() ? SwathType::HEADLAND : SwathType::MAINLAND;
        s[i].setType(m[i].type);
        o << "setType";
        break;
      case 7: m[i].dir = g.boolean(); s[i].setCreationDir(m[i].dir); o << "setCreationDir"; break;
      case 8: {
        const F2CPoint p = gn::point(g);
        o << "move " << i;
        s[i].moveTo(p);
        for (auto&& q : m[i].p) { q.x += p.getX(); q.y += p.getY(); q.z += p.getZ(); }
        break;
      }
      case 9: {
        o << "clone of " << i << " reversed";
        F2CSwath c = s[i].clone();
        Model x = m[i];
        same(c, x, o.str());
        c.reverse();
        x.reverse();
        c.setId(x.id = 77);
        same(c, x, o.str());
        break;
      }
      case 10: {
        o << i << " := clone of " << j;
        s[i] = s[j].clone();
        m[i] = m[j];
        break;
      }
      default: {
        o << "setPath " << i;
        const F2CLineString l = gn::lineString(g, 2, 5);
        s[i].setPath(l);
        m[i].p = modelOf(l).p;
      }
    }
    g.note(o.str());
    for (size_t q = 0; q < n; ++q) { same(s[q], m[q], o.str()); }
  }
  if (moved >= 2 && n > 1) { g.nontrivial(); }
}
// Track of canonical direction: what the comparison operators look at.
bool alike(const Model& a, const Model& b, bool* unsure) {
  std::vector<P3> p = a.p, q = b.p;
  if (!a.dir) { std::reverse(p.begin(), p.end()); }
  if (!b.dir) { std::reverse(q.begin(), q.end()); }
  if (a.w != b.w) { return false; }
  if (p.front().x != q.front().x || p.front().y != q.front().y) { return false; }
  if (p.back().x != q.back().x || p.back().y != q.back().y) { return false; }
  const double d = std::fabs(a.length() - b.length());
  double k = 1;
  for (auto&& v : p) { k = std::max(k, std::fabs(v.x) + std::fabs(v.y)); }
  *unsure = (d > 1e-13 * k && d < 1e-5) || 1e-15 * k > 1e-8;
  return d <= 1e-13 * k;
}
// Comparison operators on swaths that differ in one thing, or in nothing.
void compare(Gen& g) {
  std::vector<F2CSwath> s;
  std::vector<Model> m;
  auto add = [&] (const Model& x) {
    F2CLineString l;
    for (auto&& q : x.p) { l.addPoint(F2CPoint(q.x, q.y, q.z)); }
    F2CSwath y(l, x.w, x.id, x.type);
    y.setCreationDir(x.dir);
    s.push_back(y);
    m.push_back(x);
  };
  Model b = modelOf(gn::lineString(g, 2, 5));
  b.w = g.real(0.1, 12);
  b.id = (int)g.integer(0, 3);
  add(b);
  for (size_t k = g.size(1, 5); k-- > 0;) {
    Model x = m[g.below(m.size())];
    switch (g.below(9)) {
      case 0: break;
      case 1: x.reverse(); break;
      case 7: {  // same ends, another way
        const P3 a = x.p.front(), b = x.p.back();
        const double d = g.real(0.01, 5);
        x.p = {a, {(a.x + b.x) / 2 + d * (b.y - a.y), (a.y + b.y) / 2 - d * (b.x - a.x), 0}, b};
        break;
      }
      case 2: x.p.back().x += g.real(0.1, 9); break;
      case 3: x.p.front().y -= g.real(0.1, 9); break;
      case 4: x.w += 1; break;
      case 5: x.id = (int)g.integer(0, 3); break;
      case 6: {  // the other end on the same circle: same length, same start
        const double a = g.angle(1);
        const double d = x.length();
        x.p = {x.p[0], {x.p[0].x + d * std::cos(a), x.p[0].y + d * std::sin(a), 0}};
        break;
      }
      default: x.type = SwathType::HEADLAND;
    }
    add(x);
  }
  size_t eq = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    for (size_t j = 0; j < s.size(); ++j) {
      bool unsure = false;
      const bool e = alike(m[i], m[j], &unsure);
      const F2CSwath &x = s[i], &y = s[j];
      std::ostringstream o;
      o << " swaths " << i << " and " << j << " of";
      for (auto&& q : m) {
        o << " (id " << q.id << " w " << q.w << " dir " << q.dir << ":";
        for (auto&& p : q.p) { o << " " << p.x << "," << p.y; }
        o << ")";
      }
      CHECK((x == y) != (x != y), o.str(), ": == and != agree");
      CHECK_EQ(x == y, y == x, "symmetry of ==:", o.str());
      if (!unsure) { CHECK_EQ(x == y, e, "equality of", o.str()); }
      CHECK_EQ(x < y, m[i].id < m[j].id, "order of", o.str());
      CHECK_EQ(x > y, m[i].id > m[j].id, "order of", o.str());
      CHECK_EQ(x <= y, m[i].id < m[j].id || (m[i].id == m[j].id && x == y), "<=", o.str());
      CHECK_EQ(x >= y, m[i].id > m[j].id || (m[i].id == m[j].id && x == y), ">=", o.str());
      if (i != j && e) { ++eq; }
    }
  }
  if (eq > 0 && eq < s.size() * (s.size() - 1)) { g.nontrivial(); }
}
// The covered area is the strip along the path.
void covered(Gen& g) {
  std::vector<V> l;
  const double w = g.real(0.2, 12);
  const bool wavy = g.chance(1, 3);   // many points, hardly off a line
  const size_t n = wavy ? g.size(4, 12) : g.weighted({3, 3, 1}) + 2;
  V p(g.real(-80, 80), g.real(-80, 80));
  if (g.chance(1, 4)) { p = p + V(5e5, 4e6); }
  double a = g.angle(1);
  const double a0 = a, swing = wavy ? g.logReal(1e-3, 0.3) : 0;
  l.push_back(p);
  for (size_t i = 1; i < n; ++i) {
    const double d = g.uniform(2.0, 12) * w;
    p = p + V(std::cos(a), std::sin(a)) * d;
    l.push_back(p);
    // gentle turns: strips meet in a small mitre
    a = wavy ? a0 + g.uniform(-swing, swing) : a + g.uniform(-0.7, 0.7);
  }
  F2CLineString ls;
  for (auto&& q : l) { ls.addPoint(q.x, q.y); }
  F2CSwath s(ls, w);
  g.note("width ", w, " along ", l.size(), " points, length ", fx::lineLength(l));
  const F2CCells c = s.areaCovered();
  const Multi m = fx::multi(c);
  CHECK_EQ(m.size(), 1u, "pieces of the covered area");
  CHECK_NEAR(s.area(), area(m), 1e-9 * (1 + area(m)), "area()");
  const double k = norm(l[0]) + diam(m);
  const double eps = 1e-9 * (1 + k);
  double A = fx::lineLength(l) * w;
  for (size_t i = 1; i + 1 < l.size(); ++i) {
    // inner overlap and outer mitre of a bend: both (w/2)^2 tan(turn/2)
    A += 0;
  }
  CHECK_NEAR(area(m), A, 1e-6 * A, "area of the strip");
  for (size_t q = 0; q < 40; ++q) {
    const size_t i = g.below(l.size() - 1);
    const V u = l[i], v = l[i + 1];
    const V d = (v - u) * (1 / dist(u, v)), nn(-d.y, d.x);
    const double t = g.uniform(-0.3, 1.3), h = g.uniform(-1.2, 1.2) * w;
    const V x = u + (v - u) * t + nn * h;
    // inside some segment's rectangle, or clearly outside of all of them and
    // of every bend's mitre
    bool in = false, near = false;
    for (size_t r = 0; r + 1 < l.size(); ++r) {
      const double L = dist(l[r], l[r + 1]);
      const V e = (l[r + 1] - l[r]) * (1 / L);
      const double al = dot(x - l[r], e), ac = std::fabs(cross(e, x - l[r]));
      if (al > eps && al < L - eps && ac < w / 2 - eps) { in = true; }
      if (al > -eps && al < L + eps && ac < w / 2 + eps) { near = true; }
      if (r > 0 && dist(x, l[r]) < 0.6 * w) { near = true; }
    }
    if (!in && near) { continue; }
    CHECK_EQ(inside(x, m), in, "point ", x.x, ",", x.y, " in the covered area");
  }
  // ... and its part in a region.
  ShapeOpt o;
  o.max_vertices = 7;
  Multi reg = genMulti(g, 2, o);
  const V ctr = l[l.size() / 2];
  const Box b = box(reg);
  const V sh = ctr - V(0.5 * (b.x0 + b.x1), 0.5 * (b.y0 + b.y1)) +
    V(g.uniform(-0.5, 0.5) * (b.x1 - b.x0), g.uniform(-0.5, 0.5) * (b.y1 - b.y0));
  reg = mapMulti(reg, [&] (V q) { return q + sh; });
  const F2CCells rc = fx::cells(reg);
  reg = fx::multi(rc);
  const double want = slab::integrate({reg, m}, [] (const std::vector<slab::Ivs>& v) {
      return slab::length(slab::meet(v[0], v[1])); });
  const double tol = (1e-8 + 1e-12 * k) * (1 + diam(reg) + diam(m)) * 10;
  const F2CCells part = s.areaCovered(rc);
  CHECK_NEAR(area(fx::multi(part)), want, tol, "covered area in the region");
  CHECK_NEAR(s.area(rc), want, tol, "area(region)");
  // reversing changes nothing of it
  F2CSwath t = s.clone();
  t.reverse();
  const Multi mt = fx::multi(t.areaCovered());
  const double both = slab::integrate({m, mt}, [] (const std::vector<slab::Ivs>& v) {
      return slab::length(slab::meet(v[0], v[1])); });
  CHECK_NEAR(area(mt), area(m), tol, "area covered by the reversed swath");
  CHECK_NEAR(both, area(m), tol, "the reversed swath covers something else");
  if (want > 0.01 * area(m) && want < 0.99 * area(m)) { g.nontrivial(); }
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C17",
    "histories over two or more swaths with at least two reversals; families of "
    "swaths of which some but not all are equal; strips partly inside a region",
    {{"history", 30000, 400000, history}, {"compare", 20000, 250000, compare},
     {"covered", 4000, 60000, covered}}};
  return p;
}
