// C31: planned paths follow the swaths and the connections of the route.
#include <algorithm>
#include <cmath>
#include <vector>
#include "fields2cover/path_planning/path_planning.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "pbt.hpp"
#include "gens.hpp"

namespace {
using orc::V;
using orc::rot;
using pbt::Gen;
using pbt::Property;
typedef std::vector<V> Line;
typedef f2c::types::PathSectionType Sec;
typedef f2c::pp::PathPlanning PP;

double ang(const V& d) { return std::atan2(d.y, d.x); }
double angDiff(double a, double b) {
  return std::fabs(std::remainder(a - b, 2 * M_PI));
}

// A polyline with the headings of its sides.  The first state of every turn
// carries a speed of its own, so that the poses asked for can be found again.
const double MARK = 1000;
class Poly : public f2c::pp::TurningBase {
 public:
  size_t calls = 0;
  F2CPath createSimpleTurn(const F2CRobot& robot, double d, double a,
      double b) override {
    ++calls;
    const double L = 3 + 0.8 * d;
    const V m0(L * std::cos(a), L * std::sin(a));
    const V m1(L * std::cos(b), L * std::sin(b));
    const int n = 60;
    Line l;
    for (int i = 0; i < n; ++i) {
      const double t = static_cast<double>(i) / (n - 1), u = 1 - t;
      l.push_back(V(d * t * t * (3 - 2 * t), 0) + m0 * (t * u * u) +
          m1 * (-t * t * u));
    }
    F2CPath p;
    for (int i = 0; i < n; ++i) {
      f2c::types::PathState s;
      s.point = F2CPoint(l[i].x, l[i].y);
      s.angle = i + 1 < n ? ang(l[i + 1] - l[i]) : b;
      if (i == 0) { s.angle = a; }
      s.len = i + 1 < n ? orc::dist(l[i], l[i + 1]) : 0.0;
      s.type = Sec::TURN;
      s.velocity = i == 0 ? MARK : robot.getTurnVel();
      p.addState(s);
    }
    return p;
  }
};

// ---------------------------------------------------------------- what to plan
struct Plan {
  std::vector<std::vector<Line>> groups;
  std::vector<Line> conns;     // as many as groups, or one more
  F2CRobot robot{1.0};
};
double width(const Plan& p) { return p.robot.getWidth(); }

F2CSwath swath(const Line& l, double w, int id) {
  F2CLineString s;
  for (auto&& p : l) { s.addPoint(p.x, p.y); }
  return F2CSwath(s, w, id);
}
F2CSwaths swaths(const std::vector<Line>& g, double w) {
  F2CSwaths s;
  int id = 0;
  // How a swath was made does not matter, only where it leads now.
  for (auto&& l : g) {
    s.push_back(swath(l, w, id++));
    s.back().setCreationDir((g.size() * 7 + s.size() * 5 + l.size()) % 3 != 0);
  }
  return s;
}
F2CMultiPoint points(const Line& l) {
  F2CMultiPoint m;
  for (auto&& p : l) { m.addPoint(p.x, p.y); }
  return m;
}
F2CRoute route(Gen& g, const Plan& p) {
  F2CRoute r;
  for (size_t i = 0; i < p.groups.size(); ++i) {
    const F2CSwaths s = swaths(p.groups[i], width(p));
    switch (g.below(3)) {
      case 0:
        r.addConnectedSwaths(points(p.conns[i]), s);
        break;
      case 1: {
        r.addConnection();
        for (auto&& q : p.conns[i]) { r.addConnection(F2CPoint(q.x, q.y)); }
        for (size_t k = 0; k < s.size(); ++k) { r.addSwath(s[k]); }
        if (s.size() == 0) { r.addSwaths(); }
        break;
      }
      default: {
        std::vector<F2CPoint> v;
        for (auto&& q : p.conns[i]) { v.emplace_back(q.x, q.y); }
        r.addConnection(v);
        r.addSwaths(s);
      }
    }
  }
  if (p.conns.size() > p.groups.size()) { r.addConnection(points(p.conns.back())); }
  return r;
}

// Corners between two points.  Straight points in between are kept apart from
// real corners.
Line detour(Gen& g, const V& a, const V& b, double size) {
  Line l{a};
  double h = g.uniform(0, 2 * M_PI);
  for (size_t k = g.size(0, 6); k-- > 0;) {
    if (k % 3 != 1 || l.size() < 2 || !g.boolean()) {
      h += (g.boolean() ? 1 : -1) *
        (g.boolean() ? M_PI / 2 : g.uniform(0.15, 2.6));
    }
    if (g.chance(1, 6)) { h = std::round(h / (M_PI / 2)) * (M_PI / 2); }
    l.push_back(l.back() + rot(V(g.real(0.5, size), 0), h));
  }
  // Points along the last side too
  for (size_t k = g.below(3); k-- > 0;) {
    const V u = b - l.back();
    l.push_back(l.back() + u * 0.4);
  }
  l.push_back(b);
  return l;
}

Plan plan(Gen& g, bool small) {
  Plan p;
  p.robot = F2CRobot(g.real(0.5, 4));
  p.robot.setCruiseVel(g.grid(0.5, 5, 0.25));
  if (g.boolean()) { p.robot.setTurnVel(g.grid(0.25, 4, 0.25)); }
  p.robot.setMaxCurv(g.uniform(0.3, 3));
  p.robot.setMaxDiffCurv(g.uniform(0.2, 4));
  const double size = small ? 6 : g.chance(1, 8) ? 50 : 12;
  const double far = small || g.chance(3, 4) ? 0 : 5e5;
  const V at(far, 2 * far);
  auto point = [&] { return at + V(g.real(-size, size), g.real(-size, size)); };
  V last;
  bool has_last = false;
  auto fresh = [&] {   // apart from the last point
    V q = point();
    while (has_last && orc::dist(q, last) < 1.0) { q = q + V(1.7, 0.4); }
    return q;
  };
  const size_t n = g.size(0, small ? 3 : 4);
  for (size_t i = 0; i <= n; ++i) {
    const bool end = i == n;
    std::vector<Line> group;
    const size_t ns = end || g.chance(1, 8) ? 0 : g.size(1, 4);
    V start;
    if (ns > 0) {
      start = fresh();
      V q = start;
      for (size_t k = 0; k < ns; ++k) {
        Line l{q};
        const size_t pts = g.weighted({5, 1, 1}) + 1;
        double h = g.chance(1, 2) ? g.integer(0, 3) * M_PI / 2
                                  : g.uniform(0, 2 * M_PI);
        for (size_t e = 0; e < pts; ++e) {
          l.push_back(l.back() + rot(V(g.real(1, size), 0), h));
          h += g.uniform(-2.6, 2.6);
        }
        group.push_back(l);
        last = l.back();
        has_last = true;
        q = fresh();
      }
    }
    // how it is reached
    Line c;
    if (i == 0) { has_last = false; }
    const bool from = i > 0 && !p.groups.empty() && !p.groups.back().empty();
    V a;
    if (from) { a = p.groups.back().back().back(); } else
    if (!p.conns.empty() && !p.conns.back().empty()) { a = p.conns.back().back(); } else
    { a = ns > 0 ? start + rot(V(g.real(1.5, size), 0), g.uniform(0, 6.28)) : point(); }
    V b;
    if (ns > 0) { b = start; } else {
      b = a + rot(V(g.real(1.5, size), 0), g.uniform(0, 6.28));
    }
    switch (g.weighted({2, 2, 4, 1, 1})) {
      case 0: break;
      case 1: c = {a, b}; break;
      case 2: c = detour(g, a, b, size); break;
      case 3:   // a single point
        if (from && ns > 0) { c = {(a + b) * 0.5 + V(0.3, -0.2)}; }
        else if (ns > 0) { c = {g.boolean() ? a : b}; }
        else if (from) { c = {g.boolean() ? a : b}; }
        else { c = {b}; }
        break;
      default: {
        c = detour(g, a, b, size);
        if (from && c.size() > 2) { c.erase(c.begin()); }
        if (ns > 0 && c.size() > 2) { c.pop_back(); }
      }
    }
    // An empty group with no way to it would break the chain.
    if (!end && ns == 0 && c.size() < 2) { c = {a, b}; }
    if (i > 0 && !from && c.size() < 2 && ns > 0) { c = {a, b}; }
    if (end && g.boolean()) { break; }
    p.conns.push_back(c);
    if (end) { break; }
    p.groups.push_back(group);
    if (ns > 0) { last = group.back().back(); has_last = true; }
    else { last = c.back(); has_last = true; }
  }
  return p;
}
void notePlan(Gen& g, const Plan& p) {
  auto txt = [](const Line& l) {
    std::ostringstream o;
    o.precision(17);
    for (auto&& q : l) { o << " (" << q.x << ", " << q.y << ")"; }
    return o.str();
  };
  g.note("robot curvature ", p.robot.getMaxCurv(), " change ",
      p.robot.getMaxDiffCurv());
  for (size_t i = 0; i < p.conns.size(); ++i) {
    g.note("connection", txt(p.conns[i]));
    if (i < p.groups.size()) {
      for (auto&& l : p.groups[i]) { g.note("  swath", txt(l)); }
    }
  }
}

// ---------------------------------------------------------------- reading paths
std::string at(size_t i) { return " at state " + std::to_string(i); }

struct Walk {
  const F2CPath& p;
  size_t k = 0;
  double tol;
  void swath(const Line& l, double vel, size_t n) {
    for (size_t i = 0; i + 1 < l.size(); ++i, ++k) {
      CHECK(k < p.size(), " the path ends inside swath ", n);
      const auto& s = p[k];
      CHECK(s.type == Sec::SWATH, " no section of swath ", n, at(k));
      CHECK(orc::dist(fx::v(s.point), l[i]) <= tol, " swath ", n, at(k),
          " is driven from ", s.point.exportToWkt());
      CHECK_NEAR(s.len, orc::dist(l[i], l[i + 1]), tol, "swath ", n, at(k));
      CHECK(angDiff(s.angle, ang(l[i + 1] - l[i])) < 1e-6 + tol, " swath ", n,
          " heading ", s.angle, at(k));
      CHECK_EQ(s.velocity, vel, "speed in swath ", n, at(k));
      CHECK(s.dir == f2c::types::PathDirection::FORWARD, " swath ", n, at(k));
    }
  }
  // A run of turns from one point to another; the poses of the single turns.
  void turns(const V& a, const V& b, double end_tol, double gap,
      std::vector<std::pair<V, double>>* poses, const char* what, size_t n) {
    CHECK(k < p.size() && p[k].type == Sec::TURN, " nothing ", what, " ", n,
        at(k));
    CHECK(orc::dist(fx::v(p[k].point), a) <= tol, " ", what, " ", n,
        " starts at ", p[k].point.exportToWkt(), " and not at (", a.x, ", ",
        a.y, ")", at(k));
    V e;
    const double head_tol = gap < 1e-3 ? 1e-5 : 1.2;   // spacing rounds it
    size_t k0 = k;
    for (; k < p.size() && p[k].type == Sec::TURN; ++k) {
      const auto& s = p[k];
      if (poses && s.velocity == MARK) {
        poses->emplace_back(fx::v(s.point), s.angle);
      }
      if (k > k0) {
        const double d = orc::dist(fx::v(s.point), fx::v(p[k - 1].point));
        CHECK(d <= std::fabs(p[k - 1].len) + gap, " a gap of ", d, " in ", what,
            " ", n, at(k));
      }
      e = fx::v(s.atEnd());
    }
    CHECK(orc::dist(e, b) <= end_tol, " ", what, " ", n, " ends at (", e.x,
        ", ", e.y, ") and not at (", b.x, ", ", b.y, ")");
    // It leaves and reaches swaths along their last and first sides.
    if (k0 > 0 && p[k0 - 1].type == Sec::SWATH) {
      CHECK(angDiff(p[k0].angle, p[k0 - 1].angle) < head_tol, " ", what, " ",
          n, " leaves heading ", p[k0].angle, " a swath heading ",
          p[k0 - 1].angle, at(k0));
    }
    if (k < p.size() && p[k].type == Sec::SWATH) {
      CHECK(angDiff(p[k - 1].angle, p[k].angle) < head_tol, " ", what, " ",
          n, " arrives heading ", p[k - 1].angle, " at a swath heading ",
          p[k].angle, at(k));
    }
  }
};

// The poses asked for between the ends of a connection are on it, in order.
void onConnection(const Line& c, const std::vector<std::pair<V, double>>& poses,
    double tol, size_t n) {
  double done = 0;
  for (size_t i = 1; i < poses.size(); ++i) {
    double s = 0, best = INFINITY;
    for (size_t k = 0; k + 1 < c.size(); ++k) {
      const V u = c[k + 1] - c[k];
      const double L = orc::norm(u);
      if (L < 1e-9) { continue; }
      const V w = poses[i].first - c[k];
      const double t = (w.x * u.x + w.y * u.y) / L;
      const double off = std::fabs(orc::cross(u, w)) / L;
      if (off <= tol && t >= -tol && t <= L + tol && s + t >= done - tol &&
          angDiff(ang(u), poses[i].second) < 1e-3 + tol / L) {
        best = std::min(best, s + t);
      }
      s += L;
    }
    CHECK(best < INFINITY, " pose ", i, " (", poses[i].first.x, ", ",
        poses[i].first.y, ") heading ", poses[i].second,
        " is not on connection ", n, " after the poses before it");
    done = best;
  }
}
// Only real corners and straight points
bool clearCorners(const Line& c) {
  for (size_t k = 0; k + 1 < c.size(); ++k) {
    if (orc::dist(c[k], c[k + 1]) < 1e-6) { return false; }
    if (k + 2 < c.size()) {
      const double t = angDiff(ang(c[k + 1] - c[k]), ang(c[k + 2] - c[k + 1]));
      if (t > 1e-6 && t < 0.11) { return false; }
    }
  }
  return true;
}

void follow(Gen& g, const Plan& p, const F2CPath& path, bool marked) {
  double scale = 1;
  for (auto&& c : p.conns) { for (auto&& q : c) { scale = std::max(scale, std::fabs(q.x) + std::fabs(q.y)); } }
  for (auto&& c : p.groups) { for (auto&& l : c) { scale = std::max(scale, std::fabs(l[0].x) + std::fabs(l[0].y)); } }
  Walk w{path, 0, 1e-6 + 1e-11 * scale};
  V at;
  bool has = false;
  const double vel = p.robot.getCruiseVel();
  size_t corners = 0, pending = 0;
  V first;
  for (size_t i = 0; i < p.conns.size(); ++i) {
    const Line& c = p.conns[i];
    const bool more = i < p.groups.size() && !p.groups[i].empty();
    const bool after = i > 0 && !p.groups[i - 1].empty();
    V a = at, b;
    bool known = has;
    if (!has && !c.empty()) { a = c[0]; known = true; }
    bool to = true;
    if (more) { b = p.groups[i][0][0]; } else if (!c.empty()) { b = c.back(); }
    else { to = false; }
    // Nothing to drive: no way asked for, or already there.
    const bool idle = !known || !to || orc::dist(a, b) < 1e-9 ||
      (!after && c.empty()) || (!after && !more && c.size() < 2);
    if (!idle) {
      if (pending == 0) { first = a; }
      ++pending;
      at = b;
      has = true;
    }
    // Connections that follow each other are driven without a break.
    if (pending > 0 && (more || i + 1 == p.conns.size())) {
      std::vector<std::pair<V, double>> poses;
      w.turns(first, at, w.tol + (marked ? 0 : 0.06), marked ? 1e-6 : 0.06,
          &poses, "connection", i);
      if (marked) {
        CHECK(poses.size() >= pending, " only ", poses.size(), " turns for ",
            pending, " connections");
        if (pending == 1 && !idle && clearCorners(c)) {
          onConnection(c, poses, 1e-3, i);
          corners += poses.size() - 1;
        }
      }
      pending = 0;
    }
    if (!more) { continue; }
    for (size_t k = 0; k < p.groups[i].size(); ++k) {
      const Line& l = p.groups[i][k];
      if (k > 0) {
        w.turns(at, l[0], marked ? 0.5 : 0.15, 0.1, nullptr, "turn to swath", k);
      }
      w.swath(l, vel, k);
      at = l.back();
      has = true;
      CHECK(orc::dist(fx::v(path[w.k - 1].atEnd()), at) <= w.tol, " swath ", k,
          " of group ", i, " ends elsewhere");
    }
  }
  CHECK_EQ(w.k, path.size(), "the path goes on after the route");
  if (corners > 0) { g.label("corners"); }
}

gn::Snap pathSnap(const F2CPath& p) {
  gn::Snap s;
  s.tag(std::to_string(p.size()));
  for (auto&& x : p) {
    gn::snap(&s, x.point);
    s.add(x.angle);
    s.add(x.len);
    s.add(x.velocity);
    s.tag(std::to_string(static_cast<int>(x.dir)) + "/" +
        std::to_string(static_cast<int>(x.type)));
  }
  return s;
}

// ----------------------------------------------------------------------- facets
void routes(Gen& g) {
  const Plan p = plan(g, false);
  notePlan(g, p);
  const F2CRoute r = route(g, p);
  CHECK_EQ(r.sizeConnections(), p.conns.size());
  CHECK_EQ(r.sizeVectorSwaths(), p.groups.size());
  gn::Snap before, after;
  gn::snap(&before, r);
  Poly t;
  t.setUsingCache(g.boolean());
  const bool cached = t.getUsingCache();
  const F2CPath path = PP::planPath(p.robot, r, t);
  CHECK_EQ(t.getUsingCache(), cached, "cache setting of the turn planner");
  gn::snap(&after, r);
  std::string why;
  CHECK(gn::same(before, after, 0, &why), " planning changed the route: ", why);
  follow(g, p, path, true);
  Poly t2;
  t2.setUsingCache(t.getUsingCache());
  CHECK(gn::same(pathSnap(path), pathSnap(PP::planPath(p.robot, r, t2)),
        0, &why), " planned again: ", why);
  size_t n = 0;
  for (auto&& x : p.groups) { n += x.size(); }
  if (n > 1) { g.nontrivial(); }
}

void dubins(Gen& g) {
  Plan p = plan(g, true);
  notePlan(g, p);
  const F2CRoute r = route(g, p);
  f2c::pp::DubinsCurves t;
  t.setDiscretization(0.02);
  t.setUsingCache(g.boolean());
  const F2CPath path = PP::planPath(p.robot, r, t);
  follow(g, p, path, false);
  size_t n = 0;
  for (auto&& s : path) {
    if (s.type == Sec::TURN) {
      CHECK_NEAR(s.velocity, p.robot.getTurnVel(), 1e-9, "speed of a turn");
    }
  }
  for (auto&& x : p.groups) { n += x.size(); }
  if (n > 1) { g.nontrivial(); }
}

void lists(Gen& g) {
  Plan p = plan(g, g.boolean());
  std::vector<Line> all;
  for (auto&& x : p.groups) { all.insert(all.end(), x.begin(), x.end()); }
  p.groups = {all};
  p.conns = {{}};
  for (size_t i = 1; i < all.size(); ++i) {
    pbt::discardIf(orc::dist(all[i - 1].back(), all[i][0]) < 0.5);
  }
  notePlan(g, p);
  const F2CSwaths s = swaths(all, width(p));
  gn::Snap before, after;
  gn::snap(&before, s);
  Poly t;
  const bool cached = g.boolean();
  t.setUsingCache(cached);
  const F2CPath path = PP::planPath(p.robot, s, t);
  CHECK_EQ(t.getUsingCache(), cached, "cache setting of the turn planner");
  gn::snap(&after, s);
  std::string why;
  CHECK(gn::same(before, after, 0, &why), " planning changed the swaths: ", why);
  follow(g, p, path, true);
  if (all.size() < 2) { CHECK_EQ(t.calls, 0u, "turns of one swath"); }
  // A route of the same swaths without connections is the same path.
  F2CRoute r;
  if (!all.empty()) {
    r.addSwaths(s);
    Poly t2;
    t2.setUsingCache(cached);
    CHECK(gn::same(pathSnap(path), pathSnap(PP::planPath(p.robot, r, t2)), 0,
          &why), " as a route: ", why);
  }
  if (all.size() > 1) { g.nontrivial(); }
}

// A connection given by its two ends
void single(Gen& g) {
  Plan p = plan(g, false);
  const V a(g.real(-40, 40), g.real(-40, 40));
  const V b = a + rot(V(g.real(1, 150), 0), g.uniform(0, 6.28));
  const double aa = g.angle(1), ab = g.angle(1);
  Line c;
  if (g.chance(5, 6)) { c = detour(g, a, b, 60); }
  p.groups.clear();
  p.conns = {c};
  notePlan(g, p);
  g.note("from (", a.x, ", ", a.y, ") heading ", aa, " to (", b.x, ", ", b.y,
      ") heading ", ab);
  Poly t;
  t.setUsingCache(false);
  const F2CPath path = PP::planPathForConnection(p.robot, fx::pt(a), aa,
      points(c), fx::pt(b), ab, t);
  Walk w{path, 0, 1e-6};
  std::vector<std::pair<V, double>> poses;
  w.turns(a, b, 1e-6, 1e-6, &poses, "connection", 0);
  CHECK_EQ(w.k, path.size());
  CHECK_EQ(poses.size(), t.calls, "turns made");
  CHECK(angDiff(poses[0].second, aa) < 1e-6, " leaves heading ",
      poses[0].second);
  CHECK(angDiff(path.back().angle, ab) < 1e-6, " arrives heading ",
      path.back().angle);
  if (clearCorners(c)) { onConnection(c, poses, 1e-3, 0); }
  for (size_t i = 1; i < poses.size(); ++i) {
    CHECK(orc::dist(poses[i].first, poses[i - 1].first) > 1e-3,
        " poses on top of each other");
  }
  if (poses.size() > 1) { g.nontrivial(); }
}

// A route that is moved, turned or mirrored gives the path that is.
void moved(Gen& g) {
  Plan p = plan(g, false);
  const double th = g.angle(1);
  const V off(g.real(-300, 300), g.real(-300, 300));
  const double m = g.boolean() ? -1 : 1;
  auto mv = [&](V q) { return rot(V(q.x, m * q.y), th) + off; };
  Plan q = p;
  for (auto&& c : q.conns) { for (auto&& x : c) { x = mv(x); } }
  for (auto&& s : q.groups) { for (auto&& l : s) { for (auto&& x : l) { x = mv(x); } } }
  for (auto&& c : p.conns) { pbt::discardIf(!clearCorners(c)); }
  notePlan(g, p);
  g.note("turned by ", th, " mirrored ", m, " moved by (", off.x, ", ", off.y, ")");
  Poly t1, t2;
  t1.setUsingCache(false);
  t2.setUsingCache(false);
  const F2CPath x = PP::planPath(p.robot, route(g, p), t1);
  const F2CPath y = PP::planPath(q.robot, route(g, q), t2);
  CHECK_EQ(t1.calls, t2.calls, "turns of the moved route");
  double scale = 1;
  for (auto&& s : x) { scale = std::max(scale, std::fabs(s.point.getX()) + std::fabs(s.point.getY())); }
  const double tol = 1e-6 + 1e-10 * scale;
  // Section by section; between, only the length, as spacing is rounded.
  size_t i = 0, k = 0;
  while (i < x.size() || k < y.size()) {
    CHECK(i < x.size() && k < y.size(), " one of the paths ends before");
    CHECK(x[i].type == y[k].type, " sections differ", at(i));
    CHECK(orc::dist(mv(fx::v(x[i].point)), fx::v(y[k].point)) <= tol,
        " the moved path is at ", y[k].point.exportToWkt(), at(k));
    CHECK(angDiff(m * x[i].angle + th, y[k].angle) <
        (x[i].type == Sec::SWATH ? 1e-6 + tol : 0.1), " heading ", y[k].angle,
        " instead of ", m * x[i].angle + th, at(k));
    if (x[i].type == Sec::SWATH) { ++i; ++k; continue; }
    CHECK_EQ(x[i].velocity == MARK, y[k].velocity == MARK, at(k));
    double lx = 0, ly = 0;
    auto run = [](const F2CPath& z, size_t& j, double& l) {
      // (spacing may cut the first stretch of a turn into several)
      do { l += z[j].len; ++j; } while (j < z.size() && z[j].type == Sec::TURN &&
          (z[j].velocity != MARK || z[j - 1].velocity == MARK));
    };
    run(x, i, lx);
    run(y, k, ly);
    CHECK_NEAR(ly, lx, tol + 1e-3 * lx + 0.1, "length of a turn", at(k));
  }
  if (t1.calls > 1) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C31",
    "routes of up to four groups of straight and bent swaths joined by empty, "
    "one-point, straight and cornered connections, swath lists, single "
    "connections, robots with any curvature limits; non-trivial: two swaths, a "
    "corner that is followed, or two turns",
    {{"routes", 600, 15000, routes}, {"lists", 300, 6000, lists},
     {"single", 2000, 50000, single}, {"moved", 400, 8000, moved},
     {"dubins", 300, 4000, dubins}}};
  return p;
}
