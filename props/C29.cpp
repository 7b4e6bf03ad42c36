// C29: turns do not depend on where they are made, nor on earlier turns.
#include <algorithm>
#include <array>
#include <cmath>
#include <vector>
#include "fields2cover/path_planning/turning_base.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
#include <steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp>
#include "pbt.hpp"
#include "f2c.hpp"

using orc::V;
using pbt::Gen;
using pbt::Property;
static const double PI = M_PI;

static double mod2pi(double a) {
  a = std::fmod(a, 2 * PI);
  return a < 0 ? a + 2 * PI : a;
}
static double angDiff(double a, double b) {
  const double d = mod2pi(a - b);
  return std::min(d, 2 * PI - d);
}
using orc::rot;

struct St { V p; double ang, len; int dir; };

// ---------------------------------------------------------------- a generator
// A cubic between the two poses: it turns with the poses, mirrors with them,
// and depends smoothly on everything it is given.
static int samples(double disc) {
  return 2 + static_cast<int>(std::floor(0.2 / disc + 1e-9));
}
static double swing = 1;   // how far the cubic bends away from its chord
static double pull(double curv, double dcurv, double d) {
  return swing * (1 + 0.5 * d + curv + 2 * dcurv);
}
static std::vector<St> cubic(const V& a, double ta, const V& b, double tb,
    double curv, double dcurv, double disc) {
  const double L = pull(curv, dcurv, orc::dist(a, b));
  const int n = samples(disc);
  const V m0(L * std::cos(ta), L * std::sin(ta));
  const V m1(L * std::cos(tb), L * std::sin(tb));
  std::vector<St> r;
  for (int i = 0; i < n; ++i) {
    const double t = static_cast<double>(i) / (n - 1), u = 1 - t;
    const double h0 = (1 + 2 * t) * u * u, h1 = t * u * u;
    const double h2 = t * t * (3 - 2 * t), h3 = -t * t * u;
    St s;
    s.p = V(a.x + h2 * (b.x - a.x) + h1 * m0.x + h3 * m1.x,
            a.y + h2 * (b.y - a.y) + h1 * m0.y + h3 * m1.y);
    (void)h0;
    // a heading that mirrors and turns with the poses, smooth in them
    s.ang = ta + t * (std::remainder(tb - ta, 2 * PI)) ;
    s.dir = (i * 3 < n) ? 1 : -1;
    s.len = 0;
    r.push_back(s);
  }
  for (int i = 0; i + 1 < n; ++i) { r[i].len = orc::dist(r[i].p, r[i + 1].p); }
  return r;
}

struct Call { double d, a, b; };

class Cubic : public f2c::pp::TurningBase {
 public:
  std::vector<Call> calls;
  double off_x0 = 0, off_y0 = 0, off_x1 = 0, off_y1 = 0;
  double min_dist = -1;   // shorter turns cannot be made
  int stub_states = 0;    // what is then returned
  F2CPath createSimpleTurn(const F2CRobot& robot, double d, double a,
      double b) override {
    calls.push_back({d, a, b});
    F2CPath p;
    auto c = cubic(V(0, 0), a, V(d, 0), b, robot.getMaxCurv(),
        robot.getMaxDiffCurv(), this->discretization);
    if (d < min_dist) { c.resize(static_cast<size_t>(stub_states)); }
    for (size_t i = 0; i < c.size(); ++i) {
      f2c::types::PathState s;
      s.point = F2CPoint(c[i].p.x, c[i].p.y);
      if (i == 0) { s.point = F2CPoint(c[i].p.x + off_x0, c[i].p.y + off_y0); }
      if (i + 1 == c.size()) {
        s.point = F2CPoint(c[i].p.x + off_x1, c[i].p.y + off_y1);
      }
      s.angle = mod2pi(c[i].ang);
      s.len = c[i].len;
      s.dir = c[i].dir > 0 ? f2c::types::PathDirection::FORWARD
                           : f2c::types::PathDirection::BACKWARD;
      s.type = f2c::types::PathSectionType::TURN;
      s.velocity = robot.getTurnVel();
      p.addState(s);
    }
    return p;
  }
};

// ------------------------------------------------------------------ generators
struct Pose { V p; double a; };
static V anyPoint(Gen& g) {
  switch (g.weighted({4, 3, 1})) {
    case 0: return V(g.real(-20, 20), g.real(-20, 20));
    case 1: return V(g.real(-2000, 2000), g.real(-2000, 2000));
    default: return V(700000 + g.real(-500, 500), 5800000 + g.real(-500, 500));
  }
}
static void anyPoses(Gen& g, Pose& a, Pose& b, double lo = 0.02) {
  a.p = anyPoint(g);
  a.a = g.angle(2);
  const double d = g.chance(1, 5) ? g.logReal(lo, 1.0) : g.real(lo, 60);
  switch (g.weighted({3, 2, 3})) {
    case 0: {  // a headland turn: opposite headings, roughly across
      const double side = g.boolean() ? PI / 2 : -PI / 2;
      const double sk = g.chance(1, 2) ? 0.0 : g.real(-1.2, 1.2);
      b.p = a.p + rot(V(d, 0), a.a + side + sk);
      b.a = a.a + PI + (g.chance(1, 3) ? g.real(-0.5, 0.5) : 0.0);
      break;
    }
    case 1:
      b.p = a.p + V(g.boolean() ? d : -d, 0);
      if (g.boolean()) { b.p = a.p + V(0, g.boolean() ? d : -d); }
      b.a = g.angle(2);
      break;
    default:
      b.p = a.p + rot(V(d, 0), g.uniform(0, 2 * PI));
      b.a = g.angle(2);
  }
}
static F2CRobot anyRobot(Gen& g) {
  F2CRobot r(g.real(1, 6));
  r.setCruiseVel(g.grid(0.25, 4, 0.25));
  r.setMaxCurv(static_cast<double>(g.integer(4, 200)) / 100 + 0.0005);
  r.setMaxDiffCurv(static_cast<double>(g.integer(2, 100)) / 50 + 0.0005);
  if (g.chance(2, 3)) { r.setTurnVel(g.grid(0.25, 4, 0.25)); }
  return r;
}
static double anyDisc(Gen& g) {
  static const std::vector<double> D = {0.01, 0.02, 0.04, 0.1, 0.005, 0.2};
  return g.pick(D);
}
static void noteTurn(Gen& g, const Pose& a, const Pose& b, const F2CRobot& r) {
  g.note("turn from (", a.p.x, ", ", a.p.y, ") heading ", a.a, " to (", b.p.x,
      ", ", b.p.y, ") heading ", b.a, ", robot max curvature ", r.getMaxCurv(),
      " change ", r.getMaxDiffCurv(), " turn speed ", r.getTurnVel());
}

static void compare(const F2CPath& p, const std::vector<St>& want, double vel,
    double tol, double atol, const char* what) {
  CHECK_EQ(p.size(), want.size(), what);
  for (size_t i = 0; i < p.size(); ++i) {
    const auto& s = p[i];
    CHECK(std::isfinite(s.angle) && std::isfinite(s.len), what, " state ", i);
    CHECK_NEAR(s.point.getX(), want[i].p.x, tol, what, " state ", i);
    CHECK_NEAR(s.point.getY(), want[i].p.y, tol, what, " state ", i);
    CHECK(angDiff(s.angle, want[i].ang) <= atol, what, " state ", i, " heads ",
        s.angle, " instead of ", want[i].ang);
    CHECK_NEAR(s.len, want[i].len, tol, what, " state ", i);
    CHECK_EQ(s.velocity, vel, what, " state ", i);
    CHECK(static_cast<int>(s.dir) == want[i].dir, what, " direction of state ",
        i);
    CHECK(s.type == f2c::types::PathSectionType::TURN, what, " type of ", i);
  }
}

// --------------------------------------------------- turns are placed correctly
static void placed(Gen& g) {
  Pose a, b;
  swing = g.chance(1, 5) ? 1e-3 : 1;
  anyPoses(g, a, b);
  F2CRobot robot = anyRobot(g);
  Cubic t;
  const double disc = anyDisc(g);
  t.setDiscretization(disc);
  CHECK_EQ(t.getDiscretization(), disc);
  const bool cached = g.boolean();
  t.setUsingCache(cached);
  CHECK_EQ(t.getUsingCache(), cached);
  noteTurn(g, a, b, robot);
  const double chord = orc::dist(a.p, b.p);
  const double dir = std::atan2(b.p.y - a.p.y, b.p.x - a.p.x);
  const double rel = mod2pi(a.a - dir);
  // Which side the turn starts to; undecided next to the chord itself.
  const bool edge = angDiff(rel, 0) < 1e-6 || angDiff(rel, PI) < 1e-6;
  const double side = rel > PI ? -1 : 1;
  const bool off = !edge && g.chance(1, 3);
  if (off) {
    // The generator misses the poses by a little or by more than allowed.
    auto miss = [&](double& x, double& y) {
      double r = g.boolean() ? g.uniform(0.0, 0.048) : g.uniform(0.052, 0.3);
      double th = g.uniform(0, 2 * PI);
      x = r * std::cos(th);
      y = r * std::sin(th);
    };
    if (g.boolean()) { miss(t.off_x0, t.off_y0); }
    if (g.boolean()) { miss(t.off_x1, t.off_y1); }
    g.note("the generator misses the start by (", t.off_x0, ", ", t.off_y0,
        ") and the end by (", t.off_x1, ", ", t.off_y1, ")");
  }
  if (g.chance(1, 8)) {
    t.min_dist = g.boolean() ? chord + 1 : chord * 0.5;
    t.stub_states = static_cast<int>(g.below(2));
  }
  F2CPath p = t.createTurn(robot, fx::pt(a.p), a.a, fx::pt(b.p), b.a);
  // What the generator was asked: the same turn, laid on the x axis.
  CHECK_EQ(t.calls.size(), 1u);
  const Call c = t.calls[0];
  CHECK_NEAR(c.d, chord, 1e-9 * (1 + chord), "distance asked for");
  CHECK(c.a >= -1e-12 && c.a <= PI + 1e-9, " start angle asked for: ", c.a);
  CHECK(c.b >= -1e-12 && c.b <= 2 * PI + 1e-9, " end angle: ", c.b);
  const double scale = std::fabs(a.p.x) + std::fabs(a.p.y) + 1;
  const double da = 1e-14 * scale / chord + 1e-9;
  CHECK(angDiff(c.a, side * rel) <= da || (edge && angDiff(c.a, -side * rel) <= da),
      " start angle asked for ", c.a, " to the chord at ", rel);
  if (!edge) {
    CHECK(angDiff(c.b, side * (b.a - dir)) <= da, " end angle asked for ", c.b);
  }
  auto nt = f2c::pp::TurningBase::transformToNormalTurn(fx::pt(a.p), a.a,
      fx::pt(b.p), b.a);
  CHECK_EQ(nt.size(), 5u);
  CHECK_EQ(nt[0], c.d);
  CHECK_EQ(nt[2], c.a);
  CHECK_EQ(nt[3], c.b);
  CHECK(angDiff(nt[1], dir) <= da, " chord direction ", nt[1]);
  if (!edge) { CHECK_EQ(nt[4] != 0, side < 0); }
  if (chord < t.min_dist) {
    CHECK_EQ(p.size(), 0u, "no turn was made");
    g.label("no-turn");
    return;
  }
  auto want = cubic(a.p, a.a, b.p, b.a, robot.getMaxCurv(),
      robot.getMaxDiffCurv(), disc);
  auto missed = [&](V& q, double x, double y) {
    if (std::hypot(x, y) >= 0.05) { q = q + rot(V(x, side * y), dir); }
  };
  missed(want.front().p, t.off_x0, t.off_y0);
  missed(want.back().p, t.off_x1, t.off_y1);
  const double L = pull(robot.getMaxCurv(), robot.getMaxDiffCurv(), chord);
  const double tol = 1e-9 + 1e-12 * scale + 2 * L * da + chord * da;
  // The middle heading is undecided when the headings are opposite.
  if (std::fabs(std::fabs(std::remainder(b.a - a.a, 2 * PI)) - PI) < 1e-6) {
    // pick whichever way round the generator chose
    const double mid = p.size() > 2 ? p[p.size() / 2].angle : 0;
    const double tm = static_cast<double>(p.size() / 2) / (p.size() - 1.0);
    const double tb = std::remainder(b.a - a.a, 2 * PI);
    const double alt = tb > 0 ? tb - 2 * PI : tb + 2 * PI;
    if (angDiff(mid, a.a + tm * alt) < angDiff(mid, a.a + tm * tb)) {
      for (size_t i = 0; i < want.size(); ++i) {
        want[i].ang = a.a + alt * static_cast<double>(i) / (want.size() - 1.0);
      }
    }
    g.label("u-turn");
  }
  compare(p, want, robot.getTurnVel(), tol, 2 * da, "turn");
  for (auto&& s : p) {
    CHECK(s.angle >= -1e-12 && s.angle <= 2 * PI + 1e-12, " angle ", s.angle);
  }
  if (std::hypot(t.off_x0, t.off_y0) < 0.05) {
    CHECK(p[0].point == fx::pt(a.p), " the turn starts at ",
        p[0].point.exportToWkt());
    g.label("start-exact");
  }
  if (std::hypot(t.off_x1, t.off_y1) < 0.05) {
    CHECK(p.back().point == fx::pt(b.p), " the turn ends at ",
        p.back().point.exportToWkt());
  }
  if (side < 0) { g.label("mirrored"); }
  if (off) { g.label("missed"); }
  g.nontrivial();
}

// ------------------------------------------------------------- cache histories
static void cachedTurns(Gen& g) {
  swing = g.chance(1, 5) ? 1e-3 : 1;
  struct Want { Pose a, b; size_t robot; };
  std::vector<F2CRobot> robots;
  const size_t nr = g.size(1, 4);
  for (size_t i = 0; i < nr; ++i) {
    robots.push_back(i > 0 && g.chance(2, 3) ? robots[g.below(i)] : anyRobot(g));
    F2CRobot& r = robots.back();
    if (i > 0) {   // differs in one setting from an earlier one
      switch (g.below(4)) {
        case 0: r.setTurnVel(r.getTurnVel() + g.grid(0.25, 2, 0.25)); break;
        case 1: r.setMaxCurv(r.getMaxCurv() + g.grid(0.01, 0.5, 0.01)); break;
        case 2: r.setMaxDiffCurv(
            r.getMaxDiffCurv() + g.grid(0.01, 0.5, 0.01)); break;
        default: r.setCruiseVel(r.getCruiseVel() + 0.25);
      }
    }
  }
  Cubic t;
  if (g.boolean()) { t.setDiscretization(anyDisc(g)); }
  std::vector<Want> done;
  const size_t n = g.size(2, 14);
  size_t hits = 0;
  for (size_t i = 0; i < n; ++i) {
    Want w;
    const size_t kind = done.empty() ? 0 : g.weighted({3, 3, 3, 2, 2});
    w.robot = g.below(nr);
    bool exact = false;
    if (kind == 0) {
      anyPoses(g, w.a, w.b);
    } else {
      const Want& o = done[g.below(done.size())];
      w.a = o.a;
      w.b = o.b;
      if (kind == 1) {            // again, exactly
        exact = true;
      } else if (kind == 2) {     // again, elsewhere, maybe mirrored
        const double th = g.angle(1);
        const V off(g.real(-500, 500), g.real(-500, 500));
        const double m = g.boolean() ? -1 : 1;
        for (Pose* q : {&w.a, &w.b}) {
          q->p = rot(V(q->p.x, m * q->p.y), th) + off;
          q->a = m * q->a + th;
        }
      } else if (kind == 3) {     // almost the same turn
        const double e = g.logReal(1e-7, 0.3);
        switch (g.below(3)) {
          case 0: w.a.a += e; break;
          case 1: w.b.a -= e; break;
          default: w.b.p = w.b.p + (w.b.p - w.a.p) * e;
        }
      } else {                    // the same turn driven by another robot
        exact = true;
        w.robot = g.below(nr);
      }
      if (g.boolean()) { w.robot = o.robot; }
    }
    if (g.chance(1, 8)) { t.setDiscretization(anyDisc(g)); }
    const bool use = g.chance(9, 10);
    t.setUsingCache(use);
    const F2CRobot& r = robots[w.robot];
    noteTurn(g, w.a, w.b, r);
    g.note("  cache ", use, " spacing ", t.getDiscretization());
    const size_t before = t.calls.size();
    F2CPath p = t.createTurn(r, fx::pt(w.a.p), w.a.a, fx::pt(w.b.p), w.b.a);
    const bool hit = t.calls.size() == before;
    if (!use) { CHECK(!hit, " without the cache every turn is computed"); }
    if (hit) { ++hits; }
    if (exact && hit) { g.label("exact-repeat"); }
    if (hit && kind == 2) { g.label("hit-elsewhere"); }
    if (hit && kind == 3) { g.label("hit-near"); }
    const double chord = orc::dist(w.a.p, w.b.p);
    auto want = cubic(w.a.p, w.a.a, w.b.p, w.b.a, r.getMaxCurv(),
        r.getMaxDiffCurv(), t.getDiscretization());
    // One thousandth in each of the arguments, when the turn is looked up.
    const double L = pull(r.getMaxCurv(), r.getMaxDiffCurv(), chord);
    const double e = (hit ? 1.01e-3 : 1e-8);
    const double tol = 2 * L * e + 6 * e;
    CHECK_EQ(p.size(), want.size(), "turn ", i);
    const double tb = std::remainder(w.b.a - w.a.a, 2 * PI);
    const bool uturn = std::fabs(std::fabs(tb) - PI) < 3e-3;
    for (size_t k = 0; k < p.size(); ++k) {
      const auto& s = p[k];
      CHECK_NEAR(s.point.getX(), want[k].p.x, tol, "turn ", i, " state ", k);
      CHECK_NEAR(s.point.getY(), want[k].p.y, tol, "turn ", i, " state ", k);
      const double alt = want[k].ang - (tb > 0 ? 2 * PI : -2 * PI) *
        static_cast<double>(k) / (want.size() - 1.0);
      CHECK(angDiff(s.angle, want[k].ang) <= 4 * e ||
          (uturn && angDiff(s.angle, alt) <= 4 * e), "turn ", i, " state ", k,
          " heads ", s.angle, " instead of ", want[k].ang);
      CHECK_NEAR(s.len, want[k].len, 2 * tol, "turn ", i, " state ", k);
      CHECK_EQ(s.velocity, r.getTurnVel(), "turn ", i, " state ", k);
      CHECK(static_cast<int>(s.dir) == want[k].dir, "turn ", i, " state ", k);
      CHECK(s.type == f2c::types::PathSectionType::TURN, "turn ", i);
    }
    CHECK(p[0].point == fx::pt(w.a.p), " turn ", i, " starts elsewhere");
    CHECK(p.back().point == fx::pt(w.b.p), " turn ", i, " ends elsewhere");
    // At once again: the same turn, and nothing is computed with the cache.
    if (g.chance(1, 3)) {
      const size_t c0 = t.calls.size();
      F2CPath q = t.createTurn(r, fx::pt(w.a.p), w.a.a, fx::pt(w.b.p), w.b.a);
      CHECK_EQ(t.calls.size() - c0, use ? 0u : 1u, "turn ", i, " again");
      CHECK_EQ(q.size(), p.size());
      for (size_t k = 0; k < p.size(); ++k) {
        if (use) {
          CHECK(q[k].point == p[k].point && q[k].angle == p[k].angle &&
              q[k].len == p[k].len && q[k].velocity == p[k].velocity,
              " turn ", i, " state ", k, " changed when planned again");
        }
      }
    }
    // What is done with a returned turn does not reach the cache.
    if (g.chance(1, 3)) {
      for (auto&& s : p) { s.point = F2CPoint(7, 7); s.velocity = 99; }
    }
    done.push_back(w);
  }
  if (hits > 0) { g.nontrivial(); }
}

// ------------------------------------------------------------- library's curves
// Length of the shortest forward path of bounded curvature, from the tangents
// of the turning circles.
static double dubinsLength(const Pose& a, const Pose& b, double r) {
  double best = INFINITY;
  auto arc = [&](double from, double to, int s) {
    double d = mod2pi(s * (to - from));
    if (2 * PI - d < 1e-7) { d = 0; }
    return d * r;
  };
  for (int sa : {1, -1}) {
    const V ca = a.p + rot(V(0, sa * r), a.a);
    for (int sb : {1, -1}) {
      const V cb = b.p + rot(V(0, sb * r), b.a);
      const V c = cb - ca;
      const double D = orc::norm(c), th = std::atan2(c.y, c.x);
      if (sa == sb) {
        const double h = D < 1e-12 ? a.a : th;
        best = std::min(best, arc(a.a, h, sa) + D + arc(h, b.a, sb));
        if (D < 4 * r) {   // circle between two circles
          const double w = std::acos(D / (4 * r));
          for (int k : {1, -1}) {
            const V m = ca + rot(V(2 * r, 0), th + k * w);
            const V u = m - ca, v = m - cb;
            const double h1 = std::atan2(u.y, u.x) + sa * PI / 2;
            const double h2 = std::atan2(v.y, v.x) + sb * PI / 2;
            best = std::min(best, arc(a.a, h1, sa) + arc(h1, h2, -sa) +
                arc(h2, b.a, sb));
          }
        }
      } else if (D >= 2 * r) {
        const double L = std::sqrt(D * D - 4 * r * r);
        const double h = th + sa * std::atan2(2 * r, L);
        best = std::min(best, arc(a.a, h, sa) + L + arc(h, b.a, sb));
      }
    }
  }
  return best;
}

template <class T>
static F2CPath turnOf(const F2CRobot& r, const Pose& a, const Pose& b,
    double disc) {
  T t;
  t.setDiscretization(disc);
  return t.createTurn(r, fx::pt(a.p), a.a, fx::pt(b.p), b.a);
}
static double lengthOf(const F2CPath& p) {
  double s = 0;
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    s += orc::dist(fx::v(p[i].point), fx::v(p[i + 1].point));
  }
  return s;
}

static F2CPath curve(int kind, const F2CRobot& r, const Pose& a, const Pose& b,
    double disc) {
  switch (kind) {
    case 0: return turnOf<f2c::pp::DubinsCurves>(r, a, b, disc);
    case 1: return turnOf<f2c::pp::ReedsSheppCurves>(r, a, b, disc);
    case 2: return turnOf<f2c::pp::DubinsCurvesCC>(r, a, b, disc);
    default: return turnOf<f2c::pp::ReedsSheppCurvesHC>(r, a, b, disc);
  }
}

// A curve drives from one pose to the other within the robot's limits.
static void checkCurve(const F2CPath& p, const F2CRobot& r, const Pose& a,
    const Pose& b, double disc, bool reverse, double scale) {
  CHECK(p.size() >= 2, " a turn of ", p.size(), " states");
  CHECK(p[0].point == fx::pt(a.p), " starts at ", p[0].point.exportToWkt());
  CHECK(p.back().point == fx::pt(b.p), " ends at ",
      p.back().point.exportToWkt());
  const double eps = 1e-7 + 1e-13 * scale;
  CHECK(angDiff(p[0].angle, a.a) < eps, " starts heading ", p[0].angle);
  CHECK(angDiff(p.back().angle, b.a) < 1e-6, " ends heading ",
      p.back().angle);
  const double k = r.getMaxCurv();
  for (size_t i = 0; i < p.size(); ++i) {
    CHECK_EQ(p[i].velocity, r.getTurnVel(), "state ", i);
    CHECK(p[i].type == f2c::types::PathSectionType::TURN, " type of ", i);
    if (!reverse) {
      CHECK(p[i].dir == f2c::types::PathDirection::FORWARD, " state ", i);
    }
    if (i + 1 == p.size()) {
      CHECK_NEAR(p[i].len, 0, 1e-12, "length of the last state");
      break;
    }
    const V u = fx::v(p[i + 1].point) - fx::v(p[i].point);
    const double c = orc::norm(u), dth = angDiff(p[i + 1].angle, p[i].angle);
    CHECK_NEAR(p[i].len, c, 1e-6 + 2 * eps, "length of state ", i);
    CHECK(c <= disc * (1 + 1e-6) + 1e-6, " states ", i, " and ", i + 1,
        " are ", c, " apart");
    // chord of an arc: 2 sin(dth / 2) / k
    CHECK(2 * std::sin(dth / 2) <= k * c + 1e-6 + 4 * k * eps, " turns by ", dth,
        " over ", c, " with curvature up to ", k, " at state ", i);
    if (c > 1e-4 && c > 1e4 * eps) {
      const double h = std::atan2(u.y, u.x) +
        (p[i].dir == f2c::types::PathDirection::FORWARD ? 0 : PI);
      CHECK(angDiff(h, p[i].angle) <= dth + 1e-3 + 4 * eps / c, " state ", i,
          " heads ", p[i].angle, " but moves to ", h);
    }
  }
}

static void curves(Gen& g) {
  Pose a, b;
  anyPoses(g, a, b, 0.2);
  F2CRobot r = anyRobot(g);
  const int kind = static_cast<int>(g.below(4));
  const double disc = g.pick(std::vector<double>{0.05, 0.1, 0.02, 0.2});
  static const char* NAME[] = {"dubins", "reeds-shepp", "dubins-cc",
    "reeds-shepp-hc"};
  g.note(NAME[kind], " spacing ", disc);
  noteTurn(g, a, b, r);
  g.label(NAME[kind]);
  const double scale = std::fabs(a.p.x) + std::fabs(a.p.y) +
    std::fabs(b.p.x) + std::fabs(b.p.y) + 1;
  F2CPath p = curve(kind, r, a, b, disc);
  checkCurve(p, r, a, b, disc, kind % 2 == 1, scale);
  const double len = lengthOf(p);
  if (kind < 2) {
    const double rad = r.getMinTurningRadius();
    CHECK_NEAR(rad, 1 / r.getMaxCurv(), 1e-5 * rad);
    auto shortest = [&](const Pose& s, const Pose& e) {
      return dubinsLength(s, e, rad);
    };
    double lo = INFINITY, hi = -INFINITY;
    // The shortest length jumps for some poses: take it all around them.
    for (double e1 : {0.0, 1e-6, -1e-6}) {
      for (double e2 : {0.0, 1e-6, -1e-6}) {
        const Pose s{a.p, a.a + e1}, e{b.p, b.a + e2};
        const double d = kind == 0 ? shortest(s, e)
          : std::min(shortest(s, e), shortest(e, s));
        lo = std::min(lo, d);
        hi = std::max(hi, d);
      }
    }
    const double cut = hi * std::pow(disc / rad, 2) / 20 + 1e-4;
    CHECK(len <= hi + 3e-3 && len >= lo - cut - 3e-3, " the turn is ", len,
        " long, the shortest one ", lo, " to ", hi);
    if (hi - lo > 1e-3) { g.label("jump"); }
  }
  // Moved, turned and mirrored poses.
  const double th = g.angle(1);
  const V off(g.real(-500, 500), g.real(-500, 500));
  const double m = g.boolean() ? -1 : 1;
  Pose a2 = a, b2 = b;
  for (Pose* q : {&a2, &b2}) {
    q->p = rot(V(q->p.x, m * q->p.y), th) + off;
    q->a = m * q->a + th;
  }
  F2CPath q = curve(kind, r, a2, b2, disc);
  checkCurve(q, r, a2, b2, disc, kind % 2 == 1,
      scale + std::fabs(off.x) + std::fabs(off.y));
  bool same = q.size() == p.size();
  double worst = 0;
  const double tol = 1e-4 + 1e-10 * scale;
  if (same) {
    for (size_t i = 0; i < p.size(); ++i) {
      const V x = fx::v(p[i].point);
      worst = std::max(worst, orc::dist(fx::v(q[i].point),
          rot(V(x.x, m * x.y), th) + off));
      if (static_cast<int>(p[i].dir) != static_cast<int>(q[i].dir)) {
        same = false;
      }
    }
  }
  if (!same || worst > tol) {
    // Two equally good turns: only their lengths have to agree, unless the
    // length itself jumps.
    const double l2 = lengthOf(q);
    bool jump = false;
    for (double e1 : {1e-6, -1e-6}) {
      for (double e2 : {1e-6, -1e-6, 0.0}) {
        const Pose s{a.p, a.a + e1}, e{b.p, b.a + e2};
        if (std::fabs(lengthOf(curve(kind, r, s, e, disc)) - len) >
            1e-3 + len * 0.02) { jump = true; }
      }
    }
    CHECK(jump || std::fabs(l2 - len) <= 1e-3 + len * std::pow(
          disc * r.getMaxCurv(), 2) / 20, " the moved turn is ", l2,
        " long instead of ", len, " and leaves it by ", worst);
    g.label(jump ? "moved-jump" : "moved-tie");
  } else {
    g.label("moved-same");
    g.nontrivial();
  }
}

// ------------------------------------------------ turns that start or end bent
static void constrained(Gen& g) {
  Pose a, b;
  anyPoses(g, a, b, 0.2);
  F2CRobot r = anyRobot(g);
  const double disc = 0.05;
  f2c::pp::DubinsCurvesCC t;
  t.setDiscretization(disc);
  const double k0 = g.real(0, r.getMaxCurv()), k1 = g.real(0, r.getMaxCurv());
  noteTurn(g, a, b, r);
  F2CPath p = t.createConstrainedTurn(r, fx::pt(a.p), a.a, k0, fx::pt(b.p), b.a,
      k1, g.boolean());
  CHECK(p.size() >= 2);
  CHECK(orc::dist(fx::v(p[0].point), a.p) < 1e-6, " starts elsewhere");
  CHECK(orc::dist(fx::v(p.back().point), b.p) < 1e-5 * (1 + orc::dist(a.p, b.p))
      + 1e-6, " ends at ", p.back().point.exportToWkt());
  CHECK(angDiff(p[0].angle, a.a) < 1e-9);
  CHECK(angDiff(p.back().angle, b.a) < 1e-6);
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    const double c = orc::dist(fx::v(p[i].point), fx::v(p[i + 1].point));
    CHECK(c <= disc + 1e-6, " states ", i, " are ", c, " apart");
    CHECK(2 * std::sin(angDiff(p[i].angle, p[i + 1].angle) / 2) <=
        r.getMaxCurv() * c + 1e-5, " too sharp at state ", i);
    CHECK_EQ(p[i].velocity, r.getTurnVel());
    CHECK_NEAR(p[i].len, c, 1e-9);
  }
  g.nontrivial();
}

// ------------------------------------------------------------------- loops
static bool loops(const std::vector<std::pair<double, double>>& c) {
  double net = 0, tot = 0;
  bool one = false;
  for (auto&& s : c) {
    const double w = s.first * s.second / (2 * PI);
    one = one || std::fabs(w) > 0.9;
    net += w;
    tot += std::fabs(w);
  }
  return one || std::fabs(net) > 0.9 || tot > 1.5;
}
// A turn with bounded change of curvature opens up rather than loop.
static void noLoops(Gen& g) {
  Pose a, b;
  anyPoses(g, a, b, 0.2);
  F2CRobot r = anyRobot(g);
  const double disc = 0.05;
  noteTurn(g, a, b, r);
  const double d = orc::dist(a.p, b.p);
  double turned = 0, total = 0;
  F2CPath p = curve(2, r, a, b, disc);
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    const double w = std::remainder(p[i + 1].angle - p[i].angle, 2 * PI);
    turned += w;
    total += std::fabs(w);
  }
  const bool looped = std::fabs(turned) > 1.8 * PI + 1e-6 ||
    total > 3 * PI + 1e-6;
  if (looped) {
    // then no wider turn within the allowed range avoids it
    const double dir = std::atan2(b.p.y - a.p.y, b.p.x - a.p.x);
    for (int n = 0; n <= 21; ++n) {
      const double k = r.getMaxCurv() / (1 + 0.05 * n);
      const double s = r.getMaxDiffCurv() / (1 + 0.2 * n);
      CC00_Dubins_State_Space ss(k, s, disc, true);
      steer::State x{0, 0, a.a - dir, 0, 0}, y{d, 0, b.a - dir, 0, 0};
      std::vector<std::pair<double, double>> c;
      bool clear = true;
      for (double e : {0.0, 1e-6, -1e-6}) {
        x.theta = a.a - dir + e;
        c.clear();
        for (auto&& q : ss.get_controls(x, y)) {
          c.emplace_back(q.delta_s, q.kappa);
        }
        clear = clear && !loops(c);
      }
      CHECK(!clear, " the turn loops, but not with curvature ", k);
    }
    g.label("loop");
  } else {
    g.label("no-loop");
  }
  g.nontrivial();
}

// ------------------------------------------------------------------ validity
static void valid(Gen& g) {
  // A turn is valid when it stays over the line between its ends and stops
  // where it should.
  F2CPath p;
  const double d = g.real(0.5, 20), end = g.angle(1);
  const double md = g.pick(std::vector<double>{0.05, 0.1, 0.5});
  const double mr = g.pick(std::vector<double>{0.1, 0.02, 0.5});
  const size_t n = g.size(1, 8);
  bool want = true, near = false;
  auto lim = [&](double v, double at) { near = near || std::fabs(v - at) < 1e-6; };
  for (size_t i = 0; i < n; ++i) {
    f2c::types::PathState s;
    double y = g.chance(1, 4) ? g.uniform(-2 * md, 0) : g.real(0, 5);
    double x = g.real(-5, d + 5);
    s.angle = g.angle(1);
    s.len = 0;
    if (i + 1 == n) {
      const double u = g.uniform(0, 2 * PI);
      const double e = g.boolean() ? md * 0.9 : md * 1.5;
      x = d + e * std::cos(u) * g.below(2);
      y = e * std::sin(u) * g.below(2);
      s.angle = end + (g.boolean() ? 0.0 : g.uniform(-PI, PI));
      s.angle += 2 * PI * static_cast<double>(g.integer(-1, 1));
      s.len = g.boolean() ? 0.0 : g.uniform(0, md);
      const double ex = x + s.len * std::cos(s.angle);
      const double ey = y + s.len * std::sin(s.angle);
      want = want && std::fabs(ex - d) < md && std::fabs(ey) < md &&
        std::cos(s.angle - end) >= 1 - mr;
      lim(std::fabs(ex - d), md);
      lim(std::fabs(ey), md);
      lim(std::cos(s.angle - end), 1 - mr);
    }
    want = want && !(y < -md);
    lim(y, -md);
    s.point = F2CPoint(x, y);
    p.addState(s);
    g.note("state (", x, ", ", y, ") heading ", s.angle, " length ", s.len);
  }
  g.note("distance ", d, " end heading ", end, " allowed ", md, " and ", mr);
  pbt::discardIf(near);
  CHECK_EQ(f2c::pp::TurningBase::isTurnValid(p, d, end, md, mr), want);
  if (md == 0.05 && mr == 0.1) {
    CHECK_EQ(f2c::pp::TurningBase::isTurnValid(p, d, end), want);
  }
  g.label(want ? "valid" : "invalid");
  g.nontrivial();
}

pbt::Property& pbt::theProperty() {
  static Property p{"C29",
    "pairs of poses near and far, robots, spacings; histories of 2 to 14 turns on one generator; non-trivial: placed, a turn is made; cached, at least one turn came from the cache; "
    "curves: the turn and its moved image are the same curve; "
    "others: always",
    {{"placed", 6000, 200000, placed},
     {"cached", 1500, 50000, cachedTurns},
     {"curves", 1500, 40000, curves},
     {"constrained", 500, 10000, constrained},
     {"loops", 800, 20000, noLoops},
     {"valid", 4000, 100000, valid}}};
  return p;
}
