// C30 a path stays geometrically consistent through every operation.
#include "gens.hpp"
#include <fstream>
#include <locale>
#include <unistd.h>
#include "fields2cover/types/Path.h"
using namespace pbt;
using namespace orc;
using f2c::types::PathDirection;
using f2c::types::PathSectionType;
using f2c::types::PathState;
namespace {
struct S {
  double x = 0, y = 0, z = 0, ang = 0, len = 0, vel = 1;
  int dir = 1, type = 1;
  V at() const { return V(x, y); }
  V end() const { return V(x + dir * len * std::cos(ang), y + dir * len * std::sin(ang)); }
};
typedef std::vector<S> L;
double angDiff(double a, double b) {
  return std::fabs(std::remainder(a - b, 2 * M_PI));
}
S stateOf(const PathState& s) {
  S r;
  r.x = s.point.getX(); r.y = s.point.getY(); r.z = s.point.getZ();
  r.ang = s.angle; r.len = s.len; r.vel = s.velocity;
  r.dir = static_cast<int>(s.dir); r.type = static_cast<int>(s.type);
  return r;
}
L listOf(const F2CPath& p) {
  L l;
  for (auto&& s : p) { l.push_back(stateOf(s)); }
  return l;
}
PathState toState(const S& s) {
  PathState r;
  r.point = F2CPoint(s.x, s.y, s.z);
  r.angle = s.ang; r.len = s.len; r.velocity = s.vel;
  r.dir = static_cast<PathDirection>(s.dir);
  r.type = static_cast<PathSectionType>(s.type);
  return r;
}
double total(const L& l) {
  double t = 0;
  for (auto&& s : l) { t += s.len; }
  return t;
}
double magnitude(const L& l) {
  double m = 1 + total(l);
  for (auto&& s : l) { m = std::max({m, std::fabs(s.x), std::fabs(s.y), std::fabs(s.z)}); }
  return m;
}
// One state against another.  Angles modulo a turn.
void same(const S& a, const S& b, double tol, const std::string& what) {
  CHECK_NEAR(a.x, b.x, tol, "x, ", what);
  CHECK_NEAR(a.y, b.y, tol, "y, ", what);
  CHECK_NEAR(a.z, b.z, tol, "z, ", what);
  CHECK(angDiff(a.ang, b.ang) < 1e-9, " angle ", a.ang, " instead of ", b.ang, ", ", what);
  CHECK_NEAR(a.len, b.len, tol, "length, ", what);
  CHECK_NEAR(a.vel, b.vel, 1e-12 * std::fabs(b.vel), "velocity, ", what);
  CHECK_EQ(a.dir, b.dir, "direction, ", what);
  CHECK_EQ(a.type, b.type, "type, ", what);
}
void same(const L& a, const L& b, double tol, const std::string& what) {
  CHECK_EQ(a.size(), b.size(), "number of states, ", what);
  for (size_t i = 0; i < a.size(); ++i) { same(a[i], b[i], tol, what + ", state " + std::to_string(i)); }
}
double length(Gen& g) {
  switch (g.weighted({4, 2, 2, 1, 1})) {
    case 0: return g.real(0, 20);
    case 1: return g.integer(1, 30) / 10.0;
    case 2: return g.logReal(1e-4, 1e3);
    case 3: return 0;
    default: return 1;
  }
}
S state(Gen& g, const V& at, double ang, bool odd) {
  S s;
  s.x = at.x; s.y = at.y;
  if (odd && g.chance(1, 6)) { s.z = g.real(-5, 5); }
  s.ang = ang;
  s.len = length(g);
  s.vel = g.boolean() ? g.pick(std::vector<double>{1, 2, 0.5, 3.5}) : g.logReal(1e-2, 1e2);
  s.dir = g.chance(1, 3) ? -1 : 1;
  s.type = 1 + (int)g.below(3);
  return s;
}
// States that follow each other, or that are anywhere.
L states(Gen& g, size_t lo, size_t hi) {
  L l;
  const bool connected = g.chance(2, 3);
  V at(gn::coord(g), gn::coord(g));
  double ang = g.angle();
  for (size_t n = g.size(lo, hi); n-- > 0;) {
    l.push_back(state(g, at, ang, true));
    ang = g.chance(1, 3) ? g.angle() : ang + g.uniform(-0.6, 0.6);
    if (!connected) { at = V(gn::coord(g), gn::coord(g)); } else { at = l.back().end(); }
  }
  return l;
}
F2CPath build(const L& l) {
  F2CPath p;
  for (auto&& s : l) { p.addState(toState(s)); }
  return p;
}
// The state at a distance: any of those whose stretch has it.
void lookup(const F2CPath& p, const L& l, double d) {
  const PathState got = p.at(d);
  const double all = total(l), tol = 1e-9 * magnitude(l);
  const double c = std::max(0.0, std::min(all, d));
  double before = 0;
  std::string why;
  for (size_t i = 0; i < l.size(); ++i) {
    const S& s = l[i];
    if (c >= before - tol && c <= before + s.len + tol) {
      const double k = std::max(0.0, std::min(s.len, c - before)) * s.dir;
      const V at(s.x + k * std::cos(s.ang), s.y + k * std::sin(s.ang));
      const S r = stateOf(got);
      if (dist(at, r.at()) < 2 * tol && angDiff(r.ang, s.ang) < 1e-9 && r.dir == s.dir &&
          r.type == s.type && r.vel == s.vel) {
        return;
      }
    }
    before += s.len;
  }
  fail("at(", d, ") of ", all, " is (", got.point.getX(), ", ", got.point.getY(), "), heading ", got.angle);
}
void look(Gen& g, const F2CPath& p, const L& l) {
  const double mag = magnitude(l), tol = 1e-9 * mag;
  CHECK_EQ(p.size(), l.size(), "size");
  same(listOf(p), l, tol, "held");
  CHECK_NEAR(p.length(), total(l), tol, "length");
  double time = 0;
  for (auto&& s : l) { time += s.len / s.vel; }
  CHECK_NEAR(p.getTaskTime(), time, 1e-9 * (1 + time), "time");
  F2CPath& q = const_cast<F2CPath&>(p);
  for (size_t i = 0; i < l.size(); ++i) {
    same(stateOf(p[i]), l[i], tol, "operator[]");
    same(stateOf(p.getState(i)), l[i], tol, "getState");
    same(stateOf(q[i]), l[i], tol, "operator[] that may change");
    same(stateOf(q.getState(i)), l[i], tol, "getState that may change");
    same(stateOf(p.getStates()[i]), l[i], tol, "getStates");
    CHECK(dist(fx::v(p[i].atEnd()), l[i].end()) < tol, " end of state ", i);
  }
  CHECK_EQ((size_t)(p.cend() - p.cbegin()), l.size(), "iteration");
  CHECK_EQ((size_t)(q.end() - q.begin()), l.size(), "iteration that may change");
  CHECK_EQ(q.getStates().size(), l.size(), "getStates that may change");
  if (l.empty()) { return; }
  same(stateOf(p.back()), l.back(), tol, "back");
  same(stateOf(q.back()), l.back(), tol, "back that may change");
  CHECK(dist(fx::v(p.atStart()), l[0].at()) < tol, " atStart");
  CHECK(dist(fx::v(p.atEnd()), l.back().end()) < tol, " atEnd");
  double x0 = INFINITY, x1 = -INFINITY, y0 = INFINITY, y1 = -INFINITY;
  for (auto&& s : l) { x0 = std::min(x0, s.x); x1 = std::max(x1, s.x); y0 = std::min(y0, s.y); y1 = std::max(y1, s.y); }
  CHECK_NEAR(p.getDimMinX(), x0, tol, "getDimMinX");
  CHECK_NEAR(p.getDimMaxX(), x1, tol, "getDimMaxX");
  CHECK_NEAR(p.getDimMinY(), y0, tol, "getDimMinY");
  CHECK_NEAR(p.getDimMaxY(), y1, tol, "getDimMaxY");
  const F2CLineString line = p.toLineString();
  CHECK_EQ((size_t)line->getNumPoints(), l.size() + 1, "points of toLineString");
  for (size_t i = 0; i < l.size(); ++i) { CHECK(dist(V(line->getX(i), line->getY(i)), l[i].at()) < tol, " toLineString, point ", i); }
  CHECK(dist(V(line->getX(l.size()), line->getY(l.size())), l.back().end()) < tol, " end of toLineString");
  const double all = total(l);
  lookup(p, l, 0);
  lookup(p, l, all);
  lookup(p, l, p.length());
  lookup(p, l, g.pick(std::vector<double>{-1.0, all * 2 + 1}));
  lookup(p, l, all * g.unit());
  double part = 0;
  for (size_t i = 0, n = g.below(l.size() + 1); i < n; ++i) { part += l[i].len; }
  lookup(p, l, part);
}
F2CSwath swathFor(Gen& g) {
  F2CLineString line;
  double x = 0, y = 0;
  for (size_t n = g.size(2, 5); n-- > 0;) {
    if (line.size() > 0 && g.chance(1, 5)) {   // a short step
      x += g.logReal(1e-3, 0.3);
      y -= g.real(0, 0.03);
    } else {
      x = gn::coord(g);
      y = gn::coord(g);
    }
    line.addPoint(x, y);
  }
  return F2CSwath(line, 1.0 + g.unit(), (int)g.below(9));
}
// What a swath adds.
void addSwath(L* l, const F2CSwath& s, double vel) {
  const auto ps = fx::line(s.getPath());
  for (size_t i = 0; i + 1 < ps.size(); ++i) {
    S t;
    t.x = ps[i].x; t.y = ps[i].y;
    t.ang = std::atan2(ps[i + 1].y - ps[i].y, ps[i + 1].x - ps[i].x);
    t.len = dist(ps[i], ps[i + 1]);
    t.vel = vel;
    l->push_back(t);
  }
}
V turned(const V& v, const V& c, double a) {
  return V(c.x + (v.x - c.x) * std::cos(a) - (v.y - c.y) * std::sin(a),
           c.y + (v.x - c.x) * std::sin(a) + (v.y - c.y) * std::cos(a));
}
void history(Gen& g) {
  F2CPath p;
  L l;
  F2CPath kept;
  L kept_l;
  size_t changes = 0;
  for (size_t n = g.size(1, 12); n-- > 0;) {
    const size_t op = g.weighted({4, 3, 3, 2, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 1});
    switch (op) {
      case 0: {
        const L t = states(g, 1, 4);
        for (auto&& s : t) {
          g.note("add (", s.x, ", ", s.y, ") ang ", s.ang, " len ", s.len, " vel ", s.vel, " dir ", s.dir, " type ", s.type);
          if (g.boolean()) { p.addState(toState(s)); } else {
            p.addState(F2CPoint(s.x, s.y, s.z), s.ang, s.len, static_cast<PathDirection>(s.dir), static_cast<PathSectionType>(s.type), s.vel);
          }
          l.push_back(s);
        }
        break;
      }
      case 1: {
        const F2CSwath s = swathFor(g);
        const gn::Snap b = gn::snapOf(s);
        const double vel = g.logReal(0.1, 10);
        g.note("appendSwath ", s.getPath().exportToWkt());
        p.appendSwath(s, vel);
        addSwath(&l, s, vel);
        std::string why;
        CHECK(gn::same(gn::snapOf(s), b, 0, &why), " appendSwath changed the swath: ", why);
        break;
      }
      case 2: {
        if (g.chance(1, 6)) {
          g.note("append itself");
          p += p;
          const L t = l;
          l.insert(l.end(), t.begin(), t.end());
        } else {
          const L t = states(g, 0, 4);
          g.note("append ", t.size(), " states");
          const F2CPath q = build(t);
          p += q;
          l.insert(l.end(), t.begin(), t.end());
          same(listOf(q), t, 1e-9, "appended path");
        }
        if (l.size() > 60) { throw Discard(); }
        break;
      }
      case 3: {
        if (l.empty()) { break; }
        const size_t i = g.below(l.size());
        const S s = states(g, 1, 1)[0];
        g.note("set state ", i);
        if (g.boolean()) { p.setState(i, toState(s)); } else if (g.boolean()) { p.getState(i) = toState(s); } else { p[i] = toState(s); }
        l[i] = s;
        break;
      }
      case 4: {
        l = states(g, 0, 5);
        g.note("set states, ", l.size());
        std::vector<PathState> v;
        for (auto&& s : l) { v.push_back(toState(s)); }
        p.setStates(v);
        break;
      }
      case 5: {
        const V d(gn::coord(g), gn::coord(g));
        g.note("move by ", d.x, ", ", d.y);
        p.moveTo(F2CPoint(d.x, d.y));
        for (auto&& s : l) { s.x += d.x; s.y += d.y; }
        break;
      }
      case 6: {
        const V c(gn::coord(g), gn::coord(g));
        const double a = g.angle();
        g.note("rotate about ", c.x, ", ", c.y, " by ", a);
        p.rotateFromPoint(F2CPoint(c.x, c.y), a);
        for (auto&& s : l) { const V v = turned(s.at(), c, a); s.x = v.x; s.y = v.y; s.z = 0; s.ang += a; }
        for (auto&& s : p) { s.point.setZ(0); }   // planar
        break;
      }
      case 7: {
        g.note("mirrorX");
        p.mirrorX();
        for (auto&& s : l) { s.x = -s.x; s.ang = M_PI - s.ang; }
        break;
      }
      case 8: {
        g.note("mirrorY");
        p.mirrorY();
        for (auto&& s : l) { s.y = -s.y; s.ang = -s.ang; }
        break;
      }
      case 9: {
        const size_t what = g.below(4);
        const bool all = g.boolean() || l.empty();
        const size_t i = all ? 0 : g.below(l.size());
        g.note("set ", what, all ? " for all" : " for one");
        for (size_t k = 0; k < l.size(); ++k) {
          if (!all && k != i) { continue; }
          if (what < 2) { l[k].dir = what ? 1 : -1; } else { l[k].type = what == 2 ? 1 : 2; }
        }
        switch (what) {
          case 0: all ? p.setBackwardDir() : p.setBackwardDir((int)i); break;
          case 1: all ? p.setForwardDir() : p.setForwardDir((int)i); break;
          case 2: all ? p.setSwathType() : p.setSwathType((int)i); break;
          default: all ? p.setTurnType() : p.setTurnType((int)i);
        }
        break;
      }
      case 10: {   // sections of swaths in equal parts
        for (auto&& s : l) { if (s.z != 0) { throw Discard(); } }
        const double step = std::max(g.logReal(0.05, 30), total(l) / 150);
        g.note("discretizeSwath ", step);
        const F2CPath q = p.discretizeSwath(step);
        same(listOf(p), l, 1e-9 * magnitude(l), "before discretizeSwath");
        L t;
        size_t k = 0;
        for (auto&& s : l) {
          if (s.type != 1) { t.push_back(s); ++k; continue; }
          const double r = s.len / step;
          // the number of parts is decided by rounding
          double parts = std::max(1.0, std::floor(r + 0.5));
          if (std::fabs(r + 0.5 - std::round(r + 0.5)) < 1e-9) { throw Discard(); }
          for (double j = 0; j < parts; ++j) {
            S u = s;
            const double a = s.dir * s.len * j / parts;
            u.x += a * std::cos(s.ang); u.y += a * std::sin(s.ang);
            u.len = s.len / parts;
            t.push_back(u);
          }
        }
        discardIf(t.size() > 400);
        same(listOf(q), t, 1e-9 * magnitude(l), "discretizeSwath");
        CHECK_NEAR(q.length(), total(l), 1e-9 * magnitude(l), "length after discretizeSwath");
        if (g.boolean()) { p = q; l = t; }
        break;
      }
      case 11: {   // states close to each other become one
        const double eps = g.boolean() ? g.logReal(1e-3, 10) : 0.1;
        g.note("reduce ", eps);
        L t;
        for (size_t i = 0; i < l.size();) {
          S s = l[i];
          size_t j = i + 1;
          for (; j < l.size() && l[j].type == s.type && l[j].dir == s.dir; ++j) {
            const double d = std::sqrt((l[i].x - l[j].x) * (l[i].x - l[j].x) + (l[i].y - l[j].y) * (l[i].y - l[j].y));
            if (std::fabs(d - eps) < 1e-7 * magnitude(l)) { throw Discard(); }
            if (d > eps) { break; }
            s.len += l[j].len;
          }
          t.push_back(s);
          i = j;
        }
        p.reduce(eps);
        l = t;
        break;
      }
      case 12: {   // copies are copies
        g.note("copy");
        kept = p;
        kept_l = l;
        break;
      }
      case 13: {
        same(listOf(kept), kept_l, 1e-9 * magnitude(kept_l), "copy kept");
        if (g.boolean()) { std::swap(kept, p); std::swap(kept_l, l); }
        break;
      }
      default: {
        const double vel = g.logReal(0.1, 10);
        F2CPath q(p);
        for (auto&& s : q) { s.velocity = vel; s.point = s.point + F2CPoint(1, 1); s.len += 1; }
        break;
      }
    }
    changes += op != 12 && op != 13;
    look(g, p, l);
  }
  same(listOf(kept), kept_l, 1e-9 * magnitude(kept_l), "copy kept to the end");
  if (changes >= 3 && l.size() >= 2) { g.nontrivial(); }
}
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
struct Locale {
  std::locale old;
  explicit Locale(bool comma) : old() {
    if (comma) { std::locale::global(std::locale(std::locale::classic(), new Comma)); }
  }
  ~Locale() { std::locale::global(old); }
};
struct Temp {
  std::string path;
  Temp() {
    char name[] = "/tmp/f2c_c30_XXXXXX";
    const int fd = mkstemp(name);
    CHECK(fd >= 0, " no temporary file");
    close(fd);
    path = name;
  }
  ~Temp() { unlink(path.c_str()); }
};
void files(Gen& g) {
  L l = states(g, 0, 8);
  const size_t digits = g.boolean() ? 17 : (size_t)g.integer(1, 17);
  const bool comma = g.chance(1, 3), dflt = g.chance(1, 6);
  g.note(l.size(), " states, ", digits, " digits", comma ? ", comma" : "");
  const F2CPath p = build(l);
  const double rel = std::pow(10.0, 1.0 - (double)(dflt ? 6 : digits));
  auto back = [&] (const F2CPath& q, const char* what) {
    CHECK_EQ(q.size(), l.size(), "states ", what);
    for (size_t i = 0; i < l.size(); ++i) {
      const S a = stateOf(q[i]), b = l[i];
      auto near = [&] (double u, double v, const char* name) {
        CHECK(std::fabs(u - v) <= rel * std::fabs(v) + 1e-300, " ", name, " of state ", i, " is ", u, " instead of ", v, " ", what);
      };
      near(a.x, b.x, "x"); near(a.y, b.y, "y"); near(a.z, b.z, "z");
      near(a.ang, b.ang, "angle"); near(a.len, b.len, "length"); near(a.vel, b.vel, "velocity");
      CHECK_EQ(a.dir, b.dir, "direction ", what);
      CHECK_EQ(a.type, b.type, "type ", what);
    }
  };
  Temp f;
  {
    Locale loc(comma && g.boolean());
    if (dflt) { p.saveToFile(f.path); } else { p.saveToFile(f.path, digits); }
  }
  same(listOf(p), l, 1e-9 * magnitude(l), "saved path");
  Locale loc(comma);
  F2CPath q;
  q.loadFile(f.path);
  back(q, "loaded");
  // and what is written is the text form, one state per line
  std::ifstream in(f.path);
  std::stringstream all;
  all << in.rdbuf();
  const std::string text = dflt ? p.serializePath() : p.serializePath(digits);
  CHECK(text == all.str(), " serializePath differs from the file");
  size_t lines = 0;
  for (char c : text) { lines += c == '\n'; CHECK(c != ',', " comma in a serialized path"); }
  CHECK_EQ(lines, l.size(), "lines of a serialized path");
  if (l.size() > 1) { g.nontrivial(); }
}
// Equal steps along the path.
void populated(Gen& g) {
  L l;
  const bool straight = g.chance(1, 3), equal = g.chance(1, 3);
  V at(gn::coord(g), gn::coord(g));
  double ang = g.angle();
  const double k = g.chance(1, 5) ? 4e-3 : 1;   // very short paths too
  const double len = k * (0.1 + g.real(0, 5));
  const int dir = g.chance(1, 5) ? -1 : 1;
  for (size_t n = g.size(3, 10); n-- > 0;) {
    S s = state(g, at, ang, false);
    s.dir = dir;
    s.len = equal ? len : (g.chance(1, 8) ? 0 : k * (0.05 + g.real(0, 5)));
    at = s.end();
    if (!straight) { ang += g.uniform(-0.9, 0.9); }
    l.push_back(s);
  }
  discardIf(total(l) == 0);
  const size_t parts = g.size(1, 6);
  const int n = equal ? (int)(parts * l.size()) : (int)g.integer(1, 80);
  F2CPath p = build(l);
  const bool fine = g.chance(1, 3);
  const double step = std::max(0.05 * k, total(l) / 30) * g.uniform(0.5, 2);
  g.note(l.size(), " states, length ", total(l), fine ? ", discretize " : ", populate ", fine ? step : (double)n);
  const double all = total(l), tol = 1e-9 * magnitude(l);
  F2CPath& r = fine ? p.discretize(step) : p.populate(n);
  CHECK(&r == &p, " returned another path");
  CHECK_NEAR(p.length(), all, tol, "total length");
  CHECK(p.size() > 0, " no states left");
  if (!fine) { CHECK_EQ(p.size(), (size_t)n, "states asked for"); }
  CHECK(dist(fx::v(p.atStart()), l[0].at()) < tol, " start moved to ", p.atStart().getX(), ", ", p.atStart().getY());
  double before = 0;
  std::vector<double> knots{0};
  for (auto&& s : l) { knots.push_back(knots.back() + s.len); }
  for (size_t i = 0; i < p.size(); ++i) {
    const S s = stateOf(p[i]);
    if (!fine) { CHECK_NEAR(s.len, all / n, tol, "length of state ", i); }
    // which original state is driven here?
    bool ok = false;
    for (size_t k = 0; k < l.size(); ++k) {
      if (before >= knots[k] - 1e-7 && before <= knots[k + 1] + 1e-7 && s.type == l[k].type &&
          s.vel == l[k].vel && s.dir == l[k].dir) { ok = true; }
    }
    CHECK(ok, " at ", before, " type ", s.type, ", velocity ", s.vel, ", direction ", s.dir, " are of no state driven there");
    if (straight) {
      const V d(std::cos(l[0].ang) * dir, std::sin(l[0].ang) * dir);
      CHECK(dist(s.at(), l[0].at() + d * before) < 1e-7 * magnitude(l), " state ", i, " is off the straight line");
      CHECK(angDiff(s.ang, l[0].ang) < 1e-7, " heading of state ", i, " on a straight line");
    }
    for (size_t k = 0; k < l.size(); ++k) {
      if (std::fabs(before - knots[k]) < 1e-12 * all && l[k].len > 0) {
        CHECK(dist(s.at(), l[k].at()) < 1e-7 * magnitude(l), " state ", i, " misses the point of state ", k);
        CHECK(angDiff(s.ang, l[k].ang) < 1e-7, " state ", i, " misses the heading of state ", k);
      }
    }
    before += s.len;
  }
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C30",
    "histories of up to twelve operations on paths of connected or loose states "
    "(forward and backward, zero lengths, all types) against a plain list of "
    "states; files with 1 to 17 digits and comma locales; paths in equal steps; "
    "non-trivial: three changes and two states, files of two states or more",
    {{"history", 8000, 100000, history}, {"files", 3000, 30000, files}, {"populated", 4000, 50000, populated}}};
  return p;
}
