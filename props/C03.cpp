// C03 geometry collections against plain list models, by operation histories.
#include "f2c.hpp"
using namespace pbt;
using orc::V;
namespace {
struct P3 { double x, y, z; };
typedef std::vector<P3> L;            // points of one part
typedef std::vector<L> LL;            // lines, or rings of a polygon
typedef std::vector<LL> LLL;          // polygons

double coord(Gen& g) { return g.real(-60, 60); }
P3 genP(Gen& g) {
  return P3{coord(g), coord(g), g.chance(1, 4) ? coord(g) : 0.0};
}
F2CPoint pt3(const P3& p) { return F2CPoint(p.x, p.y, p.z); }
template <class T> T build(const L& l) {
  T t;
  for (auto&& p : l) { t.addPoint(p.x, p.y, p.z); }
  return t;
}
double err(double tol, double v) { return tol + 1e-9 * std::fabs(v); }
void samePt(const F2CPoint& a, const P3& b, double tol, const char* w) {
  CHECK(std::fabs(a.getX() - b.x) <= err(tol, b.x) &&
        std::fabs(a.getY() - b.y) <= err(tol, b.y) &&
        std::fabs(a.getZ() - b.z) <= err(tol, b.z), " ", w, ": point ", a,
        " expected ", b.x, " ", b.y, " ", b.z);
}
template <class T> void sameLine(const T& t, const L& m, double tol,
    const char* w) {
  CHECK(t.size() == m.size(), " ", w, ": ", t.size(), " points, expected ",
      m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    const F2CPoint p = t.getGeometry(i);
    samePt(p, m[i], tol, w);
  }
}
orc::Ring flat(const L& l) {
  orc::Ring r;
  for (auto&& p : l) { r.emplace_back(p.x, p.y); }
  return r;
}
double len(const L& l) {
  double s = 0;
  for (size_t i = 1; i < l.size(); ++i) {
    s += std::hypot(l[i].x - l[i - 1].x, l[i].y - l[i - 1].y);
  }
  return s;
}
struct Ext { double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; };
void grow(Ext* e, const L& l) {
  for (auto&& p : l) {
    e->x0 = std::min(e->x0, p.x); e->x1 = std::max(e->x1, p.x);
    e->y0 = std::min(e->y0, p.y); e->y1 = std::max(e->y1, p.y);
  }
}
double span(const Ext& e) {
  return 1 + std::fabs(e.x0) + std::fabs(e.x1) + std::fabs(e.y0) +
    std::fabs(e.y1);
}
template <class T> void bbox(const T& t, const Ext& e, double tol) {
  const double k = err(tol, span(e)) * 4;
  CHECK_NEAR(t.getDimMinX(), e.x0, k); CHECK_NEAR(t.getDimMaxX(), e.x1, k);
  CHECK_NEAR(t.getDimMinY(), e.y0, k); CHECK_NEAR(t.getDimMaxY(), e.y1, k);
  CHECK_NEAR(t.getWidth(), e.x1 - e.x0, k);
  CHECK_NEAR(t.getHeight(), e.y1 - e.y0, k);
  CHECK_NEAR(t.getMinSafeLength(), (e.x1 - e.x0) + (e.y1 - e.y0), 2 * k);
}
// Any index that is not there: reads are rejected.
template <class T, class C> void badReads(Gen& g, T& t, size_t n) {
  const size_t i = n + g.size(0, 3);
  const T& ct = t;
  C c;
  CHECK_THROWS(t.getGeometry(i));
  CHECK_THROWS(ct.getGeometry(i));
  CHECK_THROWS(t.getGeometry(i, c));
  CHECK_THROWS(ct.getGeometry(i, c));
  CHECK_THROWS(ct.at(static_cast<int>(i)));
  CHECK_THROWS(ct[static_cast<int>(i)]);
  CHECK_THROWS(t.at(-1));
  if (n == 0) { CHECK_THROWS(ct.back()); }
}

// ------------------------------------------------ point sets, lines, rings
template <class T> struct Extra { static void check(const T&, const L&, double)
  {} };
template <> struct Extra<F2CMultiPoint> {
  static void check(const F2CMultiPoint& t, const L& m, double tol) {
    if (m.empty()) {
      CHECK_THROWS(t.getFirstPoint());
      CHECK_THROWS(t.getLastPoint());
      return;
    }
    samePt(t.getFirstPoint(), m.front(), tol, "first");
    samePt(t.getLastPoint(), m.back(), tol, "last");
    CHECK_THROWS(t.getInAngle(0));
    CHECK_THROWS(t.getOutAngle(m.size() - 1));
    if (m.size() < 2) { CHECK_THROWS(t.getPointAngle(0)); return; }
    auto dir = [&](size_t i, double* a, double* d) {
      const double dx = m[i].x - m[i - 1].x, dy = m[i].y - m[i - 1].y;
      *a = std::atan2(dy, dx);
      *d = std::hypot(dx, dy);
    };
    for (size_t i = 1; i < m.size(); ++i) {
      double a, d;
      dir(i, &a, &d);
      if (d < 0.01) { continue; }
      const double e = 1e-9 + 4 * tol / d;
      CHECK(orc::angDiff(t.getInAngle(i), a) <= e);
      CHECK(orc::angDiff(t.getOutAngle(i - 1), a) <= e);
      if (i == 1) { CHECK(orc::angDiff(t.getPointAngle(0), a) <= e); }
      if (i + 1 == m.size()) {
        CHECK(orc::angDiff(t.getPointAngle(i), a) <= e);
      } else {
        double b, d2;
        dir(i + 1, &b, &d2);
        if (d2 < 0.01 || orc::angDiff(a, b) > M_PI - 1e-3) { continue; }
        const double half = orc::angDiff(a, b) / 2, p = t.getPointAngle(i);
        const double e2 = 1e-8 + 4 * tol / d + 4 * tol / d2;
        CHECK_NEAR(orc::angDiff(p, a), half, e2);
        CHECK_NEAR(orc::angDiff(p, b), half, e2);
      }
    }
  }
};
template <class T> void curveExtra(const T& t, const L& m, double tol) {
  CHECK_NEAR(t.length(), len(m), err(tol, 1 + len(m)) * 4 *
      static_cast<double>(m.size() + 1));
  if (m.empty()) {
    CHECK_THROWS(t.startPoint());
    CHECK_THROWS(t.endPoint());
    return;
  }
  samePt(t.startPoint(), m.front(), tol, "start");
  samePt(t.endPoint(), m.back(), tol, "end");
  for (size_t i = 0; i < m.size(); ++i) {
    samePt(F2CPoint(t.getX(i), t.getY(i), t.getZ(i)), m[i], tol, "X/Y/Z");
  }
}
template <> struct Extra<F2CLineString> {
  static void check(const F2CLineString& t, const L& m, double tol) {
    curveExtra(t, m, tol);
    const size_t n = m.size();
    for (size_t i = 0; i < n; ++i) {
      samePt(F2CPoint(t.X(i), t.Y(i), t.Z(i)), m[i], tol, "X/Y/Z");
    }
    if (n < 2) {
      CHECK_THROWS(t.startAngle());
      CHECK_THROWS(t.endAngle());
      return;
    }
    const double d0 = std::hypot(m[1].x - m[0].x, m[1].y - m[0].y);
    const double d1 = std::hypot(m[n-1].x - m[n-2].x, m[n-1].y - m[n-2].y);
    if (d0 > 0.01) {
      CHECK(orc::angDiff(t.startAngle(), std::atan2(m[1].y - m[0].y,
              m[1].x - m[0].x)) <= 1e-9 + 4 * tol / d0);
    }
    if (d1 > 0.01) {
      CHECK(orc::angDiff(t.endAngle(), std::atan2(m[n-1].y - m[n-2].y,
              m[n-1].x - m[n-2].x)) <= 1e-9 + 4 * tol / d1);
    }
  }
};
template <> struct Extra<F2CLinearRing> {
  static void check(const F2CLinearRing& t, const L& m, double tol) {
    curveExtra(t, m, tol);
    if (m.size() >= 3) {
      const orc::Ring r = flat(m);
      Ext e;
      grow(&e, m);
      CHECK_NEAR(t.area(), orc::area(r), err(tol, span(e)) * 8 * span(e) *
          static_cast<double>(m.size()));
    }
  }
};
template <class T> struct IsCurve { static const bool v = true; };
template <> struct IsCurve<F2CMultiPoint> { static const bool v = false; };

template <class T> void reverseIf(T& t, L* m) {
  t.reversePoints();
  std::reverse(m->begin(), m->end());
}
template <> void reverseIf(F2CMultiPoint&, L*) {}
template <class T> void addMany(T& t, const F2CMultiPoint& ps) {
  for (auto&& p : ps) { t.addPoint(p); }
}
template <> void addMany(F2CMultiPoint& t, const F2CMultiPoint& ps) {
  t.addPoints(ps);
}
template <class T> void closeIf(Gen&, T&, L*) {}
template <> void closeIf(Gen& g, F2CLinearRing& t, L* m) {
  if (m->empty()) {
    t.closeRing();
    return;
  }
  // only when the ends are clearly the same or clearly apart
  const double d = std::hypot(m->front().x - m->back().x,
      m->front().y - m->back().y);
  if (d != 0 && d < 1e-3) { return; }
  const bool closed = t.isClosed();
  CHECK_EQ(closed, d == 0 && (m->front().z == m->back().z || t.isClosed()));
  t.closeRing();
  if (!closed) { m->push_back(m->front()); }
  CHECK(t.isClosed());
  (void)g;
}

template <class T> void pointHistory(Gen& g) {
  T t;
  L m;
  double tol = 1e-9;
  if (g.chance(1, 3)) {
    std::vector<F2CPoint> ps;
    for (size_t k = g.size(0, 5); k-- > 0;) {
      m.push_back(genP(g));
      ps.push_back(pt3(m.back()));
    }
    t = T(ps);
    g.note("constructed from ", ps.size(), " points");
  }
  const size_t ops = g.size(1, 14);
  size_t changed = 0;
  for (size_t k = 0; k < ops; ++k) {
    const size_t n = m.size();
    switch (g.weighted({6, 3, 3, 2, 2, 2, 2, 2, 1, 1, 2})) {
      case 0: {
        const P3 p = genP(g);
        g.note("add ", p.x, " ", p.y, " ", p.z);
        switch (g.below(4)) {
          case 0: t.addPoint(p.x, p.y, p.z); m.push_back(p); break;
          case 1: t.addPoint(pt3(p)); m.push_back(p); break;
          case 2: t.addGeometry(pt3(p)); m.push_back(p); break;
          default: t.addPoint(p.x, p.y); m.push_back(P3{p.x, p.y, 0});
        }
        ++changed;
        break;
      }
      case 1: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        const P3 p = genP(g);
        g.note("set ", i, " to ", p.x, " ", p.y, " ", p.z);
        t.setGeometry(i, pt3(p));
        m[i] = p;
        ++changed;
        break;
      }
      case 2: {   // past the end: rejected, or grown up to that index
        const size_t i = n + g.size(0, 5);
        const P3 p = genP(g);
        g.note("set (past the end) ", i, " to ", p.x, " ", p.y, " ", p.z);
        bool threw = false;
        try { t.setGeometry(i, pt3(p)); } catch (const std::exception&) {
          threw = true;
        }
        if (threw) { break; }
        CHECK_EQ(t.size(), i + 1);
        samePt(t.getGeometry(i), p, tol, "set past the end");
        while (m.size() < i) {
          const F2CPoint q = t.getGeometry(m.size());
          m.push_back(P3{q.getX(), q.getY(), q.getZ()});
        }
        m.push_back(p);
        break;
      }
      case 3: {
        const double s = g.pick(std::vector<double>{0.5, 2, -1, 1.5, 0.1});
        g.note("scale ", s);
        t *= s;
        for (auto&& p : m) { p.x *= s; p.y *= s; p.z *= s; }
        tol = tol * std::fabs(s) + 2e-7;
        ++changed;
        break;
      }
      case 4: {
        const P3 d = genP(g);
        g.note("translate ", d.x, " ", d.y, " ", d.z);
        const T u = g.boolean() ? t + pt3(d) : t - pt3(P3{-d.x, -d.y, -d.z});
        sameLine(t, m, tol, "operand of +");
        for (auto&& p : m) { p.x += d.x; p.y += d.y; p.z += d.z; }
        t = u;
        ++changed;
        break;
      }
      case 5: {
        const P3 c = genP(g);
        const double a = g.angle(1);
        g.note("rotate ", a, " around ", c.x, " ", c.y);
        const T u = F2CPoint(c.x, c.y).rotateFromPoint(a, t);
        CHECK_EQ(u.size(), n);
        sameLine(t, m, tol, "operand of rotateFromPoint");
        for (size_t i = 0; i < n; ++i) {
          const V r = orc::rot(V(m[i].x - c.x, m[i].y - c.y), a);
          const F2CPoint q = u.getGeometry(i);
          m[i].x = r.x + c.x; m[i].y = r.y + c.y;
          if (q.getZ() == 0) { m[i].z = 0; }
        }
        t = u;
        tol += 1e-9;
        ++changed;
        break;
      }
      case 6: {
        if (!IsCurve<T>::v) { break; }
        g.note("reverse");
        reverseIf(t, &m);
        ++changed;
        break;
      }
      case 7: {   // iterate and change in place
        const double d = g.real(1, 9);
        g.note("iterate, x += ", d);
        size_t i = 0;
        for (auto&& p : t) {
          CHECK(i < n);
          samePt(p, m[i], tol, "iterated");
          p.setX(p.getX() + d);
          m[i++].x += d;
        }
        CHECK_EQ(i, n);
        break;
      }
      case 8: {
        F2CMultiPoint ps;
        for (size_t c = g.size(0, 3); c-- > 0;) {
          const P3 p = genP(g);
          ps.addPoint(pt3(p));
          m.push_back(p);
        }
        g.note("add ", ps.size(), " points");
        addMany(t, ps);
        break;
      }
      case 9:
        g.note("close");
        closeIf(g, t, &m);
        break;
      default: {  // a child that is read is a copy
        if (n == 0) { break; }
        const size_t i = g.below(n);
        F2CPoint p = t.getGeometry(i);
        p.setX(p.getX() + 5);
        F2CPoint q = t.at(static_cast<int>(i));
        q.setY(q.getY() - 5);
        F2CPoint r = t[static_cast<int>(i)];
        r *= 3;
        break;
      }
    }
    // invariants after every step
    sameLine(t, m, tol, "after step");
    const T& ct = t;
    size_t i = 0;
    for (auto&& p : ct) { samePt(p, m[i++], tol, "const iteration"); }
    CHECK_EQ(i, m.size());
    CHECK_EQ(t.isEmpty(), m.empty());
    badReads<T, F2CPoint>(g, t, m.size());
    if (!m.empty()) {
      const size_t j = g.below(m.size());
      F2CPoint p;
      ct.getGeometry(j, p);
      samePt(p, m[j], tol, "getGeometry(i, out)");
      samePt(ct.at(static_cast<int>(j)), m[j], tol, "at");
      samePt(ct[static_cast<int>(j)], m[j], tol, "[]");
      samePt(ct.back(), m.back(), tol, "back");
      Ext e;
      grow(&e, m);
      bbox(t, e, tol);
    }
    Extra<T>::check(t, m, tol);
  }
  if (changed >= 3 && m.size() >= 2) { g.nontrivial(); }
}

// ------------------------------------------------------------- ring direction
void ringDirection(Gen& g) {
  orc::ShapeOpt o;
  o.allow_holes = false;
  const orc::Poly p = orc::genPoly(g, o);
  g.note(orc::str(p));
  F2CLinearRing r;
  for (auto&& q : p.outer) { r.addPoint(q.x, q.y); }
  CHECK(!r.isClosed());
  if (g.boolean()) {
    F2CLinearRing& back = r.closeRing();
    CHECK(&back == &r);
  } else {
    r.addPoint(p.outer[0].x, p.outer[0].y);
  }
  CHECK(r.isClosed());
  const size_t n = r.size();
  r.closeRing();
  CHECK_EQ(r.size(), n, "closing twice adds nothing");
  CHECK_EQ(r.isClockwise(), orc::signedArea(p.outer) < 0);
  r.reversePoints();
  CHECK_EQ(r.isClockwise(), orc::signedArea(p.outer) > 0);
  CHECK_NEAR(r.area(), orc::area(p.outer), 1e-6 * (1 + orc::area(p.outer)));
  CHECK_NEAR(r.length(), orc::perimeter(p.outer), 1e-6);
  const F2CLineString l(r);
  CHECK_EQ(l.size(), n);
  for (size_t i = 0; i < n; ++i) {
    CHECK(l.getGeometry(i) == r.getGeometry(i));
  }
  const F2CMultiLineString s1 = F2CMultiLineString::getLineSegments(l);
  const F2CMultiLineString s2 = F2CMultiLineString::getLineSegments(r);
  CHECK_EQ(s1.size(), n - 1);
  CHECK_EQ(s2.size(), n - 1);
  for (size_t i = 0; i + 1 < n; ++i) {
    const F2CLineString a = s1.getGeometry(i), b = s2.getGeometry(i);
    CHECK(a.size() == 2 && b.size() == 2);
    CHECK(a.getGeometry(0) == l.getGeometry(i) &&
          a.getGeometry(1) == l.getGeometry(i + 1));
    CHECK(b.getGeometry(0) == l.getGeometry(i) &&
          b.getGeometry(1) == l.getGeometry(i + 1));
  }
  g.nontrivial();
}

// ----------------------------------------------------------- lists of lines
L genLine(Gen& g, size_t lo, size_t hi) {
  L l;
  for (size_t k = g.size(lo, hi); k-- > 0;) { l.push_back(genP(g)); }
  return l;
}
void checkLines(const F2CMultiLineString& t, const LL& m, double tol) {
  CHECK_EQ(t.size(), m.size());
  double s = 0;
  Ext e;
  size_t pts = 0;
  for (size_t i = 0; i < m.size(); ++i) {
    sameLine(t.getGeometry(i), m[i], tol, "line of the collection");
    s += len(m[i]);
    grow(&e, m[i]);
    pts += m[i].size();
  }
  CHECK_NEAR(t.length(), s, err(tol, 1 + s) * 4 * static_cast<double>(pts + 1));
  size_t i = 0;
  for (auto&& l : t) { sameLine(l, m[i++], tol, "const iteration"); }
  CHECK_EQ(i, m.size());
  if (!m.empty()) { bbox(t, e, tol); }
}
void scale(L* l, double s) {
  for (auto&& p : *l) { p.x *= s; p.y *= s; p.z *= s; }
}
void lineHistory(Gen& g) {
  F2CMultiLineString t;
  LL m;
  double tol = 1e-9;
  size_t changed = 0;
  for (size_t k = g.size(1, 10); k-- > 0;) {
    const size_t n = m.size();
    switch (g.weighted({5, 2, 2, 2, 2, 2, 2, 1, 2})) {
      case 0: {
        const L l = genLine(g, 2, 5);
        g.note("add line of ", l.size());
        F2CLineString fl = build<F2CLineString>(l);
        t.addGeometry(fl);
        fl *= 7;           // the collection keeps its own copy
        m.push_back(l);
        ++changed;
        break;
      }
      case 1: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        const L l = genLine(g, 2, 4);
        g.note("set ", i);
        t.setGeometry(i, build<F2CLineString>(l));
        m[i] = l;
        ++changed;
        break;
      }
      case 2: {
        const size_t i = n + g.size(0, 5);
        const L l = genLine(g, 2, 4);
        g.note("set past the end ", i);
        bool threw = false;
        try { t.setGeometry(i, build<F2CLineString>(l)); }
        catch (const std::exception&) { threw = true; }
        if (threw) { break; }
        while (m.size() < i) { m.emplace_back(); }
        m.push_back(l);
        ++changed;
        break;
      }
      case 3: {
        const double s = g.pick(std::vector<double>{0.5, 2, -1, 1.5});
        g.note("scale ", s);
        t *= s;
        for (auto&& l : m) { scale(&l, s); }
        tol = tol * std::fabs(s) + 2e-7;
        break;
      }
      case 4: {
        const P3 d = genP(g);
        g.note("translate");
        bool any_empty = false;
        for (auto&& l : m) { any_empty |= l.empty(); }
        if (any_empty) { break; }
        F2CMultiLineString u = t + pt3(d);
        checkLines(t, m, tol);
        for (auto&& l : m) {
          for (auto&& p : l) { p.x += d.x; p.y += d.y; p.z += d.z; }
        }
        t = u;
        break;
      }
      case 5: {
        LL o;
        F2CMultiLineString u;
        for (size_t c = g.size(0, 3); c-- > 0;) {
          o.push_back(genLine(g, 2, 3));
          u.addGeometry(build<F2CLineString>(o.back()));
        }
        g.note("add ", o.size(), " lines");
        if (g.boolean()) { t.addGeometry(u); } else { t.append(u.get()); }
        m.insert(m.end(), o.begin(), o.end());
        break;
      }
      case 6: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        g.note("read ", i, " and change the copy");
        F2CLineString l = t.getGeometry(i);
        l *= 3;
        l.reversePoints();
        F2CLineString q = t.at(static_cast<int>(i));
        q.addPoint(0, 0);
        break;
      }
      case 7: {
        g.note("iterate and reverse every line");
        size_t i = 0;
        for (auto&& l : t) {
          sameLine(l, m[i], tol, "iterated");
          l.reversePoints();
          std::reverse(m[i].begin(), m[i].end());
          ++i;
        }
        CHECK_EQ(i, n);
        break;
      }
      default: {
        const L l = genLine(g, 2, 5);
        g.note("append OGR line of ", l.size());
        t.append(build<F2CLineString>(l).get());
        m.push_back(l);
      }
    }
    checkLines(t, m, tol);
    badReads<F2CMultiLineString, F2CLineString>(g, t, m.size());
    if (!m.empty()) {
      sameLine(t.back(), m.back(), tol, "back");
      F2CLineString l;
      const size_t j = g.below(m.size());
      static_cast<const F2CMultiLineString&>(t).getGeometry(j, l);
      sameLine(l, m[j], tol, "getGeometry(i, out)");
    }
  }
  if (changed >= 2) { g.nontrivial(); }
}

// ------------------------------------------------------------- polygons
L genRing(Gen& g) {
  // real boundaries, so that areas are meaningful; open or closed
  const V c(coord(g), coord(g));
  const orc::Ring r = orc::star(g, c, 4, 12, g.size(3, 6));
  L l;
  for (auto&& p : r) { l.push_back(P3{p.x, p.y, 0}); }
  return l;
}
L closed(L l) {
  if (!l.empty()) { l.push_back(l.front()); }
  return l;
}
double polyArea(const LL& m) {
  double s = 0;
  for (size_t i = 0; i < m.size(); ++i) {
    s += (i == 0 ? 1 : -1) * orc::area(flat(m[i]));
  }
  return s;
}
void checkCell(const F2CCell& c, const LL& m, double tol) {
  CHECK_EQ(c.size(), m.size());
  Ext e;
  for (size_t i = 0; i < m.size(); ++i) {
    sameLine(c.getGeometry(i), m[i], tol, "ring of the cell");
    if (i == 0) {
      sameLine(c.getExteriorRing(), m[i], tol, "exterior ring");
    } else {
      sameLine(c.getInteriorRing(i - 1), m[i], tol, "interior ring");
    }
    grow(&e, m[i]);
  }
  size_t i = 0;
  for (auto&& r : c) { sameLine(r, m[i++], tol, "const iteration"); }
  CHECK_EQ(i, m.size());
  if (!m.empty()) {
    CHECK_NEAR(c.area(), polyArea(m), err(tol, span(e)) * 16 * span(e) *
        static_cast<double>(m.size()));
  }
  if (!m.empty()) { bbox(c, e, tol); }
}
void cellHistory(Gen& g) {
  F2CCell t;
  LL m;
  double tol = 1e-9;
  if (g.boolean()) {
    const L l = genRing(g);
    t = F2CCell(build<F2CLinearRing>(l));
    m.push_back(closed(l));
    g.note("constructed from a ring");
  }
  size_t changed = 0;
  for (size_t k = g.size(1, 10); k-- > 0;) {
    const size_t n = m.size();
    switch (g.weighted({5, 2, 1, 2, 2, 2})) {
      case 0: {
        const L l = genRing(g);
        F2CLinearRing r = build<F2CLinearRing>(g.boolean() ? closed(l) : l);
        const size_t rn = r.size();
        g.note("add ring of ", rn);
        if (g.boolean()) { t.addRing(r); } else { t.addGeometry(r); }
        CHECK_EQ(r.size(), rn, "the argument is left unchanged");
        r *= 5;
        m.push_back(closed(l));
        ++changed;
        break;
      }
      case 1: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        const L l = genRing(g);
        g.note("set ring ", i);
        t.setGeometry(i, build<F2CLinearRing>(closed(l)));
        m[i] = closed(l);
        ++changed;
        break;
      }
      case 2: {
        if (n == 0) { break; }
        const size_t i = n + g.size(0, 5);
        const L l = genRing(g);
        g.note("set ring past the end ", i);
        bool threw = false;
        try { t.setGeometry(i, build<F2CLinearRing>(closed(l))); }
        catch (const std::exception&) { threw = true; }
        if (threw) { break; }
        while (m.size() < i) { m.emplace_back(); }
        m.push_back(closed(l));
        break;
      }
      case 3: {
        const double s = g.pick(std::vector<double>{0.5, 2, -1, 1.5});
        g.note("scale ", s);
        t *= s;
        for (auto&& l : m) { scale(&l, s); }
        tol = tol * std::fabs(s) + 2e-7;
        break;
      }
      case 4: {
        bool any_empty = m.empty();
        for (auto&& l : m) { any_empty |= l.empty(); }
        if (any_empty) { break; }
        const P3 d = genP(g);
        g.note("translate ", d.x, " ", d.y);
        const F2CCell u = t + F2CPoint(d.x, d.y);
        checkCell(t, m, tol);
        for (auto&& l : m) { for (auto&& p : l) { p.x += d.x; p.y += d.y; } }
        t = u;
        break;
      }
      default: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        g.note("read ring ", i, " and change the copy");
        F2CLinearRing r = t.getGeometry(i);
        r *= 2;
        F2CLinearRing e = t.getExteriorRing();
        e.reversePoints();
        if (n > 1) {
          F2CLinearRing q = t.getInteriorRing(0);
          q.addPoint(1, 1);
        }
      }
    }
    checkCell(t, m, tol);
    badReads<F2CCell, F2CLinearRing>(g, t, m.size());
    if (!m.empty()) { sameLine(t.back(), m.back(), tol, "back"); }
  }
  if (changed >= 2) { g.nontrivial(); }
}

F2CCell buildCell(const LL& m) {
  F2CCell c;
  for (auto&& l : m) { c.addRing(build<F2CLinearRing>(l)); }
  return c;
}
LL genCell(Gen& g) {
  LL m;
  for (size_t k = g.size(1, 3); k-- > 0;) { m.push_back(closed(genRing(g))); }
  return m;
}
void checkCells(const F2CCells& t, const LLL& m, double tol) {
  CHECK_EQ(t.size(), m.size());
  Ext e;
  double a = 0;
  size_t rings = 0;
  for (size_t i = 0; i < m.size(); ++i) {
    checkCell(t.getGeometry(i), m[i], tol);
    checkCell(t.getCell(i), m[i], tol);
    if (!m[i].empty()) {
      sameLine(t.getCellBorder(i), m[i][0], tol, "cell border");
    }
    for (auto&& l : m[i]) { grow(&e, l); }
    for (size_t j = 1; j < m[i].size(); ++j) {
      sameLine(t.getInteriorRing(i, j - 1), m[i][j], tol, "interior ring");
    }
    a += polyArea(m[i]);
    rings += m[i].size();
  }
  size_t i = 0;
  for (auto&& c : t) { checkCell(c, m[i++], tol); }
  CHECK_EQ(i, m.size());
  if (!m.empty()) {
    bbox(t, e, tol);
    CHECK_NEAR(t.area(), a, err(tol, span(e)) * 16 * span(e) *
        static_cast<double>(rings));
  }
}
void cellsHistory(Gen& g) {
  F2CCells t;
  LLL m;
  double tol = 1e-9;
  size_t changed = 0;
  if (g.chance(1, 3)) {
    m.push_back(genCell(g));
    t = F2CCells(buildCell(m[0]));
    g.note("constructed from a cell");
  }
  for (size_t k = g.size(1, 8); k-- > 0;) {
    const size_t n = m.size();
    switch (g.weighted({5, 2, 1, 2, 2, 2, 3})) {
      case 0: {
        const LL c = genCell(g);
        F2CCell fc = buildCell(c);
        g.note("add cell of ", c.size(), " rings");
        t.addGeometry(fc);
        fc *= 3;
        m.push_back(c);
        ++changed;
        break;
      }
      case 1: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        const LL c = genCell(g);
        g.note("set cell ", i);
        t.setGeometry(i, buildCell(c));
        m[i] = c;
        ++changed;
        break;
      }
      case 2: {
        const size_t i = n + g.size(0, 5);
        const LL c = genCell(g);
        g.note("set cell past the end ", i);
        bool threw = false;
        try { t.setGeometry(i, buildCell(c)); }
        catch (const std::exception&) { threw = true; }
        if (threw) { break; }
        while (m.size() < i) { m.emplace_back(); }
        m.push_back(c);
        break;
      }
      case 3: {
        const double s = g.pick(std::vector<double>{0.5, 2, -1, 1.5});
        g.note("scale ", s);
        t *= s;
        for (auto&& c : m) { for (auto&& l : c) { scale(&l, s); } }
        tol = tol * std::fabs(s) + 2e-7;
        break;
      }
      case 4: {
        bool any_empty = m.empty();
        for (auto&& c : m) { any_empty |= c.empty(); }
        if (any_empty) { break; }
        const P3 d = genP(g);
        g.note("translate ", d.x, " ", d.y);
        const F2CCells u = t + F2CPoint(d.x, d.y);
        checkCells(t, m, tol);
        for (auto&& c : m) {
          for (auto&& l : c) { for (auto&& p : l) { p.x += d.x; p.y += d.y; } }
        }
        t = u;
        break;
      }
      case 5: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        if (m[i].empty()) { break; }
        const L l = genRing(g);
        const bool cl = g.boolean();
        g.note("add ", cl ? "closed" : "open", " ring to cell ", i);
        t.addRing(i, build<F2CLinearRing>(cl ? closed(l) : l));
        m[i].push_back(closed(l));
        ++changed;
        break;
      }
      default: {
        if (n == 0) { break; }
        const size_t i = g.below(n);
        g.note("read cell ", i, " and change the copy");
        F2CCell c = t.getGeometry(i);
        c *= 2;
        F2CCell d = t.getCell(i);
        d.addRing(build<F2CLinearRing>(genRing(g)));
        if (!m[i].empty()) {
          F2CLinearRing r = t.getCellBorder(i);
          r *= 2;
        }
      }
    }
    checkCells(t, m, tol);
    badReads<F2CCells, F2CCell>(g, t, m.size());
    if (!m.empty()) { checkCell(t.back(), m.back(), tol); }
  }
  if (changed >= 2) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C03",
    "histories of up to 14 operations on every collection type compared with "
    "plain lists after every step; non-trivial: at least 3 (points) or 2 "
    "(nested) modifying operations",
    {{"multipoint", 8000, 120000, pointHistory<F2CMultiPoint>},
     {"linestring", 12000, 160000, pointHistory<F2CLineString>},
     {"linearring", 12000, 160000, pointHistory<F2CLinearRing>},
     {"ring-direction", 8000, 80000, ringDirection},
     {"multilinestring", 6000, 80000, lineHistory},
     {"cell", 6000, 80000, cellHistory},
     {"cells", 3000, 40000, cellsHistory}}};
  return p;
}
