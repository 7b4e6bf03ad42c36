// C34: empty and minimal inputs give neutral results or errors.
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "fields2cover.h"
#include "pbt.hpp"
#include "f2c.hpp"

namespace {
using pbt::Gen;
using pbt::Property;
typedef std::vector<F2CPoint> Pts;

// --------------------------------------------------------------- little things
double num(Gen& g) {
  switch (g.below(5)) {
    case 0: return 0;
    case 1: return static_cast<double>(g.integer(-3, 3));
    case 2: return g.grid(-10, 10, 0.5);
    default: return g.real(-50, 50);
  }
}
F2CPoint point(Gen& g) { return F2CPoint(num(g), num(g)); }
// 0..4 points: none, one, repeated, on a line, or a square
Pts points(Gen& g) {
  const F2CPoint a = point(g), b = point(g);
  switch (g.weighted({2, 2, 2, 2, 1, 1, 2, 3})) {
    case 0: return {};
    case 1: return {a};
    case 2: return {a, a};
    case 3: return {a, b};
    case 4: return {a, a, a};
    case 5: return {a, b, a};
    case 6: return {a, (a + b) * 0.5, b};
    default: {
      const double s = g.real(0.5, 30);
      return {a, a + F2CPoint(s, 0), a + F2CPoint(s, s), a + F2CPoint(0, s)};
    }
  }
}
F2CLineString line(Gen& g) {
  F2CLineString l;
  for (auto&& p : points(g)) { l.addPoint(p); }
  return l;
}
F2CLinearRing ring(Gen& g) {
  F2CLinearRing r;
  Pts p = points(g);
  for (auto&& x : p) { r.addPoint(x); }
  if (!p.empty() && g.chance(3, 4)) { r.addPoint(p[0]); }
  return r;
}
F2CLinearRing square(const F2CPoint& a, double s) {
  F2CLinearRing r;
  r.addPoint(a);
  r.addPoint(a + F2CPoint(s, 0));
  r.addPoint(a + F2CPoint(s, s));
  r.addPoint(a + F2CPoint(0, s));
  r.addPoint(a);
  return r;
}
F2CCell cell(Gen& g) {
  F2CCell c;
  switch (g.weighted({2, 3, 3, 1, 1})) {
    case 0: break;
    case 1: c.addRing(ring(g)); break;
    case 2: c.addRing(square(point(g), g.real(0.1, 30))); break;
    case 3: c.addRing(square(point(g), 1e-9)); break;   // tiny
    default:
      c.addRing(square(F2CPoint(0, 0), 20));
      c.addRing(g.boolean() ? square(F2CPoint(5, 5), 3) : ring(g));
  }
  return c;
}
F2CCells cells(Gen& g) {
  F2CCells c;
  for (size_t n = g.weighted({2, 4, 2, 1}); n-- > 0;) { c.addGeometry(cell(g)); }
  return c;
}
F2CMultiLineString lines(Gen& g) {
  F2CMultiLineString l;
  for (size_t n = g.below(4); n-- > 0;) { l.addGeometry(line(g)); }
  return l;
}
F2CMultiPoint multi(Gen& g) {
  F2CMultiPoint m;
  for (auto&& p : points(g)) { m.addPoint(p); }
  return m;
}
double width(Gen& g) {
  return g.pick(std::vector<double>{1, 0.5, 2.5, 7, 60, 1, 0, 1e-3});
}
F2CSwath swath(Gen& g) {
  switch (g.weighted({1, 1, 3, 3})) {
    case 0: return F2CSwath();
    case 1: return F2CSwath(std::max(width(g), 1e-3));
    case 2: {
      const double w = width(g);
      const F2CLineString l = line(g);
      return w > 0 ? F2CSwath(l, w, static_cast<int>(g.below(4))) : F2CSwath(l);
    }
    default: {
      F2CLineString l;
      const F2CPoint a = point(g);
      l.addPoint(a);
      l.addPoint(a + F2CPoint(g.real(1, 30), 0));
      return F2CSwath(l, 2, static_cast<int>(g.below(4)));
    }
  }
}
F2CSwaths swaths(Gen& g) {
  F2CSwaths s;
  for (size_t n = g.weighted({3, 4, 2, 1}); n-- > 0;) { s.push_back(swath(g)); }
  return s;
}
F2CSwathsByCells byCells(Gen& g) {
  F2CSwathsByCells s;
  for (size_t n = g.below(4); n-- > 0;) { s.push_back(swaths(g)); }
  return s;
}
F2CRoute route(Gen& g) {
  F2CRoute r;
  for (size_t n = g.below(6); n-- > 0;) {
    switch (g.below(6)) {
      case 0: r.addConnection(); break;
      case 1: r.addConnection(point(g)); break;
      case 2: r.addConnection(multi(g)); break;
      case 3: r.addSwath(swath(g)); break;
      case 4: r.addSwaths(swaths(g)); break;
      default: r.addConnectedSwaths(multi(g), swaths(g));
    }
  }
  return r;
}
F2CPathState state(Gen& g) {
  F2CPathState s;
  s.point = point(g);
  s.angle = g.angle(1);
  s.len = g.boolean() ? 0 : g.real(0, 10);
  s.velocity = g.chance(1, 6) ? 0 : g.real(0.1, 3);
  s.type = g.pick(std::vector<f2c::types::PathSectionType>{
      f2c::types::PathSectionType::SWATH, f2c::types::PathSectionType::TURN,
      f2c::types::PathSectionType::HL_SWATH});
  s.dir = g.boolean() ? f2c::types::PathDirection::FORWARD :
      f2c::types::PathDirection::BACKWARD;
  return s;
}
F2CPath path(Gen& g) {
  F2CPath p;
  for (size_t n = g.weighted({3, 3, 2, 1}); n-- > 0;) { p.addState(state(g)); }
  return p;
}
F2CRobot robot(Gen& g) {
  if (g.chance(1, 4)) { return F2CRobot(); }
  F2CRobot r(1 + g.real(0, 3));
  if (g.boolean()) { r.setTurnVel(g.real(0.1, 2)); }
  if (g.chance(1, 4)) { r.setMaxDiffCurv(0); }
  return r;
}
F2CField field(Gen& g) {
  if (g.chance(1, 4)) { return F2CField(); }
  F2CField f(cells(g), "f");
  if (g.boolean()) { f.setRefPoint(point(g)); }
  if (g.boolean()) { f.setCRS(g.pick(std::vector<std::string>{"", "EPSG:4326", "EPSG:28992", "UTM:31N datum:etrs89", "UTM:31N", "x", "EPSG:", "UTM:"})); }
  return f;
}
// A value that is used later is a number.
void sane(double v, const char* what) {
  CHECK(!std::isnan(v), " ", what, " is not a number");
}
void sane(const F2CPoint& p, const char* what) {
  sane(p.getX(), what);
  sane(p.getY(), what);
}
template <class T> void all(const T& t, const char* what) {
  for (auto&& p : t) { sane(p, what); }
}
void sane(const F2CPath& p, const char* what) {
  for (auto&& s : p) { sane(s.point, what); sane(s.angle, what); sane(s.len, what); }
}
void sane(const F2CSwaths& p, const char* what) {
  for (auto&& s : p) { all(s.getPath(), what); }
}

// Fractions of the area of a region that has none are undefined.
void ratio(double v, double area) {
  if (area > 0) { sane(v, "cost"); }
}

struct Op { const char* name; std::function<void(Gen&)> fn; };
typedef std::vector<Op> Ops;

template <class T> void geometry(Gen& g, const T& t) {
  const F2CPoint p = point(g);
  switch (g.below(16)) {
    case 0: (void)t.getDimMinX(); (void)t.getDimMaxX(); (void)t.getDimMinY(); (void)t.getDimMaxY(); break;
    case 1: sane(t.getHeight(), "height"); sane(t.getWidth(), "width"); break;
    case 2: sane(t.getMinSafeLength(), "safe length"); break;
    case 3: sane(t.distance(p), "distance"); break;
    case 4: (void)t.disjoint(p); (void)t.touches(p); break;
    case 5: (void)t.within(cells(g)); (void)t.intersects(line(g)); break;
    case 6: (void)t.crosses(line(g)); break;
    case 7: (void)t.isEmpty(); (void)(t == t); break;
    case 8: (void)t.exportToWkt(); (void)t.exportToGML(); break;
    case 9: (void)t.exportToKML(); (void)t.exportToJson(); break;
    case 10: { T c = t.clone(); (void)c; break; }
    case 11: sane(t.area(), "area"); break;
    case 12: { T c = t.simplify(width(g)); (void)c; break; }
    case 13: { T c = t + p; (void)c; break; }
    case 14: { T c = t - p; (void)c; break; }
    default: { T c = p.rotateFromPoint(g.angle(1), t); (void)c; }
  }
}

const Ops& geometryOps() {
  static const Ops o{
    {"line geometry", [](Gen& g) { geometry(g, line(g)); }},
    {"lines geometry", [](Gen& g) { geometry(g, lines(g)); }},
    {"ring geometry", [](Gen& g) { geometry(g, ring(g)); }},
    {"points geometry", [](Gen& g) { geometry(g, multi(g)); }},
    {"cell geometry", [](Gen& g) { geometry(g, cell(g)); }},
    {"cells geometry", [](Gen& g) { geometry(g, cells(g)); }},
    {"line length", [](Gen& g) { sane(line(g).length(), "length"); }},
    {"line reverse", [](Gen& g) { auto l = line(g); l.reversePoints(); }},
    {"line scale", [](Gen& g) { auto l = line(g); l *= num(g); }},
    {"line start", [](Gen& g) { sane(line(g).startPoint(), "start"); }},
    {"line end", [](Gen& g) { sane(line(g).endPoint(), "end"); }},
    {"line start angle", [](Gen& g) { sane(line(g).startAngle(), "start angle"); }},
    {"line end angle", [](Gen& g) { sane(line(g).endAngle(), "end angle"); }},
    {"line closest", [](Gen& g) { sane(line(g).closestPointTo(point(g)), "closest point"); }},
    {"line of a ring", [](Gen& g) { F2CLineString l(ring(g)); }},
    {"ring length", [](Gen& g) { sane(ring(g).length(), "length"); }},
    {"ring reverse", [](Gen& g) { auto l = ring(g); l.reversePoints(); }},
    {"ring scale", [](Gen& g) { auto l = ring(g); l *= num(g); }},
    {"ring start", [](Gen& g) { sane(ring(g).startPoint(), "start"); }},
    {"ring end", [](Gen& g) { sane(ring(g).endPoint(), "end"); }},
    {"ring closest", [](Gen& g) { sane(ring(g).closestPointTo(point(g)), "closest point"); }},
    {"ring clockwise", [](Gen& g) { (void)ring(g).isClockwise(); (void)ring(g).isClosed(); }},
    {"ring close", [](Gen& g) { auto r = ring(g); r.closeRing(); }},
    {"lines length", [](Gen& g) { sane(lines(g).length(), "length"); }},
    {"lines scale", [](Gen& g) { auto l = lines(g); l *= num(g); }},
    {"lines append", [](Gen& g) { auto l = lines(g); l.addGeometry(lines(g)); }},
    {"segments of a line", [](Gen& g) { (void)F2CMultiLineString::getLineSegments(line(g)); }},
    {"segments of a ring", [](Gen& g) { (void)F2CMultiLineString::getLineSegments(ring(g)); }},
    {"lines in a cell", [](Gen& g) { (void)lines(g).intersection(cell(g)); }},
    {"lines in cells", [](Gen& g) { (void)lines(g).intersection(cells(g)); }},
    {"line in cells", [](Gen& g) { (void)F2CMultiLineString::intersection(line(g), cells(g)); }},
    {"line by line", [](Gen& g) { (void)F2CMultiLineString::intersection(line(g), line(g)); }},
    {"points ends", [](Gen& g) { auto m = multi(g); sane(m.getFirstPoint(), "first"); sane(m.getLastPoint(), "last"); }},
    {"points angles", [](Gen& g) { auto m = multi(g); const size_t i = g.below(3);
       sane(m.getInAngle(i), "angle"); sane(m.getOutAngle(i), "angle"); sane(m.getPointAngle(i), "angle"); }},
    {"points add", [](Gen& g) { auto m = multi(g); m.addPoints(multi(g)); m *= num(g); }},
    {"points add own", [](Gen& g) { auto m = multi(g); m.addPoints(m); }},
    {"cell scale", [](Gen& g) { auto c = cell(g); c *= num(g); }},
    {"cell buffer", [](Gen& g) { (void)F2CCell::buffer(cell(g), width(g) * (g.boolean() ? 1 : -1)); }},
    {"buffer of a line", [](Gen& g) { (void)F2CCell::buffer(line(g), width(g)); }},
    {"buffer of a ring", [](Gen& g) { (void)F2CCell::buffer(ring(g), width(g)); }},
    {"buffer of a point", [](Gen& g) { (void)F2CCell::buffer(point(g), width(g)); }},
    {"cell hull", [](Gen& g) { (void)cell(g).convexHull(); }},
    {"hull of points", [](Gen& g) { (void)F2CCell::convexHull(multi(g)); }},
    {"hull of a line", [](Gen& g) { (void)F2CCell::convexHull(line(g)); }},
    {"cell convex", [](Gen& g) { (void)cell(g).isConvex(); }},
    {"cell rings", [](Gen& g) { auto c = cell(g); (void)c.getExteriorRing(); }},
    {"cell hole", [](Gen& g) { auto c = cell(g); (void)c.getInteriorRing(g.below(2)); }},
    {"cell ring", [](Gen& g) { auto c = cell(g); (void)c.getGeometry(g.below(3)); }},
    {"cell set ring", [](Gen& g) { auto c = cell(g); c.setGeometry(g.below(3), ring(g)); }},
    {"cell semi line", [](Gen& g) { (void)cell(g).createSemiLongLine(point(g), g.angle(1)); }},
    {"cell long line", [](Gen& g) { (void)cell(g).createStraightLongLine(point(g), g.angle(1)); }},
    {"cell line inside", [](Gen& g) { (void)cell(g).getLinesInside(line(g)); }},
    {"cell lines inside", [](Gen& g) { (void)cell(g).getLinesInside(lines(g)); }},
    {"cell border point", [](Gen& g) { (void)cell(g).isPointInBorder(point(g)); }},
    {"cell point", [](Gen& g) { (void)cell(g).isPointIn(point(g)); }},
    {"cell line until border", [](Gen& g) { (void)cell(g).createLineUntilBorder(point(g), g.angle(1)); }},
    {"cell closest", [](Gen& g) { sane(cell(g).closestPointOnBorderTo(point(g)), "closest"); }},
    {"cells scale", [](Gen& g) { auto c = cells(g); c *= num(g); }},
    {"cells get", [](Gen& g) { auto c = cells(g); (void)c.getCell(g.below(3)); }},
    {"cells set", [](Gen& g) { auto c = cells(g); c.setGeometry(g.below(3), cell(g)); }},
    {"cells border", [](Gen& g) { auto c = cells(g); (void)c.getCellBorder(g.below(3)); }},
    {"cells hole", [](Gen& g) { auto c = cells(g); (void)c.getInteriorRing(g.below(3), g.below(2)); }},
    {"cells ring", [](Gen& g) { auto c = cells(g); c.addRing(g.below(3), ring(g)); }},
    {"cells convex", [](Gen& g) { (void)cells(g).isConvex(); }},
    {"cells hull", [](Gen& g) { (void)cells(g).convexHull(); }},
    {"cells meet", [](Gen& g) { (void)cells(g).intersection(cell(g)); (void)cells(g).intersection(cells(g)); }},
    {"cell meet", [](Gen& g) { (void)F2CCells::intersection(cell(g), cell(g)); }},
    {"cells minus", [](Gen& g) { (void)cells(g).difference(cell(g)); (void)cells(g).difference(cells(g)); }},
    {"cells union", [](Gen& g) { (void)cells(g).unionOp(cell(g)); (void)cells(g).unionOp(cells(g)); }},
    {"cells cascaded", [](Gen& g) { (void)cells(g).unionCascaded(); }},
    {"cells split", [](Gen& g) { (void)cells(g).splitByLine(line(g)); }},
    {"cells split lines", [](Gen& g) { (void)cells(g).splitByLine(lines(g)); }},
    {"cells semi line", [](Gen& g) { (void)cells(g).createSemiLongLine(point(g), g.angle(1)); }},
    {"cells long line", [](Gen& g) { (void)cells(g).createStraightLongLine(point(g), g.angle(1)); }},
    {"cells line inside", [](Gen& g) { (void)cells(g).getLinesInside(line(g)); }},
    {"cells lines inside", [](Gen& g) { (void)cells(g).getLinesInside(lines(g)); }},
    {"cells inside", [](Gen& g) { (void)cells(g).getCellsInside(cells(g)); }},
    {"cells border point", [](Gen& g) { (void)cells(g).isPointInBorder(point(g)); }},
    {"cells point", [](Gen& g) { (void)cells(g).isPointIn(point(g)); }},
    {"cells where", [](Gen& g) { (void)cells(g).getCellWherePoint(point(g)); }},
    {"cells line until border", [](Gen& g) { (void)cells(g).createLineUntilBorder(point(g), g.angle(1)); }},
    {"cells buffer", [](Gen& g) { (void)cells(g).buffer(width(g) * (g.boolean() ? 1 : -1)); }},
    {"cells closest", [](Gen& g) { sane(cells(g).closestPointOnBorderTo(point(g)), "closest"); }},
    {"cells of a cell", [](Gen& g) { F2CCells c(cell(g)); }},
    {"angles", [](Gen& g) { std::vector<double> v; for (size_t n = g.below(3); n-- > 0;) { v.push_back(g.angle(1)); }
       const auto r = F2CPoint::getAngContinuity(v); CHECK_EQ(r.size(), v.size(), "angles"); }},
    {"mod", [](Gen& g) { (void)F2CPoint::mod(num(g), 1 + g.below(3)); sane(F2CPoint::mod_2pi(num(g)), "angle"); sane(F2CPoint::getAngleAvg(0, M_PI), "average"); }},
    {"wkt", [](Gen& g) { F2CCells c; c.importFromWkt(g.pick(std::vector<std::string>{"", "POLYGON EMPTY", "MULTIPOLYGON EMPTY", "x", "MULTIPOLYGON (((", "POINT (1 2)"})); (void)c.size(); (void)c.area(); }},
    {"point to itself", [](Gen& g) { const F2CPoint p = point(g); sane(p.getAngleFromPoints(p), "angle"); sane(F2CPoint::getAngleFromPoints(p, p, p), "angle"); sane(p.closestPointInSegment(p, p), "closest"); sane(p.closestPointInSegment(point(g), p), "closest"); }},
    {"lines that do not meet", [](Gen& g) { const F2CPoint p = point(g), q = point(g); (void)F2CPoint::intersectionOfLines(p, q, p, q); (void)F2CPoint::intersectionOfLines(p, p, q, q); }},
    {"rotate nothing", [](Gen& g) { (void)point(g).rotateFromPoint(g.angle(1), std::vector<F2CPoint>()); }},
  };
  return o;
}

const Ops& listOps() {
  static const Ops o{
    {"swath length", [](Gen& g) { sane(swath(g).length(), "length"); }},
    {"swath area", [](Gen& g) { sane(swath(g).area(), "area"); sane(swath(g).area(cells(g)), "area"); }},
    {"swath covered", [](Gen& g) { (void)swath(g).areaCovered(); (void)swath(g).areaCovered(cells(g)); }},
    {"swath reverse", [](Gen& g) { auto s = swath(g); s.reverse(); s.reverse(); }},
    {"swath angles", [](Gen& g) { sane(swath(g).getInAngle(), "angle"); sane(swath(g).getOutAngle(), "angle"); }},
    {"swath ends", [](Gen& g) { sane(swath(g).startPoint(), "start"); sane(swath(g).endPoint(), "end"); }},
    {"swath clone", [](Gen& g) { (void)swath(g).clone(); (void)swath(g).numPoints(); }},
    {"swath order", [](Gen& g) { auto s = swath(g), t = swath(g); (void)(s == t); (void)(s < t); (void)(s <= t); (void)(s != t); }},
    {"swath dirs", [](Gen& g) { auto s = swath(g); s.targetSameDirAs(swath(g)); s.targetOppositeDirAs(swath(g)); }},
    {"swath move", [](Gen& g) { auto s = swath(g); s.moveTo(point(g)); }},
    {"swath width", [](Gen& g) { auto s = swath(g); s.setWidth(g.boolean() ? 0 : -1); }},
    {"swaths reverse", [](Gen& g) { auto s = swaths(g); s.reverse(); }},
    {"swaths at", [](Gen& g) { auto s = swaths(g); (void)s.at(g.below(3)); }},
    {"swaths sized", [](Gen& g) { F2CSwaths s(static_cast<int>(g.below(3))); (void)s.size(); sane(s, "swath"); }},
    {"swaths append line", [](Gen& g) { auto s = swaths(g); s.append(line(g), width(g)); }},
    {"swaths append line alone", [](Gen& g) { auto s = swaths(g); const size_t n = s.size(); F2CLineString l(F2CPoint(0, 0), F2CPoint(1, 0));
       bool thrown = false; try { s.append(l); } catch (const std::exception&) { thrown = true; } CHECK(thrown || s.size() == n + 1, " append a line"); }},
    {"swaths append lines", [](Gen& g) { auto s = swaths(g); s.append(lines(g), width(g)); }},
    {"swaths append line in cell", [](Gen& g) { auto s = swaths(g); s.append(line(g), cell(g), width(g)); }},
    {"swaths append lines in cell", [](Gen& g) { auto s = swaths(g); s.append(lines(g), cell(g), width(g)); }},
    {"swaths append line in cells", [](Gen& g) { auto s = swaths(g); s.append(line(g), cells(g), width(g)); }},
    {"swaths append lines in cells", [](Gen& g) { auto s = swaths(g); s.append(lines(g), cells(g), width(g)); }},
    {"swaths append swaths", [](Gen& g) { auto s = swaths(g); s.append(swaths(g)); }},
    {"swaths append own", [](Gen& g) { auto s = swaths(g); const size_t n = s.size(); s.append(s); CHECK_EQ(s.size(), 2 * n, "swaths"); }},
    {"swaths sort", [](Gen& g) { auto s = swaths(g); s.sort(); s.reverseDirOddSwaths(); }},
    {"swaths move", [](Gen& g) { auto s = swaths(g); s.moveTo(point(g)); (void)s.clone(); }},
    {"groups", [](Gen& g) { auto s = byCells(g); s.reverse(); (void)s.sizeTotal(); (void)s.flatten(); (void)s.clone(); }},
    {"groups at", [](Gen& g) { auto s = byCells(g); (void)s.at(g.below(3)); }},
    {"groups swath", [](Gen& g) { auto s = byCells(g); const size_t n = s.sizeTotal(); const size_t i = g.below(4);
       if (i < n) { (void)s.getSwath(i); } else { bool thrown = false; try { (void)s.getSwath(i).getId(); } catch (const std::exception&) { thrown = true; } CHECK(thrown, " swath ", i, " of ", n); } }},
    {"groups sized", [](Gen& g) { F2CSwathsByCells s(static_cast<int>(g.below(3))); (void)s.flatten(); }},
    {"route ends", [](Gen& g) { auto r = route(g); sane(r.startPoint(), "start"); sane(r.endPoint(), "end"); }},
    {"route length", [](Gen& g) { auto r = route(g); sane(r.length(), "length"); (void)r.asLineString(); }},
    {"route clone", [](Gen& g) { auto r = route(g); (void)r.clone(); (void)r.isEmpty(); }},
    {"route swath by graph", [](Gen& g) { auto r = route(g); F2CGraph2D h; if (g.boolean()) { h.addEdge(point(g), point(g)); } r.addSwath(swath(g), h); }},
    {"route own connection", [](Gen& g) { auto r = route(g); if (r.sizeConnections() > 0) { const size_t n = r.getLastConnection().size(); r.addConnection(r.getLastConnection()); (void)n; } }},
    {"route swaths first", [](Gen& g) { F2CRoute r; r.addSwaths(swaths(g)); r.addSwaths(swaths(g)); r.addConnection(multi(g)); (void)r.length(); }},
    {"path times", [](Gen& g) { auto p = path(g); sane(p.length(), "length"); (void)p.getTaskTime(); }},
    {"path at", [](Gen& g) { auto p = path(g); (void)p.at(num(g)); }},
    {"path ends", [](Gen& g) { auto p = path(g); sane(p.atStart(), "start"); sane(p.atEnd(), "end"); }},
    {"path bounds", [](Gen& g) { auto p = path(g); sane(p.getDimMinX() + p.getDimMaxX(), "x"); sane(p.getDimMinY() + p.getDimMaxY(), "y"); }},
    {"path line", [](Gen& g) { auto p = path(g); (void)p.toLineString(); (void)p.serializePath(); }},
    {"path swath", [](Gen& g) { auto p = path(g); p.appendSwath(swath(g), g.real(0.1, 2)); }},
    {"path turns", [](Gen& g) { auto p = path(g); p.setBackwardDir(); p.setTurnType(); p.mirrorX(); p.mirrorY(); p.moveTo(point(g)); p.rotateFromPoint(point(g), g.angle(1)); }},
    {"path discretize", [](Gen& g) { auto p = path(g); const double d = g.real(0.1, 5); sane(p.discretizeSwath(d), "swath"); p.discretize(d); sane(p, "state"); }},
    {"path populate", [](Gen& g) { auto p = path(g); p.populate(static_cast<int>(g.below(6))); sane(p, "state"); }},
    {"path reduce", [](Gen& g) { auto p = path(g); p.reduce(g.boolean() ? 0 : g.real(0, 30)); sane(p, "state"); }},
    {"path sum", [](Gen& g) { auto p = path(g); p += path(g); p += p; sane(p.length(), "length"); }},
    {"path moved on", [](Gen& g) { auto p = path(g); p.discretize(1); p.reduce(); p.populate(4); p.discretizeSwath(0.5); (void)p.at(1); }},
    {"field", [](Gen& g) { auto f = field(g); sane(f.area(), "area"); (void)f.isEmpty(); (void)f.clone(); (void)f.getCellsAbsPosition(); }},
    {"field crs", [](Gen& g) { auto f = field(g); (void)f.isCoordSystemUTM(); (void)f.isCoordSystemEPSG(); (void)f.getUTMCoordSystem(); (void)f.getUTMZone(); (void)f.getUTMHemisphere(); (void)f.getUTMDatum(); }},
    {"field epsg", [](Gen& g) { auto f = field(g); (void)f.getEPSGCoordSystem(); }},
    {"strip", [](Gen& g) { F2CStrip s; (void)s.clone(); s.setCell(cell(g)); (void)s.clone(); (void)s.getName(); }},
    {"robot", [](Gen& g) { auto r = robot(g); (void)r.getTurnVel(); (void)r.getMinTurningRadius(); (void)r.getCovWidth(); r.setMinTurningRadius(g.boolean() ? 0 : 1); (void)r.getMaxCurv(); }},
    {"graph", [](Gen& g) { F2CGraph h; for (size_t n = g.below(3); n-- > 0;) { h.addEdge(g.below(4), g.below(4), g.below(5)); }
       const size_t a = g.below(5), b = g.below(5); h.removeEdge(g.below(5), g.below(5)); (void)h.shortestPath(a, b); (void)h.shortestPathCost(a, b); (void)h.allPathsBetween(a, b); (void)h.getEdgesFrom(a); (void)h.getCostFromEdge(a, b); (void)h.getPaths(); (void)h.getCosts(); (void)h.numEdges(); }},
    {"graph of points", [](Gen& g) { F2CGraph2D h; const F2CPoint p = point(g), q = point(g); if (g.boolean()) { h.addEdge(p, g.boolean() ? p : q); }
       (void)h.getNodes(); (void)h.shortestPath(p, q); (void)h.shortestPathCost(p, q); (void)h.allPathsBetween(p, q); h.removeEdge(p, q); }},
    {"graph index", [](Gen& g) { F2CGraph2D h; if (g.boolean()) { h.addEdge(point(g), point(g), h); } (void)h.indexToNode(g.below(3)); }},
  };
  return o;
}

// --------------------------------------------------------------------- planners
struct Fixed : public f2c::rp::SingleCellSwathsOrderBase {
 protected:
  void sortSwaths(F2CSwaths&) const override {}
};
struct Straight : public f2c::pp::TurningBase {
  int kind = 0;
  F2CPath createSimpleTurn(const F2CRobot& r, double d, double a, double b) override {
    F2CPath p;
    if (kind == 0) { return p; }
    F2CPathState s;
    s.angle = a;
    s.len = kind == 1 ? 0 : d;
    s.velocity = r.getTurnVel();
    p.addState(s);
    (void)b;
    return p;
  }
};
std::unique_ptr<f2c::obj::SGObjective> sgObj(Gen& g) {
  switch (g.below(5)) {
    case 0: return std::make_unique<f2c::obj::NSwath>();
    case 1: return std::make_unique<f2c::obj::NSwathModified>();
    case 2: return std::make_unique<f2c::obj::SwathLength>();
    case 3: return std::make_unique<f2c::obj::FieldCoverage>();
    default: return std::make_unique<f2c::obj::Overlaps>();
  }
}
std::unique_ptr<f2c::pp::TurningBase> turner(Gen& g) {
  switch (g.below(3)) {
    case 0: { auto s = std::make_unique<Straight>(); s->kind = static_cast<int>(g.below(3)); return s; }
    default: return std::make_unique<f2c::pp::DubinsCurves>();
  }
}
const Ops& planOps() {
  static const Ops o{
    {"headlands", [](Gen& g) { f2c::hg::ConstHL h; (void)h.generateHeadlands(cells(g), width(g)); }},
    {"headland area", [](Gen& g) { f2c::hg::ConstHL h; (void)h.generateHeadlandArea(cells(g), width(g), static_cast<int>(g.below(3))); }},
    {"headland swaths", [](Gen& g) { f2c::hg::ConstHL h; const int n = static_cast<int>(g.integer(0, 3)); const auto r = h.generateHeadlandSwaths(cells(g), width(g), n, g.boolean()); CHECK_EQ(r.size(), static_cast<size_t>(n), "rings"); }},
    {"trapezoidal", [](Gen& g) { f2c::decomp::TrapezoidalDecomp d; d.setSplitAngle(g.angle(1)); (void)d.decompose(cells(g)); }},
    {"trapezoidal lines", [](Gen& g) { f2c::decomp::TrapezoidalDecomp d; d.setSplitAngle(g.angle(1)); (void)d.genSplitLines(cells(g)); }},
    {"boustrophedon", [](Gen& g) { f2c::decomp::BoustrophedonDecomp d; d.setSplitAngle(g.angle(1)); (void)d.decompose(cells(g)); }},
    {"boustrophedon lines", [](Gen& g) { f2c::decomp::BoustrophedonDecomp d; d.setSplitAngle(g.angle(1)); (void)d.genSplitLines(cells(g)); }},
    {"swaths", [](Gen& g) { f2c::sg::BruteForce b; b.setAllowOverlap(g.boolean()); const double w = width(g); if (w > 0 && w < 0.1) { g.label("narrow"); } sane(b.generateSwaths(g.angle(1), std::max(w, w > 0 ? 0.05 : 0), cell(g)), "swath"); }},
    {"swaths of no width", [](Gen& g) { f2c::sg::BruteForce b; b.setAllowOverlap(g.boolean()); bool thrown = false; try { (void)b.generateSwaths(g.angle(1), g.boolean() ? 0 : -1, cell(g)); } catch (const std::exception&) { thrown = true; } (void)thrown; }},
    {"swaths of cells", [](Gen& g) { f2c::sg::BruteForce b; auto c = cells(g); auto s = b.generateSwaths(g.angle(1), 2, c); CHECK_EQ(s.size(), c.size(), "groups"); }},
    {"best swaths", [](Gen& g) { f2c::sg::BruteForce b; b.setStepAngle(0.7); auto ob = sgObj(g); sane(b.generateBestSwaths(*ob, 2, cell(g)), "swath"); }},
    {"best swaths of cells", [](Gen& g) { f2c::sg::BruteForce b; b.setStepAngle(0.7); auto ob = sgObj(g); auto c = cells(g); CHECK_EQ(b.generateBestSwaths(*ob, 2, c).size(), c.size(), "groups"); }},
    {"best angle", [](Gen& g) { f2c::sg::BruteForce b; b.setStepAngle(g.chance(1, 4) ? 100 : 0.7); auto ob = sgObj(g); const double a = b.computeBestAngle(*ob, 2, cell(g)); CHECK(std::isfinite(a), " best angle ", a); }},
    {"boustrophedon order", [](Gen& g) { auto s = swaths(g); CHECK_EQ(f2c::rp::BoustrophedonOrder().genSortedSwaths(s, g.below(4)).size(), s.size(), "swaths"); }},
    {"snake order", [](Gen& g) { auto s = swaths(g); CHECK_EQ(f2c::rp::SnakeOrder().genSortedSwaths(s, g.below(4)).size(), s.size(), "swaths"); }},
    {"spiral order", [](Gen& g) { auto s = swaths(g); CHECK_EQ(f2c::rp::SpiralOrder(g.below(4)).genSortedSwaths(s, g.below(4)).size(), s.size(), "swaths"); }},
    {"custom order", [](Gen& g) { auto s = swaths(g); std::vector<size_t> v; for (size_t n = g.below(4); n-- > 0;) { v.push_back(g.below(4)); } (void)f2c::rp::CustomOrder(v).genSortedSwaths(s, g.below(4)); }},
    {"own order", [](Gen& g) { (void)Fixed().genSortedSwaths(swaths(g), g.below(8)); }},
    {"route", [](Gen& g) { f2c::rp::RoutePlannerBase r; if (g.boolean()) { r.setStartAndEndPoint(point(g)); } auto c = cells(g); auto s = byCells(g); auto x = r.genRoute(c, s, false, 1e-4, g.boolean(), 1, g.boolean()); (void)x.length(); }},
    {"path of swaths", [](Gen& g) { auto t = turner(g); sane(f2c::pp::PathPlanning::planPath(robot(g), swaths(g), *t), "path"); }},
    {"path of a route", [](Gen& g) { auto t = turner(g); sane(f2c::pp::PathPlanning::planPath(robot(g), route(g), *t), "path"); }},
    {"connection", [](Gen& g) { auto t = turner(g); sane(f2c::pp::PathPlanning::planPathForConnection(robot(g), swaths(g), multi(g), swaths(g), *t), "path"); }},
    {"connection of points", [](Gen& g) { auto t = turner(g); const F2CPoint a = point(g), b = g.chance(1, 3) ? a : point(g); sane(f2c::pp::PathPlanning::planPathForConnection(robot(g), a, g.angle(1), multi(g), b, g.angle(1), *t), "path"); }},
    {"turn", [](Gen& g) { auto t = turner(g); const F2CPoint a = point(g), b = g.chance(1, 2) ? a : point(g); sane(t->createTurn(robot(g), a, g.angle(1), b, g.angle(1)), "turn"); }},
    {"turn again", [](Gen& g) { auto t = turner(g); const F2CPoint a = point(g), b = point(g); const F2CRobot r = robot(g); const double x = g.angle(1), y = g.angle(1); sane(t->createTurn(r, a, x, b, y), "turn"); sane(t->createTurn(r, a, x, b, y), "turn"); }},
    {"turn of the library", [](Gen& g) { const F2CPoint a = point(g), b = g.chance(1, 3) ? a : point(g); F2CRobot r(2); switch (g.below(4)) {
       case 0: { f2c::pp::DubinsCurves t; sane(t.createTurn(r, a, 0, b, 1), "turn"); break; }
       case 1: { f2c::pp::DubinsCurvesCC t; sane(t.createTurn(r, a, 0, b, 1), "turn"); break; }
       case 2: { f2c::pp::ReedsSheppCurves t; sane(t.createTurn(r, a, 0, b, 1), "turn"); break; }
       default: { f2c::pp::ReedsSheppCurvesHC t; sane(t.createTurn(r, a, 0, b, 1), "turn"); } } }},
    {"turn valid", [](Gen& g) { (void)f2c::pp::TurningBase::isTurnValid(path(g), num(g), g.angle(1)); (void)f2c::pp::TurningBase::transformToNormalTurn(point(g), 0, point(g), 1); }},
    {"transform", [](Gen& g) { auto f = field(g); f2c::Transform::transform(f, g.pick(std::vector<std::string>{"EPSG:4326", "", "x"})); }},
    {"transform to UTM", [](Gen& g) { auto f = field(g); f2c::Transform::transformToUTM(f, g.boolean()); }},
    {"transform back", [](Gen& g) { auto f = field(g); f2c::Transform::transformToPrevCRS(f); }},
    {"transform swaths", [](Gen& g) { (void)f2c::Transform::transformSwaths(swaths(g), g.boolean() ? "EPSG:28992" : "", "EPSG:4326"); }},
    {"transform path", [](Gen& g) { (void)f2c::Transform::transformPath(path(g), "EPSG:28992", "EPSG:4326"); }},
    {"transform by reference", [](Gen& g) { auto f = field(g); (void)f2c::Transform::transformRouteWithFieldRef(route(g), f, "EPSG:4326"); (void)f2c::Transform::transformPathWithFieldRef(path(g), f, "EPSG:4326"); (void)f2c::Transform::transformSwathsWithFieldRef(swaths(g), f, "EPSG:4326"); }},
    {"transform plan back", [](Gen& g) { auto f = field(g); (void)f2c::Transform::transformToPrevCRS(route(g), f); (void)f2c::Transform::transformToPrevCRS(path(g), f); }},
    {"reference in GPS", [](Gen& g) { auto f = field(g); (void)f2c::Transform::getRefPointInGPS(f); }},
    {"random", [](Gen& g) { f2c::Random r(static_cast<uint32_t>(g.below(1000))); (void)r.generateRandCell(g.pick(std::vector<double>{1, 1e4, 0, -1}), static_cast<int>(g.integer(0, 5))); }},
    {"spline", [](Gen& g) { std::vector<double> x, y; for (size_t n = g.below(4), i = 0; i < n; ++i) { x.push_back(static_cast<double>(i)); y.push_back(num(g)); } if (g.chance(1, 4)) { y.push_back(0); } f2c::CubicSpline s(x, y, g.boolean()); (void)s(num(g)); }},
  };
  return o;
}
const Ops& objectiveOps() {
  static const Ops o{
    {"decomposition cost", [](Gen& g) { f2c::obj::DecompObjective c; sane(c.computeCost(cells(g)), "cost"); }},
    {"remaining area", [](Gen& g) { f2c::obj::RemArea c; F2CCell a = cell(g); F2CCells b = cells(g); double v = 0;
       const int k = static_cast<int>(g.below(4));
       v = k == 0 ? c.computeCost(a, cell(g)) : k == 1 ? c.computeCost(b, cell(g)) : k == 2 ? c.computeCost(a, cells(g)) : c.computeCost(b, cells(g));
       ratio(v, k % 2 ? b.area() : a.area()); }},
    {"swath costs", [](Gen& g) { auto c = sgObj(g); F2CCell a = cell(g); F2CCells b = cells(g); switch (g.below(7)) {
       case 0: sane(c->computeCost(swath(g)), "cost"); break;
       case 1: sane(c->computeCost(swaths(g)), "cost"); break;
       case 2: sane(c->computeCost(byCells(g)), "cost"); break;
       case 3: ratio(c->computeCost(a, swaths(g)), a.area()); break;
       case 4: ratio(c->computeCost(b, swaths(g)), b.area()); break;
       case 5: ratio(c->computeCost(b, byCells(g)), b.area()); break;
       default: if (c->isFastCompAvailable()) { sane(c->computeCost(g.angle(1), 2, a), "cost"); } } }},
    {"route costs", [](Gen& g) { f2c::obj::DirectDistPathObj c; switch (g.below(9)) {
       case 0: sane(c.computeCost(swath(g)), "cost"); break;
       case 1: sane(c.computeCost(swaths(g)), "cost"); break;
       case 2: sane(c.computeCost(route(g)), "cost"); break;
       case 3: sane(c.computeCost(multi(g)), "cost"); break;
       case 4: sane(c.computeCost(points(g)), "cost"); break;
       case 5: sane(c.computeCost(swath(g), multi(g)), "cost"); break;
       case 6: sane(c.computeCost(swaths(g), multi(g)), "cost"); break;
       case 7: sane(c.computeCost(multi(g), swaths(g)), "cost"); break;
       default: sane(c.computeCost(swath(g), swath(g)), "cost"); } }},
    {"turn costs", [](Gen& g) { f2c::obj::CompleteTurnPathObj<f2c::pp::DubinsCurves> c(robot(g)); if (g.boolean()) { sane(c.computeCost(swath(g), swath(g)), "cost"); } else { sane(c.computeCost(point(g), 0, point(g), 1), "cost"); } }},
    {"path cost", [](Gen& g) { f2c::obj::PathLength c; sane(c.computeCost(path(g)), "cost"); }},
  };
  return o;
}
void run(Gen& g, const Ops& o) {
  const Op& op = o[g.below(o.size())];
  g.note(op.name);
  g.label(op.name);
  try {
    op.fn(g);
    g.label("answered");
  } catch (const pbt::Failure&) {
    throw;
  } catch (const pbt::Discard&) {
    throw;
  } catch (const std::exception& e) {
    g.note("  error: ", e.what());
    g.label("error");
  }
  g.nontrivial();
}

// Neutral results of nothing, and nothing as a neutral operand.
void neutral(Gen& g) {
  const F2CCells none;
  const F2CCell bare;
  const double w = g.real(0.5, 10), a = g.angle(1);
  const F2CPoint p(g.grid(-20, 20, 0.5), g.grid(-20, 20, 0.5));
  F2CCells one;
  one.addGeometry(F2CCell(square(p, g.real(5, 40))));
  if (g.boolean()) { one.addGeometry(F2CCell(square(p + F2CPoint(50, 0), g.real(5, 40)))); }
  const double A = one.area();
  const int k = static_cast<int>(g.below(16));
  g.note("kind ", k, " of ", one.exportToWkt());
  g.nontrivial();
  auto area = [&](const F2CCells& c, double v, const char* what) {
    CHECK_NEAR(c.area(), v, 1e-9 * (1 + A), " area of ", what);
  };
  switch (k) {
    case 0:
      area(none, 0, "nothing");
      CHECK_EQ(none.size(), 0u, "cells");
      CHECK_EQ(bare.size(), 0u, "rings");
      CHECK_EQ(F2CLineString().length(), 0.0, "length");
      CHECK_EQ(F2CMultiLineString().length(), 0.0, "length");
      CHECK_EQ(F2CMultiPoint().size(), 0u, "points");
      break;
    case 1:
      area(one.unionOp(none), A, "union with nothing");
      area(none.unionOp(one), A, "union of nothing");
      area(one.difference(none), A, "difference with nothing");
      area(one.unionOp(bare), A, "union with an empty cell");
      area(one.difference(bare), A, "difference with an empty cell");
      break;
    case 2:
      area(none.difference(one), 0, "difference of nothing");
      area(one.intersection(none), 0, "intersection with nothing");
      area(none.intersection(one), 0, "intersection of nothing");
      area(one.intersection(bare), 0, "intersection with an empty cell");
      area(none.unionCascaded(), 0, "union of nothing");
      area(none.buffer(w), 0, "buffer of nothing");
      break;
    case 3:
      area(one.splitByLine(F2CMultiLineString()), A, "cells cut by no lines");
      CHECK_EQ(one.splitByLine(F2CMultiLineString()).size(), one.size(), "cells");
      CHECK_EQ(one.getLinesInside(F2CMultiLineString()).size(), 0u, "lines");
      CHECK_EQ(none.getLinesInside(F2CLineString(p, p + F2CPoint(9, 9))).size(), 0u, "lines");
      break;
    case 4: {
      f2c::hg::ConstHL h;
      area(h.generateHeadlands(none, w), 0, "mainland of nothing");
      area(h.generateHeadlands(one, 0), A, "mainland without headland");
      for (auto&& r : h.generateHeadlandSwaths(none, w, 3)) { area(r, 0, "ring of nothing"); }
      break;
    }
    case 5: {
      f2c::decomp::TrapezoidalDecomp t;
      f2c::decomp::BoustrophedonDecomp b;
      t.setSplitAngle(a);
      b.setSplitAngle(a);
      CHECK_EQ(t.decompose(none).size(), 0u, "cells");
      CHECK_EQ(b.decompose(none).size(), 0u, "cells");
      CHECK_EQ(t.genSplitLines(none).size(), 0u, "lines");
      CHECK_EQ(b.genSplitLines(none).size(), 0u, "lines");
      break;
    }
    case 6: {
      f2c::sg::BruteForce b;
      b.setAllowOverlap(g.boolean());
      CHECK_EQ(b.generateSwaths(a, w, none).size(), 0u, "groups");
      auto ob = sgObj(g);
      CHECK_EQ(b.generateBestSwaths(*ob, w, none).size(), 0u, "groups");
      // no swath fits into a sliver
      F2CCell c(square(p, 1e-3));
      if (!b.getAllowOverlap()) { CHECK_EQ(b.generateSwaths(a, w, c).size(), 0u, "swaths"); }
      break;
    }
    case 7: {
      F2CSwaths s;
      CHECK_EQ(f2c::rp::BoustrophedonOrder().genSortedSwaths(s, 1).size(), 0u, "swaths");
      CHECK_EQ(f2c::rp::SnakeOrder().genSortedSwaths(s, 2).size(), 0u, "swaths");
      CHECK_EQ(f2c::rp::SpiralOrder(2).genSortedSwaths(s, 3).size(), 0u, "swaths");
      CHECK_EQ(f2c::rp::CustomOrder(std::vector<size_t>()).genSortedSwaths(s).size(), 0u, "swaths");
      break;
    }
    case 8: {
      f2c::rp::RoutePlannerBase r;
      if (g.boolean()) { r.setStartAndEndPoint(p); }
      F2CSwathsByCells s;
      if (g.boolean()) { s.push_back(F2CSwaths()); }
      const F2CRoute x = r.genRoute(g.boolean() ? one : none, s);
      CHECK(x.isEmpty(), " a route without swaths");
      CHECK_EQ(x.length(), 0.0, "length");
      break;
    }
    case 9: {
      f2c::pp::DubinsCurves t;
      CHECK_EQ(f2c::pp::PathPlanning::planPath(robot(g), F2CSwaths(), t).size(), 0u, "states");
      CHECK_EQ(f2c::pp::PathPlanning::planPath(robot(g), F2CRoute(), t).size(), 0u, "states");
      break;
    }
    case 10: {
      F2CPath q = path(g), e;
      const double L = q.length(), T = q.getTaskTime();
      q += e;
      CHECK_EQ(q.length(), L, "length");
      CHECK(q.getTaskTime() == T || std::isnan(T), " time");
      CHECK_EQ(e.length(), 0.0, "length");
      CHECK_EQ(e.getTaskTime(), 0.0, "time");
      CHECK_EQ(e.toLineString().size(), 0u, "points");
      e.discretize(1);
      e.populate(10);
      e.reduce(1);
      CHECK_EQ(e.discretizeSwath(1).size(), 0u, "states");
      CHECK_EQ(e.size(), 0u, "states");
      break;
    }
    case 11: {
      F2CSwaths s = swaths(g);
      const size_t n = s.size();
      s.append(F2CSwaths());
      s.append(F2CMultiLineString(), w);
      s.append(F2CMultiLineString(), one, w);
      s.append(F2CMultiLineString({F2CLineString(p, p + F2CPoint(3, 3))}), none, w);
      CHECK_EQ(s.size(), n, "swaths");
      break;
    }
    case 12: {
      F2CRoute r;
      CHECK(r.isEmpty(), " a new route");
      CHECK_EQ(r.length(), 0.0, "length");
      CHECK_EQ(r.asLineString().size(), 0u, "points");
      r.addSwaths(F2CSwaths());
      CHECK_EQ(r.length(), 0.0, "length");
      r.addConnection(F2CMultiPoint());
      CHECK_EQ(r.length(), 0.0, "length");
      break;
    }
    case 13: {
      f2c::obj::DirectDistPathObj d;
      CHECK_EQ(d.computeCost(F2CRoute()), 0.0, "cost");
      CHECK_EQ(d.computeCost(F2CSwaths()), 0.0, "cost");
      CHECK_EQ(d.computeCost(F2CMultiPoint()), 0.0, "cost");
      f2c::obj::PathLength l;
      CHECK_EQ(l.computeCost(F2CPath()), 0.0, "cost");
      f2c::obj::RemArea m;
      CHECK_NEAR(m.computeCost(one, one), 1, 1e-9, " share");
      CHECK_NEAR(m.computeCost(one, none), 0, 1e-9, " share");
      break;
    }
    case 14: {
      f2c::obj::NSwath n;
      f2c::obj::SwathLength l;
      f2c::obj::FieldCoverage c;
      f2c::obj::Overlaps o;
      const F2CSwaths s;
      CHECK_EQ(n.computeCost(one, s), 0.0, "cost");
      CHECK_EQ(l.computeCost(one, s), 0.0, "cost");
      CHECK_EQ(c.computeCost(one, s), 0.0, "cost");
      CHECK_EQ(o.computeCost(one, s), 0.0, "cost");
      break;
    }
    default: {
      F2CSwathsByCells s;
      CHECK_EQ(s.sizeTotal(), 0u, "swaths");
      CHECK_EQ(s.flatten().size(), 0u, "swaths");
      F2CGraph2D h;
      CHECK_EQ(h.getNodes().size(), 0u, "nodes");
      CHECK(F2CPoint::getAngContinuity(std::vector<double>()).empty(), " angles");
      F2CField f;
      CHECK(f.isEmpty(), " a new field");
      CHECK_EQ(f.area(), 0.0, "area");
      const F2CField e(none);
      CHECK(e.isEmpty(), " a field of no cells");
    }
  }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C34",
    "empty, single, repeated, collinear and tiny points, lines, rings, cells, "
    "swaths, routes, paths and fields as arguments of every operation; "
    "every call counts: it must return or throw",
    {{"neutral", 4000, 40000, neutral},
     {"geometry", 12000, 80000, [](Gen& g) { run(g, geometryOps()); }},
     {"lists", 10000, 80000, [](Gen& g) { run(g, listOps()); }},
     {"planners", 6000, 40000, [](Gen& g) { run(g, planOps()); }},
     {"objectives", 8000, 40000, [](Gen& g) { run(g, objectiveOps()); }}}};
  return p;
}
