// C25 coordinate transformations are accurate and invertible.
#include "gens.hpp"
#include <cpl_error.h>
#include <boost/algorithm/string/predicate.hpp>
#include "fields2cover/utils/transformation.h"
using namespace pbt;
using namespace orc;
using T = f2c::Transform;
namespace {
const double D = M_PI / 180;
// Transverse Mercator after Krueger (series in n up to n^6), as for UTM.
struct Tm {
  bool grs80, south;
  int zone;
  V operator()(const V& p) const {
    const double a = 6378137, f = 1 / (grs80 ? 298.257222101 : 298.257223563);
    const double n = f / (2 - f), n2 = n * n, n3 = n2 * n, n4 = n2 * n2, n5 = n4 * n, n6 = n3 * n3;
    const double A = a / (1 + n) * (1 + n2 / 4 + n4 / 64 + n6 / 256);
    const double al[6] = {
      n / 2 - 2 * n2 / 3 + 5 * n3 / 16 + 41 * n4 / 180 - 127 * n5 / 288 + 7891 * n6 / 37800,
      13 * n2 / 48 - 3 * n3 / 5 + 557 * n4 / 1440 + 281 * n5 / 630 - 1983433 * n6 / 1935360,
      61 * n3 / 240 - 103 * n4 / 140 + 15061 * n5 / 26880 + 167603 * n6 / 181440,
      49561 * n4 / 161280 - 179 * n5 / 168 + 6601661 * n6 / 7257600,
      34729 * n5 / 80640 - 3418889 * n6 / 1995840,
      212378941 * n6 / 319334400};
    const double ph = p.y * D;
    double l = p.x - (6.0 * zone - 183);
    while (l > 180) { l -= 360; }
    while (l < -180) { l += 360; }
    l *= D;
    const double e = std::sqrt(f * (2 - f));
    const double t = std::sinh(std::atanh(std::sin(ph)) - e * std::atanh(e * std::sin(ph)));
    const double xi = std::atan2(t, std::cos(l)), eta = std::asinh(std::sin(l) / std::hypot(t, std::cos(l)));
    double x = eta, y = xi;
    for (int j = 1; j <= 6; ++j) {
      y += al[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
      x += al[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
    }
    return V(500000 + 0.9996 * A * x, (south ? 1e7 : 0) + 0.9996 * A * y);
  }
};
int zoneOf(double lon) {
  int z = 1;
  while (z < 60 && lon >= -180 + 6.0 * z) { ++z; }
  return z;
}
enum class Where { ANY, EUROPE, NL, SOUTH };
V place(Gen& g, Where w) {
  if (w == Where::SOUTH) { return V(g.uniform(-9, 30), g.uniform(-30, 38)); }   // of Europe
  if (w == Where::EUROPE) { return V(g.uniform(-9, 30), g.uniform(42, 70)); }
  if (w == Where::NL) { return V(g.uniform(4.2, 6.8), g.uniform(51.2, 53.2)); }
  double lon = 0, lat = 0;
  switch (g.weighted({6, 3, 1})) {
    case 0: lon = g.uniform(-179.9, 179.9); break;
    case 1: lon = -180 + 6.0 * g.integer(1, 59) + g.uniform(-0.02, 0.02); break;
    default: lon = g.boolean() ? 179.99 : -179.99;
  }
  switch (g.weighted({6, 1, 1})) {
    case 0: lat = g.uniform(-79.9, 83.9); break;
    case 1: lat = g.uniform(-0.02, 0.02); break;
    default: lat = g.pick(std::vector<double>{-79.9, 83.9, 40.1, 40.3});
  }
  return V(lon, lat);
}
double kdeg(Gen& g) { return g.pick(std::vector<double>{1e-6, 1e-5, 5e-5}); }
Multi geo(Gen& g, const V& at, size_t cells) {
  ShapeOpt o;
  o.max_vertices = 8;
  const double k = kdeg(g);
  Multi m = genMulti(g, cells, o);
  for (auto&& q : m) { for (auto&& v : q.outer) { discardIf(dist(v, V(0, 0)) * k > 0.05); } }
  m = mapMulti(m, [&] (V p) { return at + p * k; });
  for (auto&& q : m) { for (auto&& v : q.outer) { discardIf(std::fabs(v.x) > 180); } }
  return fx::multi(fx::cells(m));
}
double far(const F2CCells& a, const Multi& b, const std::string& what) {
  const Multi m = fx::multi(a);
  CHECK_EQ(m.size(), b.size(), "cells ", what);
  double d = 0;
  auto ring = [&] (const Ring& p, const Ring& q) {
    CHECK_EQ(p.size(), q.size(), "vertices ", what);
    for (size_t i = 0; i < p.size(); ++i) { d = std::max(d, dist(p[i], q[i])); }
  };
  for (size_t i = 0; i < m.size(); ++i) {
    ring(m[i].outer, b[i].outer);
    CHECK_EQ(m[i].holes.size(), b[i].holes.size(), "holes ", what);
    for (size_t h = 0; h < b[i].holes.size(); ++h) { ring(m[i].holes[h], b[i].holes[h]); }
  }
  return d;
}
const double DEG = 2e-11;   // degrees: about 2 micrometres
const double MET = 5e-6;    // metres
void utm(Gen& g) {
  const Where w = g.pick(std::vector<Where>{Where::ANY, Where::ANY, Where::EUROPE, Where::SOUTH});
  const Multi m = geo(g, place(g, w), 3);
  F2CField f(fx::cells(m), "f7");
  const V first = fx::v(f.getRefPoint());
  const bool opt = g.boolean();
  const size_t how = g.below(3);
  if (how == 0) { f.setCRS("EPSG:4326"); }
  if (how == 1) { f.setCRS("EPSG:4258"); }
  g.note("at ", first.x, " ", first.y, " crs '", f.getCRS(), "' etrs ", opt);
  T::transformToUTM(f, opt);
  CHECK(f.isCoordSystemUTM(), " not UTM: ", f.getCRS());
  const bool etrs = boost::iequals(f.getUTMDatum(), "ETRS89");
  CHECK(etrs || boost::iequals(f.getUTMDatum(), "WGS84"), " datum of ", f.getCRS());
  if (how == 0) { CHECK(!etrs, " WGS84 field in ", f.getCRS()); }
  if (how == 1) { CHECK(etrs, " ETRS89 field in ", f.getCRS()); }
  if (how == 2 && !opt) { CHECK(!etrs, " unwanted ETRS89"); }
  if (how == 2 && opt && w == Where::EUROPE) { CHECK(etrs, " European field in ", f.getCRS()); }
  if (how == 2 && opt && (first.x > 40 || first.x < -25 || first.y < 35)) { CHECK(!etrs, " field out of Europe in ", f.getCRS()); }
  CHECK_EQ(f.getPrevCRS(), etrs ? "EPSG:4258" : "EPSG:4326", "previous system");
  CHECK_EQ(f.getId(), "f7", "id");
  const int z = zoneOf(first.x);
  CHECK_EQ(f.getUTMZone(), std::to_string(z), "zone at ", first.x);
  if (std::fabs(first.y) > 1e-12) {
    CHECK_EQ(f.getUTMHemisphere(), first.y > 0 ? "+north" : "+south", "hemisphere at ", first.y);
  }
  const Tm tm{etrs, f.getUTMHemisphere() == "+south", z};
  const double d = far(f.getCellsAbsPosition(), mapMulti(m, tm), "in UTM");
  CHECK(d < MET, " projected coordinates are ", d, " m off in ", f.getCRS());
  CHECK(dist(fx::v(f.getRefPoint()), tm(first)) < MET, " reference point in UTM");
  const V gps = fx::v(T::getRefPointInGPS(f));
  CHECK(dist(gps, first) < 2e-9, " reference point in GPS is ", gps.x, " ", gps.y);
  const F2CField u = f.clone();
  T::transformToPrevCRS(f);
  CHECK_EQ(f.getCRS(), u.getPrevCRS(), "system after going back");
  CHECK_EQ(f.getPrevCRS(), u.getCRS(), "previous system after going back");
  const double b = far(f.getCellsAbsPosition(), m, "after going back");
  CHECK(b < DEG, " coordinates are ", b, " degrees off after going back");
  CHECK(dist(fx::v(f.getRefPoint()), first) < DEG, " reference point after going back");
  T::transformToPrevCRS(f);
  CHECK(far(f.getCellsAbsPosition(), mapMulti(m, tm), "again") < MET, " coordinates the second time");
  CHECK_EQ(f.getCRS(), u.getCRS(), "system the second time");
  g.nontrivial();
}
struct Sys { std::string name; bool tm; Tm f; bool deg; };
Sys someSystem(Gen& g, Where w, const V& at) {
  const int z = std::min(60, std::max(1, zoneOf(at.x) + (int)g.integer(-1, 1)));
  const bool south = g.chance(1, 6) ? at.y > 0 : at.y <= 0;
  const std::string zh = std::to_string(z) + (south ? "S" : "N");
  switch (g.below(w == Where::NL ? 8 : 6)) {
    case 0: return {"UTM:" + zh + " datum:WGS84", true, {false, south, z}, false};
    case 1: return {"UTM:" + zh + " datum:etrs89", true, {true, south, z}, false};
    case 2: return {"UTM:" + zh, true, {true, south, z}, false};
    case 3: return {"EPSG:32" + std::string(south ? "7" : "6") + (z < 10 ? "0" : "") + std::to_string(z), true, {false, south, z}, false};
    case 4: return {"EPSG:4326", false, {}, true};
    case 5: return {"EPSG:3857", false, {}, false};
    case 6: return {"EPSG:28992", false, {}, false};
    default: return {"EPSG:4258", false, {}, true};
  }
}
void chain(Gen& g) {
  const Where w = g.pick(std::vector<Where>{Where::NL, Where::NL, Where::ANY, Where::SOUTH});
  V at = place(g, w);
  at.x = std::min(176.0, std::max(-176.0, at.x));
  const Multi m = geo(g, at, 2);
  F2CField f(fx::cells(m), "x");
  f.setCRS("EPSG:4326");
  const V first = fx::v(f.getRefPoint());
  std::string was = f.getCRS();
  const size_t steps = g.size(1, 5);
  double add = 0;   // the datum of EPSG:28992 is known to about a metre only
  for (size_t k = 0; k < steps; ++k) {
    if (g.chance(1, 4)) {
      const Multi before = fx::multi(f.getCellsAbsPosition());
      const bool opt = g.boolean();
      T::transformToUTM(f, opt);
      g.note("-> UTM: ", f.getCRS(), " etrs ", opt);
      {   // the datum asked for, or the one of a system in degrees
        const bool etrs = boost::iequals(f.getUTMDatum(), "ETRS89");
        const bool in = first.x > -15 && first.x < 32 && first.y > 41 && first.y < 84;
        const bool out = first.x < -17 || first.x > 34 || first.y < 39;
        if (was == "EPSG:4326") { CHECK(!etrs, " WGS84 field in ", f.getCRS()); } else
        if (was == "EPSG:4258") { CHECK(etrs, " ETRS89 field in ", f.getCRS()); } else
        if (!opt || out) { CHECK(!etrs, " unwanted datum from ", was); } else
        if (in) { CHECK(etrs, " European field in ", f.getCRS(), " from ", was); }
      }
      CHECK(f.isCoordSystemUTM(), " not UTM");
      CHECK_EQ(f.getUTMZone(), std::to_string(zoneOf(std::fabs(first.x - std::round(first.x / 6) * 6) < 1e-6 ? fx::v(T::getRefPointInGPS(f)).x : first.x)), "zone");
      const Tm tm{boost::iequals(f.getUTMDatum(), "ETRS89"), f.getUTMHemisphere() == "+south", std::stoi(f.getUTMZone())};
      const double d = far(f.getCellsAbsPosition(), mapMulti(m, tm), "in UTM");
      CHECK(d < 2e-3 + add, " coordinates are ", d, " m off in ", f.getCRS());
      CHECK_EQ(f.getPrevCRS(), was, "previous system after transformToUTM");
    } else {
      const Sys s = someSystem(g, w, first);
      g.note("-> ", s.name);
      const Multi before = fx::multi(f.getCellsAbsPosition());
      T::transform(f, s.name);
      {
        F2CField back = f.clone();
        T::transformToPrevCRS(back);
        const bool deg = was == "EPSG:4326" || was == "EPSG:4258";
        const double d = far(back.getCellsAbsPosition(), before, "there and back");
        const double loose = was == "EPSG:28992" || s.name == "EPSG:28992" ? 10 : 1;
        CHECK(d < loose * (deg ? 1e-9 : 1e-4), " coordinates are ", d, " off after ", was, " -> ", s.name, " -> ", was);
        CHECK_EQ(back.getCRS(), was, "system after going back");
        CHECK_EQ(back.getPrevCRS(), s.name, "previous system after going back");
      }
      if (s.name == "EPSG:28992") { add = 2; }
      CHECK_EQ(f.getPrevCRS(), was, "previous system");
      CHECK_EQ(f.getCRS(), s.name, "system");
      if (s.tm) {
        const double d = far(f.getCellsAbsPosition(), mapMulti(m, s.f), "in " + s.name);
        CHECK(d < 2e-3 + add, " coordinates are ", d, " m off in ", s.name);
      } else if (s.name == "EPSG:4326" || s.name == "EPSG:4258") {
        const double d = far(f.getCellsAbsPosition(), m, "in " + s.name);
        CHECK(d < 2e-8 + add * 1e-5, " coordinates are ", d, " degrees off in ", s.name);
      } else if (s.name == "EPSG:3857") {
        const double d = far(f.getCellsAbsPosition(), mapMulti(m, [] (V p) {
          return V(6378137 * p.x * D, 6378137 * std::log(std::tan(M_PI / 4 + p.y * D / 2)));
        }), "in Mercator");
        CHECK(d < 1e-2 + add * 2, " coordinates are ", d, " m off in web Mercator");
      }
    }
    was = f.getCRS();
    if (k > 0) { g.nontrivial(); }
    // the same geometry, whichever way it is asked for
    CHECK(dist(fx::v(T::getRefPointInGPS(f)), first) < 2e-8 + add * 1e-5, " reference point in GPS");
    CHECK(dist(fx::v(f.getRefPoint()), fx::multi(f.getCellsAbsPosition())[0].outer[0]) < 1e-7, " reference point is no longer the first point");
  }
}
// Everything that belongs to a field, moved along with it.
void together(Gen& g) {
  V at = place(g, g.boolean() ? Where::NL : Where::ANY);
  at.x = std::min(176.0, std::max(-176.0, at.x));
  const Multi m = geo(g, at, 2);
  F2CField f(fx::cells(m), "x");
  const V first = fx::v(f.getRefPoint());
  const size_t how = g.below(3);
  if (how == 0) { f.setCRS("EPSG:4326"); }
  if (how == 1) { f.setCRS("EPSG:4258"); }
  T::transformToUTM(f, g.boolean());
  const Tm tm{boost::iequals(f.getUTMDatum(), "ETRS89"), f.getUTMHemisphere() == "+south", std::stoi(f.getUTMZone())};
  const V ref = fx::v(f.getRefPoint());
  // points known in both systems
  const double k = kdeg(g);
  std::vector<V> ll;
  std::vector<double> hs;
  const bool high = g.chance(1, 3);   // heights go along
  bool repeat = true;   // the same point twice in a row
  auto pt = [&] {
    if (repeat && !ll.empty() && g.chance(1, 10)) {
      ll.push_back(ll.back());
      hs.push_back(hs.back());
      const V e = tm(ll.back()) - ref;
      return F2CPoint(e.x, e.y, hs.back());
    }
    const V q(first.x + k * g.real(-90, 90), first.y + k * g.real(-90, 90));
    ll.push_back(q);
    hs.push_back(high ? g.real(-20, 300) : 0);
    const V e = tm(q) - ref;
    return F2CPoint(e.x, e.y, hs.back());
  };
  // Each object yields the points of ll in the order they were made.
  size_t used = 0;
  const bool other = g.chance(1, 3);
  const std::string to = other ? (g.boolean() ? "EPSG:3857" : "EPSG:4326") : f.getPrevCRS();
  const bool merc = to == "EPSG:3857";
  const double tol = merc ? 1e-2 : (to == f.getPrevCRS() ? DEG : 2e-8);
  g.note("field in ", f.getCRS(), " things to ", to);
  auto same = [&] (const F2CPoint& p, const char* what) {
    CHECK(used < ll.size(), " too many points in ", what);
    if (!std::isnan(hs[used])) {
      CHECK_NEAR(p.getZ(), hs[used], 1e-6, "height of point ", used, " of the ", what);
    }
    V q = ll[used++];
    if (merc) { q = V(6378137 * q.x * D, 6378137 * std::log(std::tan(M_PI / 4 + q.y * D / 2))); }
    CHECK(dist(fx::v(p), q) < tol, " point ", used - 1, " of the ", what, " is ", dist(fx::v(p), q), " off");
  };
  auto done = [&] (const char* what) {
    CHECK_EQ(used, ll.size(), "points in ", what);
    ll.clear();
    hs.clear();
    used = 0;
  };
  auto line = [&] (size_t lo, size_t hi) {
    F2CLineString l;
    for (size_t n = g.size(lo, hi); n-- > 0;) { l.addPoint(pt()); }
    return l;
  };
  auto swath = [&] {
    F2CSwath s(line(2, 4), g.real(0.1, 12), (int)g.integer(-3, 40),
        g.boolean() ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
    s.setCreationDir(g.boolean());
    return s;
  };
  auto swaths = [&] {
    F2CSwaths s;
    for (size_t n = g.size(0, 3); n-- > 0;) { s.push_back(swath()); }
    return s;
  };
  auto isSwath = [&] (const F2CSwath& a, const F2CSwath& b) {
    CHECK_EQ(a.numPoints(), b.numPoints(), "points of the swath");
    for (size_t i = 0; i < b.numPoints(); ++i) { same(b.getPoint(i), "swath"); }
    CHECK_EQ(a.getId(), b.getId(), "id of the swath");
    CHECK_EQ(a.getWidth(), b.getWidth(), "width of the swath");
    CHECK(a.getType() == b.getType(), " type of the swath");
    CHECK_EQ(a.getCreationDir(), b.getCreationDir(), "direction of the swath");
  };
  auto isSwaths = [&] (const F2CSwaths& a, const F2CSwaths& b) {
    CHECK_EQ(a.size(), b.size(), "swaths");
    for (size_t i = 0; i < a.size(); ++i) { isSwath(a[i], b[i]); }
  };
  const gn::Snap fs = gn::snapOf(f);
  auto keeps = [&] (const auto& was, const auto& is, const char* what) {
    std::string why;
    CHECK(gn::same(was, gn::snapOf(is), 0, &why), " the ", what, " given was changed: ", why);
    CHECK(gn::same(fs, gn::snapOf(f), 0, &why), " the field was changed: ", why);
  };
  switch (g.below(7)) {
    case 0: {
      const F2CSwath s = swath();
      const auto sn = gn::snapOf(s);
      const F2CSwath r = other ? T::transformSwathWithFieldRef(s, f, to) : T::transformToPrevCRS(s, f);
      isSwath(s, r);
      done("swath");
      keeps(sn, s, "swath");
      break;
    }
    case 1: {
      const F2CSwaths s = swaths();
      const auto sn = gn::snapOf(s);
      const F2CSwaths r = other ? T::transformSwathsWithFieldRef(s, f, to) : T::transformToPrevCRS(s, f);
      isSwaths(s, r);
      done("swaths");
      keeps(sn, s, "swaths");
      break;
    }
    case 2: {
      F2CMultiPoint s;
      for (size_t n = g.size(0, 5); n-- > 0;) { s.addPoint(pt()); }
      const auto sn = gn::snapOf(s);
      const F2CMultiPoint r = T::transformMultiPointWithFieldRef(s, f, to);
      CHECK_EQ(r.size(), s.size(), "points");
      for (auto&& q : r) { same(q, "multipoint"); }
      done("multipoint");
      keeps(sn, s, "points");
      break;
    }
    case 3: {
      F2CRoute r;
      const size_t n = g.size(1, 4);
      for (size_t i = 0; i < n; ++i) {
        F2CMultiPoint c;
        for (size_t q = g.size(0, 3); q-- > 0;) { c.addPoint(pt()); }
        r.addConnectedSwaths(c, swaths());
      }
      if (g.boolean()) {
        F2CMultiPoint c;
        for (size_t q = g.size(0, 3); q-- > 0;) { c.addPoint(pt()); }
        r.addConnection(c);
      }
      const auto sn = gn::snapOf(r);
      const F2CRoute q = other ? T::transformRouteWithFieldRef(r, f, to) : T::transformToPrevCRS(r, f);
      CHECK_EQ(q.sizeVectorSwaths(), r.sizeVectorSwaths(), "groups of the route");
      CHECK_EQ(q.sizeConnections(), r.sizeConnections(), "connections of the route");
      for (size_t i = 0; i < std::max(r.sizeVectorSwaths(), r.sizeConnections()); ++i) {
        if (i < r.sizeConnections()) {
          CHECK_EQ(q.getConnection(i).size(), r.getConnection(i).size(), "points of connection ", i);
          for (auto&& p : q.getConnection(i)) { same(p, "connection"); }
        }
        if (i < r.sizeVectorSwaths()) { isSwaths(r.getSwaths(i), q.getSwaths(i)); }
      }
      done("route");
      keeps(sn, r, "route");
      break;
    }
    case 4: {
      F2CPath p;
      repeat = false;
      std::vector<F2CPoint> ps;
      for (size_t n = g.size(2, 5); n-- > 0;) { ps.push_back(pt()); }
      for (size_t i = 0; i + 1 < ps.size(); ++i) { discardIf(dist(fx::v(ps[i]), fx::v(ps[i + 1])) < 1e-2); }
      ps.back().setZ(0);   // states lead on in the plane
      hs.back() = NAN;
      for (size_t i = 0; i + 1 < ps.size(); ++i) {
        const bool back = g.chance(1, 4);
        const double a = (ps[i + 1] - ps[i]).getAngleFromPoint();
        p.addState(ps[i], back ? F2CPoint::mod_2pi(a + M_PI) : a, ps[i].distance(ps[i + 1]),
            back ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD,
            static_cast<f2c::types::PathSectionType>(g.integer(1, 3)), g.real(0.1, 5));
      }
      const auto sn = gn::snapOf(p);
      const F2CPath r = other ? T::transformPathWithFieldRef(p, f, to) : T::transformToPrevCRS(p, f);
      keeps(sn, p, "path");
      CHECK_EQ(r.size(), ps.size(), "states");
      for (size_t i = 0; i < r.size(); ++i) {
        same(r[i].point, "path");
        if (i + 1 < r.size()) {
          CHECK(r[i].atEnd().distance(r[i + 1].point) < tol * 10, " state ", i, " does not lead to the next");
          CHECK(r[i].velocity == p[i].velocity && r[i].dir == p[i].dir && r[i].type == p[i].type, " state ", i, " lost its speed, direction or type");
        }
      }
      done("path");
      // without reference: absolute coordinates
      F2CPath q;
      std::vector<V> abs;
      for (auto&& s : ps) {
        const V a = fx::v(s) + ref;
        abs.push_back(a);
        q.addState(fx::pt(a), 0.3, 1.0, f2c::types::PathDirection::FORWARD, f2c::types::PathSectionType::TURN, 2.5);
      }
      const auto qn = gn::snapOf(q);
      const F2CPath b = T::transformPath(T::transformPath(q, f.getCRS(), to), to, f.getCRS());
      keeps(qn, q, "path");
      CHECK_EQ(b.size(), q.size(), "states");
      for (size_t i = 0; i < b.size(); ++i) {
        CHECK(dist(fx::v(b[i].point), abs[i]) < 1e-2, " transformPath there and back");
        CHECK(b[i].velocity == 2.5 && b[i].type == f2c::types::PathSectionType::TURN && b[i].dir == f2c::types::PathDirection::FORWARD, " attributes of the path");
      }
      break;
    }
    case 5: {   // strips are kept in absolute coordinates
      F2CStrips ss;
      std::vector<Multi> cells;
      for (size_t n = g.size(0, 3); n-- > 0;) {
        const Multi c = geo(g, first, 1);
        discardIf(c.empty());
        F2CStrip s;
        s.setCell(fx::cells(mapMulti(c, tm)).getGeometry(0));
        s.setName(gn::word(g));
        ss.push_back(s);
        cells.push_back(c);
      }
      const F2CStrips r = T::transformToPrevCRS(ss, f);
      CHECK_EQ(r.size(), ss.size(), "strips");
      for (size_t i = 0; i < r.size(); ++i) {
        CHECK_EQ(r[i].getName(), ss[i].getName(), "name of the strip");
        CHECK(far(F2CCells(r[i].getCell()), cells[i], "of the strip") < DEG, " strip ", i);
        const F2CStrip one = T::transformToPrevCRS(ss[i], f);
        CHECK_EQ(one.getName(), ss[i].getName(), "name of one strip");
        CHECK(far(F2CCells(one.getCell()), cells[i], "of one strip") < DEG, " one strip ", i);
      }
      break;
    }
    default: {   // plain geometries, and swaths without a field
      const F2CLineString l = line(2, 5);
      std::string why;
      const auto sn = gn::snapOf(l);
      const F2CLineString r = T::transform(l, f.getRefPoint(), f.getCRS(), to);
      CHECK_EQ(r.size(), l.size(), "points");
      for (size_t i = 0; i < r.size(); ++i) { same(r.getGeometry(i), "line"); }
      done("line");
      keeps(sn, l, "line");
      F2CSwath s(l + f.getRefPoint(), 2.5, 17, g.boolean() ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
      s.setCreationDir(g.boolean());
      F2CSwaths v;
      v.push_back(s);
      v.push_back(s.clone());
      const auto vn = gn::snapOf(v);
      const F2CSwaths t = T::transformSwaths(v, f.getCRS(), to);
      CHECK_EQ(t.size(), (size_t)2, "swaths");
      for (size_t i = 0; i < 2; ++i) {
        const F2CSwath x = T::transformSwath(v[i], f.getCRS(), to);
        for (auto&& y : {t[i], x}) {
          CHECK_EQ(y.getId(), 17, "id of the swath");
          CHECK_EQ(y.getWidth(), 2.5, "width of the swath");
          CHECK(y.getType() == s.getType() && y.getCreationDir() == s.getCreationDir(), " type or direction of the swath");
          CHECK_EQ(y.numPoints(), l.size(), "points of the swath");
          for (size_t j = 0; j < l.size(); ++j) {
            CHECK(y.getPoint(j).distance(r.getGeometry(j)) < tol, " point ", j, " of the swath");
          }
        }
      }
      keeps(vn, v, "swaths");
    }
  }
  g.nontrivial();
}
// Requests that cannot be met are reported.
void errors(Gen& g) {
  CPLPushErrorHandler(CPLQuietErrorHandler);
  const std::string bad = g.pick(std::vector<std::string>{"", "x", "wgs84", "EPSG:", "EPSG:abc", "31N",
      "EPSG:99999", "EPSG:1", "UTM:61N", "UTM:0N", "UTM:99S datum:WGS84", "UTM:31N datum:nodatum", "utm:31N"});
  const std::string ok = g.pick(std::vector<std::string>{"EPSG:4326", "UTM:31N datum:WGS84", "EPSG:28992"});
  g.note("'", bad, "'");
  const Multi m = geo(g, place(g, Where::NL), 2);
  F2CField f(fx::cells(m));
  f.setCRS(ok);
  CHECK_THROWS(T::transform(F2CPoint(5, 52), bad, ok), " transformation from '", bad, "' works");
  CHECK_THROWS(T::transform(F2CPoint(5, 52), ok, bad), " transformation to '", bad, "' works");
  CHECK_THROWS(T::transform(f, bad), " field to '", bad, "'");
  if (bad.find(':') == std::string::npos) {
    CHECK_THROWS(T::createSptRef(bad), " reference for '", bad, "'");
    T::createSptRef(bad, true);
  }
  CHECK_THROWS(T::transformToPrevCRS(f), " no previous system recorded");
  // local coordinates without system
  auto off = [&] (double lim) { return g.uniform(lim + 5, 900) * (g.boolean() ? 1 : -1); };
  V at;   // or out of the range of degrees in one or both
  switch (g.below(4)) {
    case 0: break;
    case 1: at = V(off(180), off(90)); break;
    case 2: at = V(off(180), g.uniform(-80, 80)); break;
    default: at = V(g.uniform(-170, 170), off(90));
  }
  F2CField l{F2CCells(F2CCell(F2CLinearRing({fx::pt(at), fx::pt(at + V(3, 0)), fx::pt(at + V(3, 4)), fx::pt(at)})))};
  CHECK_THROWS(T::transformToUTM(l), " UTM of local coordinates");
  // the border between two zones belongs to the eastern one
  {
    const int z = 1 + (int)g.below(60);
    const double lon = -180 + 6.0 * (z - 1), lat = g.uniform(-70, 70);
    F2CField b{F2CCells(F2CCell(F2CLinearRing({F2CPoint(lon, lat), F2CPoint(lon + 1e-3, lat), F2CPoint(lon + 1e-3, lat + 1e-3), F2CPoint(lon, lat)})))};
    b.setCRS("EPSG:4326");
    T::transformToUTM(b);
    CHECK_EQ(b.getUTMZone(), std::to_string(z), "zone at ", lon);
  }
  // a field on the antimeridian has a zone
  if (g.chance(1, 4)) {
    const double lat = g.uniform(-70, 70);
    F2CField e{F2CCells(F2CCell(F2CLinearRing({F2CPoint(180, lat), F2CPoint(179.999, lat), F2CPoint(179.999, lat + 1e-3), F2CPoint(180, lat)})))};
    e.setCRS("EPSG:4326");
    T::transformToUTM(e);
    CHECK(e.getUTMZone() == "60" || e.getUTMZone() == "1", " zone ", e.getUTMZone());
    const Tm tm{false, lat < 0, std::stoi(e.getUTMZone())};
    CHECK(dist(fx::v(e.getRefPoint()), tm(V(180, lat))) < MET, " field on the antimeridian");
  }
  // an empty field moves its reference point
  F2CField n;
  const V q = place(g, Where::NL);
  n.setRefPoint(fx::pt(q));
  n.setCRS("EPSG:4326");
  const int z = zoneOf(q.x);
  T::transform(n, "UTM:" + std::to_string(z) + "N datum:WGS84");
  CHECK(dist(fx::v(n.getRefPoint()), Tm{false, false, z}(q)) < MET, " reference point of an empty field");
  CPLPopErrorHandler();
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C25",
    "fields of up to three cells with holes at places all over the world (zone "
    "borders, equator, 80S to 84N) against the Krueger series of the transverse "
    "Mercator projection; chains of systems; things moved with a field; "
    "non-trivial: every finished case, chains of two or more",
    {{"utm", 1200, 12000, utm}, {"chain", 500, 6000, chain},
     {"together", 1500, 15000, together}, {"errors", 250, 1500, errors}}};
  return p;
}
