// C24 a field keeps its absolute geometry and coordinate system.
#include "gens.hpp"
using namespace pbt;
using namespace orc;
namespace {
// Absolute geometry as plain numbers.
struct Model {
  std::string id, crs, prev;
  Multi local;     // relative to the reference point
  V ref{0, 0};
  bool known = true;
  mutable double big = 1;   // coordinates ever met: what was rounded stays so
};
Multi shifted(const Multi& m, const V& d) {
  return mapMulti(m, [&] (V p) { return p + d; });
}
void equal(const F2CCells& c, const Multi& m, double k, const std::string& what) {
  const Multi got = fx::multi(c);
  CHECK_EQ(got.size(), m.size(), "cells: ", what);
  auto ring = [&] (const Ring& a, const Ring& b) {
    CHECK_EQ(a.size(), b.size(), "vertices: ", what);
    for (size_t i = 0; i < a.size(); ++i) {
      CHECK_NEAR(a[i].x, b[i].x, k, "x of vertex ", i, ": ", what);
      CHECK_NEAR(a[i].y, b[i].y, k, "y of vertex ", i, ": ", what);
    }
  };
  for (size_t i = 0; i < m.size(); ++i) {
    ring(got[i].outer, m[i].outer);
    CHECK_EQ(got[i].holes.size(), m[i].holes.size(), "holes: ", what);
    for (size_t h = 0; h < m[i].holes.size(); ++h) { ring(got[i].holes[h], m[i].holes[h]); }
  }
}
void same(const F2CField& f, const Model& m, const std::string& after) {
  double k = 1;
  for (auto&& q : m.local) {
    for (auto&& v : q.outer) { k = std::max(k, std::fabs(v.x) + std::fabs(v.y)); }
  }
  k += std::fabs(m.ref.x) + std::fabs(m.ref.y) +
    std::fabs(f.getRefPoint().getX()) + std::fabs(f.getRefPoint().getY());
  k = m.big = std::max(k, m.big);
  const double tol = 1e-9 + 1e-13 * k;
  equal(f.getCellsAbsPosition(), shifted(m.local, m.ref), tol, "absolute cells after " + after);
  F2CField& w = const_cast<F2CField&>(f);
  // the reference point may be any, but then the rest agrees with it
  const V ref = fx::v(f.getRefPoint());
  CHECK(w.getRefPoint().getX() == ref.x && w.getRefPoint().getY() == ref.y,
      " two reference points");
  if (m.known) {
    CHECK(dist(ref, m.ref) < tol, " reference point after ", after);
  }
  equal(f.getField(), shifted(m.local, m.ref - ref), tol, "local cells after " + after);
  equal(w.getField(), shifted(m.local, m.ref - ref), tol, "local cells after " + after);
  CHECK_NEAR(f.area(), area(m.local), 1e-9 * (1 + area(m.local)) + tol * 10 * (1 + diam(m.local)),
      "area after ", after);
  CHECK_EQ(f.isEmpty(), m.local.empty(), "isEmpty after ", after);
  CHECK_EQ(f.getId(), m.id, "id after ", after);
  CHECK_EQ(f.getCRS(), m.crs, "coordinate system after ", after);
  CHECK_EQ(f.getPrevCRS(), m.prev, "previous coordinate system after ", after);
}
Multi someCells(Gen& g) {
  if (g.chance(1, 8)) { return {}; }
  ShapeOpt o;
  o.max_vertices = 7;
  o.max_holes = 6;
  Multi m = genMulti(g, 6, o);
  if (g.chance(1, 2)) {   // where real fields are
    const V d(g.uniform(2e5, 8e5), g.uniform(-1e6, 6e6));
    m = shifted(m, d);
  }
  return fx::multi(fx::cells(m));
}
void history(Gen& g) {
  Model m;
  F2CField f;
  if (g.chance(3, 4)) {
    m.local = someCells(g);
    m.known = false;
    if (g.boolean()) {
      m.id = gn::word(g);
      f = F2CField(fx::cells(m.local), m.id);
    } else {
      f = F2CField(fx::cells(m.local));
    }
  }
  same(f, m, "construction");
  size_t moved = 0;
  std::vector<std::pair<F2CField, Model>> old;
  for (size_t k = g.size(0, 8); k-- > 0;) {
    std::ostringstream o;
    switch (g.below(9)) {
      case 0: m.id = gn::word(g); f.setId(m.id); o << "setId"; break;
      case 1: m.crs = gn::crs(g); f.setCRS(m.crs); o << "setCRS"; break;
      case 2: m.prev = g.chance(1, 3) ? m.crs : gn::crs(g); f.setPrevCRS(m.prev); o << "setPrevCRS"; break;
      case 3: {   // moves the field
        const V was = fx::v(f.getRefPoint());
        const F2CPoint p = gn::point(g);
        m.local = shifted(m.local, m.ref - was);   // as kept inside
        if (g.boolean()) { f.setRefPoint(p); } else { f.getRefPoint() = p; }
        m.ref = fx::v(p);
        m.known = true;
        o << "setRefPoint";
        ++moved;
        break;
      }
      case 4: {
        m.ref = fx::v(f.getRefPoint());
        m.known = true;
        m.local = someCells(g);
        if (g.boolean()) { f.setField(fx::cells(m.local)); } else { f.getField() = fx::cells(m.local); }
        o << "setField";
        break;
      }
      case 5: old.emplace_back(f.clone(), m); o << "clone"; break;
      case 6: {
        f = f.clone();
        o << "assign own clone";
        ++moved;
        break;
      }
      case 7: {   // a field of the absolute cells is the same field
        const F2CCells abs = f.getCellsAbsPosition();
        f = F2CField(abs, m.id);
        m.crs = m.prev = "";
        m.local = shifted(m.local, m.ref);
        m.ref = V(0, 0);
        m.known = false;
        o << "field of the absolute cells";
        ++moved;
        break;
      }
      default: {
        F2CField q(f);
        F2CField t;
        t = std::move(q);
        f = t;
        o << "copies";
      }
    }
    g.note(o.str());
    same(f, m, o.str());
    for (auto&& x : old) { same(x.first, x.second, "clone taken before " + o.str()); }
  }
  if (moved > 0 && !m.local.empty()) { g.nontrivial(); }
}
// Coordinate system strings.
// Fields with heights keep them too.
void heights(Gen& g) {
  const Multi m = someCells(g);
  discardIf(m.empty());
  F2CCells c;
  std::vector<double> z;
  auto ring = [&](const Ring& r) {
    F2CLinearRing o;
    const double z0 = g.real(-20, 300);
    z.push_back(z0);
    o.addPoint(r[0].x, r[0].y, z0);
    for (size_t i = 1; i < r.size(); ++i) {
      z.push_back(g.real(-20, 300));
      o.addPoint(r[i].x, r[i].y, z.back());
    }
    o.addPoint(r[0].x, r[0].y, z0);
    return o;
  };
  for (auto&& q : m) {
    F2CCell x(ring(q.outer));
    for (auto&& h : q.holes) { x.addRing(ring(h)); }
    c.addGeometry(x);
  }
  g.note(c.exportToWkt());
  const F2CField f(c, "f"), k = f.clone();
  for (const F2CField* w : {&f, &k}) {
    equal(w->getCellsAbsPosition(), m, 1e-9 + 1e-13 * 1e7, "absolute cells");
    for (const bool abs : {true, false}) {
      const F2CCells got = abs ? w->getCellsAbsPosition() : w->getField();
      const double dz = abs ? 0 : w->getRefPoint().getZ();
      size_t n = 0;
      for (size_t i = 0; i < got.size(); ++i) {
        const F2CCell x = got.getGeometry(i);
        for (size_t j = 0; j < x.size(); ++j) {
          const F2CLinearRing r = x.getGeometry(j);
          for (size_t v = 0; v + 1 < r.size(); ++v, ++n) {
            CHECK_NEAR(r.getGeometry(v).getZ(), z.at(n) - dz, 1e-9,
                "height of vertex ", v, " of ring ", j, abs ? "" : " (local)");
          }
        }
      }
      CHECK_EQ(n, z.size(), "vertices");
    }
  }
  g.nontrivial();
}
void utm(Gen& g) {
  const int zone = (int)g.integer(1, 60);
  const std::string h = g.pick(std::vector<std::string>{"N", "S", "n", "s"});
  const std::string z = std::to_string(zone), want = (h == "N" || h == "n") ? "+north" : "+south";
  const std::string datum = g.pick(std::vector<std::string>{"etrs89", "WGS84", "84WG", "NAD83", "x1"});
  const bool has = g.boolean();
  std::string tail;
  if (has) {
    tail = g.pick(std::vector<std::string>{" datum:", " datum ", " +datum:", " datum=", ", datum: "}) + datum;
  }
  const std::string dwant = has ? datum : "etrs89";
  const std::string s = g.pick(std::vector<std::string>{"UTM:", "UTM: ", "UTM ", "UTM", "UTM_:"}) + z + h + tail;
  g.note("'", s, "'");
  auto look = [&] (const F2CField& f, const std::string& what) {
    CHECK_EQ(f.getUTMCoordSystem(), z + h, "UTM system ", what);
    CHECK_EQ(f.getUTMZone(), z, "UTM zone ", what);
    CHECK_EQ(f.getUTMHemisphere(), want, "UTM hemisphere ", what);
    CHECK_EQ(f.getUTMDatum(), dwant, "UTM datum ", what);
    CHECK(!f.isCoordSystemEPSG(), " UTM is no EPSG ", what);
    CHECK_EQ(f.getEPSGCoordSystem(), -1, "EPSG code ", what);
  };
  F2CField f;
  f.setCRS(s);
  look(f, "of '" + s + "'");
  CHECK_EQ(F2CField::getUTMCoordSystem(s), z + h, "UTM system of '", s, "'");
  CHECK_EQ(F2CField::getUTMCoordSystem(s, "none"), z + h, "UTM system of '", s, "'");
  CHECK_EQ(F2CField::getUTMZone(s), z, "UTM zone of '", s, "'");
  CHECK_EQ(F2CField::getUTMHemisphere(s), want, "UTM hemisphere of '", s, "'");
  CHECK_EQ(F2CField::getUTMDatum(s), dwant, "UTM datum of '", s, "'");
  CHECK_EQ(F2CField::getUTMDatum(s, "none"), has ? datum : "none", "UTM datum of '", s, "'");
  CHECK_EQ(F2CField::isCoordSystemUTM(s), s.find("UTM:") == 0, "UTM of '", s, "'");
  CHECK(!F2CField::isCoordSystemEPSG(s), " EPSG of '", s, "'");
  CHECK_EQ(F2CField::getEPSGCoordSystem(s), -1, "EPSG code of '", s, "'");
  F2CField e;
  e.setEPSGCoordSystem(4326);
  e.setUTMCoordSystem(s);
  look(e, "set to '" + s + "'");
  CHECK(e.isCoordSystemUTM(), " not UTM when set to '", s, "'");
  F2CField b;   // the zone alone
  b.setUTMCoordSystem(z + h + tail);
  if (!has) { look(b, "set to the zone"); CHECK(b.isCoordSystemUTM(), " not UTM"); }
  F2CField t;
  const std::string d = g.pick(std::vector<std::string>{"", " ", "datum:", "datum "}) + dwant;
  t.setUTMCoordSystem(g.boolean() ? s : z + h, d);
  look(t, "set with datum '" + d + "'");
  CHECK(t.isCoordSystemUTM(), " not UTM when set with a datum");
  CHECK_EQ(t.clone().getCRS(), t.getCRS(), "coordinate system of a clone");
  g.nontrivial();
}
void epsg(Gen& g) {
  const int code = g.chance(1, 10) ? -(int)g.integer(1, 99) : (int)g.integer(1, 120000);
  F2CField f;
  if (g.boolean()) { f.setUTMCoordSystem("31N"); }
  f.setEPSGCoordSystem(code);
  auto look = [&] (const F2CField& x, const std::string& what) {
    CHECK_EQ(x.getEPSGCoordSystem(), code, "EPSG code ", what);
    CHECK(x.isCoordSystemEPSG() && !x.isCoordSystemUTM(), " kind of system ", what);
    CHECK_EQ(x.getUTMCoordSystem(), "", "UTM system ", what);
    CHECK_EQ(x.getUTMZone(), "", "UTM zone ", what);
    CHECK_EQ(x.getUTMHemisphere(), "", "UTM hemisphere ", what);
    CHECK_EQ(x.getUTMDatum(), "etrs89", "UTM datum ", what);
  };
  look(f, "set");
  const std::string s = g.pick(std::vector<std::string>{"EPSG:", "EPSG: ", "crs EPSG:", "urn:ogc:EPSG:"}) +
    std::to_string(code) + g.pick(std::vector<std::string>{"", " ", "/x"});
  g.note("'", s, "'");
  F2CField e;
  e.setCRS(s);
  look(e, "of '" + s + "'");
  CHECK_EQ(F2CField::getEPSGCoordSystem(s), code, "EPSG code of '", s, "'");
  // strings without either
  const std::string n = g.pick(std::vector<std::string>{"", "x", "wgs84", "32S", "31", "epsg", "EPSG:", "EPSG:abc", "UTM", "UTM:", "UTM:N", "utm:31N"});
  CHECK_EQ(F2CField::getEPSGCoordSystem(n), -1, "EPSG code of '", n, "'");
  CHECK_EQ(F2CField::getUTMCoordSystem(n), "", "UTM system of '", n, "'");
  CHECK_EQ(F2CField::getUTMCoordSystem(n, "q"), "q", "UTM system of '", n, "'");
  CHECK_EQ(F2CField::getUTMZone(n), "", "UTM zone of '", n, "'");
  CHECK_EQ(F2CField::getUTMHemisphere(n), "", "UTM hemisphere of '", n, "'");
  CHECK_EQ(F2CField::getUTMDatum(n), "etrs89", "UTM datum of '", n, "'");
  CHECK_EQ(F2CField::getUTMDatum(n, "q"), "q", "UTM datum of '", n, "'");
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C24",
    "histories of a field with up to three cells, near the origin or at map "
    "coordinates; strings for all zones, hemispheres, datums and codes; "
    "non-trivial: a moved or copied field that is not empty; any string",
    {{"history", 6000, 80000, history}, {"utm", 3000, 30000, utm},
     {"heights", 3000, 30000, heights},
     {"epsg", 2000, 20000, epsg}}};
  return p;
}
