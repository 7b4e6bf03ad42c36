// Generators and snapshots for the library's own entities.
#pragma once
#include "f2c.hpp"

namespace gn {
using orc::V;
using pbt::Gen;

// Everything a caller can read: numbers compared with tolerance, text exactly.
struct Snap {
  std::vector<double> num;
  std::string txt;
  void add(double d) { num.push_back(d); }
  void tag(const std::string& s) { txt += s + ";"; }
};
inline bool same(const Snap& a, const Snap& b, double rel, std::string* why) {
  std::ostringstream o;
  o.precision(17);
  if (a.txt != b.txt) {
    o << "[" << a.txt << "] vs [" << b.txt << "]";
    *why = o.str();
    return false;
  }
  if (a.num.size() != b.num.size()) {
    o << a.num.size() << " vs " << b.num.size() << " numbers";
    *why = o.str();
    return false;
  }
  for (size_t i = 0; i < a.num.size(); ++i) {
    const double x = a.num[i], y = b.num[i];
    if (!(std::fabs(x - y) <= rel * (1 + std::fabs(x))) &&
        !(std::isnan(x) && std::isnan(y))) {
      o << "value " << i << ": " << x << " vs " << y << " in [" << a.txt << "]";
      *why = o.str();
      return false;
    }
  }
  return true;
}
inline void snap(Snap* s, const F2CPoint& p) {
  s->add(p.getX()); s->add(p.getY()); s->add(p.getZ());
}
template <class T> void snapPts(Snap* s, const T& l, const char* name) {
  s->tag(name + std::to_string(l.size()));
  for (size_t i = 0; i < l.size(); ++i) { snap(s, l.getGeometry(i)); }
}
inline void snap(Snap* s, const F2CMultiPoint& l) { snapPts(s, l, "mp"); }
inline void snap(Snap* s, const F2CLineString& l) { snapPts(s, l, "line"); }
inline void snap(Snap* s, const F2CLinearRing& l) { snapPts(s, l, "ring"); }
inline void snap(Snap* s, const F2CMultiLineString& l) {
  s->tag("mls" + std::to_string(l.size()));
  for (size_t i = 0; i < l.size(); ++i) { snap(s, l.getGeometry(i)); }
}
inline void snap(Snap* s, const F2CCell& l) {
  s->tag("cell" + std::to_string(l.size()));
  for (size_t i = 0; i < l.size(); ++i) { snap(s, l.getGeometry(i)); }
}
inline void snap(Snap* s, const F2CCells& l) {
  s->tag("cells" + std::to_string(l.size()));
  for (size_t i = 0; i < l.size(); ++i) { snap(s, l.getGeometry(i)); }
}
inline void snap(Snap* s, const F2CSwath& w) {
  snap(s, w.getPath());
  s->tag("id" + std::to_string(w.getId()));
  s->tag("dir" + std::to_string(w.getCreationDir()));
  s->tag("type" + std::to_string(static_cast<int>(w.getType())));
  s->tag("n" + std::to_string(w.numPoints()));
  s->add(w.getWidth());
  s->add(w.length());
}
inline void snap(Snap* s, const F2CSwaths& w) {
  s->tag("swaths" + std::to_string(w.size()));
  for (auto&& x : w) { snap(s, x); }
}
inline void snap(Snap* s, const F2CSwathsByCells& w) {
  s->tag("groups" + std::to_string(w.size()));
  for (auto&& x : w) { snap(s, x); }
}
inline void snap(Snap* s, const F2CRoute& r) {
  s->tag("route");
  for (auto&& x : r.getVectorSwaths()) { snap(s, x); }
  for (auto&& x : r.getConnections()) { snap(s, x); }
}
inline void snap(Snap* s, const F2CStrip& r) {
  s->tag("strip " + r.getName());
  snap(s, r.getCell());
}
inline void snap(Snap* s, const F2CField& f) {
  s->tag("field " + f.getId() + " crs " + f.getCRS() + " prev " +
      f.getPrevCRS());
  snap(s, f.getRefPoint());
  snap(s, f.getField());
}
inline void snap(Snap* s, const F2CRobot& r) {
  s->tag("robot " + r.getName());
  s->add(r.getWidth()); s->add(r.getCovWidth());
  s->add(r.getCruiseVel()); s->add(r.getTurnVel());
  s->add(r.getMaxCurv()); s->add(r.getMaxDiffCurv());
  s->add(r.getMinTurningRadius());
}
inline void snap(Snap* s, const F2CPath& p) {
  s->tag("path" + std::to_string(p.size()));
  for (auto&& x : p.getStates()) {
    snap(s, x.point);
    s->add(x.angle); s->add(x.len); s->add(x.velocity);
    s->tag(std::to_string(static_cast<int>(x.dir)) + "," +
        std::to_string(static_cast<int>(x.type)));
  }
}
template <class T> Snap snapOf(const T& t) { Snap s; snap(&s, t); return s; }

inline double coord(Gen& g) {
  switch (g.weighted({7, 1, 1})) {
    case 0: return g.real(-80, 80);
    case 1: return g.uniform(-2000, 2000);
    default: return g.uniform(1e5, 6e6);
  }
}
inline F2CPoint point(Gen& g) {
  const double x = coord(g), y = coord(g);
  return F2CPoint(x, y, g.chance(1, 6) ? g.real(-9, 9) : 0);
}
inline F2CMultiPoint multiPoint(Gen& g, size_t lo, size_t hi) {
  F2CMultiPoint m;
  F2CPoint p;
  for (size_t k = g.size(lo, hi); k-- > 0;) {
    if (m.size() == 0 || !g.chance(1, 12)) { p = point(g); }
    m.addPoint(p);
  }
  return m;
}
inline F2CLineString lineString(Gen& g, size_t lo, size_t hi) {
  F2CLineString m;
  F2CPoint p;
  for (size_t k = g.size(lo, hi); k-- > 0;) {
    if (m.size() == 0 || !g.chance(1, 12)) { p = point(g); }
    m.addPoint(p);
  }
  return m;
}
inline F2CSwath swath(Gen& g) {
  F2CSwath s(lineString(g, 2, 4), g.real(0.1, 12),
      static_cast<int>(g.integer(-3, 40)),
      g.chance(1, 3) ? f2c::types::SwathType::HEADLAND
                     : f2c::types::SwathType::MAINLAND);
  if (g.chance(1, 3)) { s.setCreationDir(false); }
  return s;
}
inline F2CSwaths swaths(Gen& g, size_t lo, size_t hi) {
  F2CSwaths m;
  for (size_t k = g.size(lo, hi); k-- > 0;) {
    // The same work twice in a row is as legal as any other list.
    if (m.size() > 0 && g.chance(1, 8)) {
      m.push_back(m.back().clone());
    } else {
      m.push_back(swath(g));
    }
  }
  return m;
}
inline F2CSwathsByCells swathsByCells(Gen& g, size_t lo, size_t hi) {
  F2CSwathsByCells m;
  for (size_t k = g.size(lo, hi); k-- > 0;) { m.push_back(swaths(g, 0, 3)); }
  return m;
}
inline F2CRoute route(Gen& g) {
  F2CRoute r;
  for (size_t k = g.size(0, 4); k-- > 0;) {
    if (g.boolean()) {
      r.addConnection(multiPoint(g, 0, 3));
    } else {
      r.addSwaths(swaths(g, 0, 3));
    }
  }
  return r;
}
inline std::string word(Gen& g) {
  static const std::string abc = "ab cZ1_-.,:é";
  std::string s;
  for (size_t k = g.size(0, 6); k-- > 0;) { s += abc[g.below(11)]; }
  return s;
}
inline std::string crs(Gen& g) {
  switch (g.below(4)) {
    case 0: return "";
    case 1: return "EPSG:" + std::to_string(g.integer(2000, 32760));
    case 2: return "UTM:" + std::to_string(g.integer(1, 60)) +
            (g.boolean() ? "N" : "S") + " datum:etrs89";
    default: return word(g);
  }
}
inline F2CField field(Gen& g) {
  F2CField f(fx::cells(orc::genMulti(g, 2)), word(g));
  f.setCRS(crs(g));
  f.setPrevCRS(g.chance(1, 4) ? f.getCRS() : crs(g));
  if (g.boolean()) { f.setRefPoint(point(g)); }
  return f;
}
}  // namespace gn
