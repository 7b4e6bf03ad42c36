// Bridges between the oracle's plain geometry and the library's types.
#pragma once
#include "fields2cover/types.h"
#include "oracle.hpp"

namespace fx {

using orc::V;

inline F2CPoint pt(const V& v) { return F2CPoint(v.x, v.y); }
inline V v(const F2CPoint& p) { return V(p.getX(), p.getY()); }

inline F2CLinearRing ring(const orc::Ring& r) {
  F2CLinearRing o;
  for (auto&& p : r) { o.addPoint(p.x, p.y); }
  if (!r.empty()) { o.addPoint(r[0].x, r[0].y); }
  return o;
}
inline F2CCell cell(const orc::Poly& p) {
  F2CCell c;
  c.addRing(ring(p.outer));
  for (auto&& h : p.holes) { c.addRing(ring(h)); }
  return c;
}
inline F2CCells cells(const orc::Multi& m) {
  F2CCells c;
  for (auto&& p : m) { c.addGeometry(cell(p)); }
  return c;
}
// The raw OGR object is read, so that these do not depend on the wrappers.
inline orc::Ring ring(const OGRLineString* r) {
  orc::Ring o;
  for (int i = 0; r && i < r->getNumPoints(); ++i) {
    o.emplace_back(r->getX(i), r->getY(i));
  }
  if (o.size() > 1 && o.front().x == o.back().x &&
      o.front().y == o.back().y) { o.pop_back(); }
  return o;
}
inline orc::Poly poly(const OGRPolygon* p) {
  orc::Poly o;
  if (!p || p->IsEmpty()) { return o; }
  o.outer = ring(p->getExteriorRing());
  for (int i = 0; i < p->getNumInteriorRings(); ++i) {
    o.holes.push_back(ring(p->getInteriorRing(i)));
  }
  return o;
}
inline orc::Multi multi(const F2CCells& c) {
  orc::Multi o;
  for (int i = 0; i < c.get()->getNumGeometries(); ++i) {
    auto* p = dynamic_cast<const OGRPolygon*>(c.get()->getGeometryRef(i));
    if (p && !p->IsEmpty()) { o.push_back(poly(p)); }
  }
  return o;
}
inline orc::Multi multi(const F2CCell& c) {
  orc::Multi o;
  if (!c.get()->IsEmpty()) { o.push_back(poly(c.get())); }
  return o;
}
inline std::vector<V> line(const OGRLineString* l) {
  std::vector<V> o;
  for (int i = 0; l && i < l->getNumPoints(); ++i) {
    o.emplace_back(l->getX(i), l->getY(i));
  }
  return o;
}
inline std::vector<V> line(const F2CLineString& l) { return line(l.get()); }

inline double lineLength(const std::vector<V>& l) {
  double s = 0;
  for (size_t i = 1; i < l.size(); ++i) { s += orc::dist(l[i - 1], l[i]); }
  return s;
}

}  // namespace fx
