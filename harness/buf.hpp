// Oracle for flat-capped, mitred offsets.
#pragma once
#include "f2c.hpp"
#include <geos_c.h>

namespace buf {
using namespace orc;

const double kMitre = 5.2;    // nothing is added beyond the mitre limit
const double kSlack = 0.02;   // the library simplifies details below 1% of d

// p may belong to the mitred corner of some vertex of r for offset d.
inline bool wedge(const V& p, const Ring& r, double d, double slack) {
  const size_t n = r.size();
  for (size_t i = 0; i < n; ++i) {
    const V v = r[i];
    if (dist(p, v) > kMitre * d + slack) { continue; }
    const V a = r[(i + n - 1) % n], b = r[(i + 1) % n];
    const double sa = std::fabs(cross(v - a, p - a)) / dist(a, v);
    const double sb = std::fabs(cross(b - v, p - v)) / dist(b, v);
    if (sa <= d + slack && sb <= d + slack) { return true; }
  }
  return false;
}
inline bool wedge(const V& p, const Poly& q, double d, double slack) {
  if (wedge(p, q.outer, d, slack)) { return true; }
  for (auto&& h : q.holes) { if (wedge(p, h, d, slack)) { return true; } }
  return false;
}
inline bool wedge(const V& p, const Multi& m, double d, double slack) {
  for (auto&& q : m) { if (wedge(p, q, d, slack)) { return true; } }
  return false;
}
// +1 p must be in the region offset by d (negative: shrunk), -1 it must not
// be, 0 either.
inline int expected(const V& p, const Multi& m, double d) {
  const double w = std::fabs(d);
  const double eps = kSlack * w + 1e-7 * (1 + diam(m)) +
    1e-14 * 1e2 * (std::fabs(p.x) + std::fabs(p.y));
  const double db = distBorder(p, m);
  const bool in = inside(p, m);
  if (d >= 0) {
    if (in && db > 1e-6) { return 1; }
    if (db < w - eps) { return 1; }
    if (db > w + eps && !wedge(p, m, w, 0.06 * w + eps)) { return -1; }
    return 0;
  }
  if (!in) { return db > 1e-6 ? -1 : 0; }
  if (db < w - eps) { return -1; }
  // (thin remains of a region may be simplified away)
  if (db > 1.05 * w + eps && !wedge(p, m, w, 0.06 * w + eps)) { return 1; }
  return 0;
}
// GEOS itself loses whole parts of mitred offsets when two offset sides nearly
// coincide.  Its own results (not the library's) for slightly different
// distances tell such inputs: areas must be monotone and shapes valid.
struct Geos {
  GEOSContextHandle_t c = GEOS_init_r();
  GEOSGeometry* geom = nullptr;
  explicit Geos(const Multi& m) {
    std::ostringstream o;
    o.precision(17);
    auto ring = [&](const Ring& r) {
      o << "(";
      for (auto&& v : r) { o << v.x << " " << v.y << ","; }
      o << r[0].x << " " << r[0].y << ")";
    };
    o << "MULTIPOLYGON(";
    for (size_t i = 0; i < m.size(); ++i) {
      o << (i ? ",(" : "(");
      ring(m[i].outer);
      for (auto&& h : m[i].holes) { o << ","; ring(h); }
      o << ")";
    }
    o << ")";
    GEOSWKTReader* rd = GEOSWKTReader_create_r(c);
    geom = GEOSWKTReader_read_r(c, rd, o.str().c_str());
    GEOSWKTReader_destroy_r(c, rd);
  }
  GEOSGeometry* offset(double d) const {
    if (!geom) { return nullptr; }
    GEOSBufferParams* bp = GEOSBufferParams_create_r(c);
    GEOSBufferParams_setEndCapStyle_r(c, bp, GEOSBUF_CAP_FLAT);
    GEOSBufferParams_setJoinStyle_r(c, bp, GEOSBUF_JOIN_MITRE);
    GEOSGeometry* r = GEOSBufferWithParams_r(c, geom, bp, d);
    GEOSBufferParams_destroy_r(c, bp);
    return r;
  }
  ~Geos() {
    if (geom) { GEOSGeom_destroy_r(c, geom); }
    GEOS_finish_r(c);
  }
  Geos(const Geos&) = delete;
};
inline bool stable(const Multi& m, double d) {
  Geos s(m);
  bool ok = true;
  double last = 1e300;
  const double A = area(m);
  for (double e : {-1e-2, -1e-3, -1e-4, 0.0, 1e-4, 1e-3, 1e-2}) {
    GEOSGeometry* r = s.offset(d * (1 + e));
    double a = 0;
    if (!r || !GEOSArea_r(s.c, r, &a) || !GEOSisValid_r(s.c, r)) { ok = false; }
    if (d > 0) { a = -a; }
    if (a > last + 1e-7 * A) { ok = false; }
    last = a;
    if (r) { GEOSGeom_destroy_r(s.c, r); }
  }
  return ok;
}
// The offset as the engine itself computes it.
inline Multi engine(const Multi& m, double d) {
  Geos s(m);
  Multi o;
  GEOSGeometry* r = s.offset(d);
  auto ring = [&](const GEOSGeometry* g) {
    Ring q;
    const GEOSCoordSequence* cs = GEOSGeom_getCoordSeq_r(s.c, g);
    unsigned n = 0;
    GEOSCoordSeq_getSize_r(s.c, cs, &n);
    for (unsigned i = 0; i + 1 < n; ++i) {
      V v;
      GEOSCoordSeq_getX_r(s.c, cs, i, &v.x);
      GEOSCoordSeq_getY_r(s.c, cs, i, &v.y);
      q.push_back(v);
    }
    return q;
  };
  for (int i = 0; r && i < GEOSGetNumGeometries_r(s.c, r); ++i) {
    const GEOSGeometry* g = GEOSGetGeometryN_r(s.c, r, i);
    if (GEOSGeomTypeId_r(s.c, g) != GEOS_POLYGON || GEOSisEmpty_r(s.c, g)) {
      continue;
    }
    Poly q;
    q.outer = ring(GEOSGetExteriorRing_r(s.c, g));
    for (int k = 0; k < GEOSGetNumInteriorRings_r(s.c, g); ++k) {
      q.holes.push_back(ring(GEOSGetInteriorRingN_r(s.c, g, k)));
    }
    o.push_back(q);
  }
  if (r) { GEOSGeom_destroy_r(s.c, r); }
  return o;
}
// Checks res, the library's offset of m by d.  If the check fails and the
// engine's own offset of m by d fails the same check (same draws), then the
// engine is too coarse for this input, and the case says nothing.
inline void judge(pbt::Gen& g, const Multi& m, double d, const Multi& res,
    const std::function<void(pbt::Gen&, const Multi&)>& fn) {
  pbt::Gen copy = g;
  copy.shared = nullptr;
  copy.keep_notes = false;
  try {
    fn(g, res);
  } catch (const pbt::Failure&) {
    bool engine_too = false;
    try {
      fn(copy, engine(m, d));
    } catch (const pbt::Failure&) {
      engine_too = true;
    }
    if (engine_too) {
      g.label("GEOS offset too coarse");
      throw pbt::Discard();
    }
    throw;
  }
}
// Runs a check; a failure on an input that GEOS cannot offset is discarded.
inline void guard(pbt::Gen& g, const Multi& m, std::vector<double> ds,
    const std::function<void()>& fn) {
  try {
    fn();
  } catch (const std::exception&) {
    for (double d : ds) {
      if (!stable(m, d)) {
        g.label("GEOS offset unstable");
        throw pbt::Discard();
      }
    }
    throw;
  }
}
}  // namespace buf
