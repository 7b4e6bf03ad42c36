// C02 points: vector algebra, rotation, headings, line and segment geometry.
#include "f2c.hpp"
using namespace pbt;
using orc::V;
namespace {
typedef long double LD;

double coord(Gen& g) {
  switch (g.weighted({6, 2, 1})) {
    case 0: return g.real(-50, 50);
    case 1: return g.real(-2000, 2000);
    default: return g.uniform(-1e6, 1e6);
  }
}
F2CPoint point(Gen& g, bool z = true) {
  const double x = coord(g), y = coord(g);
  const double c = z && g.chance(1, 3) ? coord(g) : 0;
  return F2CPoint(x, y, c);
}
double mag(const F2CPoint& p) {
  return std::fabs(p.getX()) + std::fabs(p.getY()) + std::fabs(p.getZ()) + 1;
}
void same(const F2CPoint& p, double x, double y, double z, double tol,
    const char* what) {
  CHECK(std::fabs(p.getX() - x) <= tol && std::fabs(p.getY() - y) <= tol &&
      std::fabs(p.getZ() - z) <= tol, " ", what, ": got ", p, " expected (", x,
      ", ", y, ", ", z, ")");
}

void algebra(Gen& g) {
  const F2CPoint a = point(g), b = point(g);
  double k = g.real(-20, 20);
  const F2CPoint a0 = a, b0 = b;
  g.note("a=", a, " b=", b, " k=", k);
  const double t = 1e-12 * (mag(a) + mag(b)) * 21;
  same(a + b, a.X() + b.X(), a.Y() + b.Y(), a.Z() + b.Z(), t, "+");
  same(a - b, a.X() - b.X(), a.Y() - b.Y(), a.Z() - b.Z(), t, "-");
  same(a * k, a.X() * k, a.Y() * k, a.Z() * k, t, "*k");
  if (k != 0) { same(a / k, a.X() / k, a.Y() / k, a.Z() / k,
      t + 1e-12 * mag(a) / std::fabs(k), "/k"); }
  F2CPoint c = a;
  c *= k;
  same(c, a0.X() * k, a0.Y() * k, a0.Z() * k, t, "*=");
  same(a, a0.X(), a0.Y(), a0.Z(), 0, "operand kept");
  CHECK_NEAR(a * b, static_cast<double>((LD)a.X() * b.X() + (LD)a.Y() * b.Y() +
        (LD)a.Z() * b.Z()), 1e-13 * mag(a) * mag(b));
  CHECK_NEAR(F2CPoint::det(a, b), static_cast<double>(
        (LD)a.X() * b.Y() - (LD)a.Y() * b.X()), 1e-13 * mag(a) * mag(b));
  CHECK_NEAR(a.distance(b), std::hypot(a.X() - b.X(), a.Y() - b.Y()),
      1e-12 * (mag(a) + mag(b)));
  // comparisons
  CHECK(a == a0 && !(a != a0));
  const F2CPoint near(a.X() + 1e-9, a.Y() - 1e-9, a.Z());
  CHECK(a == near, " points closer than the tolerance differ");
  const double far[3] = {1e-3, -1e-3, 1};
  const double d = far[g.below(3)];
  const F2CPoint ox(a.X() + d, a.Y(), a.Z()), oy(a.X(), a.Y() + d, a.Z()),
    oz(a.X(), a.Y(), a.Z() + d);
  CHECK(a != ox && !(a == ox));
  CHECK(a != oy && !(a == oy));
  CHECK(a != oz && !(a == oz));
  const bool lt = a.X() < b.X() || (a.X() == b.X() && a.Y() < b.Y());
  CHECK_EQ(a < b, lt);
  const F2CPoint sx(a.X(), b.Y());
  CHECK_EQ(a < sx, a.Y() < sx.Y());
  // ... which is an order: next to each other, too
  const F2CPoint n1(a.X() + g.pick(std::vector<double>{-1e-8, 0, 1e-8, 3e-6}), b.Y());
  CHECK_EQ(a < n1, a.X() < n1.X() || (a.X() == n1.X() && a.Y() < n1.Y()), " order of neighbours ", n1);
  CHECK_EQ(n1 < a, n1.X() < a.X() || (a.X() == n1.X() && n1.Y() < a.Y()), " order of neighbours ", n1);
  // vectors of points and translations
  const std::vector<F2CPoint> v {a, b, ox};
  const std::vector<F2CPoint> vp = v + b, vm = v - b, mv = b - v;
  CHECK(vp.size() == 3 && vm.size() == 3 && mv.size() == 3);
  for (size_t i = 0; i < 3; ++i) {
    same(vp[i], v[i].X() + b.X(), v[i].Y() + b.Y(), v[i].Z() + b.Z(), t, "v+");
    same(vm[i], v[i].X() - b.X(), v[i].Y() - b.Y(), v[i].Z() - b.Z(), t, "v-");
    same(mv[i], b.X() - v[i].X(), b.Y() - v[i].Y(), b.Z() - v[i].Z(), t, "-v");
  }
  // setters
  F2CPoint s;
  s.setPoint(b);
  same(s, b.X(), b.Y(), b.Z(), 0, "setPoint(Point)");
  s.setPoint(a.X(), a.Y());
  same(s, a.X(), a.Y(), 0, 0, "setPoint(x,y)");
  s.setZ(k); s.setX(b.Y()); s.setY(b.X());
  same(s, b.Y(), b.X(), k, 0, "setX/Y/Z");
  s.setPoint(*a.get());
  same(s, a.X(), a.Y(), a.Z(), 0, "setPoint(OGRPoint)");
  g.nontrivial();
}

void rotation(Gen& g) {
  const F2CPoint c = point(g, false), p = point(g, false);
  const double a = g.angle(), b = g.angle();
  g.note("centre=", c, " p=", p, " angles ", a, " ", b);
  const double t = 1e-11 * (mag(c) + mag(p));
  const F2CPoint r = c.rotateFromPoint(a, p);
  const LD ca = cosl(a), sa = sinl(a);
  const LD dx = (LD)p.X() - c.X(), dy = (LD)p.Y() - c.Y();
  same(r, static_cast<double>(dx * ca - dy * sa + c.X()),
      static_cast<double>(dx * sa + dy * ca + c.Y()), 0, t, "rotateFromPoint");
  CHECK_NEAR(c.distance(r), c.distance(p), t);
  const F2CPoint rr = c.rotateFromPoint(b, r);
  const F2CPoint ab = c.rotateFromPoint(a + b, p);
  same(rr, ab.X(), ab.Y(), 0, t * 4, "rotations add up");
  const F2CPoint back = c.rotateFromPoint(-a, r);
  same(back, p.X(), p.Y(), 0, t * 4, "inverse rotation");
  // collections rotate point-wise, with structure kept
  const F2CPoint q = point(g, false), w = point(g, false);
  const F2CLineString l({p, q, w});
  const F2CLineString lr = c.rotateFromPoint(a, l);
  CHECK_EQ(lr.size(), 3u);
  const F2CPoint lp[3] = {p, q, w};
  for (size_t i = 0; i < 3; ++i) {
    const F2CPoint e = c.rotateFromPoint(a, lp[i]);
    same(lr.getGeometry(i), e.X(), e.Y(), 0, t * 4 + 1e-11 * (mag(q) + mag(w)),
        "rotated line");
  }
  const std::vector<F2CPoint> vr =
    c.rotateFromPoint(a, std::vector<F2CPoint>{p, q, w});
  CHECK_EQ(vr.size(), 3u);
  for (size_t i = 0; i < 3; ++i) {
    const F2CPoint e = lr.getGeometry(i);
    same(vr[i], e.X(), e.Y(), 0, 1e-9, "rotated vector");
  }
  if (std::fabs(std::sin(a)) > 1e-6 && c.distance(p) > 1e-3) { g.nontrivial(); }
}

void headings(Gen& g) {
  const F2CPoint p = point(g, false);
  const double a = g.angle(), d = g.real(0.01, 500);
  g.note("p=", p, " angle ", a, " dist ", d);
  const F2CPoint q = p.getPointFromAngle(a, d);
  const double t = 1e-11 * (mag(p) + d);
  same(q, p.X() + d * std::cos(a), p.Y() + d * std::sin(a), 0, t, "polar step");
  CHECK_NEAR(p.distance(q), d, t);
  const F2CPoint v = point(g, false), w = point(g, false);
  const double lv = std::hypot(v.X(), v.Y()), lw = std::hypot(w.X(), w.Y());
  if (lv < 1e-2 || lw < 1e-2) { return; }
  const double hv = v.getAngleFromPoint();
  CHECK(hv >= 0 && hv < 2 * M_PI, " heading ", hv);
  CHECK(orc::angDiff(hv, std::atan2(v.Y(), v.X())) <= 1e-9, " heading of ", v,
      " is ", hv);
  const double vw = v.getAngleFromPoints(w);
  CHECK(vw >= 0 && vw < 2 * M_PI);
  CHECK(orc::angDiff(vw, std::atan2(w.Y(), w.X()) - std::atan2(v.Y(), v.X()))
      <= 1e-9, " angle from ", v, " to ", w, " is ", vw);
  // turning angle along three points
  const F2CPoint p2 = p + v, p3 = p2 + w;
  const double tv = F2CPoint::getAngleFromPoints(p, p2, p3);
  CHECK(tv >= 0 && tv < 2 * M_PI);
  const double e = 1e-9 + 1e-9 * (mag(p) + mag(v) + mag(w)) /
    std::min(lv, lw);
  CHECK(orc::angDiff(tv, std::atan2(w.Y(), w.X()) - std::atan2(v.Y(), v.X()))
      <= e, " turning angle ", tv);
  g.nontrivial();
}

void segments(Gen& g) {
  const F2CPoint p = point(g, false), s = point(g, false);
  F2CPoint e = point(g, false);
  if (s.distance(e) < 1e-2) { e = s + F2CPoint(1, 0.5); }
  g.note("p=", p, " segment ", s, " ", e);
  const V a = fx::v(s), b = fx::v(e), q = fx::v(p);
  const double sc = mag(p) + mag(s) + mag(e);
  const double t = 1e-9 * sc / 100 + 1e-8;
  const F2CPoint c = p.closestPointInSegment(s, e);
  CHECK(orc::distSeg(fx::v(c), a, b) <= t, " not on the segment: ", c);
  CHECK_NEAR(p.distance(c), orc::distSeg(q, a, b), t, " closest ", c);
  const double tt = orc::dot(q - a, b - a) / orc::dot(b - a, b - a);
  g.label(tt < 0 ? "before start" : tt > 1 ? "past end" : "between");
  // degenerate segment
  const F2CPoint z = p.closestPointInSegment(s, s);
  CHECK(z.distance(s) <= 1e-9, " closest point of a single point is ", z);
  // With heights: the nearest in space, or in the plane, and on the segment.
  {
    const F2CPoint p3(p.X(), p.Y(), coord(g)), s3(s.X(), s.Y(), coord(g)), e3(e.X(), e.Y(), coord(g));
    const F2CPoint c3 = p3.closestPointInSegment(s3, e3);
    const double ux = e3.X() - s3.X(), uy = e3.Y() - s3.Y(), uz = e3.Z() - s3.Z();
    auto at = [&] (double w) {
      w = std::max(0.0, std::min(1.0, w));
      return F2CPoint(s3.X() + w * ux, s3.Y() + w * uy, s3.Z() + w * uz);
    };
    const double space = ((p3.X() - s3.X()) * ux + (p3.Y() - s3.Y()) * uy + (p3.Z() - s3.Z()) * uz) /
      (ux * ux + uy * uy + uz * uz);
    const double t3 = 1e-9 * (mag(p3) + mag(s3) + mag(e3));
    auto is = [&] (const F2CPoint& w) {
      return std::fabs(w.X() - c3.X()) <= t3 && std::fabs(w.Y() - c3.Y()) <= t3 && std::fabs(w.Z() - c3.Z()) <= t3;
    };
    CHECK(is(at(space)) || is(at(tt)), " closest to ", p3, " on ", s3, " ", e3, ": ", c3);
  }
  const double sd = p.signedDistance2Segment(s, e);
  const double ex = orc::cross(b - a, q - a) / orc::dist(a, b);
  const double ts = 1e-12 * sc * sc / orc::dist(a, b) + 1e-9;
  CHECK_NEAR(std::fabs(sd), std::fabs(ex), ts);
  // one side positive, the other negative; swapping ends swaps the sign
  CHECK_NEAR(p.signedDistance2Segment(e, s), -sd, ts);
  const V nrm(-(b - a).y / orc::dist(a, b), (b - a).x / orc::dist(a, b));
  const V mir = q - nrm * (2 * orc::dot(q - a, nrm));
  CHECK_NEAR(fx::pt(mir).signedDistance2Segment(s, e), -sd, ts * 4 + 1e-9);
  // the sign convention is one for all segments: left of +x from the origin
  const double conv =
    F2CPoint(0, 1).signedDistance2Segment(F2CPoint(0, 0), F2CPoint(1, 0));
  CHECK_NEAR(std::fabs(conv), 1.0, 1e-12);
  if (std::fabs(ex) > 10 * ts) { CHECK(sd * ex * conv > 0, " side of ", p); }
  g.nontrivial();
}

void lines(Gen& g) {
  F2CPoint a = point(g, false), b0 = point(g, false);
  F2CPoint c = point(g, false), d0 = point(g, false);
  F2CPoint b = a.distance(b0) < 0.1 ? a + F2CPoint(1, 0) : b0;
  F2CPoint d = c.distance(d0) < 0.1 ? c + F2CPoint(0, 1) : d0;
  if (g.chance(1, 3)) {  // short, long and almost parallel lines
    const double th = g.angle(1);
    const double dth = g.logReal(1e-7, 1.5) * (g.boolean() ? 1 : -1);
    const double l1 = g.logReal(1e-3, 1e4), l2 = g.logReal(1e-3, 1e4);
    a = F2CPoint(g.uniform(-10, 10), g.uniform(-10, 10));
    c = g.chance(1, 8) ? a : F2CPoint(g.uniform(-10, 10), g.uniform(-10, 10));
    b = a.getPointFromAngle(th, l1);
    d = c.getPointFromAngle(th + dth + (g.boolean() ? M_PI : 0), l2);
    g.label("almost parallel");
  }
  g.note("lines ", a, b, " and ", c, d);
  // oracle in long double
  const LD ux = (LD)b.X() - a.X(), uy = (LD)b.Y() - a.Y();
  const LD wx = (LD)d.X() - c.X(), wy = (LD)d.Y() - c.Y();
  const LD den = ux * wy - uy * wx;
  const double nu = std::hypot(ux, uy), nw = std::hypot(wx, wy), ad = std::fabs(den);
  const double sc = mag(a) + mag(b) + mag(c) + mag(d);
  // what rounding does to the determinants
  const double eps = 1e-15;
  if (ad <= 100 * eps * (nu * nw + sc * (nu + nw))) { throw Discard(); }
  const LD k = (((LD)c.X() - a.X()) * wy - ((LD)c.Y() - a.Y()) * wx) / den;
  const double rx = static_cast<double>(a.X() + k * ux), ry = static_cast<double>(a.Y() + k * uy);
  const double t = 1e-9 + 4 * eps * (nu + nw) * sc * sc / ad +
    4 * eps * (nu * nw + sc * (nu + nw)) / ad * (sc + std::hypot(rx, ry));
  const F2CPoint x = F2CPoint::intersectionOfLines(a, b, c, d);
  CHECK_NEAR(x.X(), rx, t * 10);
  CHECK_NEAR(x.Y(), ry, t * 10);
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C02",
    "points with integer, decimal and full precision coordinates up to 1e6, "
    "any angle; non-trivial: non-degenerate vectors, segments with distinct "
    "ends, lines whose crossing rounding leaves defined",
    {{"algebra", 150000, 1500000, algebra},
     {"rotation", 60000, 600000, rotation},
     {"headings", 150000, 1500000, headings},
     {"segments", 150000, 1500000, segments},
     {"lines", 150000, 1500000, lines}}};
  return p;
}
