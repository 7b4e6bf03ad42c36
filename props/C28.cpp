// C28 interpolating curves pass through their points.
#include "pbt.hpp"
#include <cmath>
#include <algorithm>
#include "fields2cover/utils/spline.h"
using namespace pbt;
typedef std::vector<double> Vec;
using S = f2c::CubicSpline;
namespace {
// Natural cubic spline from the second derivatives, dense elimination.
struct Ref {
  std::vector<long double> x, y, m;
  Ref(const Vec& xs, const Vec& ys) : x(xs.begin(), xs.end()), y(ys.begin(), ys.end()), m(xs.size(), 0) {
    const int n = (int)x.size() - 2;
    if (n < 1) { return; }
    std::vector<std::vector<long double>> a(n, std::vector<long double>(n + 1, 0));
    for (int i = 0; i < n; ++i) {
      const long double h0 = x[i + 1] - x[i], h1 = x[i + 2] - x[i + 1];
      if (i > 0) { a[i][i - 1] = h0; }
      a[i][i] = 2 * (h0 + h1);
      if (i + 1 < n) { a[i][i + 1] = h1; }
      a[i][n] = 6 * ((y[i + 2] - y[i + 1]) / h1 - (y[i + 1] - y[i]) / h0);
    }
    for (int c = 0; c < n; ++c) {
      int p = c;
      for (int r = c; r < n; ++r) { if (std::fabs(a[r][c]) > std::fabs(a[p][c])) { p = r; } }
      std::swap(a[c], a[p]);
      for (int r = 0; r < n; ++r) {
        if (r == c) { continue; }
        const long double f = a[r][c] / a[c][c];
        for (int k = c; k <= n; ++k) { a[r][k] -= f * a[c][k]; }
      }
    }
    for (int i = 0; i < n; ++i) { m[i + 1] = a[i][n] / a[i][i]; }
  }
  double operator()(double v) const {
    size_t i = 0;
    while (i + 2 < x.size() && v > x[i + 1]) { ++i; }
    const long double h = x[i + 1] - x[i], A = (x[i + 1] - v) / h, B = (v - x[i]) / h;
    return (double)(A * y[i] + B * y[i + 1] + ((A * A * A - A) * m[i] + (B * B * B - B) * m[i + 1]) * h * h / 6);
  }
};
Vec knots(Gen& g, size_t n) {
  Vec x;
  double v = g.chance(1, 3) ? 0 : g.uniform(-100, 100);
  const bool even = g.chance(1, 3);
  const double step = g.logReal(1e-2, 50);
  for (size_t i = 0; i < n; ++i) {
    x.push_back(v);
    v += even ? step : g.logReal(0.05, 20) * step;
  }
  return x;
}
Vec values(Gen& g, size_t n) {
  Vec y;
  const size_t how = g.below(4);
  const double s = g.logReal(1e-2, 1e5);
  for (size_t i = 0; i < n; ++i) {
    switch (how) {
      case 0: y.push_back(s * g.real(-1, 1)); break;
      case 1: y.push_back((double)g.integer(-3, 3)); break;
      case 2: y.push_back(i == 0 ? s * g.real(-1, 1) : y.back() + (g.chance(1, 3) ? 0 : s * g.real(0, 1))); break;   // up, with steps
      default: y.push_back(s * std::sin(i * 1.3));
    }
  }
  return y;
}
double amp(const Vec& y) {
  double m = 1e-12;
  for (double v : y) { m = std::max(m, std::fabs(v)); }
  return m;
}
double ratio(const Vec& x) {
  double lo = INFINITY, hi = 0;
  for (size_t i = 1; i < x.size(); ++i) { lo = std::min(lo, x[i] - x[i - 1]); hi = std::max(hi, x[i] - x[i - 1]); }
  return hi / lo;
}
Vec probes(Gen& g, const Vec& x) {
  Vec r(x);
  for (size_t i = 1; i < x.size(); ++i) {
    for (size_t k = 0; k < 3; ++k) { r.push_back(x[i - 1] + (x[i] - x[i - 1]) * g.uniform(0, 1)); }
    r.push_back(std::nextafter(x[i], INFINITY));
    r.push_back(std::nextafter(x[i - 1], INFINITY));
    r.push_back(std::nextafter(x[i], -INFINITY));
  }
  Vec in;
  for (double v : r) { if (v >= x.front() && v <= x.back()) { in.push_back(v); } }
  return in;
}
S make(Gen& g, const Vec& x, const Vec& y, bool mono = false) {
  if (g.boolean()) { return mono ? S(x, y, true) : g.boolean() ? S(x, y) : S(x, y, false); }
  S s;
  if (g.boolean()) {   // used before
    const size_t n = g.size(2, 12);
    s.SetPoints(knots(g, n), values(g, n), g.boolean());
  }
  s.SetPoints(x, y, mono);
  return s;
}
void natural(Gen& g) {
  const size_t n = g.chance(1, 15) ? g.size(2, 50) : g.size(2, 12);
  const Vec x = knots(g, n), y = values(g, n);
  for (size_t i = 0; i < n; ++i) { g.note(x[i], " -> ", y[i]); }
  const S s = make(g, x, y);
  const Ref r(x, y);
  const double tol = 1e-11 * amp(y) * (1 + ratio(x)) ;
  for (size_t i = 0; i < n; ++i) { CHECK_NEAR(s(x[i]), y[i], tol, "value at knot ", i); }
  for (double v : probes(g, x)) { CHECK_NEAR(s(v), r(v), tol, "value at ", v); }
  if (n > 2) { g.nontrivial(); }
  // outside: some finite value that depends on these points only
  const S f(x, y);
  for (double v : {x[0] - 0.5, x[0] - 1e3, x.back() + 0.5, x.back() + 1e3}) {
    CHECK(std::isfinite(s(v)), " no value at ", v);
    CHECK(s(v) == f(v), " value at ", v, " depends on what was interpolated before: ", s(v), " and ", f(v));
  }
  {   // before the first knot it goes straight on
    const long double h = (long double)x[1] - x[0];
    const double slope = (double)(((long double)y[1] - y[0]) / h - h * r.m[1] / 6);
    for (double k : {0.1, 1.0, 7.0}) {
      const double v = x[0] - k * (double)h;
      CHECK_NEAR(s(v), y[0] - slope * (x[0] - v), tol * (2 + k) * (2 + ratio(x)), "value before the first knot, at ", v);
    }
  }
  double hmin = INFINITY;
  for (size_t i = 1; i < n; ++i) { hmin = std::min(hmin, x[i] - x[i - 1]); }
  const double edge = 8 * tol + amp(y) * 1e-13 * amp(x) / hmin;
  CHECK_NEAR(s(std::nextafter(x[0], -INFINITY)), y[0], edge, "value just before the first knot");
  CHECK_NEAR(s(std::nextafter(x.back(), INFINITY)), y.back(), edge, "value just after the last knot");
}
void relations(Gen& g) {
  const size_t n = g.size(2, 10);
  const Vec x = knots(g, n), y = values(g, n), z = values(g, n);
  const double tol0 = 1e-11 * (1 + ratio(x));
  const bool tiny = g.chance(1, 3);
  const double a = tiny ? (g.boolean() ? 1 : -1) * g.logReal(1e-9, 1e9) : g.uniform(-3, 3), b = g.uniform(-3, 3), c = tiny ? 0 : g.uniform(-9, 9);
  Vec mix(n), line(n), xs(n), xr(n), yr(n);
  const double k = g.logReal(0.1, 10), d = g.uniform(-20, 20);
  for (size_t i = 0; i < n; ++i) {
    mix[i] = a * y[i] + b * z[i];
    line[i] = a * x[i] + c;
    xs[i] = k * x[i] + d;
    xr[i] = -x[n - 1 - i];
    yr[i] = y[n - 1 - i];
  }
  const S sy = make(g, x, y), sz = make(g, x, z), sm = make(g, x, mix), sl = make(g, x, line), st = make(g, xs, y), sr = make(g, xr, yr);
  const S ml = make(g, x, line, true);
  const double lt = tol0 * (amp(line) + std::fabs(a) * amp(x));
  for (double v : probes(g, x)) {
    CHECK_NEAR(sm(v), a * sy(v) + b * sz(v), 4 * tol0 * (std::max(3.0, std::fabs(a)) * amp(y) + 3 * amp(z)), "linear combination at ", v);
    CHECK_NEAR(sl(v), a * v + c, lt, "straight line at ", v);
    CHECK_NEAR(ml(v), a * v + c, lt, "straight line at ", v, ", monotonic");
    const double sc = amp(y) * (tol0 + 1e-14 * (amp(x) + amp(xs) / k) / ((x.back() - x[0]) / (n * ratio(x))) * (1 + ratio(x)));
    CHECK_NEAR(st(k * v + d), sy(v), 8 * sc, "scaled knots at ", v);
    CHECK_NEAR(sr(-v), sy(v), 8 * sc, "reversed knots at ", v);
  }
  g.nontrivial();
}
// slope at the end of a cubic piece, from four of its values
double slope(const S& s, double from, double to, bool at_end) {
  const double h = to - from;
  const double y0 = s(at_end ? from + h * 1e-9 : std::nextafter(from, INFINITY)), y1 = s(from + h / 3), y2 = s(from + 2 * h / 3), y3 = s(to);
  return at_end ? (-2 * y0 + 9 * y1 - 18 * y2 + 11 * y3) / (2 * h) : (-11 * y0 + 18 * y1 - 9 * y2 + 2 * y3) / (2 * h);
}
void monotonic(Gen& g) {
  const size_t n = g.size(2, 10);
  const Vec x = knots(g, n);
  Vec y = values(g, n);
  const bool sorted = g.chance(3, 4);
  const bool down = g.boolean();
  if (sorted) {
    std::sort(y.begin(), y.end());
    if (down) { std::reverse(y.begin(), y.end()); }
  }
  for (size_t i = 0; i < n; ++i) { g.note(x[i], " -> ", y[i]); }
  const S s = make(g, x, y, true);
  const double tol = 1e-11 * amp(y) * (1 + ratio(x));
  double lo = *std::min_element(y.begin(), y.end()), hi = *std::max_element(y.begin(), y.end());
  for (size_t i = 0; i < n; ++i) { CHECK_NEAR(s(x[i]), y[i], tol, "value at knot ", i); }
  double hmin = INFINITY;
  for (size_t i = 1; i < n; ++i) { hmin = std::min(hmin, x[i] - x[i - 1]); }
  for (size_t i = 1; i < n; ++i) {
    CHECK_NEAR(s(std::nextafter(x[i - 1], INFINITY)), y[i - 1], tol + amp(y) * 1e-13 * amp(x) / hmin, "value right after knot ", i - 1);
    if (i + 1 < n) {
      const double l = slope(s, x[i - 1], x[i], true), r = slope(s, x[i], x[i + 1], false);
      CHECK_NEAR(l, r, 1e-6 * amp(y) / hmin, "slope at knot ", i);
    }
    if (sorted) {
      double was = y[i - 1];
      for (int k = 1; k <= 24; ++k) {
        const double v = s(x[i - 1] + (x[i] - x[i - 1]) * k / 24.0);
        CHECK(down ? v <= was + tol : v >= was - tol, " not monotonic between knots ", i - 1, " and ", i, ": ", was, " then ", v);
        was = v;
      }
    }
  }
  (void)lo; (void)hi;
  // values of another size give the same curve at that size
  const double k = std::ldexp(1.0, (int)g.integer(-30, 30)) * (g.boolean() ? 1 : -1);
  Vec ky(y);
  for (auto&& v : ky) { v *= k; }
  const S sk = make(g, x, ky, true);
  for (double v : probes(g, x)) { CHECK_NEAR(sk(v), k * s(v), std::fabs(k) * tol, "scaled values at ", v); }
  if (n > 2 && sorted) { g.nontrivial(); }
}
void errors(Gen& g) {
  size_t n = g.size(2, 8);
  Vec x = knots(g, n), y = values(g, n);
  S s;
  CHECK_THROWS(s(g.uniform(-5, 5)), " value of a curve without points");
  const bool mono = g.boolean();
  S t(x, y, mono);
  switch (g.below(4)) {
    case 0: y.resize(g.below(n)); break;
    case 1: x.resize(g.below(n)); break;
    case 2: x.resize(g.below(2)); y.resize(x.size()); break;
    default: {
      const size_t i = 1 + g.below(n - 1);
      if (g.boolean()) { x[i] = x[i - 1]; } else { std::swap(x[i], x[i - 1]); }
      g.note("knots ", i - 1, " and ", i, " out of order");
    }
  }
  CHECK_THROWS(S(x, y, mono), " wrong points were accepted");
  CHECK_THROWS(s.SetPoints(x, y, mono), " wrong points were accepted");
  CHECK_THROWS(t.SetPoints(x, y), " wrong points were accepted");
  // and is of use again afterwards
  const Vec a{0, 1, 3}, b{0, 2, 6};
  t.SetPoints(a, b);
  CHECK_NEAR(t(2), 4, 1e-12, "line after an error");
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C28",
    "2 to 12 knots (sometimes 50) with spacing ratios up to 400, values of all sizes with "
    "steps and plateaus; a long double natural spline as reference; "
    "non-trivial: three or more knots",
    {{"natural", 6000, 120000, natural}, {"relations", 4000, 60000, relations},
     {"monotonic", 5000, 90000, monotonic}, {"errors", 2000, 20000, errors}}};
  return p;
}
