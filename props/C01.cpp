// C01 angle arithmetic.  Oracle: long double reduction modulo 2*pi.
#include "f2c.hpp"
using namespace pbt;
namespace {
typedef F2CPoint G;   // the functions are static members of every geometry
const long double TP = 6.283185307179586476925286766559005768L;

// distance of x to the nearest multiple of 2*pi
double offTurn(long double x) {
  long double r = fmodl(x, TP);
  if (r < 0) { r += TP; }
  return static_cast<double>(std::min(r, TP - r));
}
double ang(Gen& g) {
  if (g.chance(1, 8)) { return g.uniform(-1e6, 1e6); }
  return g.angle();
}
double tol(double a, double b = 0) {
  return 1e-9 + 1e-14 * (std::fabs(a) + std::fabs(b));
}

void wrap(Gen& g) {
  const double a = ang(g);
  g.note("wrap ", a);
  const double w = G::mod_2pi(a);
  CHECK(w >= 0.0, " angle=", a, " got ", w);
  CHECK(w < 2 * M_PI, " angle=", a, " got ", w);
  CHECK(offTurn((long double)w - a) <= tol(a), " angle=", a, " got ", w);
  if (a >= 0 && a < 2 * M_PI - 1e-12) { CHECK_NEAR(w, a, 1e-12); }
  // the same function through another geometry type
  CHECK_EQ(F2CCells::mod_2pi(a), w);
  const double m = g.real(0.5, 20);
  const double x = g.real(-100, 100);
  const double r = F2CLineString::mod(x, m);
  CHECK(r >= 0 && r < m, " mod(", x, ",", m, ")=", r);
  const double q = (x - r) / m;
  CHECK_NEAR(q, std::round(q), 1e-9);
  if (a < 0 || a > 2 * M_PI) { g.nontrivial(); }
}

void diff(Gen& g) {
  const double a = ang(g);
  double b = ang(g);
  switch (g.weighted({5, 1, 1, 1})) {   // near coincident / opposite
    case 1: b = a + static_cast<double>(g.integer(-3, 3)) * 2 * M_PI; break;
    case 2: b = a + M_PI + g.real(-1, 1) * 1e-3; break;
    case 3: b = a + g.real(-1, 1) * 1e-6; break;
    default: break;
  }
  g.note("diff ", a, " ", b);
  const double d = G::getAngleDiffAbs(a, b);
  CHECK(d >= -1e-12 && d <= M_PI + 1e-12, " diff(", a, ",", b, ")=", d);
  CHECK_NEAR(d, offTurn((long double)a - b), tol(a, b), " a=", a, " b=", b);
  CHECK_NEAR(d, G::getAngleDiffAbs(b, a), tol(a, b), " not symmetric");
  CHECK_NEAR(F2CCell::getAngleDiffAbs(a, b), d, 0);
  g.nontrivial();
}

void avg(Gen& g) {
  const double a = ang(g), b = ang(g);
  g.note("avg ", a, " ", b);
  const double v = G::getAngleAvg(a, b);
  const double d = offTurn((long double)a - b);
  CHECK_NEAR(offTurn((long double)v - a), d / 2, tol(a, b), " avg(", a, ",", b,
      ")=", v);
  CHECK_NEAR(offTurn((long double)v - b), d / 2, tol(a, b), " avg(", a, ",", b,
      ")=", v);
  if (d < M_PI - 1e-6) {
    CHECK(offTurn((long double)v - G::getAngleAvg(b, a)) <= tol(a, b),
        " not symmetric");
  }
  if (d > 1e-6 && d < M_PI - 1e-6) {
    g.nontrivial();
    if (std::fabs(orc::angNorm(a) - orc::angNorm(b)) > M_PI) {
      g.label("across the wrap");
    }
  }
}

void unwrap(Gen& g) {
  const double p = ang(g);
  const double x = ang(g);
  g.note("unwrap ", p, " then ", x);
  const double r = G::getAngContinuity(p, x);
  CHECK(offTurn((long double)r - x) <= tol(p, x), " r=", r);
  CHECK(std::fabs(r - p) <= M_PI + tol(p, x), " p=", p, " x=", x, " r=", r);
  const size_t n = g.size(1, 12);
  std::vector<double> in;
  for (size_t i = 0; i < n; ++i) { in.push_back(ang(g)); }
  const std::vector<double> out = G::getAngContinuity(in);
  CHECK_EQ(out.size(), in.size());
  CHECK_NEAR(out[0], in[0], 0);
  for (size_t i = 0; i < n; ++i) {
    g.note("  ", in[i], " -> ", out[i]);
    CHECK(offTurn((long double)out[i] - in[i]) <= tol(in[i], out[i]) * 10);
    if (i) {
      CHECK(std::fabs(out[i] - out[i - 1]) <= M_PI + tol(in[i], out[i]) * 10,
          " step ", i, ": ", out[i - 1], " -> ", out[i]);
    }
  }
  // a slowly varying sequence is restored from its wrapped values
  std::vector<double> slow {orc::angNorm(p)}, wr {orc::angNorm(p)};
  for (size_t i = 1; i < n; ++i) {
    slow.push_back(slow.back() + g.uniform(-3, 3));
    wr.push_back(orc::angNorm(slow.back()));
  }
  const std::vector<double> re = G::getAngContinuity(wr);
  for (size_t i = 0; i < n; ++i) { CHECK_NEAR(re[i], slow[i], 1e-8); }
  if (n > 2) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C01",
    "angles: multiples of pi/12 and 1 deg, boundary +-1e-k, uniform over "
    "several turns, up to 1e6; non-trivial: wrapping needed, two distinct "
    "non-opposite angles, sequences of at least 3",
    {{"wrap", 600000, 6000000, wrap}, {"diff", 600000, 6000000, diff},
     {"avg", 600000, 6000000, avg}, {"unwrap", 300000, 3000000, unwrap}}};
  return p;
}
