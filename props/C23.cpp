// C23 robot parameters are kept consistent.
#include "gens.hpp"
using namespace pbt;
namespace {
struct Model {
  std::string name;
  double w = 0, cov = 0, v = 1, curv = 1, dcurv = 0.3;
  bool turn = false;
  double tv = 0;
};
bool close(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a)); }
void same(const F2CRobot& r, const Model& m, const std::string& after) {
  CHECK_EQ(r.getName(), m.name, "name after ", after);
  CHECK_EQ(r.getWidth(), m.w, "width after ", after);
  CHECK_EQ(r.getCovWidth(), m.cov, "coverage width after ", after);
  CHECK_EQ(r.getCruiseVel(), m.v, "speed after ", after);
  CHECK_EQ(r.getTurnVel(), m.turn ? m.tv : m.v, "turning speed after ", after);
  CHECK_EQ(r.getMaxDiffCurv(), m.dcurv, "curvature change after ", after);
  // A tiny number keeps the inverse of zero finite.
  CHECK_NEAR(r.getMaxCurv(), m.curv, 1e-12 * (1 + m.curv), "curvature after ", after);
  const double R = r.getMinTurningRadius();
  CHECK(R > 0, " turning radius ", R, " after ", after);
  CHECK_NEAR(1 / R, r.getMaxCurv(), 2e-7 + 1e-9 * m.curv,
      "inverse of the turning radius ", R, " after ", after);
}
double pos(Gen& g) {
  switch (g.weighted({6, 1, 1})) {
    case 0: return g.real(0.05, 20);
    case 1: return g.logReal(1e-3, 1e4);
    default: return (double)g.integer(1, 30);
  }
}
// Also of almost straight driving.
double curvature(Gen& g) { return g.chance(1, 3) ? g.logReal(1e-6, 1e6) : pos(g); }
void history(Gen& g) {
  Model m;
  F2CRobot r;
  switch (g.below(3)) {
    case 0: break;
    case 1: {
      m.w = pos(g);
      if (g.boolean()) {
        r = F2CRobot(m.w);
        m.cov = m.w;
      } else {
        m.cov = g.chance(1, 4) ? 0 : pos(g);
        r = F2CRobot(m.w, m.cov);
        if (m.cov == 0) { m.cov = m.w; }
      }
      break;
    }
    default: {
      m.w = pos(g);
      m.cov = g.chance(1, 4) ? 0 : pos(g);
      m.curv = curvature(g);
      m.dcurv = pos(g);
      const double s1 = g.chance(1, 4) ? -1 : 1, s2 = g.chance(1, 4) ? -1 : 1;
      if (g.boolean()) {
        r = F2CRobot(m.w, m.cov, s1 * m.curv, s2 * m.dcurv);
      } else {
        r = F2CRobot(m.w, m.cov, s1 * m.curv);
        m.dcurv = 0.3;
      }
      if (m.cov == 0) { m.cov = m.w; }
    }
  }
  same(r, m, "construction");
  bool curv = false, radius = false;
  std::vector<std::pair<F2CRobot, Model>> old;
  for (size_t k = g.size(1, 12); k-- > 0;) {
    std::ostringstream o;
    const size_t what = g.below(10);
    const double x = what == 5 || what == 6 ? curvature(g) : pos(g);
    switch (what) {
      case 0: m.name = gn::word(g); r.setName(m.name); o << "setName"; break;
      case 1: m.w = x; r.setWidth(x); o << "setWidth " << x; break;
      case 2: m.cov = x; r.setCovWidth(x); o << "setCovWidth " << x; break;
      case 3: m.v = x; r.setCruiseVel(x); o << "setCruiseVel " << x; break;
      case 4: m.turn = true; m.tv = x; r.setTurnVel(x); o << "setTurnVel " << x; break;
      case 5: {
        const double y = g.chance(1, 5) ? -x : x;
        m.curv = x;
        r.setMaxCurv(y);
        o << "setMaxCurv " << y;
        curv = true;
        break;
      }
      case 6: {
        const double y = g.chance(1, 5) ? -x : x;
        r.setMinTurningRadius(y);
        m.curv = 1 / (x + 1e-7);
        o << "setMinTurningRadius " << y;
        CHECK_NEAR(r.getMinTurningRadius(), x, 1e-6 + 2e-7 * x * x, "radius just set");
        // (the small number may differ, but not the value)
        CHECK_NEAR(r.getMaxCurv() * x, 1.0, 2e-7 / x + 2e-7 * x, "curvature of the radius");
        m.curv = r.getMaxCurv();
        radius = true;
        break;
      }
      case 7: {
        const double y = g.chance(1, 5) ? -x : x;
        m.dcurv = x;
        r.setMaxDiffCurv(y);
        o << "setMaxDiffCurv " << y;
        break;
      }
      case 8: old.emplace_back(r, m); o << "copy"; break;
      default: {
        F2CRobot q;
        q = r;
        r = F2CRobot(q);
        o << "assignment";
      }
    }
    g.note(o.str());
    same(r, m, o.str());
    for (auto&& q : old) { same(q.first, q.second, "copy taken before " + o.str()); }
  }
  if (curv && radius) { g.nontrivial(); }
}
void rejected(Gen& g) {
  F2CRobot r(2.0, 3.0, 0.5, 0.2);
  const gn::Snap before = gn::snapOf(r);
  const double w = g.chance(1, 3) ? 0 : -pos(g), c = -pos(g), ok = pos(g);
  g.note("width ", w, " coverage ", c);
  CHECK_THROWS(r = F2CRobot(w), "width ", w);
  CHECK_THROWS(r = F2CRobot(w, ok), "width ", w);
  CHECK_THROWS(r = F2CRobot(ok, c), "coverage width ", c);
  CHECK_THROWS(r = F2CRobot(w, c, ok, ok), "widths ", w, " ", c);
  CHECK_THROWS(r = F2CRobot(ok, c, ok, ok), "coverage width ", c);
  std::string why;
  CHECK(gn::same(before, gn::snapOf(r), 0, &why), " half set: ", why);
  g.nontrivial();
}
}  // namespace
Property& pbt::theProperty() {
  static Property p{"C23",
    "histories of setters; non-trivial: curvature and turning radius were both "
    "set; widths that are no widths",
    {{"history", 30000, 400000, history}, {"rejected", 3000, 20000, rejected}}};
  return p;
}
