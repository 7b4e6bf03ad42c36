// C35: planning in one call is the composition of the steps its options name.
#include <algorithm>
#include <cmath>
#include <memory>
#include <vector>
#include "fields2cover.h"
#include "pbt.hpp"
#include "buf.hpp"
#include "gens.hpp"

namespace {
using namespace orc;
using pbt::Gen;
using pbt::Property;

f2c::Options options(Gen& g) {
  f2c::Options o;
  if (g.chance(1, 8)) { g.note("options: default"); return o; }
  o.hg_alg = g.chance(1, 4) ? f2c::HGAlg::NONE : f2c::HGAlg::CONST;
  o.hg_swaths = static_cast<int>(g.weighted({1, 2, 2, 2, 1}));
  o.sg_alg = g.chance(1, 3) ? f2c::SGAlg::BRUTE_FORCE : f2c::SGAlg::GIVEN_ANGLE;
  o.sg_obj = g.pick(std::vector<f2c::SGObjFunc>{f2c::SGObjFunc::N_SWATH_MOD,
      f2c::SGObjFunc::N_SWATH, f2c::SGObjFunc::SWATH_LENGTH,
      f2c::SGObjFunc::FIELD_COV, f2c::SGObjFunc::OVERLAPS});
  o.sg_angle = g.angle(1);
  o.pp_alg = g.pick(std::vector<f2c::PPAlg>{f2c::PPAlg::DUBINS, f2c::PPAlg::DUBINS_CC,
      f2c::PPAlg::REEDS_SHEPP, f2c::PPAlg::REEDS_SHEPP_HC});
  g.note("headland ", static_cast<int>(o.hg_alg), " ", o.hg_swaths, " swaths ",
      static_cast<int>(o.sg_alg), " objective ", static_cast<int>(o.sg_obj),
      " angle ", o.sg_angle, " turns ", static_cast<int>(o.pp_alg));
  g.label(o.hg_alg == f2c::HGAlg::NONE ? "no headlands" : "headlands-" + std::to_string(o.hg_swaths));
  g.label(o.sg_alg == f2c::SGAlg::BRUTE_FORCE ? "objective-" +
      std::to_string(static_cast<int>(o.sg_obj)) : "given angle");
  return o;
}
F2CRobot robot(Gen& g, double size) {
  const double cov = size / g.uniform(1.5, 5);
  const double width = g.chance(1, 6) ? cov : cov * g.uniform(0.03, 0.4);
  F2CRobot r(width, cov);
  r.setTurnVel(g.pick(std::vector<double>{0.5, 1, 2}));
  r.setCruiseVel(g.pick(std::vector<double>{1, 2.5}));
  r.setMinTurningRadius(width * g.uniform(0.2, 2));
  r.setMaxDiffCurv(r.getMaxCurv() / (r.getMinTurningRadius() * g.uniform(0.2, 1)));
  g.note("robot ", width, " covers ", cov, " radius ", r.getMinTurningRadius());
  return r;
}
Multi region(Gen& g) {
  ShapeOpt o;
  o.scale_lo = 8;
  o.big = 4;
  o.max_vertices = 7;
  const Multi m = g.chance(1, 3) ? Multi{latticePoly(g, 1 + static_cast<int>(g.below(4)))} :
    genMulti(g, g.chance(1, 5) ? 2 : 1, o);
  pbt::discardIf(std::fabs(m[0].outer[0].x) > 1e5);
  return m;
}
std::unique_ptr<f2c::obj::SGObjective> objective(f2c::SGObjFunc f) {
  if (f == f2c::SGObjFunc::N_SWATH_MOD) { return std::make_unique<f2c::obj::NSwathModified>(); }
  if (f == f2c::SGObjFunc::N_SWATH) { return std::make_unique<f2c::obj::NSwath>(); }
  if (f == f2c::SGObjFunc::SWATH_LENGTH) { return std::make_unique<f2c::obj::SwathLength>(); }
  if (f == f2c::SGObjFunc::FIELD_COV) { return std::make_unique<f2c::obj::FieldCoverage>(); }
  return std::make_unique<f2c::obj::Overlaps>();
}
std::unique_ptr<f2c::pp::TurningBase> turns(f2c::PPAlg a) {
  if (a == f2c::PPAlg::DUBINS) { return std::make_unique<f2c::pp::DubinsCurves>(); }
  if (a == f2c::PPAlg::DUBINS_CC) { return std::make_unique<f2c::pp::DubinsCurvesCC>(); }
  if (a == f2c::PPAlg::REEDS_SHEPP) { return std::make_unique<f2c::pp::ReedsSheppCurves>(); }
  return std::make_unique<f2c::pp::ReedsSheppCurvesHC>();
}
struct Steps {
  F2CCells main, rings;
  F2CSwathsByCells swaths;
  F2CRoute route;
};
// The steps by hand.
Steps steps(const F2CRobot& r, const F2CCells& cells, const f2c::Options& o) {
  Steps s;
  s.main = cells;
  s.rings = cells;
  if (o.hg_alg == f2c::HGAlg::CONST) {
    f2c::hg::ConstHL hl;
    s.main = hl.generateHeadlands(cells, o.hg_swaths * r.getWidth());
    if (o.hg_swaths > 0) {
      s.rings = hl.generateHeadlandSwaths(cells, r.getWidth(), o.hg_swaths)[o.hg_swaths / 2];
    }
  }
  f2c::sg::BruteForce bf;
  if (o.sg_alg == f2c::SGAlg::GIVEN_ANGLE) {
    s.swaths = bf.generateSwaths(o.sg_angle, r.getCovWidth(), s.main);
  } else {
    auto ob = objective(o.sg_obj);
    s.swaths = bf.generateBestSwaths(*ob, r.getCovWidth(), s.main);
  }
  pbt::discardIf(s.swaths.sizeTotal() > 12);
  f2c::rp::RoutePlannerBase rp;
  s.route = rp.genRoute(s.rings, s.swaths);
  return s;
}
template <class T> void same(const T& a, const T& b, const char* what, double tol = 0) {
  std::string why;
  CHECK(gn::same(gn::snapOf(a), gn::snapOf(b), tol, &why), " ", what, ": ", why);
}
// Swaths of the mainland are worked once, whatever the route.
void judge(const Steps& s, const F2CRoute& r, const F2CRobot& rob) {
  size_t n = 0;
  for (auto&& v : r.getVectorSwaths()) { n += v.size(); }
  CHECK_EQ(n, s.swaths.sizeTotal(), "swaths of the route");
  const Multi main = fx::multi(s.main);
  const double tol = main.empty() ? 0 : 1e-6 * (1 + diam(main));
  for (auto&& v : r.getVectorSwaths()) {
    for (auto&& w : v) {
      CHECK_EQ(w.getWidth(), rob.getCovWidth(), "width of a swath");
      const V m = fx::v((w.startPoint() + w.endPoint()) * 0.5);
      CHECK(inside(m, main) || distBorder(m, main) < tol, " swath out of the mainland");
    }
  }
}
// GEOS may reject what it made itself; both sides must then agree.
template <class F, class H> bool both(const F& f, const H& h) {
  bool a = true, b = true;
  std::string why;
  try { f(); } catch (const pbt::Discard&) { throw; } catch (const std::exception& e) { a = false; why = e.what(); }
  try { h(); } catch (const pbt::Discard&) { throw; } catch (const std::exception& e) { b = false; why = e.what(); }
  CHECK(a == b, " one of the ways reports an error: ", why);
  return a;
}
void routes(Gen& g) {
  const Multi m = region(g);
  g.note("field ", str(m));
  const F2CCells c = fx::cells(m);
  const F2CRobot r = robot(g, std::sqrt(std::fabs(area(m))));
  const f2c::Options o = options(g);
  const gn::Snap before = gn::snapOf(c), rb = gn::snapOf(r);
  F2CRoute route;
  Steps s;
  if (!both([&] { s = steps(r, c, o); }, [&] { route = f2c::planCovRoute(r, c, o); })) {
    g.label("error");
    return;
  }
  std::string why;
  CHECK(gn::same(before, gn::snapOf(c), 0, &why), " the cells changed: ", why);
  CHECK(gn::same(rb, gn::snapOf(r), 0, &why), " the robot changed: ", why);
  same(s.route, route, "route in one call");
  judge(s, route, r);
  if (c.size() == 1) {
    same(s.route, f2c::planCovRoute(r, c.getCell(0), o), "route of the cell");
    g.label("one cell");
  }
  if (g.chance(1, 6) && s.swaths.sizeTotal() <= 6) {
    F2CField f(c);
    same(f2c::planCovRoute(r, f.getField(), o), f2c::planCovRoute(r, f, o),
        "route of the field");
    same(f2c::planCovRoute(r, f, o), f2c::planCovRoute(r, f, o, true), "route in the plane");
    same(f2c::planCovRoute(r, f, true), f2c::planCovRoute(r, f, f2c::Options(), true),
        "route with default options");
  }
  if (s.swaths.sizeTotal() >= 2) { g.nontrivial(); }
  g.label("swaths-" + std::to_string(std::min<size_t>(8, s.swaths.sizeTotal() / 3)));
}
void paths(Gen& g) {
  const Multi m0 = region(g);
  // paths have a state every centimetre
  const Box b = box(m0);
  const double k = g.uniform(3, 15) / diam(m0);
  const Multi m = mapMulti(m0, [&](V v) { return V((v.x - b.x0) * k, (v.y - b.y0) * k); });
  g.note("field ", str(m));
  const F2CCells c = fx::cells(m);
  const F2CRobot r = robot(g, std::sqrt(std::fabs(area(m))));
  const f2c::Options o = options(g);
  F2CPath p, q;
  Steps s;
  if (!both([&] { s = steps(r, c, o); p = f2c::pp::PathPlanning::planPath(r, s.route, *turns(o.pp_alg)); },
      [&] { q = f2c::planCovPath(r, c, o); })) {
    g.label("error");
    return;
  }
  same(p, q, "path in one call");
  if (c.size() == 1) { same(p, f2c::planCovPath(r, c.getCell(0), o), "path of the cell"); }
  if (g.chance(1, 6) && s.swaths.sizeTotal() <= 6) {
    F2CField f(c);
    same(f2c::planCovPath(r, f.getField(), o), f2c::planCovPath(r, f, o), "path of the field");
    same(f2c::planCovPath(r, f, true), f2c::planCovPath(r, f, f2c::Options()), "path with default options");
  }
  g.label("turns-" + std::to_string(static_cast<int>(o.pp_alg)));
  if (s.swaths.sizeTotal() >= 2) { g.nontrivial(); }
}
// Fields of the globe are planned in their UTM zone.
void globe(Gen& g) {
  const Multi m0 = region(g);
  // 20 m to 500 m wide, somewhere on the ground
  const Box b = box(m0);
  const double size = g.chance(1, 4) ? g.uniform(20, 500) : g.uniform(20, 40);
  const double k = size / std::max(b.x1 - b.x0, b.y1 - b.y0);
  const double lon = -180 + 6.0 * g.integer(1, 59) + g.uniform(-2.5, 2.5) + (g.chance(1, 8) ? 0 : 3);
  const double lat = g.uniform(5, 75) * (g.boolean() ? 1 : -1);
  pbt::discardIf(std::fabs(lon) > 179.5);
  const double R = 6371000, D = M_PI / 180;
  const Multi m = mapMulti(m0, [&](V v) {
    return V(lon + (v.x - b.x0) * k / (R * D * std::cos(lat * D)), lat + (v.y - b.y0) * k / (R * D)); });
  g.note("field ", str(m));
  F2CField f(fx::cells(m), "globe");
  const std::string crs = g.pick(std::vector<std::string>{"EPSG:4326", "EPSG:4326", "", "EPSG:4258"});
  f.setCRS(crs);
  // A field that is in UTM, with what it was in before, comes back in UTM.
  const bool utm = g.chance(1, 5);
  if (utm) {
    f2c::Transform::transformToUTM(f);
    g.label("utm-field");
  }
  const F2CRobot r = robot(g, std::sqrt(std::fabs(area(m0))) * k);
  const f2c::Options o = options(g);
  const bool path = size < 40 && g.chance(1, 4);
  const gn::Snap before = gn::snapOf(f);
  F2CField u = f.clone();
  Steps s;
  F2CRoute want, got;
  F2CPath pw, pg;
  std::string why;
  const bool ok = both([&] {
    f2c::Transform::transformToUTM(u);
    s = steps(r, u.getField(), o);
    if (path) {
      pw = f2c::Transform::transformToPrevCRS(
          f2c::pp::PathPlanning::planPath(r, s.route, *turns(o.pp_alg)), u);
    } else {
      want = f2c::Transform::transformToPrevCRS(s.route, u);
    }
  }, [&] {
    if (path) { pg = f2c::planCovPath(r, f, o, false); } else { got = f2c::planCovRoute(r, f, o, false); }
  });
  CHECK(gn::same(before, gn::snapOf(f), 0, &why), " the field changed: ", why);
  if (!ok) { g.label("error"); return; }
  g.label(path ? "path" : "route");
  if (path) {
    same(pw, pg, "path of the field on the globe");
  } else {
    same(want, got, "route of the field on the globe");
    judge(s, s.route, r);
    // the result is on the field again, in degrees
    const Multi a = fx::multi(f.getCellsAbsPosition());
    const double tol = 30.0 * (1 + r.getCovWidth() + size * 1e-3) / (utm ? 1.0 : R * D * std::cos(lat * D));
    for (auto&& v : got.getVectorSwaths()) {
      for (auto&& w : v) {
        const V x = fx::v((w.startPoint() + w.endPoint()) * 0.5);
        const Box ab = box(a);
        CHECK(x.x > ab.x0 - tol && x.x < ab.x1 + tol && x.y > ab.y0 - tol && x.y < ab.y1 + tol,
            " swath of the route at ", x.x, " ", x.y);
      }
    }
    if (g.chance(1, 8) && s.swaths.sizeTotal() <= 6) {
      bool same_default = true;
      F2CRoute d1, d2;
      try { d1 = f2c::planCovRoute(r, f, false); } catch (const std::exception&) { same_default = false; }
      if (same_default) {
        d2 = f2c::planCovRoute(r, f, f2c::Options(), false);
        same(d1, d2, "route with default options");
      }
    }
  }
  if (s.swaths.sizeTotal() >= 2) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C35",
    "fields of one or two parts, robots that need 1.5 to 5 widths to cross them, every option; "
    "non-trivial when at least two swaths are planned",
    {{"routes", 300, 6000, routes},
     {"paths", 180, 4000, paths},
     {"globe", 140, 3000, globe}}};
  return p;
}
