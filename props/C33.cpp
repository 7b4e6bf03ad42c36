// C33: the whole plan covers the mainland and nothing else.
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <vector>
#include "fields2cover/decomposition/boustrophedon_decomp.h"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/headland_generator/constant_headland.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/path_planning.h"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/custom_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "pbt.hpp"
#include "buf.hpp"
#include "gens.hpp"

namespace {
using namespace orc;
using pbt::Gen;
using pbt::Property;
typedef f2c::types::PathSectionType Sec;

struct Conf {
  double w = 1, hl = 0, angle = 0, split = 0, step = 0.3;
  int decomp = 0, obj = -1, order = 0, variant = 0, spiral = 2;
  std::vector<size_t> custom;
};
struct Plan {
  F2CCells main, cells;
  F2CSwathsByCells sw, sorted;
  std::vector<double> angles;
};
std::unique_ptr<f2c::obj::SGObjective> objective(int k) {
  switch (k) {
    case 0: return std::make_unique<f2c::obj::NSwath>();
    case 1: return std::make_unique<f2c::obj::NSwathModified>();
    case 2: return std::make_unique<f2c::obj::SwathLength>();
    case 3: return std::make_unique<f2c::obj::FieldCoverage>();
    default: return std::make_unique<f2c::obj::Overlaps>();
  }
}
F2CSwaths order(const Conf& k, const F2CSwaths& s) {
  switch (k.order) {
    case 0: return f2c::rp::BoustrophedonOrder().genSortedSwaths(s, k.variant);
    case 1: return f2c::rp::SnakeOrder().genSortedSwaths(s, k.variant);
    case 2: return f2c::rp::SpiralOrder(k.spiral).genSortedSwaths(s, k.variant);
    default: {
      std::vector<size_t> o(s.size());
      for (size_t i = 0; i < o.size(); ++i) { o[i] = i; }
      std::reverse(o.begin(), o.end());
      if (o.size() > 3) { std::swap(o[1], o[o.size() - 2]); }
      return f2c::rp::CustomOrder(o).genSortedSwaths(s, k.variant);
    }
  }
}
Plan plan(const Conf& k, const F2CCells& field) {
  Plan p;
  f2c::hg::ConstHL hl;
  p.main = k.hl > 0 ? hl.generateHeadlands(field, k.hl) : field;
  p.cells = p.main;
  if (k.decomp == 1) {
    f2c::decomp::TrapezoidalDecomp d;
    d.setSplitAngle(k.split);
    p.cells = d.decompose(p.main);
  } else if (k.decomp == 2) {
    f2c::decomp::BoustrophedonDecomp d;
    d.setSplitAngle(k.split);
    p.cells = d.decompose(p.main);
  }
  f2c::sg::BruteForce bf;
  bf.setStepAngle(k.step);
  if (k.obj < 0) {
    p.sw = bf.generateSwaths(k.angle, k.w, p.cells);
  } else {
    auto o = objective(k.obj);
    p.sw = bf.generateBestSwaths(*o, k.w, p.cells);
  }
  for (auto&& s : p.sw) { p.sorted.emplace_back(order(k, s)); }
  return p;
}
Conf conf(Gen& g, const Multi& m) {
  Conf k;
  const double D = diam(m);
  k.w = D / g.uniform(6, 30);
  k.hl = g.chance(1, 4) ? 0 : k.w * g.pick(std::vector<double>{0.5, 1, 1.5, 2, 3});
  if (g.chance(1, 5)) { k.hl = g.uniform(0.3, 3) * k.w; }
  k.angle = g.angle(1);
  k.split = g.angle(1);
  k.decomp = static_cast<int>(g.below(3));
  k.obj = g.chance(1, 3) ? static_cast<int>(g.below(5)) : -1;
  k.step = g.pick(std::vector<double>{0.2, 0.35, 0.5});
  k.order = static_cast<int>(g.below(4));
  k.variant = static_cast<int>(g.below(4));
  k.spiral = static_cast<int>(g.integer(2, 5));
  static const char* on[] = {"boustrophedon", "snake", "spiral", "custom"};
  static const char* dn[] = {"none", "trapezoidal", "boustrophedon"};
  g.note("width ", k.w, " headland ", k.hl, " angle ", k.angle, " decomposition ",
      dn[k.decomp], " split ", k.split, " objective ", k.obj, " step ", k.step,
      " order ", on[k.order], " ", k.spiral, " variant ", k.variant);
  g.label(std::string("decomposition ") + dn[k.decomp]);
  g.label(std::string("order ") + on[k.order]);
  if (k.obj >= 0) { g.label("best angle"); }
  return k;
}
Multi region(Gen& g, size_t n) {
  ShapeOpt o;
  o.scale_lo = 8;
  o.big = 4;
  o.max_vertices = 9;
  const Multi m = g.chance(1, 4) ? Multi{latticePoly(g, 1 + static_cast<int>(g.below(6)))} :
    genMulti(g, n, o);
  pbt::discardIf(std::fabs(m[0].outer[0].x) > 1e5);
  return m;
}
struct Seg { V a, b; int id; double w; };
Seg seg(const F2CSwath& s) {
  return {fx::v(s.startPoint()), fx::v(s.endPoint()), s.getId(), s.getWidth()};
}
std::string str2(const V& p) {
  std::ostringstream o;
  o.precision(12);
  o << "(" << p.x << ", " << p.y << ")";
  return o.str();
}

void judgePlan(Gen& g, const Conf& k, const Multi& field, const Plan& p, size_t probes) {
  const double D = diam(field);
  const double tol = 1e-6 * (1 + D);
  const Multi cells = fx::multi(p.cells);
  const Multi main = fx::multi(p.main);
  CHECK_EQ(p.sw.size(), cells.size(), "groups of swaths");
  CHECK_EQ(p.sorted.size(), cells.size(), "sorted groups of swaths");
  std::vector<std::vector<Seg>> sw;
  std::vector<double> ang;
  size_t n = 0;
  for (size_t i = 0; i < cells.size(); ++i) {
    const F2CSwaths& s = p.sw[i];
    sw.emplace_back();
    double a = k.angle;
    double best = 0;
    for (auto&& x : s) {
      sw.back().push_back(seg(x));
      const Seg& q = sw.back().back();
      CHECK_NEAR(q.w, k.w, 1e-12 * k.w, "width of a swath");
      CHECK_EQ(fx::line(x.getPath()).size(), 2u, "points of a swath");
      if (k.obj >= 0 && dist(q.a, q.b) > best) {
        best = dist(q.a, q.b);
        a = std::atan2(q.b.y - q.a.y, q.b.x - q.a.x);
      }
    }
    n += s.size();
    ang.push_back(a);
    // -- in its cell, in the mainland, away from the border of the field
    for (auto&& q : sw[i]) {
      for (double t : {0.0, 0.02, 0.37, 0.5, 0.71, 1.0}) {
        const V c = q.a + (q.b - q.a) * t;
        CHECK(inside(c, cells[i]) || distBorder(c, cells[i]) < tol,
            " swath point ", str2(c), " is out of its cell ", i);
        CHECK(inside(c, main) || distBorder(c, main) < tol,
            " swath point ", str2(c), " is out of the mainland");
        CHECK(inside(c, field) || distBorder(c, field) < tol,
            " swath point ", str2(c), " is out of the field");
        CHECK(distBorder(c, field) >= k.hl * (1 - buf::kSlack) - tol,
            " swath point ", str2(c), " is ", distBorder(c, field),
            " from the border of the field, in the headland");
      }
    }
    // -- every swath once in the order
    const F2CSwaths& o = p.sorted[i];
    CHECK_EQ(o.size(), s.size(), "swaths in the order of cell ", i);
    std::vector<bool> used(s.size(), false);
    for (auto&& x : o) {
      const Seg q = seg(x);
      bool hit = false;
      for (size_t j = 0; j < sw[i].size() && !hit; ++j) {
        const Seg& r = sw[i][j];
        if (used[j] || r.id != q.id) { continue; }
        if ((dist(r.a, q.a) < 1e-9 * (1 + D) && dist(r.b, q.b) < 1e-9 * (1 + D)) ||
            (dist(r.a, q.b) < 1e-9 * (1 + D) && dist(r.b, q.a) < 1e-9 * (1 + D))) {
          used[j] = hit = true;
        }
      }
      CHECK(hit, " sorted swath ", q.id, " of cell ", i, " is none that is left");
    }
  }
  // -- what is covered
  size_t bare = 0, cov = 0, mid = 0;
  for (size_t c = 0; c < probes; ++c) {
    const V x = pointNear(g, field, 0.02);
    // the strips of all swaths
    bool covered = false, near = false;
    for (auto&& s : sw) {
      for (auto&& q : s) {
        const double d = distSeg(x, q.a, q.b);
        covered = covered || d <= k.w / 2 + tol;
        near = near || d < k.w / 2 - tol;
      }
    }
    if (!inside(x, main)) {
      if (distBorder(x, field) > tol && !inside(x, field)) {
        // outside the field: only the ends of strips may stick out
        if (near) {
          CHECK(distBorder(x, field) <= std::max(0.0, k.w / 2 - k.hl * (1 - buf::kSlack)) + tol,
              " strips reach ", distBorder(x, field), " out of the field at ", str2(x));
        }
      }
      continue;
    }
    if (distBorder(x, main) < tol) { continue; }
    ++mid;
    size_t own = 0, at = 0;
    bool edge = false;
    for (size_t i = 0; i < cells.size(); ++i) {
      if (distBorder(x, cells[i]) < 10 * tol) { edge = true; }
      if (inside(x, cells[i])) { ++own; at = i; }
    }
    if (edge) { continue; }
    CHECK_EQ(own, 1u, "cells that contain ", str2(x));
    if (covered) { ++cov; continue; }
    ++bare;
    // bare points see the border of their cell within half a width
    if (sw[at].empty()) {
      if (k.obj >= 0) { continue; }
    }
    CHECK(distBorder(x, cells[at]) <= k.w / 2 + tol, " mainland point ", str2(x), " of cell ",
        at, " is not covered, ", distBorder(x, cells[at]), " away from its border");
    // and the foot on the track of the pattern is out of the cell
    if (k.obj >= 0 || sw[at].empty()) { continue; }
    const Multi r = mapMulti(Multi{cells[at]}, [&](V p) { return rot(p, -k.angle); });
    const Box b = box(r);
    const V z = rot(x, -k.angle);
    const double t = (z.y - b.y0) / k.w;
    if (std::fabs(t - std::round(t)) * k.w < 10 * tol) { continue; }
    const V foot = rot(V(z.x, b.y0 + (std::floor(t) + 0.5) * k.w), k.angle);
    CHECK(!inside(foot, cells[at]) || distBorder(foot, cells[at]) < 10 * tol,
        " mainland point ", str2(x), " is not covered from its track at ", str2(foot));
  }
  if (n == 0) { g.label("no swaths"); }
  if (bare) { g.label("bare border strips"); }
  if (n >= 3 && cov > 5) { g.nontrivial(); }
  g.label("cells-" + std::to_string(std::min<size_t>(cells.size(), 8)));
  (void)mid;
}

void whole(Gen& g) {
  const Multi m0 = region(g, 2);
  g.note("field ", str(m0));
  const F2CCells f = fx::cells(m0);
  const Multi m = fx::multi(f);
  const Conf k = conf(g, m);
  buf::guard(g, m, k.hl > 0 ? std::vector<double>{-k.hl} : std::vector<double>(), [&] {
    const gn::Snap b = gn::snapOf(f);
    const Plan p = plan(k, f);
    std::string why;
    CHECK(gn::same(b, gn::snapOf(f), 0, &why), " the field changed: ", why);
    judgePlan(g, k, m, p, 120);
  });
}
// The plan moves with the field.
void moved(Gen& g) {
  const Multi m0 = region(g, 1);
  g.note("field ", str(m0));
  const F2CCells f = fx::cells(m0);
  const Multi m = fx::multi(f);
  Conf k = conf(g, m);
  k.decomp = 0;
  k.obj = -1;
  const double t = g.angle(1);
  const V o(g.real(-500, 500), g.real(-500, 500));
  g.note("turned ", t, " moved ", o.x, " ", o.y);
  Conf k2 = k;
  k2.angle = k.angle + t;
  const F2CCells f2 = fx::cells(mapMulti(m, [&](V p) { return rot(p, t) + o; }));
  buf::guard(g, m, k.hl > 0 ? std::vector<double>{-k.hl} : std::vector<double>(), [&] {
    const Plan p = plan(k, f), q = plan(k2, f2);
    const Multi a = fx::multi(p.cells), b = fx::multi(q.cells);
    const double tol = 1e-5 * (1 + diam(m)) + (k.hl > 0 ? 1e-4 * k.hl : 0);
    if (std::fabs(area(a) - area(b)) > tol * diam(m)) {
      // the simplified corners of headlands may differ a little; and GEOS may
      // be too coarse for one of the two
      const double gap = std::fabs(area(a) - area(b));
      if (k.hl > 0 && gap > 0.03 * k.hl * diam(m) * 8) {
        const double e = std::fabs(area(buf::engine(m, -k.hl)) -
            area(buf::engine(fx::multi(f2), -k.hl)));
        if (e > 0.5 * gap) {
          g.label("GEOS offset too coarse");
          throw pbt::Discard();
        }
      }
      CHECK(std::fabs(area(a) - area(b)) <= 0.03 * k.hl * diam(m) * 8,
          " mainland of ", area(a), " and ", area(b));
      g.label("corner simplified");
      throw pbt::Discard();
    }
    pbt::discardIf(a.size() != b.size());
    for (auto&& c : a) {
      const Multi z = mapMulti(Multi{c}, [&](V v) { return rot(v, -k.angle); });
      const Box bx = box(z);
      for (size_t i = 0; (i + 0.5) * k.w < bx.y1 - bx.y0 + 100 * tol; ++i) {
        pbt::discardIf(chords(z, bx.y0 + (i + 0.5) * k.w).clear < 100 * tol);
      }
      pbt::discardIf(std::fabs(std::remainder(bx.y1 - bx.y0, k.w)) < 100 * tol);
    }
    // match the cells
    std::vector<size_t> to(a.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) {
      double best = INFINITY;
      for (size_t j = 0; j < b.size(); ++j) {
        double d = std::fabs(area(a[i]) - area(b[j]));
        double far = 0;
        for (auto&& v : a[i].outer) { far = std::max(far, distBorder(rot(v, t) + o, b[j].outer)); }
        if (d + far < best) { best = d + far; to[i] = j; }
      }
      pbt::discardIf(best > tol * diam(m));
    }
    bool ride = g.chance(1, 4);
    for (size_t i = 0; i < a.size(); ++i) {
      const F2CSwaths& s = p.sorted[i];
      const F2CSwaths& u = q.sorted[to[i]];
      CHECK_EQ(s.size(), u.size(), "swaths of the moved cell");
      bool same = true, flip = true;
      bool tie = false;   // several chords on one track may be numbered otherwise
      for (size_t j = 0; j < s.size(); ++j) {
        const Seg x = seg(s[j]), y = seg(u[j]);
        const V ma = rot(x.a, t) + o, mb = rot(x.b, t) + o;
        same = same && dist(ma, y.a) < 100 * tol && dist(mb, y.b) < 100 * tol;
        flip = flip && dist(ma, y.b) < 100 * tol && dist(mb, y.a) < 100 * tol;
        if (!same && !flip) {
          // the same track?
          const V n = rot(V(0, 1), k2.angle);
          CHECK(std::fabs(dot(ma - y.a, n)) < 100 * tol, " swath ", j,
              " of the order is elsewhere after the move: ", str2(ma), " ", str2(mb),
              " became ", str2(y.a), " ", str2(y.b));
          tie = true;
        }
      }
      if (tie) { g.label("tracks with several chords"); continue; }
      CHECK(same || flip, " the directions of the order changed");
      if (s.size() > 2) { g.nontrivial(); }
      if (!same || s.size() == 0 || s.size() > 12 || !ride) { g.label("turned round"); continue; }
      f2c::pp::DubinsCurves d1, d2;
      F2CRobot r(k.w);
      r.setMaxCurv(1.0 / (k.w * 0.4));
      const F2CPath p1 = f2c::pp::PathPlanning::planPath(r, s, d1);
      const F2CPath p2 = f2c::pp::PathPlanning::planPath(r, u, d2);
      // turns of equal length may be taken to either side
      const double L = p1.length();
      CHECK(std::fabs(L - p2.length()) < 1e-3 * L + 0.005 * s.size() + 100 * tol * s.size(),
          " path of ", L, " becomes ", p2.length());
      V e1 = rot(fx::v(p1.atEnd()), t) + o, e2 = fx::v(p2.atEnd());
      CHECK(dist(e1, e2) < 200 * tol, " path ends at ", str2(e1), " or ", str2(e2));
      ride = false;
      g.label("paths");
    }
  });
}
// The path of the plan works every swath and nothing else.
void driven(Gen& g) {
  const Multi m0 = region(g, 1);
  g.note("field ", str(m0));
  const F2CCells f = fx::cells(m0);
  const Multi m = fx::multi(f);
  Conf k = conf(g, m);
  if (k.w < diam(m) / 15) {
    k.w *= 2;
    k.hl = std::min(k.hl, k.w);
    g.note("width ", k.w, " headland ", k.hl);
  }
  buf::guard(g, m, k.hl > 0 ? std::vector<double>{-k.hl} : std::vector<double>(), [&] {
    const Plan p = plan(k, f);
    const Multi main = fx::multi(p.main);
    F2CRobot r(k.w);
    r.setMaxCurv(1.0 / (k.w * g.uniform(0.3, 1.5)));
    f2c::pp::DubinsCurves dub;
    const double tol = 1e-5 * (1 + diam(m));
    bool done = false;
    for (size_t i = 0; i < p.sorted.size(); ++i) {
      const F2CSwaths& s = p.sorted[i];
      if (s.size() == 0 || s.size() > 16 || done) { continue; }
      if (s.size() > 2) { done = true; }
      for (auto&& x : s) { pbt::discardIf(x.length() < 1e-3); }
      const F2CPath path = f2c::pp::PathPlanning::planPath(r, s, dub);
      // its working stretches, in order, are the swaths
      std::vector<Seg> work;
      const auto& st = path.getStates();
      double len = 0;
      for (size_t j = 0; j < st.size(); ++j) {
        if (st[j].type != Sec::SWATH) { continue; }
        const V a = fx::v(st[j].point);
        const V b = a + V(std::cos(st[j].angle), std::sin(st[j].angle)) * st[j].len;
        len += st[j].len;
        if (!work.empty() && dist(work.back().b, a) < tol && j > 0 && st[j - 1].type == Sec::SWATH) {
          work.back().b = b;
        } else {
          work.push_back({a, b, 0, 0});
        }
      }
      double want = 0;
      for (auto&& x : s) { want += x.length(); }
      CHECK_NEAR(len, want, tol * s.size(), "worked length");
      CHECK_EQ(work.size(), s.size(), "working stretches");
      for (size_t j = 0; j < s.size(); ++j) {
        const Seg x = seg(s[j]);
        CHECK(dist(x.a, work[j].a) < tol && dist(x.b, work[j].b) < tol, " stretch ", j,
            " goes from ", str2(work[j].a), " to ", str2(work[j].b), ", the swath from ",
            str2(x.a), " to ", str2(x.b));
        const V c = (work[j].a + work[j].b) * 0.5;
        CHECK(inside(c, main) || distBorder(c, main) < tol, " work outside of the mainland");
      }
      if (s.size() > 2) { g.nontrivial(); }
    }
  });
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C33",
    "fields of one or two cells with holes, headlands of 0 to 3 widths, no, "
    "trapezoidal or boustrophedon decomposition, a given or the best angle for "
    "five objectives, four orders with their variants; non-trivial: at least "
    "three swaths (and covered probes)",
    {{"whole", 1600, 20000, whole}, {"moved", 1000, 10000, moved},
     {"driven", 300, 4000, driven}}};
  return p;
}
