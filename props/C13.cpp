// C13 generated swaths are the complete set of parallel tracks.
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "gens.hpp"
#include "lines.hpp"
using namespace pbt;
using namespace orc;
namespace {
struct In { Multi m; F2CCells c; double w, a; };
// Field, width and angle; often such that tracks run along sides or vertices.
In input(Gen& g, size_t cells) {
  In r;
  ShapeOpt o;
  o.scale_lo = 8;
  o.big = 12;
  o.max_holes = 6;
  Multi m = g.chance(1, 3) ? Multi{latticePoly(g, 1 + (int)g.below(6))} :
    genMulti(g, cells, o);
  r.c = fx::cells(m);
  r.m = fx::multi(r.c);
  r.a = g.angle(1);
  if (g.chance(1, 3)) {
    const Poly& q = g.pick(r.m);
    const size_t i = g.below(q.outer.size());
    const V d = q.outer[(i + 1) % q.outer.size()] - q.outer[i];
    r.a = std::atan2(d.y, d.x) + (g.boolean() ? 0 : M_PI_2);
    g.label("along a side");
  }
  const Box b = box(mapMulti(Multi{r.m[0]}, [&] (V p) {
    return rot(p, -r.a); }));
  const double H = b.y1 - b.y0;
  switch (g.weighted({4, 3, 3, 1})) {
    case 0: r.w = g.uniform(H / 25, H * 1.2); break;
    case 1: r.w = H / (double)g.integer(1, 20);
            g.label("width divides the height"); break;
    case 2: r.w = (double)g.integer(1, 12) * 0.5;
            if (r.w < H / 60) { r.w = H / 60; } break;
    default: r.w = H * g.uniform(1, 4); g.label("wider than the field");
  }
  if (g.chance(1, 6)) { r.w = 2 * H / (double)(2 * g.integer(0, 9) + 1);
    g.label("last track on the far side"); }
  g.note("width ", r.w, " angle ", r.a, " on ", str(r.m));
  return r;
}
// One swath of a track, in the frame where tracks are horizontal.
struct Got { V a, b; };
void checkCell(Gen& g, const Multi& m, const F2CCell& c, double w, double a,
    const F2CSwaths& s, size_t* tracks, bool* several) {
  double big = 1;
  for (auto&& p : m[0].outer) {
    big = std::max(big, std::max(std::fabs(p.x), std::fabs(p.y)));
  }
  const double tol = 1e-7 + 1e-13 * big + 1e-10 * diam(m) +
    1e-14 * big * diam(m);   // crossing at a shallow angle, see below
  const Multi r = mapMulti(m, [&] (V p) { return rot(p, -a); });
  const Box b = box(r);
  std::vector<std::vector<Got>> by;
  size_t last = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    const F2CSwath& x = s[i];
    CHECK_EQ(x.getId(), (int)i, "id");
    CHECK_EQ(x.getWidth(), w, "width of swath ", i);
    CHECK(x.getType() == f2c::types::SwathType::MAINLAND, " swath type");
    const auto l = fx::line(x.getPath());
    CHECK_EQ(l.size(), 2u, "points of swath ", i);
    const V p = rot(l[0], -a), q = rot(l[1], -a);
    CHECK_NEAR(p.y, q.y, tol, "the swath is not along the angle");
    if (dist(p, q) > 1e-3) { CHECK(q.x > p.x, " the swath runs backwards"); }
    const double k = (0.5 * (p.y + q.y) - b.y0) / w - 0.5;
    const double n = std::round(k);
    CHECK(n >= 0 && std::fabs(k - n) * w < tol, " swath ", i, " is at ",
        p.y - b.y0, " from the edge, not on a track of width ", w);
    const size_t t = (size_t)n;
    CHECK(t >= last, " swath ", i, " is out of order");
    last = t;
    if (by.size() <= t) { by.resize(t + 1); }
    by[t].push_back({p, q});
  }
  const double H = b.y1 - b.y0;
  for (size_t k = 0; (k + 0.5) * w < H - tol || k < by.size(); ++k) {
    const double y = b.y0 + (k + 0.5) * w;
    const auto got = k < by.size() ? by[k] : std::vector<Got>();
    const Chords ch = chords(r, y);
    double shallow = 1e300;   // end points move by tol / slope
    auto scan = [&] (const Ring& q) {
      for (size_t i = 0; i < q.size(); ++i) {
        const V u = q[i], v = q[(i + 1) % q.size()];
        if ((u.y > y) != (v.y > y)) {
          shallow = std::min(shallow, std::fabs(u.y - v.y) / dist(u, v));
        }
      }
    };
    for (auto&& q : r) { scan(q.outer); for (auto&& h : q.holes) { scan(h); } }
    if (ch.clear > 100 * tol && shallow > 1e-3) {
      CHECK_EQ(got.size(), ch.segs.size(), "swaths on track ", k);
      std::vector<std::pair<double, double>> e;
      for (auto&& x : got) { e.emplace_back(x.a.x, x.b.x); }
      std::sort(e.begin(), e.end());
      for (size_t i = 0; i < e.size(); ++i) {
        CHECK_NEAR(e[i].first, ch.segs[i].first, tol / shallow * 2,
            "start of chord ", i, " on track ", k);
        CHECK_NEAR(e[i].second, ch.segs[i].second, tol / shallow * 2,
            "end of chord ", i, " on track ", k);
      }
      if (ch.segs.size() > 1) { *several = true; }
    } else {   // runs along a vertex or side: nothing missing, nothing outside
      g.label("track on a vertex");
      const V d = rot(V(1, 0), a) * (2 * diam(m) + 1);
      const V mid = rot(V(0.5 * (b.x0 + b.x1), y), a);
      std::vector<std::vector<V>> lines;
      for (auto&& x : got) { lines.push_back({rot(x.a, a), rot(x.b, a)}); }
      OGRLineString seed;
      seed.addPoint(mid.x - d.x, mid.y - d.y);
      seed.addPoint(mid.x + d.x, mid.y + d.y);
      ln::judge(g, lines, &seed, c.get(), false,
        [&] (Gen&, const std::vector<std::vector<V>>& ls) {
          ln::checkClip({mid - d, mid + d}, m, ls, false, false);
          for (size_t i = 0; i < ls.size(); ++i) {   // none twice
            const V h = (ls[i][0] + ls[i][1]) * 0.5;
            for (size_t j = 0; j < ls.size(); ++j) {
              CHECK(i == j || dist(ls[i][0], ls[i][1]) < 1e-3 ||
                  distSeg(h, ls[j][0], ls[j][1]) > tol,
                  " the chord around ", h.x, " ", h.y, " comes twice");
            }
          } });
    }
  }
  *tracks += by.size();
}
void tracks(Gen& g) {
  const In r = input(g, 3);
  f2c::sg::BruteForce gen;
  CHECK(!gen.getAllowOverlap(), " default overlap");
  if (g.chance(1, 4)) {
    gen.setAllowOverlap(true);
    CHECK(gen.getAllowOverlap());
    g.label("overlap allowed");
  }
  const gn::Snap before = gn::snapOf(r.c);
  const F2CSwathsByCells all = gen.generateSwaths(r.a, r.w, r.c);
  std::string why;
  CHECK(gn::same(before, gn::snapOf(r.c), 0, &why), " field changed: ", why);
  CHECK_EQ(all.size(), r.c.size(), "groups");
  size_t n = 0;
  bool several = false;
  for (size_t i = 0; i < r.m.size(); ++i) {
    const F2CCell c = r.c.getGeometry(i);
    checkCell(g, Multi{r.m[i]}, c, r.w, r.a, all[i], &n, &several);
    const F2CSwaths one = gen.generateSwaths(r.a, r.w, c);
    CHECK(gn::same(gn::snapOf(one), gn::snapOf(all[i]), 0, &why),
        " alone and as part of a field differ: ", why);
  }
  if (n >= 3 || several) { g.nontrivial(); }
  if (several) { g.label("track with several chords"); }
}
// The pattern moves with the field.
void moved(Gen& g) {
  In r = input(g, 1);
  discardIf(std::fabs(r.m[0].outer[0].x) > 1e4);
  const double t = g.angle(1);
  const V o(g.real(-500, 500), g.real(-500, 500));
  const Multi z = mapMulti(r.m, [&] (V p) { return rot(p, -r.a); });
  const Box b = box(z);
  for (size_t k = 0; (k + 0.5) * r.w < b.y1 - b.y0 + 1e-5; ++k) {
    discardIf(chords(z, b.y0 + (k + 0.5) * r.w).clear < 1e-4);
  }
  const F2CCells c2 = fx::cells(mapMulti(r.m, [&] (V p) {
    return rot(p, t) + o; }));
  f2c::sg::BruteForce gen;
  const F2CSwaths s1 = gen.generateSwaths(r.a, r.w, r.c.getGeometry(0));
  const F2CSwaths s2 = gen.generateSwaths(r.a + t, r.w, c2.getGeometry(0));
  g.note("turned ", t, " moved ", o.x, " ", o.y);
  CHECK_EQ(s1.size(), s2.size(), "swaths");
  auto key = [&] (const F2CSwaths& s, bool back) {
    std::vector<std::array<double, 4>> v;
    for (size_t i = 0; i < s.size(); ++i) {
      V p = fx::v(s[i].startPoint()), q = fx::v(s[i].endPoint());
      if (back) { p = rot(p - o, -t); q = rot(q - o, -t); }
      p = rot(p, -r.a);
      q = rot(q, -r.a);
      v.push_back({std::round((p.y - b.y0) / r.w - 0.5), p.x, q.x, p.y});
    }
    std::sort(v.begin(), v.end());
    return v;
  };
  const auto k1 = key(s1, false), k2 = key(s2, true);
  for (size_t i = 0; i < k1.size(); ++i) {
    for (int j = 0; j < 4; ++j) {
      CHECK_NEAR(k1[i][j], k2[i][j], 1e-4, "swath ", i);
    }
  }
  if (s1.size() > 2) { g.nontrivial(); }
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C13",
    "fields of one to three cells (concave, holes, projected coordinates), "
    "widths that divide the height or not, any angle or along sides; "
    "non-trivial: at least three tracks or a track with several chords",
    {{"tracks", 6000, 60000, tracks},
     {"moved", 3000, 30000, moved}}};
  return p;
}
