// C32: planned routes cover every swath once and stay on the network.
#include <algorithm>
#include <cmath>
#include <map>
#include <queue>
#include <vector>
#include "fields2cover/route_planning/route_planner_base.h"
#include "fields2cover/headland_generator/constant_headland.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "pbt.hpp"
#include "gens.hpp"

namespace {
using orc::V;
using orc::rot;
using orc::dist;
using pbt::Gen;
using pbt::Property;
typedef std::vector<V> Line;

struct Setup {
  F2CCells rings;
  F2CSwathsByCells sw;
  double tol = 1e-4;
  bool redirect = true;
  bool has_start = false;
  V start;
};
bool same7(const V& a, const V& b) {
  return std::fabs(a.x - b.x) < 1e-7 && std::fabs(a.y - b.y) < 1e-7;
}

// ------------------------------------------------------------- the real network
struct Net {
  Line nodes;
  std::vector<std::map<size_t, double>> adj;
  std::vector<std::pair<V, V>> sides;   // everything one may drive on
  bool clean = true;                    // no undecided coincidences
  size_t id(const V& p) {
    for (size_t i = 0; i < nodes.size(); ++i) {
      if (nodes[i].x == p.x && nodes[i].y == p.y) { return i; }
    }
    nodes.push_back(p);
    return nodes.size() - 1;
  }
  double off(const V& p) const {
    double d = INFINITY;
    for (auto&& s : sides) { d = std::min(d, orc::distSeg(p, s.first, s.second)); }
    return d;
  }
  std::vector<double> from(size_t a) const {
    std::vector<double> d(nodes.size(), INFINITY);
    std::priority_queue<std::pair<double, size_t>> q;
    d[a] = 0;
    q.push({0, a});
    while (!q.empty()) {
      const auto t = q.top();
      q.pop();
      if (-t.first > d[t.second]) { continue; }
      for (auto&& e : adj[t.second]) {
        const double v = e.second - t.first;
        if (v < d[e.first]) { d[e.first] = v; q.push({-v, e.first}); }
      }
    }
    return d;
  }
};

Line ends(const F2CSwath& s) { return {fx::v(s.startPoint()), fx::v(s.endPoint())}; }

Net network(const Setup& s) {
  Net n;
  Line dots;   // swath ends and the start
  for (auto&& g : s.sw) {
    for (auto&& w : g) { for (auto&& p : ends(w)) { dots.push_back(p); } }
  }
  if (s.has_start) { dots.push_back(s.start); }
  const orc::Multi m = fx::multi(s.rings);
  for (auto&& p : dots) {
    const V q = fx::v(s.rings.closestPointOnBorderTo(fx::pt(p)));
    CHECK(std::fabs(dist(p, q) - orc::distBorder(p, m)) < 1e-7 * (1 + dist(p, q)) + 1e-9,
        " closest point of the rings to (", p.x, ", ", p.y, ") is not (", q.x,
        ", ", q.y, ")");
    n.id(p);
    n.id(q);
    n.sides.emplace_back(p, q);
  }
  for (auto&& c : m) {
    auto add = [&](const orc::Ring& r) {
      for (size_t i = 0; i < r.size(); ++i) {
        n.id(r[i]);
        n.sides.emplace_back(r[i], r[(i + 1) % r.size()]);
      }
    };
    add(c.outer);
    for (auto&& h : c.holes) { add(h); }
  }
  n.adj.resize(n.nodes.size());
  for (size_t i = 0; i < n.nodes.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      if (dist(n.nodes[i], n.nodes[j]) < 20 * s.tol) { n.clean = false; }
    }
  }
  for (auto&& e : n.sides) {
    std::vector<std::pair<double, size_t>> on;
    const V u = e.second - e.first;
    const double L = orc::norm(u);
    for (size_t i = 0; i < n.nodes.size(); ++i) {
      const V& p = n.nodes[i];
      const double d = orc::distSeg(p, e.first, e.second);
      const bool tip = (p.x == e.first.x && p.y == e.first.y) ||
        (p.x == e.second.x && p.y == e.second.y);
      if (tip || d < s.tol) {
        on.push_back({L > 0 ? orc::dot(p - e.first, u) / L : 0, i});
      }
      if (!tip && d > 0.3 * s.tol && d < 3 * s.tol) { n.clean = false; }
    }
    std::sort(on.begin(), on.end());
    for (size_t i = 1; i < on.size(); ++i) {
      const size_t a = on[i - 1].second, b = on[i].second;
      const double d = dist(n.nodes[a], n.nodes[b]);
      n.adj[a][b] = d;
      n.adj[b][a] = d;
    }
  }
  return n;
}

// -------------------------------------------------------------------- generation
F2CSwath swath(const Line& l, double w, int id) {
  F2CLineString s;
  for (auto&& p : l) { s.addPoint(p.x, p.y); }
  return F2CSwath(s, w, id);
}
void pickStart(Gen& g, Setup* s) {
  s->has_start = g.boolean();
  if (!s->has_start) { return; }
  const orc::Multi m = fx::multi(s->rings);
  switch (g.below(4)) {
    case 0: s->start = orc::pointNear(g, m, 0.6); break;
    case 1: {   // on a ring
      const orc::Ring& r = m[g.below(m.size())].outer;
      const size_t i = g.below(r.size());
      s->start = g.boolean() ? r[i] : (r[i] + r[(i + 1) % r.size()]) * 0.5;
      break;
    }
    case 2: {   // at a swath
      const auto all = s->sw.flatten();
      s->start = ends(all.at(g.below(all.size())))[g.below(2)];
      break;
    }
    default: s->start = orc::pointNear(g, m, 3);
  }
}
// The nodes that stand for the middle of the swaths are told from the others.
void apart(const Setup& s) {
  Line mid, tips;
  for (auto&& g : s.sw) {
    for (auto&& w : g) {
      const Line e = ends(w);
      mid.push_back((e[0] + e[1]) * 0.5);
      tips.push_back(e[0]);
      tips.push_back(e[1]);
    }
  }
  if (s.has_start) { tips.push_back(s.start); }
  for (size_t i = 0; i < mid.size(); ++i) {
    for (size_t j = 0; j < i; ++j) { pbt::discardIf(dist(mid[i], mid[j]) < 1e-3); }
    for (auto&& t : tips) { pbt::discardIf(dist(mid[i], t) < 1e-3); }
  }
}
Setup loose(Gen& g, size_t lo, size_t hi, bool holes) {
  Setup s;
  orc::ShapeOpt o;
  o.allow_holes = holes;
  o.max_vertices = 8;
  const orc::Multi m = orc::genMulti(g, g.chance(1, 6) ? 2 : 1, o);
  s.rings = fx::cells(m);
  const size_t n = g.size(lo, hi);
  const double size = orc::diam(m);
  std::vector<Line> all;
  const double th = g.angle(1);
  const bool par = g.boolean();
  for (size_t i = 0; i < n; ++i) {
    Line l;
    V a = orc::pointNear(g, m, 0.05);
    if (!all.empty() && g.chance(1, 8)) {   // goes on where another one ends
      a = all[g.below(all.size())].back();
      for (auto&& k : all) { if (k[0].x == a.x && k[0].y == a.y) { a = a + V(0.7, 0.3); } }
    }
    const double h = par ? th + (g.boolean() ? M_PI : 0) : g.uniform(0, 6.28);
    l = {a, a + rot(V(g.real(0.05, 0.7) * size + 0.1, 0), h)};
    if (g.chance(1, 6)) { l.insert(l.begin() + 1, (l[0] + l[1]) * 0.5 + rot(V(0, 0.3), h)); }
    all.push_back(l);
  }
  size_t k = 0;
  int id = static_cast<int>(g.below(5));
  while (k < n) {
    F2CSwaths gr;
    for (size_t c = g.size(1, n - k); c-- > 0; ++k) {
      gr.push_back(swath(all[k], 1.5, id++));
    }
    s.sw.push_back(gr);
    if (g.chance(1, 8)) { s.sw.push_back(F2CSwaths()); }
  }
  // Ends and middles apart, except where they meet on purpose
  for (size_t i = 0; i < all.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      for (auto&& a : {all[i][0], all[i].back()}) {
        for (auto&& b : {all[j][0], all[j].back()}) {
          pbt::discardIf(dist(a, b) < 1e-2 && dist(a, b) > 0);
        }
      }
      // the same two ends
      auto eq = [](const V& a, const V& b) { return dist(a, b) == 0; };
      pbt::discardIf((eq(all[i][0], all[j][0]) && eq(all[i].back(), all[j].back())) ||
          (eq(all[i][0], all[j].back()) && eq(all[i].back(), all[j][0])));
    }
  }
  s.tol = g.pick(std::vector<double>{1e-4, 1e-4, 1e-3, 1e-6});
  s.redirect = g.chance(2, 3);
  pickStart(g, &s);
  apart(s);
  return s;
}
void noteSetup(Gen& g, const Setup& s) {
  g.note("rings ", orc::str(fx::multi(s.rings)));
  for (auto&& gr : s.sw) {
    g.note(" group of ", gr.size());
    for (auto&& w : gr) {
      std::ostringstream o;
      o.precision(17);
      for (auto&& p : fx::line(w.getPath())) { o << " (" << p.x << ", " << p.y << ")"; }
      g.note("  swath ", w.getId(), ":", o.str());
    }
  }
  g.note("tolerance ", s.tol, " redirect ", s.redirect);
  if (s.has_start) { g.note("start (", s.start.x, ", ", s.start.y, ")"); }
}

// ---------------------------------------------------------------------- checking
struct Want { Line l; int id; double w; };

// Whether some order of the swaths can be driven, and the shortest one.
double bestTour(const std::vector<Want>& w, const std::vector<std::vector<double>>& d,
    const std::vector<std::pair<size_t, size_t>>& e, bool redirect, bool has_start,
    size_t start) {
  std::vector<size_t> ord(w.size());
  for (size_t i = 0; i < w.size(); ++i) { ord[i] = i; }
  double best = INFINITY;
  do {
    for (size_t mask = 0; mask < (redirect ? (1ULL << w.size()) : 1); ++mask) {
      double c = 0;
      size_t at = start;
      std::vector<size_t> way;   // a point where two swaths end is passed once
      auto pass = [&](size_t x) { if (way.empty() || way.back() != x) { way.push_back(x); } };
      if (has_start) { pass(start); }
      for (size_t i = 0; i < ord.size(); ++i) {
        auto q = e[ord[i]];
        if (mask >> i & 1) { std::swap(q.first, q.second); }
        pass(q.first);
        pass(q.second);
        if (i > 0 || has_start) { c += d[at][q.first]; }
        at = q.second;
      }
      if (has_start) { c += d[at][start]; }
      if (has_start && way.size() > 1 && way.back() == start) { way.pop_back(); }
      std::sort(way.begin(), way.end());
      if (std::adjacent_find(way.begin(), way.end()) != way.end()) { continue; }
      best = std::min(best, c);
    }
  } while (std::next_permutation(ord.begin(), ord.end()));
  return best;
}

void check(Gen& g, const Setup& s, bool exact) {
  gn::Snap b1, b2, a1, a2;
  gn::snap(&b1, s.rings);
  gn::snap(&b2, s.sw);
  f2c::rp::RoutePlannerBase rp;
  if (s.has_start) { rp.setStartAndEndPoint(fx::pt(s.start)); }
  const F2CRoute r = rp.genRoute(s.rings, s.sw, false, s.tol, s.redirect, 1,
      g.boolean());
  gn::snap(&a1, s.rings);
  gn::snap(&a2, s.sw);
  std::string why;
  CHECK(gn::same(b1, a1, 0, &why), " planning changed the rings: ", why);
  CHECK(gn::same(b2, a2, 0, &why), " planning changed the swaths: ", why);

  std::vector<Want> want;
  for (auto&& gr : s.sw) {
    for (auto&& w : gr) { want.push_back({fx::line(w.getPath()), w.getId(), w.getWidth()}); }
  }
  Net net = network(s);
  std::vector<std::pair<size_t, size_t>> e;
  for (auto&& w : want) { e.emplace_back(net.id(w.l[0]), net.id(w.l.back())); }
  std::vector<std::vector<double>> d(net.nodes.size());
  auto need = [&](size_t i) { if (d[i].empty()) { d[i] = net.from(i); } };
  for (auto&& x : e) { need(x.first); need(x.second); }
  const size_t st = s.has_start ? net.id(s.start) : 0;
  if (s.has_start) { need(st); }
  bool whole = true;
  for (auto&& x : e) {
    whole = whole && std::isfinite(d[e[0].first][x.first]) &&
      std::isfinite(d[e[0].first][x.second]);
    if (s.has_start) { whole = whole && std::isfinite(d[st][x.first]); }
  }
  // A point where three swaths end cannot be passed twice.
  const bool small = want.size() <= 4;
  double best = NAN;
  if (exact && small) {
    best = bestTour(want, d, e, s.redirect, s.has_start, st);
    if (!std::isfinite(best)) { g.label("no-tour"); return; }
  } else if (!whole) {
    g.label("islands");
    return;
  }
  bool shared = false;
  for (size_t i = 0; i < e.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      for (size_t a : {e[i].first, e[i].second}) {
        for (size_t b : {e[j].first, e[j].second}) { shared = shared || a == b; }
      }
    }
  }
  if (shared) { g.label("shared-end"); }

  // -- every swath once
  std::vector<int> seen(want.size(), 0);
  V at = s.start;
  bool has = s.has_start;
  double total = 0;
  size_t hops = 0, ways = 0;
  const double scale = orc::diam(fx::multi(s.rings)) + 1;
  auto drive = [&](const F2CMultiPoint& c, const V& a, const V& b, size_t i) {
    const Line l = [&] { Line o; for (auto&& p : c) { o.push_back(fx::v(p)); } return o; }();
    if (l.empty()) {
      CHECK(same7(a, b) || !std::isfinite(d[net.id(a)][net.id(b)]),
          " no connection ", i, " from (", a.x, ", ", a.y, ") to (", b.x, ", ",
          b.y, ")");
      if (!same7(a, b)) { g.label("gap"); }
      return;
    }
    CHECK(same7(l[0], a), " connection ", i, " starts at (", l[0].x, ", ",
        l[0].y, ") and not at (", a.x, ", ", a.y, ")");
    CHECK(same7(l.back(), b), " connection ", i, " ends at (", l.back().x, ", ",
        l.back().y, ") and not at (", b.x, ", ", b.y, ")");
    double len = 0;
    for (size_t k = 1; k < l.size(); ++k) {
      for (double t : {0.0, 0.13, 0.5, 0.78, 1.0}) {
        const V p = l[k - 1] + (l[k] - l[k - 1]) * t;
        const double o = net.off(p);
        CHECK(o <= 2 * s.tol + 1e-9 * scale, " connection ", i, " leaves the network by ",
            o, " at (", p.x, ", ", p.y, ")");
      }
      len += dist(l[k], l[k - 1]);
    }
    if (net.clean) {
      const double sh = d[net.id(a)][net.id(b)];
      CHECK(len <= sh + 1.1e-3 * net.nodes.size() + 4 * s.tol * l.size(),
          " connection ", i, " is ", len, " long, not ", sh);
      CHECK(len >= sh - 4 * s.tol * l.size() - 1e-6, " connection ", i, " is ", len,
          " long, less than ", sh);
    }
    total += len;
    hops += l.size();
    if (l.size() > 3) { ++ways; }
  };
  CHECK(r.sizeConnections() == r.sizeVectorSwaths() ||
      r.sizeConnections() == r.sizeVectorSwaths() + 1, " ", r.sizeConnections(),
      " connections of ", r.sizeVectorSwaths(), " groups");
  CHECK_EQ(r.sizeConnections() > r.sizeVectorSwaths(), s.has_start,
      "a way back to the start");
  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
    const F2CSwaths& gr = r.getSwaths(i);
    CHECK(gr.size() > 0, " group ", i, " without swaths");
    for (size_t k = 0; k < gr.size(); ++k) {
      const Line l = fx::line(gr[k].getPath());
      bool hit = false;
      for (size_t q = 0; q < want.size() && !hit; ++q) {
        if (seen[q] || want[q].id != gr[k].getId() || want[q].l.size() != l.size()) { continue; }
        Line rev(want[q].l.rbegin(), want[q].l.rend());
        auto eq = [&](const Line& x) {
          for (size_t z = 0; z < l.size(); ++z) { if (dist(x[z], l[z]) > 1e-9 * (1 + std::fabs(l[z].x) + std::fabs(l[z].y))) { return false; } }
          return true;
        };
        const bool fwd = eq(want[q].l), bwd = eq(rev);
        if (!fwd && !bwd) { continue; }
        CHECK(fwd || s.redirect, " swath ", want[q].id, " is driven backwards");
        CHECK_NEAR(gr[k].getWidth(), want[q].w, 1e-12, "width of swath ", want[q].id);
        seen[q] = 1;
        hit = true;
      }
      CHECK(hit, " swath ", gr[k].getId(), " of group ", i,
          " is none of the swaths that are left");
      if (k > 0) {
        CHECK(same7(at, l[0]), " swath ", k, " of group ", i, " starts elsewhere");
      } else if (has) {
        // the ends of a copied swath are rounded to 15 digits
        auto snapTo = [&](const V& p) {
          V b = p;
          for (auto&& q : net.nodes) { if (dist(q, p) < dist(b, p) || (&q == &net.nodes[0])) { b = q; } }
          return b;
        };
        drive(r.getConnection(i), snapTo(at), snapTo(l[0]), i);
      } else {
        CHECK_EQ(r.getConnection(i).size(), 0u, "a way to the first swath");
      }
      at = l.back();
      has = true;
    }
  }
  for (size_t q = 0; q < want.size(); ++q) {
    CHECK(seen[q], " swath ", want[q].id, " is not in the route");
  }
  if (s.has_start) {
    V b = at;
    double bd = INFINITY;
    for (auto&& q : net.nodes) { if (dist(q, at) < bd) { bd = dist(q, at); b = q; } }
    drive(r.getLastConnection(), b, s.start, r.sizeConnections() - 1);
    CHECK(dist(fx::v(r.startPoint()), s.start) < 1e-6, " the route starts at ",
        r.startPoint().exportToWkt());
  }
  if (std::isfinite(best) && net.clean && !shared) {
    CHECK(total <= best + (2.2e-3 * net.nodes.size() + 8 * s.tol) * (want.size() + 1),
        " the ways take ", total, ", they could take ", best);
    g.label("optimal");
  }
  if (ways > 0) { g.nontrivial(); }
}

void few(Gen& g) {
  const Setup s = loose(g, 1, 4, true);
  noteSetup(g, s);
  check(g, s, true);
}
void many(Gen& g) {
  const Setup s = loose(g, 3, 12, false);
  // ends that are shared need the best order
  Line t;
  for (auto&& gr : s.sw) { for (auto&& w : gr) { for (auto&& p : ends(w)) { for (auto&& q : t) { pbt::discardIf(dist(p, q) == 0); } t.push_back(p); } } }
  noteSetup(g, s);
  check(g, s, false);
}
// As it is used: headlands, cells, swaths, route.
void fieldRoute(Gen& g) {
  orc::ShapeOpt o;
  o.scale_lo = 40;
  o.max_vertices = 7;
  const orc::Multi m = orc::genMulti(g, 1, o);
  const double w = orc::diam(m) / g.uniform(10, 25);
  const F2CCells field = fx::cells(m);
  f2c::hg::ConstHL hl;
  const int n = static_cast<int>(g.integer(1, 2));
  Setup s;
  F2CCells main = hl.generateHeadlandArea(field, w, n);
  const auto hs = hl.generateHeadlandSwaths(field, w, n, g.boolean());
  CHECK_EQ(hs.size(), static_cast<size_t>(n), "headland rings");
  s.rings = hs[g.below(hs.size())];
  if (g.chance(1, 3)) {
    f2c::decomp::BoustrophedonDecomp dec;
    dec.setSplitAngle(g.angle(1));
    main = dec.decompose(main);
  }
  f2c::sg::BruteForce bf;
  s.sw = bf.generateSwaths(g.angle(1), w * g.uniform(1, 2), main);
  pbt::discardIf(s.sw.sizeTotal() == 0 || s.sw.sizeTotal() > 14 || s.rings.size() == 0);
  s.redirect = g.chance(3, 4);
  pickStart(g, &s);
  apart(s);
  for (auto&& gr : s.sw) { for (auto&& x : gr) { pbt::discardIf(x.length() < 0.05); } }
  noteSetup(g, s);
  g.label("swaths-" + std::to_string(s.sw.sizeTotal() / 4 * 4));
  check(g, s, true);
}
// The costs of the network and of the order of the swaths
void graphs(Gen& g) {
  const Setup s = loose(g, 1, 5, true);
  noteSetup(g, s);
  f2c::rp::RoutePlannerBase rp;
  if (s.has_start) { rp.setStartAndEndPoint(fx::pt(s.start)); }
  F2CGraph2D sg = rp.createShortestGraph(s.rings, s.sw, s.tol);
  F2CGraph2D cg = rp.createCoverageGraph(s.rings, s.sw, sg, s.tol, s.redirect);
  Net net = network(s);
  Line t;
  for (auto&& gr : s.sw) { for (auto&& w : gr) { for (auto&& p : ends(w)) { t.push_back(p); } } }
  const double eps = 1.1e-3 * net.nodes.size() + 4 * s.tol * net.nodes.size();
  for (size_t i = 0; i < t.size(); ++i) {
    const auto d = net.from(net.id(t[i]));
    for (size_t k = 0; k < t.size(); ++k) {
      const double sh = d[net.id(t[k])];
      const int64_t c = sg.shortestPathCost(fx::pt(t[i]), fx::pt(t[k]));
      if (net.clean) {
        if (std::isfinite(sh)) {
          CHECK_NEAR(c / 1000.0, sh, eps, "cost between swath ends ", i, " and ", k);
        } else {
          CHECK(c >= (1LL << 30), " cost ", c, " between islands");
        }
      }
      // Between different swaths, as the order is planned
      if (i / 2 == k / 2) { continue; }
      const int64_t cc = cg.getCostFromEdge(cg.nodeToIndex(fx::pt(t[i])),
          cg.nodeToIndex(fx::pt(t[k])));
      bool meet = s.has_start && (dist(s.start, t[i]) == 0 || dist(s.start, t[k]) == 0);
      for (size_t a = 0; a < t.size(); ++a) {
        if (a != i && dist(t[a], t[i]) == 0) { meet = true; }
        if (a != k && dist(t[a], t[k]) == 0) { meet = true; }
      }
      if (meet) { continue; }
      if (s.redirect || (i % 2 == 1 && k % 2 == 0)) {
        CHECK_EQ(cc, c, "cost of going from swath end ", i, " to ", k);
      } else {
        CHECK(cc >= (1LL << 30), " going from swath end ", i, " to ", k,
            " costs ", cc);
      }
    }
    // Its own swath
    const V mid = (t[i / 2 * 2] + t[i / 2 * 2 + 1]) * 0.5;
    const size_t a = cg.nodeToIndex(fx::pt(t[i])), b = cg.nodeToIndex(
        (fx::pt(t[i / 2 * 2]) + fx::pt(t[i / 2 * 2 + 1])) * 0.5);
    (void)mid;
    const bool in = s.redirect || i % 2 == 0, out = s.redirect || i % 2 == 1;
    CHECK_EQ(cg.getCostFromEdge(a, b) == 0, in, "into swath ", i / 2);
    CHECK_EQ(cg.getCostFromEdge(b, a) == 0, out, "out of swath ", i / 2);
  }
  if (t.size() > 2 && net.clean) { g.nontrivial(); }
}
// Two fields a small gap apart are joined exactly when the gap is within the
// tolerance asked for.
void gaps(Gen& g) {
  const double tol = g.pick(std::vector<double>{1e-4, 1e-3, 0.05, 0.5});
  const bool joined = g.boolean();
  const double gap = tol * (joined ? g.uniform(0.1, 0.9) : g.uniform(1.1, 8));
  const double w = g.real(20, 60), h = g.real(30, 60), low = g.uniform(0.1, 0.4) * h,
    high = g.uniform(0.6, 0.9) * h, th = g.integer(0, 3) * M_PI / 2 + (g.boolean() ? 0 : g.angle(1));
  const bool flip = g.boolean();
  auto at = [&](double x, double y) { return rot(flip ? V(-x, y) : V(x, y), th); };
  auto box = [&](double x0, double y0, double x1, double y1) {
    return orc::Poly{{at(x0, y0), at(x1, y0), at(x1, y1), at(x0, y1)}, {}};
  };
  orc::Multi m{box(0, 0, w, h), box(w + gap, low, 2 * w, high)};
  if (g.boolean()) { std::swap(m[0], m[1]); }
  Setup s;
  s.rings = fx::cells(m);
  s.tol = tol;
  auto line = [&](double x, double y0, double y1) { return Line{at(x, y0), at(x, y1)}; };
  const Line a = line(w * 0.4, h * 0.1, h * 0.8);
  const Line b = line(w * 1.6, low + (high - low) * 0.2, low + (high - low) * 0.7);
  F2CSwaths s1, s2;
  s1.push_back(swath(a, 1, 0));
  s2.push_back(swath(b, 1, 1));
  s.sw.push_back(s1);
  s.sw.push_back(s2);
  noteSetup(g, s);
  g.note("gap ", gap);
  const f2c::rp::RoutePlannerBase rp;
  F2CGraph2D sg = rp.createShortestGraph(s.rings, s.sw, tol);
  for (auto&& p : a) {
    for (auto&& q : b) {
      const int64_t c = sg.shortestPathCost(fx::pt(p), fx::pt(q));
      if (joined) {
        CHECK(c >= 1000 * dist(p, q) - 20 && c < 1000 * (6 * (w + h)), " a way over a gap of ", gap, " costs ", c);
      } else {
        CHECK(c >= (1LL << 30), " a way over a gap of ", gap, " costs ", c);
      }
    }
  }
  g.nontrivial();
}
}  // namespace

Property& pbt::theProperty() {
  static Property p{"C32",
    "one or two cells with holes, up to twelve straight or bent swaths anywhere, "
    "some that meet, start points near, on a ring, at a swath or far away, with "
    "and without redirecting; fields run through headlands, cells and swaths; "
    "non-trivial: a connection of more than three points, or clean graphs",
    {{"few", 1500, 30000, few}, {"many", 600, 10000, many},
     {"field", 600, 10000, fieldRoute}, {"graphs", 1000, 15000, graphs},
     {"gaps", 500, 5000, gaps}}};
  return p;
}
